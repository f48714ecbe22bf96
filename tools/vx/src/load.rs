//! Load the module tree of the crate, with the features the checks use (std, alloc and serial2, no log),
//! and expand the crate's own simple item macros.
use proc_macro2::{Delimiter, Group, TokenStream, TokenTree};
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use syn::{Item, Meta};

pub struct Report {
	pub dropped: Vec<String>,
	pub errors: Vec<String>,
	pub trusted: Vec<String>,
}

fn feature_on(name: &str) -> bool {
	matches!(name, "std" | "alloc" | "serial2")
}

fn eval_meta(meta: &Meta) -> Option<bool> {
	match meta {
		Meta::Path(p) if p.is_ident("test") => Some(false),
		Meta::Path(p) if p.is_ident("debug_assertions") => Some(true),
		Meta::NameValue(nv) if nv.path.is_ident("feature") => match &nv.value {
			syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. }) => Some(feature_on(&s.value())),
			_ => None,
		},
		Meta::List(l) => {
			let nested = l
				.parse_args_with(syn::punctuated::Punctuated::<Meta, syn::Token![,]>::parse_terminated)
				.ok()?;
			let vals: Option<Vec<bool>> = nested.iter().map(eval_meta).collect();
			let vals = vals?;
			if l.path.is_ident("not") {
				Some(!vals[0])
			} else if l.path.is_ident("any") {
				Some(vals.iter().any(|x| *x))
			} else if l.path.is_ident("all") {
				Some(vals.iter().all(|x| *x))
			} else {
				None
			}
		},
		// Other cfg options (targets, custom flags) are off.
		_ => Some(false),
	}
}

pub fn cfg_on(attrs: &[syn::Attribute]) -> bool {
	attrs.iter().all(|a| {
		if !a.path().is_ident("cfg") {
			return true;
		}
		match a.parse_args::<Meta>() {
			Ok(m) => eval_meta(&m).unwrap_or(false),
			Err(_) => false,
		}
	})
}

pub fn item_attrs(item: &Item) -> &[syn::Attribute] {
	match item {
		Item::Const(x) => &x.attrs,
		Item::Enum(x) => &x.attrs,
		Item::ExternCrate(x) => &x.attrs,
		Item::Fn(x) => &x.attrs,
		Item::Impl(x) => &x.attrs,
		Item::Macro(x) => &x.attrs,
		Item::Mod(x) => &x.attrs,
		Item::Static(x) => &x.attrs,
		Item::Struct(x) => &x.attrs,
		Item::Trait(x) => &x.attrs,
		Item::Type(x) => &x.attrs,
		Item::Union(x) => &x.attrs,
		Item::Use(x) => &x.attrs,
		_ => &[],
	}
}

pub struct Module {
	pub path: Vec<String>,
	pub file: PathBuf,
	pub items: Vec<Item>,
	pub children: Vec<Module>,
}

/// Load a file whose modules lie beside it.
pub fn load_root(file: &Path, path: Vec<String>, rep: &mut Report) -> Option<Module> {
	load_as(file, path, rep, true)
}

pub fn load(file: &Path, path: Vec<String>, rep: &mut Report) -> Option<Module> {
	load_as(file, path, rep, false)
}

fn load_as(file: &Path, path: Vec<String>, rep: &mut Report, root: bool) -> Option<Module> {
	let text = match std::fs::read_to_string(file) {
		Ok(x) => x,
		Err(e) => {
			rep.errors.push(format!("can not read {}: {e}", file.display()));
			return None;
		},
	};
	let ast = match syn::parse_file(&text) {
		Ok(x) => x,
		Err(e) => {
			rep.errors.push(format!("can not parse {}: {e}", file.display()));
			return None;
		},
	};
	let mut m = Module { path, file: file.to_path_buf(), items: vec![], children: vec![] };
	let is_root = root || file.file_name().map(|x| x == "lib.rs" || x == "mod.rs").unwrap_or(false);
	let dir = if is_root {
		file.parent().unwrap().to_path_buf()
	} else {
		file.with_extension("")
	};
	fill(&mut m, ast.items, &dir, rep);
	Some(m)
}

fn fill(m: &mut Module, items: Vec<Item>, dir: &Path, rep: &mut Report) {
	let mut macros: BTreeMap<String, TokenStream> = BTreeMap::new();
	for item in items {
		if !cfg_on(item_attrs(&item)) {
			rep.dropped.push(format!("{}: {} (cfg off)", m.path.join("::"), describe(&item)));
			continue;
		}
		add_item(m, item, dir, rep, &mut macros);
	}
}

fn add_item(m: &mut Module, item: Item, dir: &Path, rep: &mut Report, macros: &mut BTreeMap<String, TokenStream>) {
	match item {
		Item::Mod(module) => {
			let mut path = m.path.clone();
			path.push(module.ident.to_string());
			if module.ident == "logging" && m.path == ["cli"] {
				rep.dropped.push("logging of the command line tool".into());
				return;
			}
			if module.ident == "log" && m.path.is_empty() {
				rep.dropped.push("log (macros: arguments are kept, formatting is dropped)".into());
				return;
			}
			if let Some((_, items)) = module.content {
				let mut child = Module { path, file: m.file.clone(), items: vec![], children: vec![] };
				fill(&mut child, items, &dir.join(module.ident.to_string()), rep);
				m.children.push(child);
			} else {
				let a = dir.join(format!("{}.rs", module.ident));
				let b = dir.join(module.ident.to_string()).join("mod.rs");
				let f = if a.exists() { a } else { b };
				if let Some(c) = load(&f, path, rep) {
					m.children.push(c);
				}
			}
		},
		Item::Macro(mac) => {
			if let Some(name) = &mac.ident {
				match crate::statics::function(name, &mac.mac.tokens, subst) {
					Some(Ok(f)) => m.items.push(Item::Fn(f)),
					Some(Err(e)) => rep.dropped.push(format!("macro {name}: {e}")),
					None => {},
				}
				macros.insert(name.to_string(), mac.mac.tokens.clone());
				return;
			}
			let name = mac.mac.path.segments.last().unwrap().ident.to_string();
			let Some(def) = macros.get(&name) else {
				rep.errors.push(format!("{}: item macro {name} is not defined in this module", m.path.join("::")));
				return;
			};
			match expand(def.clone(), mac.mac.tokens.clone()) {
				Some(ts) => match syn::parse2::<syn::File>(ts) {
					Ok(f) => {
						for i in f.items {
							add_item(m, i, dir, rep, macros);
						}
					},
					Err(e) => rep.errors.push(format!("{}: expansion of {name}: {e}", m.path.join("::"))),
				},
				None => rep.errors.push(format!("{}: can not expand {name}", m.path.join("::"))),
			}
		},
		other => m.items.push(other),
	}
}

pub fn describe(item: &Item) -> String {
	match item {
		Item::Mod(x) => format!("mod {}", x.ident),
		Item::Fn(x) => format!("fn {}", x.sig.ident),
		Item::Struct(x) => format!("struct {}", x.ident),
		Item::Macro(x) => format!("macro {}", x.ident.as_ref().map(|x| x.to_string()).unwrap_or_default()),
		Item::Impl(x) => {
			let t = &x.self_ty;
			let s = quote::quote!(#t).to_string().replace(' ', "");
			match &x.trait_ {
				Some((_, p, _)) => format!("impl {} for {s}", quote::quote!(#p).to_string().replace(' ', "")),
				None => format!("impl {s}"),
			}
		},
		Item::Type(x) => format!("type {}", x.ident),
		Item::Use(x) => format!("use {}", {
			let t = &x.tree;
			quote::quote!(#t).to_string().replace(' ', "")
		}),
		_ => "item".into(),
	}
}

/// Expand macros of the forms the crate uses: one rule, with matcher `$($X:frag)?` or `$x:frag`.
fn expand(def: TokenStream, args: TokenStream) -> Option<TokenStream> {
	let tts: Vec<TokenTree> = def.into_iter().collect();
	let TokenTree::Group(matcher) = tts.first()? else { return None };
	let TokenTree::Group(body) = tts.get(3)? else { return None };
	// More than one rule.
	if tts.len() > 5 {
		return None;
	}
	let m: Vec<TokenTree> = matcher.stream().into_iter().collect();
	let args_v: Vec<TokenTree> = args.clone().into_iter().collect();
	match (m.first(), m.get(1)) {
		(None, _) if args_v.is_empty() => Some(body.stream()),
		(Some(TokenTree::Punct(p)), Some(TokenTree::Group(_))) if p.as_char() == '$' && args_v.is_empty() => {
			Some(drop_optional(body.stream()))
		},
		(Some(TokenTree::Punct(p)), Some(TokenTree::Group(g))) if p.as_char() == '$' => {
			let inner: Vec<TokenTree> = g.stream().into_iter().collect();
			let TokenTree::Ident(name) = inner.get(1)? else { return None };
			Some(subst(keep_optional(body.stream()), &name.to_string(), &args))
		},
		(Some(TokenTree::Punct(p)), Some(TokenTree::Ident(name))) if p.as_char() == '$' && m.len() == 4 => {
			Some(subst(body.stream(), &name.to_string(), &args))
		},
		_ => None,
	}
}

fn drop_optional(ts: TokenStream) -> TokenStream {
	optional(ts, false)
}

fn keep_optional(ts: TokenStream) -> TokenStream {
	optional(ts, true)
}

/// Remove the groups `$(...)?`, or replace them by their contents.
fn optional(ts: TokenStream, keep: bool) -> TokenStream {
	let v: Vec<TokenTree> = ts.into_iter().collect();
	let mut out = TokenStream::new();
	let mut i = 0;
	while i < v.len() {
		if let TokenTree::Punct(p) = &v[i] {
			if p.as_char() == '$' {
				if let Some(TokenTree::Group(g)) = v.get(i + 1) {
					if g.delimiter() == Delimiter::Parenthesis {
						if keep {
							out.extend(g.stream());
						}
						i += 3; // `$`, group, `?`
						continue;
					}
				}
			}
		}
		match &v[i] {
			TokenTree::Group(g) => {
				let mut n = Group::new(g.delimiter(), optional(g.stream(), keep));
				n.set_span(g.span());
				out.extend([TokenTree::Group(n)]);
			},
			t => out.extend([t.clone()]),
		}
		i += 1;
	}
	out
}

fn subst(ts: TokenStream, name: &str, args: &TokenStream) -> TokenStream {
	let v: Vec<TokenTree> = ts.into_iter().collect();
	let mut out = TokenStream::new();
	let mut i = 0;
	while i < v.len() {
		if let (TokenTree::Punct(p), Some(TokenTree::Ident(id))) = (&v[i], v.get(i + 1)) {
			if p.as_char() == '$' && id == name {
				out.extend(args.clone());
				i += 2;
				continue;
			}
		}
		match &v[i] {
			TokenTree::Group(g) => {
				let mut n = Group::new(g.delimiter(), subst(g.stream(), name, args));
				n.set_span(g.span());
				out.extend([TokenTree::Group(n)]);
			},
			t => out.extend([t.clone()]),
		}
		i += 1;
	}
	out
}
