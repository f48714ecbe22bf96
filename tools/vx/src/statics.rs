//! The macro `static_buffer!` as a function: its statics become values of the interface in contracts/02_static.rs.
use proc_macro2::{TokenStream, TokenTree};
use syn::visit_mut::VisitMut;
use syn::{parse_quote, Expr, Item, Stmt};

/// The item for a macro with one rule `($N:...) => {...}` whose body has statics.
pub fn function(name: &syn::Ident, def: &TokenStream, subst: fn(TokenStream, &str, &TokenStream) -> TokenStream) -> Option<Result<syn::ItemFn, String>> {
	let tts: Vec<TokenTree> = def.clone().into_iter().collect();
	let TokenTree::Group(matcher) = tts.first()? else { return None };
	let TokenTree::Group(body) = tts.get(3)? else { return None };
	let m: Vec<TokenTree> = matcher.stream().into_iter().collect();
	if !body.to_string().contains("static ") || name != "static_buffer" {
		return None;
	}
	if tts.len() > 5 {
		return Some(Err("more than one rule".into()));
	}
	let Some(TokenTree::Ident(var)) = m.get(1) else { return Some(Err("no parameter".into())) };
	let n: TokenStream = quote::quote!(N);
	let ts = subst(body.stream(), &var.to_string(), &n);
	let k: TokenStream = quote::quote!(crate);
	let ts = subst(ts, "crate", &k);
	let expr: Expr = match syn::parse2(ts) {
		Ok(x) => x,
		Err(e) => return Some(Err(e.to_string())),
	};
	let mut f: syn::ItemFn = parse_quote!(pub fn #name<const N: usize>() -> &'static mut [u8] { #expr });
	let mut v = Statics { flag: vec![], memory: vec![], bad: vec![] };
	v.visit_item_fn_mut(&mut f);
	if v.flag.len() != 1 || v.memory.len() != 1 {
		v.bad.push(format!("{} flags and {} buffers", v.flag.len(), v.memory.len()));
	}
	if !v.bad.is_empty() {
		return Some(Err(v.bad.join("; ")));
	}
	Uses { flag: v.flag[0].clone(), memory: v.memory[0].clone() }.visit_item_fn_mut(&mut f);
	let first: Stmt = parse_quote!(let mut vx_held = crate::vxst::nothing(););
	f.block.stmts.insert(0, first);
	Some(Ok(f))
}

struct Statics {
	flag: Vec<syn::Ident>,
	memory: Vec<syn::Ident>,
	bad: Vec<String>,
}

impl VisitMut for Statics {
	fn visit_stmt_mut(&mut self, s: &mut Stmt) {
		if let Stmt::Item(Item::Static(st)) = s {
			let (id, e) = (&st.ident, &st.expr);
			match (&st.mutability, &*st.ty) {
				(syn::StaticMutability::None, syn::Type::Path(p)) if p.path.segments.last().is_some_and(|x| x.ident == "AtomicBool") => {
					self.flag.push(id.clone());
					*s = parse_quote!(let #id = crate::vxst::flag(#e););
				},
				(syn::StaticMutability::Mut(_), syn::Type::Array(a)) => {
					let len = &a.len;
					self.memory.push(id.clone());
					*s = parse_quote!(let #id = crate::vxst::memory::<{ #len }>(#e););
				},
				_ => self.bad.push(format!("static {id}")),
			}
			return;
		}
		if let Stmt::Item(i) = s {
			if !matches!(i, Item::Use(_)) {
				self.bad.push("an item in the macro".into());
			}
		}
		if matches!(s, Stmt::Macro(m) if m.mac.path.segments.last().unwrap().ident == "thread_local") {
			self.bad.push("thread_local".into());
		}
		syn::visit_mut::visit_stmt_mut(self, s);
	}
}

struct Uses {
	flag: syn::Ident,
	memory: syn::Ident,
}

impl Uses {
	fn is(&self, e: &Expr, id: &syn::Ident) -> bool {
		match e {
			Expr::Path(p) => p.path.is_ident(id),
			Expr::Paren(p) => self.is(&p.expr, id),
			_ => false,
		}
	}
}

impl VisitMut for Uses {
	fn visit_expr_mut(&mut self, e: &mut Expr) {
		let memory = self.memory.clone();
		match e {
			// A pointer to the memory.
			Expr::RawAddr(r) if self.is(&r.expr, &memory) => {
				*e = parse_quote!(#memory.raw());
				return;
			},
			Expr::Macro(m) if m.mac.path.segments.last().unwrap().ident == "addr_of_mut" && m.mac.tokens.to_string() == memory.to_string() => {
				*e = parse_quote!(#memory.raw());
				return;
			},
			// A reference made from a pointer.
			Expr::Reference(r) if r.mutability.is_some() => {
				if let Expr::Unary(u) = &*r.expr {
					if matches!(u.op, syn::UnOp::Deref(_)) {
						let mut p = (*u.expr).clone();
						self.visit_expr_mut(&mut p);
						*e = parse_quote!((#p).vx_reborrow(&mut vx_held));
						return;
					}
				}
				if self.is(&r.expr, &memory) {
					*e = parse_quote!(#memory.raw().vx_reborrow(&mut vx_held));
					return;
				}
			},
			Expr::Cast(c) => {
				if let syn::Type::Ptr(t) = &*c.ty {
					let t = &t.elem;
					if quote::quote!(#t).to_string() == "u8" {
						let mut p = (*c.expr).clone();
						self.visit_expr_mut(&mut p);
						*e = parse_quote!((#p).cast::<u8>());
						return;
					}
				}
			},
			Expr::Call(c) => {
				if let Expr::Path(p) = &*c.func {
					if p.path.segments.last().unwrap().ident == "from_raw_parts_mut" && c.args.len() == 2 {
						let (mut a, mut n) = (c.args[0].clone(), c.args[1].clone());
						self.visit_expr_mut(&mut a);
						self.visit_expr_mut(&mut n);
						*e = parse_quote!((#a).vx_slice(#n, &mut vx_held));
						return;
					}
				}
			},
			Expr::MethodCall(m) => {
				if self.is(&m.receiver, &self.flag) {
					for a in m.args.iter_mut() {
						self.visit_expr_mut(a);
					}
					m.args.push(parse_quote!(&mut vx_held));
					return;
				}
				if self.is(&m.receiver, &memory) && m.method != "raw" {
					*m.receiver = parse_quote!(#memory.raw().vx_reborrow(&mut vx_held));
					for a in m.args.iter_mut() {
						self.visit_expr_mut(a);
					}
					return;
				}
			},
			_ => {},
		}
		syn::visit_mut::visit_expr_mut(self, e);
	}

	fn visit_macro_mut(&mut self, m: &mut syn::Macro) {
		if let Ok(mut args) = m.parse_body_with(syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated) {
			for a in args.iter_mut() {
				self.visit_expr_mut(a);
			}
			m.tokens = quote::quote!(#args);
		}
	}

	fn visit_path_mut(&mut self, p: &mut syn::Path) {
		syn::visit_mut::visit_path_mut(self, p);
		if let Some(i) = p.segments.iter().position(|s| s.ident == "AtomicBool" || s.ident == "Ordering") {
			let rest: Vec<_> = p.segments.iter().skip(i).cloned().collect();
			*p = parse_quote!(crate::vxst::#(#rest)::*);
		}
	}
}
