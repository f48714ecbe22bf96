//! vx: mechanical extraction of the crate's source into one Verus file, with contracts placed from overlays.
//!
//! vx SRC_DIR CONTRACT_DIR OUT.rs MAP.json [--write-baseline FILE] [--baseline FILE]
mod load;
mod overlay;
mod print;
mod statics;
mod xform;

use load::{Module, Report};
use overlay::FnSpec;
use print::{Printer, Slot};
use proc_macro2::Literal;
use quote::{quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;
use std::path::Path;
use syn::visit_mut::VisitMut;
use syn::{parse_quote, ImplItem, Item, TraitItem};
use xform::{Ctx, Shape, Types};

struct FnInfo {
	path: String,
	file: String,
	src_line: usize,
	out_start: usize,
	out_end: usize,
	contracted: bool,
	trusted: bool,
	props: Vec<String>,
	shape: Shape,
	notes: Vec<String>,
	lost: Vec<String>,
	renamed: usize,
}

/// A piece of output.
enum Piece {
	Raw(String),
	Tokens(proc_macro2::TokenStream),
	FnStart(FnInfo),
	FnEnd,
}

struct Gen {
	specs: BTreeMap<String, FnSpec>,
	used: BTreeSet<String>,
	baseline: BTreeMap<String, Vec<String>>,
	/// Functions that are not verified in this run: their contract is assumed.
	trust: BTreeSet<String>,
	/// Functions without contract in this run.
	bare: BTreeSet<String>,
	slots: Vec<Slot>,
	pieces: Vec<Piece>,
	rep: Report,
	all_consts: Vec<String>,
	companions: usize,
}

fn compact(t: &impl ToTokens) -> String {
	t.to_token_stream().to_string().replace(' ', "")
}

fn keep_derives(attrs: &[syn::Attribute]) -> Vec<syn::Attribute> {
	let mut out = vec![];
	for a in attrs {
		if a.path().is_ident("derive") {
			let s = compact(&a.meta);
			if s.contains("Copy") {
				out.push(parse_quote!(#[derive(Clone, Copy)]));
			}
		}
		if a.path().is_ident("repr") {
			out.push(a.clone());
		}
	}
	out
}

fn make_pub(v: &mut syn::Visibility) {
	*v = parse_quote!(pub);
}

impl Gen {
	fn rename_map(&self, path: &str, shape: &Shape) -> Vec<(String, String)> {
		let Some(base) = self.baseline.get(path) else { return vec![] };
		if base.len() != shape.locals.len() || *base == shape.locals {
			return vec![];
		}
		let mut map: Vec<(String, String)> = vec![];
		for (a, b) in base.iter().zip(&shape.locals) {
			// Only names that are gone are taken as renamed.
			if a == b || shape.locals.contains(a) || base.contains(b) {
				continue;
			}
			match map.iter().find(|(x, _)| x == a) {
				Some((_, y)) if y == b => {},
				Some(_) => return vec![],
				None => map.push((a.clone(), b.clone())),
			}
		}
		map
	}

	fn function(
		&mut self,
		file: &str,
		path: String,
		attrs: &[syn::Attribute],
		vis: Option<&syn::Visibility>,
		sig: &syn::Signature,
		block: &syn::Block,
	) {
		let _ = attrs;
		let mut spec = self.specs.get(&path).cloned();
		if spec.is_some() {
			self.used.insert(path.clone());
		}
		// `attr stub`: a function that is not looked into.
		let stub = spec.as_ref().is_some_and(|s| s.attrs.iter().any(|a| a == "stub"));
		if stub {
			spec.as_mut().unwrap().attrs.retain(|a| a != "stub");
		}
		let quarantined = self.trust.contains(&path) || stub;
		if quarantined {
			let mut s = spec.unwrap_or_default();
			if !s.attrs.iter().any(|a| a == "verifier::external_body") {
				s.attrs.push("verifier::external_body".into());
			}
			s.anchors.clear();
			s.loops.clear();
			s.loop_kind.clear();
			s.closures.clear();
			s.panics.clear();
			s.vias.clear();
			s.hoists.clear();
			if self.bare.contains(&path) {
				s.spec.clear();
			}
			spec = Some(s);
		}
		if spec.as_ref().map(|s| s.drop_fn).unwrap_or(false) {
			self.rep.dropped.push(format!("fn {path} (overlay)"));
			return;
		}
		let shape = xform::shape(sig, block);
		let rename = self.rename_map(&path, &shape);
		let renamed = rename.len();
		let mut sig = sig.clone();
		let mut block = if quarantined { syn::parse_quote!({ unimplemented_body!() }) } else { block.clone() };
		let src_line = sig.ident.span().start().line;
		Types.visit_signature_mut(&mut sig);
		Types.visit_block_mut(&mut block);
		let mut ctx = Ctx::new(path.clone(), spec.as_ref(), &mut self.slots, rename);
		xform::body(&mut ctx, &mut sig, &mut block);
		if quarantined {
			ctx.lost.clear();
			if let Some(syn::Stmt::Macro(m)) = block.stmts.last_mut() {
				m.mac.path = syn::parse_quote!(unimplemented);
			}
			if let Some(syn::Stmt::Expr(e, _)) = block.stmts.last_mut() {
				*e = syn::parse_quote!(unimplemented!());
			}
		}
		let (notes, lost) = (ctx.notes, ctx.lost);
		let mut text = String::new();
		if let Some(s) = &spec {
			for a in &s.attrs {
				let _ = writeln!(text, "#[{a}]");
			}
		}
		let trusted = spec.as_ref().map(|s| s.attrs.iter().any(|a| a.contains("external"))).unwrap_or(false);
		self.pieces.push(Piece::FnStart(FnInfo {
			path: path.clone(),
			file: file.to_string(),
			src_line,
			out_start: 0,
			out_end: 0,
			contracted: spec.is_some(),
			trusted,
			props: spec.as_ref().map(|s| s.props.clone()).unwrap_or_default(),
			shape,
			notes,
			lost,
			renamed,
		}));
		self.pieces.push(Piece::Raw(text));
		let vis = match vis {
			Some(syn::Visibility::Inherited) | None => quote!(),
			Some(_) => quote!(pub),
		};
		self.pieces.push(Piece::Tokens(quote!(#vis #sig #block)));
		self.pieces.push(Piece::FnEnd);
	}

	fn module(&mut self, m: &Module, src: &Path) {
		let file = m.file.strip_prefix(src).unwrap_or(&m.file).display().to_string();
		let prefix = m.path.iter().map(|x| format!("{x}::")).collect::<String>();
		if let Some(n) = m.path.last() {
			self.pieces.push(Piece::Raw(format!("pub mod {n} {{")));
		}
		self.pieces.push(Piece::Raw("#[allow(unused_imports)] use vstd::prelude::*;\n#[allow(unused_imports)] use crate::vx::{*, ByteBuf as _, ByteSrc as _, RefTo as _};".into()));
		for item in &m.items {
			self.item(item, &prefix, &file);
		}
		for c in &m.children {
			self.module(c, src);
		}
		if !m.path.is_empty() {
			self.pieces.push(Piece::Raw("}".into()));
		}
	}

	fn item(&mut self, item: &Item, prefix: &str, file: &str) {
		match item {
			Item::Use(u) => {
				let s = compact(&u.tree);
				if s.contains("fmt::") || s == "alloc::borrow::ToOwned" {
					self.rep.dropped.push(format!("use {s}"));
					return;
				}
				let mut u = u.clone();
				u.attrs.clear();
				if let Some(n) = xform::external(&s) {
					u = syn::parse_str(&format!("use {n};")).unwrap();
				}
				make_pub(&mut u.vis);
				u.attrs.push(parse_quote!(#[allow(unused_imports)]));
				self.pieces.push(Piece::Tokens(quote!(#u)));
			},
			Item::ExternCrate(_) => {},
			Item::Const(c) => {
				let mut c = c.clone();
				c.attrs.clear();
				make_pub(&mut c.vis);
				self.all_consts.push(format!("{prefix}{}", c.ident));
				Types.visit_item_const_mut(&mut c);
				let path = format!("{prefix}{}", c.ident);
				if let Some(s) = self.specs.get(&format!("const {path}")).cloned() {
					self.used.insert(format!("const {path}"));
					for a in &s.attrs {
						self.pieces.push(Piece::Raw(format!("#[{a}]")));
					}
				}
				self.pieces.push(Piece::Tokens(quote!(#c)));
			},
			Item::Type(t) => {
				let mut t = t.clone();
				t.attrs.clear();
				make_pub(&mut t.vis);
				Types.visit_item_type_mut(&mut t);
				self.pieces.push(Piece::Tokens(quote!(#t)));
			},
			Item::Struct(s) => {
				let mut s = s.clone();
				s.attrs = keep_derives(&s.attrs);
				make_pub(&mut s.vis);
				if self.specs.get(&format!("struct {prefix}{}", s.ident)).is_some_and(|x| x.attrs.iter().any(|a| a.contains("external"))) {
					self.rep.trusted.push(format!("struct {prefix}{} (external_body)", s.ident));
				}
				let path = format!("struct {prefix}{}", s.ident);
				// `attr private`: needed for type invariants.
				let private = self.specs.get(&path).is_some_and(|x| x.attrs.iter().any(|a| a == "private"));
				for f in s.fields.iter_mut() {
					f.attrs.clear();
					if private {
						f.vis = syn::Visibility::Inherited;
					} else {
						make_pub(&mut f.vis);
					}
				}
				Types.visit_item_struct_mut(&mut s);
				if let Some(sp) = self.specs.get(&path).cloned() {
					self.used.insert(path.clone());
					for a in sp.attrs.iter().filter(|a| *a != "private") {
						self.pieces.push(Piece::Raw(format!("#[{a}]")));
					}
					if sp.drop_fn {
						self.rep.dropped.push(format!("{path} (overlay)"));
						return;
					}
				}
				self.pieces.push(Piece::Tokens(quote!(#s)));
			},
			Item::Enum(s) => {
				let mut s = s.clone();
				s.attrs = keep_derives(&s.attrs);
				make_pub(&mut s.vis);
				for v in s.variants.iter_mut() {
					v.attrs.clear();
					for f in v.fields.iter_mut() {
						f.attrs.clear();
					}
				}
				Types.visit_item_enum_mut(&mut s);
				self.pieces.push(Piece::Tokens(quote!(#s)));
			},
			Item::Fn(f) => {
				let path = format!("{prefix}{}", f.sig.ident);
				let vis: syn::Visibility = parse_quote!(pub);
				self.function(file, path, &f.attrs, Some(&vis), &f.sig, &f.block);
			},
			Item::Trait(t) => self.trait_item(t, prefix, file),
			Item::Impl(i) => self.impl_item(i, prefix, file),
			other => {
				self.rep.dropped.push(format!("{prefix}{}", load::describe(other)));
			},
		}
	}

	fn trait_item(&mut self, t: &syn::ItemTrait, prefix: &str, file: &str) {
		let mut t = t.clone();
		t.attrs.clear();
		make_pub(&mut t.vis);
		Types.visit_item_trait_mut(&mut t);
		let name = t.ident.to_string();
		let tpath = format!("trait {prefix}{name}");
		let ghost = self.specs.get(&tpath).cloned();
		if ghost.is_some() {
			self.used.insert(tpath);
		}
		let (ident, generics, sup, wh) = (&t.ident, &t.generics, &t.supertraits, &t.generics.where_clause);
		let sup = if sup.is_empty() { quote!() } else { quote!(: #sup) };
		let vis = &t.vis;
		// The trait header and its ghost members.
		let head = quote!(#vis trait #ident #generics #sup #wh).to_string();
		self.pieces.push(Piece::Raw(format!("{head} {{")));
		if let Some(g) = ghost {
			for (_, text) in &g.anchors {
				self.pieces.push(Piece::Raw(text.lines.join("\n")));
			}
		}
		for it in &t.items {
			match it {
				TraitItem::Fn(f) => {
					let path = format!("{prefix}{name}::{}", f.sig.ident);
					let spec = self.specs.get(&path).cloned();
					if spec.is_some() {
						self.used.insert(path.clone());
					}
					if let Some(b) = &f.default {
						self.function(file, path, &f.attrs, None, &f.sig, b);
						continue;
					}
					let mut sig = f.sig.clone();
					let shape = Shape::default();
					self.pieces.push(Piece::FnStart(FnInfo {
						path: path.clone(),
						file: file.to_string(),
						src_line: sig.ident.span().start().line,
						out_start: 0,
						out_end: 0,
						contracted: spec.is_some(),
						trusted: true,
						props: vec![],
						shape,
						notes: vec!["interface".into()],
						lost: vec![],
						renamed: 0,
					}));
					if let Some(s) = &spec {
						let mut ctx = Ctx::new(path.clone(), Some(s), &mut self.slots, vec![]);
						let n = xform::attach_spec(&mut ctx, s, &mut sig, None).unwrap();
						let lit = Literal::usize_unsuffixed(n);
						// The contract goes between the signature and `;`.
						self.pieces.push(Piece::Tokens(quote!(#sig)));
						self.pieces.push(Piece::Raw(format!("/*SLOT {lit}*/")));
						self.pieces.push(Piece::Raw(";".into()));
					} else {
						self.pieces.push(Piece::Tokens(quote!(#sig ;)));
					}
					self.pieces.push(Piece::FnEnd);
				},
				TraitItem::Const(c) => {
					let mut c = c.clone();
					c.attrs.clear();
					self.pieces.push(Piece::Tokens(quote!(#c)));
				},
				TraitItem::Type(c) => {
					let mut c = c.clone();
					c.attrs.clear();
					self.pieces.push(Piece::Tokens(quote!(#c)));
				},
				_ => self.rep.errors.push(format!("{prefix}{name}: unsupported trait item")),
			}
		}
		self.pieces.push(Piece::Raw("}".into()));
	}

	fn impl_item(&mut self, i: &syn::ItemImpl, prefix: &str, file: &str) {
		let mut i = i.clone();
		let self_ty = compact(&i.self_ty);
		let self_name = match &*i.self_ty {
			syn::Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
			_ => self_ty.clone(),
		};
		let trait_name = i.trait_.as_ref().map(|(_, p, _)| compact(p));
		if let Some(t) = &trait_name {
			let last = t.split('<').next().unwrap().rsplit("::").next().unwrap().to_string();
			if matches!(last.as_str(), "Debug" | "Display" | "Error") {
				self.rep.dropped.push(format!("{prefix}impl {t} for {self_ty}"));
				return;
			}
			if last == "FromStr" || last == "SerialPort" && self_ty == "serial2::SerialPort" {
				// As inherent functions `port_*`; the contracts implement the trait with them.
				let types: Vec<(String, syn::Type)> = i
					.items
					.iter()
					.filter_map(|x| match x {
						ImplItem::Type(t) => Some((format!("Self::{}", t.ident), t.ty.clone())),
						_ => None,
					})
					.collect();
				i.items.retain(|x| !matches!(x, ImplItem::Type(_)));
				i.trait_ = None;
				struct R(Vec<(String, syn::Type)>);
				impl VisitMut for R {
					fn visit_type_mut(&mut self, t: &mut syn::Type) {
						let s = compact(t);
						if let Some((_, x)) = self.0.iter().find(|(n, _)| *n == s) {
							*t = x.clone();
							return;
						}
						syn::visit_mut::visit_type_mut(self, t);
					}
				}
				R(types).visit_item_impl_mut(&mut i);
				for x in i.items.iter_mut() {
					if let ImplItem::Fn(f) = x {
						make_pub(&mut f.vis);
						if last == "SerialPort" {
							f.sig.ident = quote::format_ident!("port_{}", f.sig.ident);
						}
					}
				}
			}
			if matches!(last.as_str(), "Drop" | "Iterator" | "AsRef" | "ExactSizeIterator") {
				// As inherent functions.
				let item_ty = i.items.iter().find_map(|x| match x {
					ImplItem::Type(t) if t.ident == "Item" => Some(t.ty.clone()),
					_ => None,
				});
				i.items.retain(|x| !matches!(x, ImplItem::Type(_)));
				i.trait_ = None;
				if let Some(ty) = item_ty {
					struct R(syn::Type);
					impl VisitMut for R {
						fn visit_type_mut(&mut self, t: &mut syn::Type) {
							if compact(t) == "Self::Item" {
								*t = self.0.clone();
								return;
							}
							syn::visit_mut::visit_type_mut(self, t);
						}
					}
					R(ty).visit_item_impl_mut(&mut i);
				}
				for x in i.items.iter_mut() {
					if let ImplItem::Fn(f) = x {
						make_pub(&mut f.vis);
					}
				}
			}
		}
		let generic_trait = i.trait_.as_ref().map(|(_, p, _)| compact(p));
		let base = match &generic_trait {
			None => match &trait_name {
				Some(t) => format!("{prefix}{self_name}@{}", t.split('<').next().unwrap().rsplit("::").next().unwrap()),
				None => format!("{prefix}{self_name}"),
			},
			Some(t) => format!("{prefix}<{self_ty} as {t}>"),
		};
		let ipath = format!("impl {base}");
		// Ghost members go to the first of several implementations.
		let extra = self.specs.get(&ipath).cloned().filter(|_| !self.used.contains(&ipath));
		if extra.is_some() {
			self.used.insert(ipath.clone());
		}
		if extra.as_ref().map(|s| s.drop_fn).unwrap_or(false) {
			self.rep.dropped.push(format!("{ipath} (overlay)"));
			return;
		}
		let mut g = i.generics.clone();
		Types.visit_generics_mut(&mut g);
		let wh = g.where_clause.take();
		let mut ty = i.self_ty.clone();
		Types.visit_type_mut(&mut ty);
		let tr = match &i.trait_ {
			Some((bang, p, _)) => {
				let mut p = p.clone();
				Types.visit_path_mut(&mut p);
				quote!(#bang #p for)
			},
			None => quote!(),
		};
		let (ig, _, _) = g.split_for_impl();
		self.pieces.push(Piece::Raw("".into()));
		let mut pr = Printer::new(vec![]);
		pr.tokens(quote!(impl #ig #tr #ty #wh));
		self.pieces.push(Piece::Raw(format!("{} {{", pr.out)));
		if let Some(g) = extra {
			for (_, text) in &g.anchors {
				self.pieces.push(Piece::Raw(text.lines.join("\n")));
			}
		}
		let is_trait = i.trait_.is_some();
		let mut companions: Vec<(String, syn::ItemFn)> = vec![];
		for it in &i.items {
			match it {
				ImplItem::Fn(f) => {
					if !load::cfg_on(&f.attrs) {
						self.rep.dropped.push(format!("{base}::{} (cfg off)", f.sig.ident));
						continue;
					}
					let path = format!("{base}::{}", f.sig.ident);
					let vis: syn::Visibility = parse_quote!(pub);
					self.function(file, path, &f.attrs, if is_trait { None } else { Some(&vis) }, &f.sig, &f.block);
				},
				ImplItem::Const(c) => {
					let mut c = c.clone();
					c.attrs.clear();
					let path = format!("const {base}::{}", c.ident);
					if let Some(s) = self.specs.get(&path).cloned() {
						self.used.insert(path.clone());
						for a in &s.attrs {
							self.pieces.push(Piece::Raw(format!("#[{a}]")));
						}
						// The initialiser is checked as a function.
						self.companions += 1;
						let name = quote::format_ident!("vx_const_{}", self.companions);
						let (cg, cw, cty) = (g.clone(), i.generics.where_clause.clone(), c.ty.clone());
						let mut init = c.expr.clone();
						xform::SelfType((*i.self_ty).clone()).visit_expr_mut(&mut init);
						let mut f: syn::ItemFn = parse_quote!(pub fn #name #cg () -> #cty { #init });
						f.sig.generics.where_clause = cw;
						companions.push((path.clone(), f));
						if let Some(t) = s.anchors.first() {
							let (id, ty) = (&c.ident, &c.ty);
							self.pieces.push(Piece::Raw(format!("const {id}: {} = {};", compact(ty), t.1.lines.join(" "))));
							continue;
						}
					}
					self.pieces.push(Piece::Tokens(quote!(#c)));
				},
				ImplItem::Type(c) => {
					let mut c = c.clone();
					c.attrs.clear();
					Types.visit_impl_item_type_mut(&mut c);
					self.pieces.push(Piece::Tokens(quote!(#c)));
				},
				_ => self.rep.errors.push(format!("{base}: unsupported impl item")),
			}
		}
		self.pieces.push(Piece::Raw("}".into()));
		for (path, f) in companions {
			let vis: syn::Visibility = parse_quote!(pub);
			let mut spec = self.specs.get(&path).cloned().unwrap();
			spec.attrs.clear();
			spec.anchors.clear();
			self.specs.insert(path.clone(), spec);
			self.function(file, path, &f.attrs, Some(&vis), &f.sig, &f.block);
		}
	}
}

fn js(s: &str) -> String {
	let mut o = String::from("\"");
	for c in s.chars() {
		match c {
			'"' => o.push_str("\\\""),
			'\\' => o.push_str("\\\\"),
			'\n' => o.push_str("\\n"),
			'\t' => o.push_str("\\t"),
			c if (c as u32) < 32 => {},
			c => o.push(c),
		}
	}
	o.push('"');
	o
}

fn jl(v: &[String]) -> String {
	format!("[{}]", v.iter().map(|x| js(x)).collect::<Vec<_>>().join(","))
}

fn main() {
	let args: Vec<String> = std::env::args().collect();
	let src = Path::new(&args[1]);
	let contracts = Path::new(&args[2]);
	let (out, map) = (&args[3], &args[4]);
	let opt = |n: &str| args.iter().position(|a| a == n).map(|i| args[i + 1].clone());

	let mut specs = BTreeMap::new();
	let mut verbatim = vec![];
	let mut files: Vec<_> = std::fs::read_dir(contracts).unwrap().map(|e| e.unwrap().path()).collect();
	files.sort();
	for f in files {
		let name = f.file_name().unwrap().to_string_lossy().to_string();
		// The command line tool is extracted on its own.
		if name.starts_with("cli_") && opt("--cli").is_none() {
			continue;
		}
		let text = std::fs::read_to_string(&f).unwrap();
		if name.ends_with(".vx") {
			if let Err(e) = overlay::parse(&name, &text, &mut specs) {
				eprintln!("overlay error: {e}");
				std::process::exit(3);
			}
		} else if name.ends_with(".rs") {
			verbatim.push((name, text));
		}
	}
	let mut baseline = BTreeMap::new();
	if let Some(b) = opt("--baseline") {
		for l in std::fs::read_to_string(b).unwrap_or_default().lines() {
			if let Some((p, rest)) = l.split_once('\t') {
				let locals = rest.split('\t').next().unwrap_or("");
				baseline.insert(
					p.to_string(),
					locals.split(',').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect(),
				);
			}
		}
	}

	let list = |n: &str| -> BTreeSet<String> {
		opt(n).map(|x| x.split(',').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect()).unwrap_or_default()
	};
	let mut rep = Report { dropped: vec![], errors: vec![], trusted: vec![] };
	let root = load::load(&src.join("lib.rs"), vec![], &mut rep);
	let mut gen = Gen { specs, used: BTreeSet::new(), baseline, trust: list("--trust"), bare: list("--bare"), slots: vec![], pieces: vec![], rep, all_consts: vec![], companions: 0 };
	if let Some(root) = &root {
		gen.module(root, src);
	}
	if let Some(main) = opt("--cli") {
		let main = Path::new(&main);
		if let Some(m) = load::load_root(main, vec!["cli".into()], &mut gen.rep) {
			gen.module(&m, main.parent().unwrap());
		}
	}

	let mut p = Printer::new(std::mem::take(&mut gen.slots));
	p.raw("// Generated by vx from the source of the crate; do not edit.\n#![allow(unused, non_snake_case, non_camel_case_types, non_upper_case_globals)]\nuse vstd::prelude::*;\nverus! {");
	let mut verb_lines = vec![];
	for (name, text) in &verbatim {
		let start = p.line;
		p.raw(text);
		verb_lines.push((name.clone(), start, p.line));
	}
	let mut fns: Vec<FnInfo> = vec![];
	let mut open = vec![];
	for piece in std::mem::take(&mut gen.pieces) {
		match piece {
			Piece::Raw(s) => {
				if let Some(n) = s.strip_prefix("/*SLOT ") {
					let n: usize = n.trim_end_matches("*/").parse().unwrap();
					p.emit(n);
				} else if !s.is_empty() {
					p.raw(&s);
				}
			},
			Piece::Tokens(t) => {
				p.newline();
				p.tokens(t);
				p.newline();
			},
			Piece::FnStart(mut f) => {
				p.newline();
				f.out_start = p.line;
				open.push(f);
			},
			Piece::FnEnd => {
				p.newline();
				let mut f = open.pop().unwrap();
				f.out_end = p.line - 1;
				fns.push(f);
			},
		}
	}
	p.raw("} // verus!\nfn main() {}");
	std::fs::write(out, &p.out).unwrap();

	let unused: Vec<String> = gen.specs.keys().filter(|k| !gen.used.contains(*k)).cloned().collect();
	let mut j = String::from("{\n\"functions\":[\n");
	for (i, f) in fns.iter().enumerate() {
		let _ = writeln!(
			j,
			"{}{{\"path\":{},\"file\":{},\"line\":{},\"out_start\":{},\"out_end\":{},\"contracted\":{},\"trusted\":{},\"renamed\":{},\"props\":{},\"locals\":{},\"loops\":{},\"closures\":{},\"calls\":{},\"notes\":{},\"lost\":{}}}",
			if i > 0 { "," } else { "" },
			js(&f.path), js(&f.file), f.src_line, f.out_start, f.out_end, f.contracted, f.trusted, f.renamed, jl(&f.props),
			jl(&f.shape.locals), jl(&f.shape.loops), f.shape.closures, jl(&f.shape.calls), jl(&f.notes), jl(&f.lost)
		);
	}
	j.push_str("],\n\"clauses\":[\n");
	for (i, l) in p.lines.iter().enumerate() {
		let _ = writeln!(
			j,
			"{}{{\"func\":{},\"kind\":{},\"props\":{},\"origin\":{},\"start\":{},\"end\":{}}}",
			if i > 0 { "," } else { "" },
			js(&l.func), js(&l.kind), jl(&l.props), js(&l.origin), l.start, l.end
		);
	}
	j.push_str("],\n\"verbatim\":[\n");
	for (i, (n, s, e)) in verb_lines.iter().enumerate() {
		let _ = writeln!(j, "{}[{},{},{}]", if i > 0 { "," } else { "" }, js(n), s, e);
	}
	let sm: Vec<String> = p.srcmap.iter().map(|(a, b)| format!("[{a},{b}]")).collect();
	let _ = writeln!(
		j,
		"],\n\"srcmap\":[{}],\n\"lost\":{},\n\"dropped\":{},\n\"errors\":{},\n\"trusted\":{}\n}}",
		sm.join(","),
		jl(&unused),
		jl(&gen.rep.dropped),
		jl(&gen.rep.errors),
		jl(&gen.rep.trusted)
	);
	std::fs::write(map, j).unwrap();

	if let Some(b) = opt("--write-baseline") {
		let mut t = String::new();
		for f in &fns {
			let _ = writeln!(
				t,
				"{}\t{}\t{}\t{}\t{}",
				f.path,
				f.shape.locals.join(","),
				f.shape.loops.join(","),
				f.shape.closures,
				f.shape.calls.join(",")
			);
		}
		std::fs::write(b, t).unwrap();
	}
	if !gen.rep.errors.is_empty() {
		for e in &gen.rep.errors {
			eprintln!("vx: {e}");
		}
	}
}
