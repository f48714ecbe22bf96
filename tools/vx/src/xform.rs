//! Mechanical rewriting of function bodies and types into the subset of Rust that Verus accepts.
use crate::overlay::{Anchor, FnSpec, Pos, Text};
use crate::print::Slot;
use proc_macro2::{Literal, TokenStream};
use quote::{format_ident, quote, ToTokens};
use std::collections::BTreeMap;
use syn::visit::Visit;
use syn::visit_mut::VisitMut;
use syn::{parse_quote, Block, Expr, Pat, Stmt};

/// What the function looks like, independent of formatting.
#[derive(Default, Clone, Debug)]
pub struct Shape {
	pub locals: Vec<String>,
	pub loops: Vec<String>,
	pub closures: usize,
	pub calls: Vec<String>,
}

struct ShapeVisitor {
	s: Shape,
}

impl<'ast> Visit<'ast> for ShapeVisitor {
	fn visit_pat_ident(&mut self, p: &'ast syn::PatIdent) {
		let n = p.ident.to_string();
		if n.chars().next().map(|c| c.is_lowercase() || c == '_').unwrap_or(false) {
			self.s.locals.push(n);
		}
		syn::visit::visit_pat_ident(self, p);
	}
	fn visit_expr_for_loop(&mut self, e: &'ast syn::ExprForLoop) {
		// The loop is extracted differently over ranges and over other things.
		let range = matches!(strip_paren((*e.expr).clone()), Expr::Range(_));
		self.s.loops.push(if range { "range".into() } else { "for".into() });
		syn::visit::visit_expr_for_loop(self, e);
	}
	fn visit_expr_while(&mut self, e: &'ast syn::ExprWhile) {
		self.s.loops.push("while".into());
		syn::visit::visit_expr_while(self, e);
	}
	fn visit_expr_loop(&mut self, e: &'ast syn::ExprLoop) {
		self.s.loops.push("loop".into());
		syn::visit::visit_expr_loop(self, e);
	}
	fn visit_expr_continue(&mut self, _: &'ast syn::ExprContinue) {
		self.s.loops.push("continue".into());
	}
	fn visit_expr_break(&mut self, e: &'ast syn::ExprBreak) {
		self.s.loops.push("break".into());
		syn::visit::visit_expr_break(self, e);
	}
	fn visit_expr_closure(&mut self, e: &'ast syn::ExprClosure) {
		self.s.closures += 1;
		syn::visit::visit_expr_closure(self, e);
	}
	fn visit_expr_call(&mut self, e: &'ast syn::ExprCall) {
		if let Expr::Path(p) = &*e.func {
			self.s.calls.push(p.path.segments.last().unwrap().ident.to_string());
		}
		syn::visit::visit_expr_call(self, e);
	}
	fn visit_expr_method_call(&mut self, e: &'ast syn::ExprMethodCall) {
		self.s.calls.push(e.method.to_string());
		syn::visit::visit_expr_method_call(self, e);
	}
}

pub fn shape(sig: &syn::Signature, block: &Block) -> Shape {
	let mut v = ShapeVisitor { s: Shape::default() };
	v.visit_signature(sig);
	v.visit_block(block);
	v.s
}

pub struct Ctx<'a> {
	pub func: String,
	pub spec: Option<&'a FnSpec>,
	pub slots: &'a mut Vec<Slot>,
	pub rename: Vec<(String, String)>,
	pub notes: Vec<String>,
	pub lost: Vec<String>,
	loops: usize,
	closures: usize,
	panics: usize,
	tries: usize,
	/// The function returns an `Option`.
	ret_option: bool,
	/// The parameters that are slices of bytes.
	slices: Vec<String>,
	used_tries: Vec<usize>,
	via_seen: BTreeMap<String, usize>,
	used_vias: Vec<(String, usize)>,
	used_loops: Vec<usize>,
	used_closures: Vec<usize>,
	used_panics: Vec<usize>,
}

impl<'a> Ctx<'a> {
	pub fn new(func: String, spec: Option<&'a FnSpec>, slots: &'a mut Vec<Slot>, rename: Vec<(String, String)>) -> Self {
		Self {
			func,
			spec,
			slots,
			rename,
			notes: vec![],
			lost: vec![],
			loops: 0,
			closures: 0,
			panics: 0,
			tries: 0,
			ret_option: false,
			slices: vec![],
			used_tries: vec![],
			via_seen: BTreeMap::new(),
			used_vias: vec![],
			used_loops: vec![],
			used_closures: vec![],
			used_panics: vec![],
		}
	}

	pub fn slot(&mut self, texts: Vec<Text>, ret: &str) -> usize {
		self.slots.push(Slot { func: self.func.clone(), texts, rename: self.rename.clone(), ret: ret.to_string() });
		self.slots.len() - 1
	}

	fn marker_stmt(&mut self, texts: Vec<Text>) -> Stmt {
		let n = Literal::usize_unsuffixed(self.slot(texts, "r"));
		parse_quote!(vx_marker!(#n);)
	}
}

// ---------------------------------------------------------------- anchors

struct CallCounter<'b> {
	name: &'b str,
	count: usize,
	/// Do not descend into nested statement lists.
	shallow: bool,
}

impl<'ast> Visit<'ast> for CallCounter<'_> {
	fn visit_block(&mut self, b: &'ast Block) {
		if !self.shallow {
			syn::visit::visit_block(self, b);
		}
	}
	fn visit_expr_call(&mut self, e: &'ast syn::ExprCall) {
		if let Expr::Path(p) = &*e.func {
			if p.path.segments.last().unwrap().ident == self.name {
				self.count += 1;
			}
		}
		syn::visit::visit_expr_call(self, e);
	}
	fn visit_expr_method_call(&mut self, e: &'ast syn::ExprMethodCall) {
		if e.method == self.name {
			self.count += 1;
		}
		syn::visit::visit_expr_method_call(self, e);
	}
}

fn shallow_calls(s: &Stmt, name: &str) -> usize {
	let mut c = CallCounter { name, count: 0, shallow: true };
	c.visit_stmt(s);
	c.count
}

struct AnchorInserter<'c, 'a> {
	ctx: &'c mut Ctx<'a>,
	/// Anchors that are not placed yet.
	pending: Vec<(Anchor, Text)>,
	call_seen: BTreeMap<String, usize>,
	let_seen: BTreeMap<String, usize>,
	returns: usize,
}

impl AnchorInserter<'_, '_> {
	fn take(&mut self, f: impl Fn(&Anchor) -> bool) -> Vec<Text> {
		let mut out = vec![];
		let mut keep = vec![];
		for (a, t) in self.pending.drain(..) {
			if f(&a) {
				out.push(t);
			} else {
				keep.push((a, t));
			}
		}
		self.pending = keep;
		out
	}
}

impl VisitMut for AnchorInserter<'_, '_> {
	fn visit_block_mut(&mut self, b: &mut Block) {
		let stmts = std::mem::take(&mut b.stmts);
		let mut out = vec![];
		for mut s in stmts {
			let mut before = vec![];
			let mut after = vec![];
			// Calls directly in this statement.
			let names: Vec<String> = self
				.pending
				.iter()
				.filter_map(|(a, _)| match a {
					Anchor::Call(n, _, _) => Some(n.clone()),
					_ => None,
				})
				.collect::<std::collections::BTreeSet<_>>()
				.into_iter()
				.collect();
			for name in names {
				let k = shallow_calls(&s, &name);
				let seen = *self.call_seen.get(&name).unwrap_or(&0);
				for i in seen..seen + k {
					before.extend(self.take(|a| *a == Anchor::Call(name.clone(), i, false)));
					after.extend(self.take(|a| *a == Anchor::Call(name.clone(), i, true)));
				}
				*self.call_seen.entry(name).or_default() += k;
			}
			if let Stmt::Local(l) = &s {
				let mut names = vec![];
				collect_pat(&l.pat, &mut names);
				for n in names {
					// Anchors are written with the names of the original code.
					let orig = self
						.ctx
						.rename
						.iter()
						.find(|(_, b)| *b == n)
						.map(|(a, _)| a.clone())
						.unwrap_or(n);
					let k = *self.let_seen.get(&orig).unwrap_or(&0);
					before.extend(self.take(|a| *a == Anchor::Let(orig.clone(), k, false)));
					after.extend(self.take(|a| *a == Anchor::Let(orig.clone(), k, true)));
					*self.let_seen.entry(orig).or_default() += 1;
				}
			}
			if let Stmt::Expr(Expr::Return(_), _) = &s {
				let k = self.returns;
				before.extend(self.take(|a| *a == Anchor::Return(k)));
				self.returns += 1;
			}
			self.visit_stmt_mut(&mut s);
			for t in before {
				let m = self.ctx.marker_stmt(vec![t]);
				out.push(m);
			}
			// A statement after a tail expression: name the value of the tail expression.
			if !after.is_empty() && matches!(&s, Stmt::Expr(_, None)) {
				let Stmt::Expr(e, None) = &s else { unreachable!() };
				if matches!(e, Expr::If(_) | Expr::Match(_) | Expr::While(_) | Expr::ForLoop(_) | Expr::Loop(_) | Expr::Block(_)) {
					out.push(s.clone());
					for t in after {
						let m = self.ctx.marker_stmt(vec![t]);
						out.push(m);
					}
				} else {
					out.push(parse_quote!(let vx_tail = #e;));
					for t in after {
						let m = self.ctx.marker_stmt(vec![t]);
						out.push(m);
					}
					out.push(Stmt::Expr(parse_quote!(vx_tail), None));
				}
			} else {
				out.push(s);
				for t in after {
					let m = self.ctx.marker_stmt(vec![t]);
					out.push(m);
				}
			}
		}
		b.stmts = out;
	}
}

fn collect_pat(p: &Pat, out: &mut Vec<String>) {
	struct V<'v>(&'v mut Vec<String>);
	impl<'ast> Visit<'ast> for V<'_> {
		fn visit_pat_ident(&mut self, p: &'ast syn::PatIdent) {
			self.0.push(p.ident.to_string());
			syn::visit::visit_pat_ident(self, p);
		}
	}
	V(out).visit_pat(p);
}

// ---------------------------------------------------------------- bodies

/// The expression only combines bits of variables: evaluating it does nothing and cannot panic.
fn inert(e: &Expr) -> bool {
	match e {
		Expr::Lit(_) | Expr::Path(_) => true,
		Expr::Field(f) => inert(&f.base),
		Expr::Paren(p) => inert(&p.expr),
		Expr::Binary(b) => match b.op {
			syn::BinOp::BitAnd(_) | syn::BinOp::BitOr(_) | syn::BinOp::BitXor(_) => inert(&b.left) && inert(&b.right),
			// By a constant: too far is rejected by the compiler.
			syn::BinOp::Shr(_) => inert(&b.left) && matches!(&*b.right, Expr::Lit(_)),
			_ => false,
		},
		_ => false,
	}
}

/// The expression contains `return` or `?`.
/// `const { MaybeUninit::uninit() }`
fn uninit(e: &Expr) -> bool {
	let s = e.to_token_stream().to_string().replace(' ', "");
	matches!(s.strip_prefix("const{").and_then(|s| s.strip_suffix('}')), Some(s) if s.ends_with("MaybeUninit::uninit()") || s.ends_with("MaybeUninit::<T>::uninit()"))
}

/// `ptr::read(x.field.as_ptr().cast())`
fn read_out(c: &syn::ExprCall) -> Option<(syn::Ident, syn::Member)> {
	let f = c.func.to_token_stream().to_string().replace(' ', "");
	if !matches!(f.as_str(), "core::ptr::read" | "std::ptr::read" | "ptr::read") || c.args.len() != 1 {
		return None;
	}
	let Expr::MethodCall(cast) = strip_paren(c.args[0].clone()) else { return None };
	if cast.method != "cast" {
		return None;
	}
	let Expr::MethodCall(ptr) = strip_paren((*cast.receiver).clone()) else { return None };
	if ptr.method != "as_ptr" {
		return None;
	}
	let Expr::Field(field) = strip_paren((*ptr.receiver).clone()) else { return None };
	let Expr::Path(x) = strip_paren((*field.base).clone()) else { return None };
	Some((x.path.get_ident()?.clone(), field.member.clone()))
}

/// The methods of `Option` and `Result` that take a closure and can be told apart by their name and its arguments.
fn combinator(m: &syn::ExprMethodCall) -> Option<&'static str> {
	if m.args.len() != 1 {
		return None;
	}
	let Expr::Closure(c) = strip_paren(m.args[0].clone()) else { return None };
	match (m.method.to_string().as_str(), c.inputs.len()) {
		("ok_or_else", 0) => Some("ok_or_else"),
		("unwrap_or_else", 0) => Some("option or"),
		("unwrap_or_else", 1) => Some("result or"),
		("is_some_and", 1) => Some("is_some_and"),
		("is_none_or", 1) => Some("is_none_or"),
		("is_ok_and", 1) => Some("is_ok_and"),
		("is_err_and", 1) => Some("is_err_and"),
		("or_else", 0) => Some("option or else"),
		("or_else", 1) => Some("result or else"),
		_ => None,
	}
}

fn leaves(e: &Expr) -> bool {
	struct V(bool);
	impl<'ast> Visit<'ast> for V {
		fn visit_expr_try(&mut self, _: &'ast syn::ExprTry) {
			self.0 = true;
		}
		fn visit_expr_return(&mut self, _: &'ast syn::ExprReturn) {
			self.0 = true;
		}
	}
	let mut v = V(false);
	v.visit_expr(e);
	v.0
}

fn is_option(r: &syn::ReturnType) -> bool {
	match r {
		syn::ReturnType::Type(_, t) => matches!(&**t, syn::Type::Path(p) if p.path.segments.last().is_some_and(|s| s.ident == "Option")),
		_ => false,
	}
}

pub fn body(ctx: &mut Ctx, sig: &mut syn::Signature, block: &mut Block) {
	ctx.ret_option = is_option(&sig.output);
	for p in &sig.inputs {
		if let syn::FnArg::Typed(t) = p {
			if let (Pat::Ident(x), true) = (&*t.pat, matches!(t.ty.to_token_stream().to_string().replace(' ', "").as_str(), "&[u8]" | "&mut[u8]")) {
				ctx.slices.push(x.ident.to_string());
			}
		}
	}
	let Some(spec) = ctx.spec else {
		Rewriter { ctx, hoisted: vec![], ends: vec![] }.visit_block_mut(block);
		return;
	};
	let spec = spec.clone();

	// Anchored proof texts, on the code as written.
	let stmt_anchors: Vec<_> = spec
		.anchors
		.iter()
		.filter(|(a, _)| matches!(a, Anchor::Call(..) | Anchor::Let(..) | Anchor::Return(_)))
		.cloned()
		.collect();
	let mut ins = AnchorInserter { ctx, pending: stmt_anchors, call_seen: BTreeMap::new(), let_seen: BTreeMap::new(), returns: 0 };
	ins.visit_block_mut(block);
	let left: Vec<String> = ins.pending.iter().map(|(a, t)| format!("{a:?} ({})", t.origin)).collect();
	ctx.lost.extend(left);

	Rewriter { ctx, hoisted: vec![], ends: vec![] }.visit_block_mut(block);

	for n in spec.loops.keys().chain(spec.loop_kind.keys()) {
		if !ctx.used_loops.contains(n) {
			ctx.lost.push(format!("loop {n}"));
		}
	}
	for n in spec.closures.keys() {
		if !ctx.used_closures.contains(n) {
			ctx.lost.push(format!("closure {n}"));
		}
	}
	for (a, t) in &spec.anchors {
		if let Anchor::Try(n) = a {
			if !ctx.used_tries.contains(n) {
				ctx.lost.push(format!("try {n} ({})", t.origin));
			}
		}
	}
	for k in spec.vias.keys() {
		if !ctx.used_vias.contains(k) {
			ctx.lost.push(format!("call {} {} via", k.0, k.1));
		}
	}
	for n in spec.panics.keys() {
		if !ctx.used_panics.contains(n) {
			ctx.lost.push(format!("panic {n}"));
		}
	}

	// End and begin.
	let end: Vec<Text> = spec.anchors.iter().filter(|(a, _)| *a == Anchor::End).map(|(_, t)| t.clone()).collect();
	if !end.is_empty() {
		// `return x;` at the end of the function is its tail expression.
		if let Some(Stmt::Expr(Expr::Return(r), _)) = block.stmts.last() {
			if let Some(e) = r.expr.clone() {
				block.stmts.pop();
				block.stmts.push(Stmt::Expr(*e, None));
			}
		}
		let m = ctx.marker_stmt(end);
		match block.stmts.last() {
			Some(Stmt::Expr(e, None)) if !matches!(sig.output, syn::ReturnType::Default) => {
				let e = e.clone();
				block.stmts.pop();
				block.stmts.push(parse_quote!(let vx_result = #e;));
				block.stmts.push(m);
				block.stmts.push(Stmt::Expr(parse_quote!(vx_result), None));
			},
			_ => block.stmts.push(m),
		}
	}
	let begin: Vec<Text> = spec.anchors.iter().filter(|(a, _)| *a == Anchor::Begin).map(|(_, t)| t.clone()).collect();
	if !begin.is_empty() {
		let m = ctx.marker_stmt(begin);
		block.stmts.insert(0, m);
	}
	attach_spec(ctx, &spec, sig, Some(block));
}

/// Attach the contract; without a body (trait methods), the slot number is returned.
pub fn attach_spec(ctx: &mut Ctx, spec: &FnSpec, sig: &mut syn::Signature, block: Option<&mut Block>) -> Option<usize> {
	let mut texts = spec.spec.clone();
	let rank = |k: &str| match k {
		"requires" => 0,
		"ensures" => 1,
		"returns" => 2,
		_ => 3,
	};
	texts.sort_by_key(|t| rank(t.kind));
	let n = ctx.slot(texts.clone(), spec.ret.as_deref().unwrap_or("r"));
	let lit = Literal::usize_unsuffixed(n);
	if let syn::ReturnType::Type(_, t) = &mut sig.output {
		let inner = t.clone();
		**t = parse_quote!(vx_ret!(#lit, #inner));
	}
	if let Some(b) = block {
		if !texts.is_empty() {
			b.stmts.insert(0, parse_quote!(vx_marker!(#lit);));
		}
	}
	Some(n)
}

struct Rewriter<'c, 'a> {
	ctx: &'c mut Ctx<'a>,
	/// Closures that get a name before the statement.
	hoisted: Vec<Stmt>,
	/// Proof text for the end of the bodies of the enclosing loops.
	ends: Vec<Vec<Stmt>>,
}

fn loop_texts(spec: Option<&FnSpec>, n: usize, pos: Pos) -> Vec<Text> {
	spec.map(|s| {
		s.anchors
			.iter()
			.filter(|(a, _)| *a == Anchor::Loop(n, pos.clone()))
			.map(|(_, t)| t.clone())
			.collect()
	})
	.unwrap_or_default()
}

impl Rewriter<'_, '_> {
	fn loop_begin(&mut self) -> usize {
		let n = self.ctx.loops;
		self.ctx.loops += 1;
		self.ctx.used_loops.push(n);
		n
	}

	/// Markers for a loop: (spec at the start of the body, begin, end).
	fn loop_marks(&mut self, n: usize) -> (Option<Stmt>, Vec<Stmt>, Vec<Stmt>, Vec<Stmt>, Vec<Stmt>) {
		let spec = self.ctx.spec.cloned();
		let inv = spec.as_ref().and_then(|s| s.loops.get(&n).cloned());
		let inv = inv.map(|t| self.ctx.marker_stmt(t));
		let mut m = |p: Pos| -> Vec<Stmt> {
			let t = loop_texts(spec.as_ref(), n, p);
			if t.is_empty() {
				vec![]
			} else {
				vec![self.ctx.marker_stmt(t)]
			}
		};
		let begin = m(Pos::BodyBegin);
		let end = m(Pos::BodyEnd);
		let before = m(Pos::Before);
		let after = m(Pos::After);
		(inv, begin, end, before, after)
	}

	fn touch(&mut self, mac: &syn::Macro) -> Expr {
		// trace!("...", a, b): the arguments are still evaluated.
		let args = mac
			.parse_body_with(syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated)
			.map(|p| p.into_iter().skip(1).collect::<Vec<_>>())
			.unwrap_or_default();
		let mut stmts: Vec<Stmt> = vec![];
		for mut a in args {
			self.visit_expr_mut(&mut a);
			if inert(&a) {
				continue;
			}
			stmts.push(parse_quote!(let _ = #a;));
		}
		parse_quote!({ #(#stmts)* })
	}

	fn panic(&mut self, stmt: bool) -> Expr {
		let n = self.ctx.panics;
		self.ctx.panics += 1;
		if let Some(t) = self.ctx.spec.and_then(|s| s.panics.get(&n)).cloned() {
			self.ctx.used_panics.push(n);
			let mut t = t;
			let ty = if stmt { "::<()>" } else { "" };
			t.lines.insert(0, format!("crate::vx::documented_panic{ty}(Ghost("));
			t.lines.push(if stmt { "));".into() } else { "))".into() });
			let n = Literal::usize_unsuffixed(self.ctx.slot(vec![t], "r"));
			return parse_quote!({ vx_marker!(#n); });
		}
		if stmt {
			parse_quote!(crate::vx::vpanic::<()>())
		} else {
			parse_quote!(crate::vx::vpanic())
		}
	}

	fn macro_expr(&mut self, mac: &syn::Macro, stmt: bool) -> Option<Expr> {
		let name = mac.path.segments.last().unwrap().ident.to_string();
		let parse = || mac.parse_body_with(syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated).ok();
		match name.as_str() {
			"trace" | "debug" | "info" | "warn" | "error" => Some(self.touch(mac)),
			"panic" | "unreachable" | "todo" | "unimplemented" => Some(self.panic(stmt)),
			"assert" | "debug_assert" => {
				let args = parse()?;
				let mut c = args.first()?.clone();
				self.visit_expr_mut(&mut c);
				let p = self.panic(true);
				if name.starts_with("debug") {
					return Some(parse_quote!(if crate::vx::debug_assertions() { if !(#c) { #p; } }));
				}
				Some(parse_quote!(if !(#c) { #p; }))
			},
			"assert_eq" | "debug_assert_eq" | "assert_ne" | "debug_assert_ne" => {
				let args = parse()?;
				let mut a = args.first()?.clone();
				let mut b = args.iter().nth(1)?.clone();
				self.visit_expr_mut(&mut a);
				self.visit_expr_mut(&mut b);
				let p = self.panic(true);
				let check: Expr = if name.ends_with("_eq") {
					parse_quote!(if !((#a) == (#b)) { #p; })
				} else {
					parse_quote!(if (#a) == (#b) { #p; })
				};
				if name.starts_with("debug") {
					return Some(parse_quote!(if crate::vx::debug_assertions() { #check }));
				}
				Some(check)
			},
			"module_path" => Some(parse_quote!("module")),
			"matches" => {
				// matches!(value, pattern if guard)
				let p = |input: syn::parse::ParseStream| {
					let value: Expr = input.parse()?;
					input.parse::<syn::Token![,]>()?;
					let pat = Pat::parse_multi_with_leading_vert(input)?;
					let guard: Option<Expr> = if input.peek(syn::Token![if]) {
						input.parse::<syn::Token![if]>()?;
						Some(input.parse()?)
					} else {
						None
					};
					let _ = input.parse::<Option<syn::Token![,]>>()?;
					Ok((value, pat, guard))
				};
				let (mut value, pat, guard) = mac.parse_body_with(p).ok()?;
				self.visit_expr_mut(&mut value);
				self.ctx.notes.push("matches! -> match".into());
				Some(match guard {
					Some(mut g) => {
						self.visit_expr_mut(&mut g);
						parse_quote!((match #value { #pat if #g => true, _ => false }))
					},
					None => parse_quote!((match #value { #pat => true, _ => false })),
				})
			},
			_ => None,
		}
	}

	fn for_loop(&mut self, f: &mut syn::ExprForLoop) -> Expr {
		let n = self.loop_begin();
		let kind = self.ctx.spec.and_then(|s| s.loop_kind.get(&n)).cloned();
		let i = format_ident!("vx_i{}", n);
		let s = format_ident!("vx_s{}", n);
		let e = format_ident!("vx_end{}", n);
		let pat = (*f.pat).clone();
		let mut expr = (*f.expr).clone();
		self.visit_expr_mut(&mut expr);
		let (inv, begin, end, before, after) = self.loop_marks(n);
		let mut body = f.body.clone();
		self.ends.push(end.clone());
		self.visit_block_mut(&mut body);
		self.ends.pop();
		let stmts = body.stmts;
		let label = f.label.clone();
		// Ranges.
		let unparen = strip_paren(expr.clone());
		if let Expr::Range(r) = &unparen {
			let a = r.start.clone().map(|x| *x).unwrap_or_else(|| parse_quote!(0));
			if let Some(b) = r.end.clone() {
				self.ctx.notes.push(format!("for over a range -> while (loop {n})"));
				let cond: Expr = match r.limits {
					syn::RangeLimits::HalfOpen(_) => parse_quote!(#i < #e),
					syn::RangeLimits::Closed(_) => {
						self.ctx.lost.push(format!("inclusive range in loop {n}"));
						parse_quote!(#i <= #e)
					},
				};
				return parse_quote!({
					let mut #i = #a;
					let #e = #b;
					#(#before)*
					#label while #cond {
						#inv
						#(#begin)*
						let #pat = #i;
						#i = #i + 1;
						#(#stmts)*
						#(#end)*
					}
					#(#after)*
				});
			}
		}
		// Own iterator types.
		if kind.as_deref() == Some("iter") || kind.as_deref() == Some("iter-enumerate") {
			self.ctx.notes.push(format!("for over an iterator -> loop with next() (loop {n})"));
			let it = format_ident!("vx_it{}", n);
			let mut src = strip_paren(expr.clone());
			let mut enumerated = false;
			if let Expr::MethodCall(m) = &src {
				if m.method == "enumerate" {
					enumerated = true;
					src = (*m.receiver).clone();
				}
			}
			if enumerated {
				let (p0, p1) = match &pat {
					Pat::Tuple(t) if t.elems.len() == 2 => (t.elems[0].clone(), t.elems[1].clone()),
					_ => {
						self.ctx.lost.push(format!("pattern of loop {n}"));
						(pat.clone(), pat.clone())
					},
				};
				return parse_quote!({
					let mut #it = #src;
					let mut #i: usize = 0;
					#(#before)*
					#label loop {
						#inv
						#(#begin)*
						match #it.next() {
							None => break,
							Some(vx_item) => {
								let #p1 = vx_item;
								let #p0 = #i;
								#i = #i + 1;
								#(#stmts)*
								#(#end)*
							}
						}
					}
					#(#after)*
				});
			}
			return parse_quote!({
				let mut #it = #src;
				#(#before)*
				#label loop {
					#inv
					#(#begin)*
					match #it.next() {
						None => break,
						Some(vx_item) => {
							let #pat = vx_item;
							#(#stmts)*
							#(#end)*
						}
					}
				}
				#(#after)*
			});
		}
		// Slices: `x.iter()`, `x.iter().enumerate()`, `&x`, `x`.
		let mut src = strip_paren(expr.clone());
		let mut enumerated = false;
		if let Expr::MethodCall(m) = &src {
			if m.method == "enumerate" {
				enumerated = true;
				src = strip_paren((*m.receiver).clone());
			}
		}
		let mut by_mut = matches!(&src, Expr::Reference(r) if r.mutability.is_some());
		if let Expr::MethodCall(m) = &src {
			if m.method == "iter" {
				src = strip_paren((*m.receiver).clone());
			} else if m.method == "iter_mut" {
				by_mut = true;
				let r = strip_paren((*m.receiver).clone());
				src = if matches!(&r, Expr::Index(_)) { parse_quote!(&mut #r) } else { parse_quote!(&mut #r[..]) };
			}
		}
		let src: Expr = match &src {
			Expr::Reference(r) if r.mutability.is_none() => src.clone(),
			_ => src.clone(),
		};
		self.ctx.notes.push(format!("for over a slice -> while with an index (loop {n})"));
		let (idx, elem) = if enumerated {
			match &pat {
				Pat::Tuple(t) if t.elems.len() == 2 => (Some(t.elems[0].clone()), t.elems[1].clone()),
				_ => {
					self.ctx.lost.push(format!("pattern of loop {n}"));
					(None, pat.clone())
				},
			}
		} else {
			(None, pat.clone())
		};
		let idx_stmt: Option<Stmt> = idx.map(|p| parse_quote!(let #p = #i;));
		let elem_stmt: Stmt = match &elem {
			Pat::Reference(r) => {
				let p = &r.pat;
				parse_quote!(let #p = #s[#i];)
			},
			p if by_mut => parse_quote!(let #p = &mut #s[#i];),
			p => parse_quote!(let #p = &#s[#i];),
		};
		let src_ref: Expr = match &src {
			Expr::Reference(_) => src.clone(),
			Expr::Index(_) => parse_quote!(&#src),
			_ => parse_quote!((#src).vx_slice()),
		};
		parse_quote!({
			let #s = #src_ref;
			let mut #i: usize = 0;
			#(#before)*
			#label while #i < #s.len() {
				#inv
				#(#begin)*
				#idx_stmt
				#elem_stmt
				#i = #i + 1;
				#(#stmts)*
				#(#end)*
			}
			#(#after)*
		})
	}
}

pub fn strip_paren(e: Expr) -> Expr {
	match e {
		Expr::Paren(p) => strip_paren(*p.expr),
		Expr::Group(p) => strip_paren(*p.expr),
		e => e,
	}
}

impl VisitMut for Rewriter<'_, '_> {
	fn visit_item_const_mut(&mut self, c: &mut syn::ItemConst) {
		self.visit_expr_mut(&mut c.expr);
	}
	fn visit_block_mut(&mut self, b: &mut Block) {
		let stmts = std::mem::take(&mut b.stmts);
		let outer = std::mem::take(&mut self.hoisted);
		for mut s in stmts {
			match &mut s {
				Stmt::Macro(m) if !m.mac.path.is_ident("vx_marker") => {
					let mac = m.mac.clone();
					match self.macro_expr(&mac, true).map(|mut x| {
						Types.visit_expr_mut(&mut x);
						x
					}) {
						Some(e) => b.stmts.push(Stmt::Expr(e, Some(Default::default()))),
						None => {
							self.ctx.lost.push(format!("macro {}", mac.path.to_token_stream()));
							b.stmts.push(s);
						},
					}
					continue;
				},
				Stmt::Item(syn::Item::Use(_)) => {
					// `use core::borrow::Borrow` and the like inside functions.
					self.ctx.notes.push("local use dropped".into());
					continue;
				},
				_ => {},
			}
			self.visit_stmt_mut(&mut s);
			b.stmts.append(&mut self.hoisted);
			b.stmts.push(s);
		}
		self.hoisted = outer;
	}

	fn visit_expr_mut(&mut self, e: &mut Expr) {
		match e {
			Expr::ForLoop(f) => {
				let mut f = f.clone();
				*e = self.for_loop(&mut f);
				return;
			},
			Expr::Match(m) if m.arms.iter().any(|a| matches!(&a.pat, Pat::Reference(_)) && a.guard.is_none()) => {
				// `&P(x) => body` is `P(x) => { let x = *x; body }`: the bindings are Copy.
				for a in m.arms.iter_mut().filter(|a| a.guard.is_none()) {
					if let Pat::Reference(r) = &a.pat {
						let mut names = Vec::new();
						collect_pat(&r.pat, &mut names);
						names.retain(|n| n.starts_with(|c: char| c.is_lowercase() || c == '_'));
						let names: Vec<syn::Ident> = names.iter().map(|n| syn::Ident::new(n, proc_macro2::Span::call_site())).collect();
						let body = &a.body;
						let body: Expr = parse_quote!({ #(let #names = *#names;)* #body });
						*a.body = body;
						a.pat = (*r.pat).clone();
					}
				}
				self.ctx.notes.push("reference pattern of a match arm -> its inside, with the bindings dereferenced".into());
			},
			Expr::Continue(c) if c.label.is_none() => {
				if let Some(end) = self.ends.last().filter(|e| !e.is_empty()) {
					*e = parse_quote!({ #(#end)* #c });
				}
				return;
			},
			Expr::While(w) => {
				let n = self.loop_begin();
				let (inv, begin, end, before, after) = self.loop_marks(n);
				self.visit_expr_mut(&mut w.cond);
				self.ends.push(end.clone());
				self.visit_block_mut(&mut w.body);
				self.ends.pop();
				let stmts = std::mem::take(&mut w.body.stmts);
				w.body.stmts = inv.into_iter().chain(begin).chain(stmts).chain(end).collect();
				if !before.is_empty() || !after.is_empty() {
					let w = w.clone();
					*e = parse_quote!({ #(#before)* #w #(#after)* });
				}
				return;
			},
			Expr::Loop(w) => {
				let n = self.loop_begin();
				let (inv, begin, end, before, after) = self.loop_marks(n);
				self.ends.push(end.clone());
				self.visit_block_mut(&mut w.body);
				self.ends.pop();
				let stmts = std::mem::take(&mut w.body.stmts);
				w.body.stmts = inv.into_iter().chain(begin).chain(stmts).chain(end).collect();
				// `break value` -> assignment and `break`.
				let var = format_ident!("vx_break{}", n);
				let mut bv = BreakValue { label: w.label.as_ref().map(|l| l.name.clone()), var: var.clone(), depth: 0, found: 0 };
				bv.visit_block_mut(&mut w.body);
				if bv.found > 0 {
					self.ctx.notes.push(format!("break with a value -> assignment and break (loop {n})"));
					let w = w.clone();
					*e = parse_quote!({ let #var; #(#before)* #w #(#after)* #var });
				} else if !before.is_empty() || !after.is_empty() {
					let w = w.clone();
					*e = parse_quote!({ #(#before)* #w #(#after)* });
				}
				return;
			},
			Expr::Macro(m) if !m.mac.path.is_ident("vx_marker") => {
				let mac = m.mac.clone();
				match self.macro_expr(&mac, false) {
					Some(mut x) => {
						// The tokens of a macro were out of reach of this pass until now.
						Types.visit_expr_mut(&mut x);
						*e = x;
					},
					None => {
						let name = mac.path.to_token_stream().to_string().replace(' ', "");
						if name == "alloc::vec" || name == "vec" {
							// vec![x; n]
							if let Ok(r) = syn::parse2::<syn::ExprRepeat>({
								let t = &mac.tokens;
								quote!([#t])
							}) {
								let (a, b) = (r.expr, r.len);
								*e = parse_quote!(vstd::std_specs::vec::vec_from_elem(#a, #b));
								*e = parse_quote!(crate::vx::vec_from_elem());
								if let Expr::Call(c) = e {
									c.args.push(*a);
									c.args.push(*b);
								}
								return;
							}
						}
						self.ctx.lost.push(format!("macro {name}"));
					},
				}
				return;
			},
			Expr::Closure(c) => {
				let n = self.ctx.closures;
				self.ctx.closures += 1;
				self.closure(n, c);
				if self.ctx.spec.is_some_and(|s| s.hoists.contains(&n)) {
					let id = format_ident!("vx_f{}", n);
					let c = c.clone();
					self.hoisted.push(parse_quote!(let #id = #c;));
					*e = parse_quote!(#id);
				}
				return;
			},
			Expr::MethodCall(m) if m.method == "map_err" && m.args.len() == 1 => {
				self.visit_expr_mut(&mut m.receiver);
				let recv = &m.receiver;
				let arg = strip_paren(m.args[0].clone());
				self.ctx.notes.push("map_err -> match".into());
				*e = match arg {
					Expr::Closure(c) if c.inputs.len() == 1 => {
						if leaves(&c.body) {
							self.ctx.lost.push("map_err with a closure that returns".into());
						}
						self.ctx.used_closures.push(self.ctx.closures);
						self.ctx.closures += 1;
						let p = pat_of(&c.inputs[0]);
						let mut b = (*c.body).clone();
						self.visit_expr_mut(&mut b);
						parse_quote!((match #recv { Ok(vx_v) => Ok(vx_v), Err(vx_e) => { let #p = vx_e; Err(#b) } }))
					},
					f => parse_quote!((match #recv { Ok(vx_v) => Ok(vx_v), Err(vx_e) => Err(#f(vx_e)) })),
				};
				return;
			},
			Expr::Repeat(r) if uninit(&r.expr) => {
				self.ctx.notes.push("array of uninitialised slots -> vxm::uninit_array".into());
				*e = parse_quote!(crate::vxm::uninit_array());
				return;
			},
			Expr::MethodCall(m) if m.method == "get_unchecked_mut" && m.args.len() == 1 => {
				self.visit_expr_mut(&mut m.receiver);
				self.visit_expr_mut(&mut m.args[0]);
				self.ctx.notes.push("get_unchecked_mut -> &mut of the element, in bounds".into());
				let (r, i) = (&m.receiver, &m.args[0]);
				*e = parse_quote!((&mut #r[#i]));
				return;
			},
			Expr::MethodCall(m) if combinator(m).is_some() => {
				self.visit_expr_mut(&mut m.receiver);
				let recv = (*m.receiver).clone();
				let Expr::Closure(c) = strip_paren(m.args[0].clone()) else { unreachable!() };
				if leaves(&c.body) {
					self.ctx.lost.push(format!("{} with a closure that returns", m.method));
				}
				self.ctx.used_closures.push(self.ctx.closures);
				self.ctx.closures += 1;
				self.ctx.notes.push(format!("{} -> match", m.method));
				let p = c.inputs.first().map(pat_of).unwrap_or_else(|| parse_quote!(_));
				let mut b = (*c.body).clone();
				self.visit_expr_mut(&mut b);
				*e = match combinator(m).unwrap() {
					"ok_or_else" => parse_quote!((match #recv { Some(vx_v) => Ok(vx_v), None => Err(#b) })),
					"option or" => parse_quote!((match #recv { Some(vx_v) => vx_v, None => #b })),
					"result or" => parse_quote!((match #recv { Ok(vx_v) => vx_v, Err(vx_e) => { let #p = vx_e; #b } })),
					"is_some_and" => parse_quote!((match #recv { Some(vx_v) => { let #p = vx_v; #b }, None => false })),
					"is_none_or" => parse_quote!((match #recv { Some(vx_v) => { let #p = vx_v; #b }, None => true })),
					"is_ok_and" => parse_quote!((match #recv { Ok(vx_v) => { let #p = vx_v; #b }, Err(_) => false })),
					"is_err_and" => parse_quote!((match #recv { Ok(_) => false, Err(vx_e) => { let #p = vx_e; #b } })),
					"option or else" => parse_quote!((match #recv { Some(vx_v) => Some(vx_v), None => #b })),
					_ => parse_quote!((match #recv { Ok(vx_v) => Ok(vx_v), Err(vx_e) => { let #p = vx_e; #b } })),
				};
				return;
			},
			Expr::MethodCall(m) if m.method == "inspect_err" && m.args.len() == 1 => {
				self.visit_expr_mut(&mut m.receiver);
				let recv = &m.receiver;
				let arg = strip_paren(m.args[0].clone());
				self.ctx.notes.push("inspect_err -> match".into());
				if let Expr::Closure(c) = arg {
					if leaves(&c.body) {
						self.ctx.lost.push("inspect_err with a closure that returns".into());
					}
					self.ctx.used_closures.push(self.ctx.closures);
					self.ctx.closures += 1;
					let p = pat_of(&c.inputs[0]);
					let mut b = (*c.body).clone();
					self.visit_expr_mut(&mut b);
					*e = parse_quote!((match #recv { Ok(vx_v) => Ok(vx_v), Err(vx_e) => { let #p = &vx_e; #b; Err(vx_e) } }));
				}
				return;
			},
			Expr::MethodCall(m) if m.method == "to_le_bytes" => {
				m.method = format_ident!("vx_to_le_bytes");
				self.ctx.notes.push("to_le_bytes -> vx::LeNum".into());
			},
			Expr::MethodCall(m) if (m.method == "to_owned" || m.method == "to_vec") && m.args.is_empty() => {
				m.method = format_ident!("vx_to_vec");
				self.ctx.notes.push("to_owned/to_vec -> vx::VxToVec".into());
			},
			Expr::MethodCall(m) if m.method == "unwrap" => {
				// X[a..b].try_into().unwrap(): a slice as an array.
				if let Expr::MethodCall(inner) = &*m.receiver {
					if inner.method == "try_into" {
						if let Expr::Index(_) = strip_paren((*inner.receiver).clone()) {
							let mut r = inner.receiver.clone();
							self.visit_expr_mut(&mut r);
							self.ctx.notes.push("slice.try_into().unwrap() -> slice_to_array".into());
							*e = parse_quote!(crate::vx::slice_to_array(&#r));
							return;
						}
					}
				}
			},
			Expr::Binary(b) if matches!(b.op, syn::BinOp::Eq(_) | syn::BinOp::Ne(_)) && (is_slice(&b.left, &self.ctx.slices) || is_slice(&b.right, &self.ctx.slices)) => {
				self.visit_expr_mut(&mut b.left);
				self.visit_expr_mut(&mut b.right);
				self.ctx.notes.push("== of slices -> vx::slice_eq".into());
				let (l, r) = (strip_ref(strip_paren((*b.left).clone())), strip_ref(strip_paren((*b.right).clone())));
				let eq: Expr = parse_quote!(crate::vx::slice_eq((#l).vx_slice(), (#r).vx_slice()));
				*e = if matches!(b.op, syn::BinOp::Eq(_)) { eq } else { parse_quote!(!#eq) };
				return;
			},
			Expr::Try(t) => {
				self.visit_expr_mut(&mut t.expr);
				let n = self.ctx.tries;
				self.ctx.tries += 1;
				let texts: Vec<Text> = self
					.ctx
					.spec
					.map(|s| s.anchors.iter().filter(|(a, _)| *a == Anchor::Try(n)).map(|(_, t)| t.clone()).collect())
					.unwrap_or_default();
				let inner = &t.expr;
				let marker: Vec<Stmt> = if texts.is_empty() {
					vec![]
				} else {
					self.ctx.used_tries.push(n);
					vec![self.ctx.marker_stmt(texts)]
				};
				*e = if self.ctx.ret_option {
					parse_quote!((match #inner { Some(vx_v) => vx_v, None => { #(#marker)* return None; } }))
				} else {
					parse_quote!((match #inner { Ok(vx_v) => vx_v, Err(vx_e) => { #(#marker)* return Err(crate::vx::try_err(vx_e)); } }))
				};
				return;
			},
			Expr::MethodCall(m) if m.method == "parse" && m.args.is_empty() => {
				let (r, g) = (&m.receiver, &m.turbofish);
				*e = parse_quote!(crate::vxcli::parse #g (#r));
			},
			Expr::MethodCall(m) if m.method == "as_deref" && m.args.is_empty() => {
				let r = &m.receiver;
				*e = parse_quote!(crate::vxcli::as_deref(&(#r)));
			},
			Expr::MethodCall(m) if m.method == "starts_with" && m.args.len() == 1 => {
				self.visit_expr_mut(&mut m.receiver);
				self.visit_expr_mut(&mut m.args[0]);
				self.ctx.notes.push("starts_with -> vx::slice_starts_with".into());
				let (l, r) = (strip_ref(strip_paren((*m.receiver).clone())), strip_ref(strip_paren(m.args[0].clone())));
				*e = parse_quote!(crate::vx::slice_starts_with((#l).vx_slice(), (#r).vx_slice()));
				return;
			},
			Expr::Call(c) => {
				if let Some((x, field)) = read_out(c) {
					self.ctx.notes.push("ptr::read of slots -> vxm::read_out".into());
					*e = parse_quote!(crate::vxm::read_out(#x.inner.#field));
					return;
				}
				if let Some(n) = size_of(c) {
					self.ctx.notes.push("size_of of an integer type -> its value".into());
					let n = Literal::usize_suffixed(n);
					*e = parse_quote!(#n);
					return;
				}
				if let Expr::Path(p) = &*c.func {
					let s = p.to_token_stream().to_string().replace(' ', "");
					if s == "core::borrow::Borrow::borrow" {
						self.ctx.notes.push("Borrow::borrow -> vx::borrow_bytes".into());
						*c.func = parse_quote!(crate::vx::borrow_bytes);
					}
					if s == "Self::from_le_bytes" {
						self.ctx.notes.push("from_le_bytes -> vx::LeNum".into());
						*c.func = parse_quote!(Self::vx_from_le_bytes);
					}
					let k = self.ctx.via_seen.entry(s.clone()).or_default();
					let key = (s, *k);
					*k += 1;
					if let Some(w) = self.ctx.spec.and_then(|s| s.vias.get(&key)).cloned() {
						let w: Expr = syn::parse_str(&w).expect("path of a wrapper");
						self.ctx.notes.push(format!("call of {} through {}", key.0, w.to_token_stream()).replace(' ', ""));
						self.ctx.used_vias.push(key);
						let f = (*c.func).clone();
						*c.func = w;
						c.args.insert(0, f);
					}
				}
			},
			Expr::Unsafe(u) => {
				// The borrow checker workaround: unsafe { &mut *(&mut X as *mut _) }.
				if u.block.stmts.len() == 1 {
					if let Stmt::Expr(x, None) = &u.block.stmts[0] {
						if let Some(inner) = polonius(x) {
							self.ctx.notes.push("unsafe borrow checker workaround -> plain reborrow".into());
							*e = inner;
							return;
						}
					}
				}
			},
			_ => {},
		}
		syn::visit_mut::visit_expr_mut(self, e);
	}
}

/// `x[a..b]`
fn is_slice(e: &Expr, names: &[String]) -> bool {
	match e {
		Expr::Paren(p) => is_slice(&p.expr, names),
		Expr::Reference(r) => is_slice(&r.expr, names),
		Expr::Path(p) => p.path.get_ident().is_some_and(|x| names.contains(&x.to_string())),
		Expr::Index(i) => matches!(strip_paren((*i.index).clone()), Expr::Range(_)),
		_ => false,
	}
}

fn strip_ref(e: Expr) -> Expr {
	match e {
		Expr::Reference(r) => strip_ref(strip_paren(*r.expr)),
		e => e,
	}
}

/// `size_of::<T>()` for the primitive integer types.
fn size_of(c: &syn::ExprCall) -> Option<usize> {
	let s = c.to_token_stream().to_string().replace(' ', "");
	let s = s.strip_prefix("::").unwrap_or(&s);
	let s = s.strip_prefix("core::").or(s.strip_prefix("std::")).unwrap_or(s);
	let s = s.strip_prefix("mem::").unwrap_or(s);
	let t = s.strip_prefix("size_of::<")?.strip_suffix(">()")?;
	Some(match t {
		"u8" | "i8" => 1,
		"u16" | "i16" => 2,
		"u32" | "i32" => 4,
		"u64" | "i64" => 8,
		"u128" | "i128" => 16,
		_ => return None,
	})
}

/// Replace `Self` by the type.
pub struct SelfType(pub syn::Type);

impl VisitMut for SelfType {
	fn visit_type_mut(&mut self, t: &mut syn::Type) {
		if t.to_token_stream().to_string() == "Self" {
			*t = self.0.clone();
			return;
		}
		syn::visit_mut::visit_type_mut(self, t);
	}
}

struct BreakValue {
	label: Option<syn::Lifetime>,
	var: syn::Ident,
	depth: usize,
	found: usize,
}

impl VisitMut for BreakValue {
	fn visit_expr_mut(&mut self, e: &mut Expr) {
		match e {
			Expr::Loop(_) | Expr::While(_) | Expr::ForLoop(_) => {
				self.depth += 1;
				syn::visit_mut::visit_expr_mut(self, e);
				self.depth -= 1;
				return;
			},
			Expr::Closure(_) => return,
			Expr::Break(b) if b.expr.is_some() => {
				let mine = match &b.label {
					None => self.depth == 0,
					Some(l) => self.label.as_ref() == Some(l),
				};
				if mine {
					let (v, x, l) = (&self.var, b.expr.clone().unwrap(), &b.label);
					self.found += 1;
					*e = parse_quote!({ #v = #x; break #l; });
					return;
				}
			},
			_ => {},
		}
		syn::visit_mut::visit_expr_mut(self, e);
	}
}

fn polonius(e: &Expr) -> Option<Expr> {
	let Expr::Reference(r) = e else { return None };
	let Expr::Unary(u) = strip_paren((*r.expr).clone()) else { return None };
	let Expr::Cast(c) = strip_paren((*u.expr).clone()) else { return None };
	let inner = strip_paren((*c.expr).clone());
	match &inner {
		Expr::Reference(x) if x.mutability.is_some() == r.mutability.is_some() => Some(inner),
		_ => None,
	}
}

fn pat_of(p: &Pat) -> Pat {
	match p {
		Pat::Type(t) => (*t.pat).clone(),
		p => p.clone(),
	}
}

impl Rewriter<'_, '_> {
	fn closure(&mut self, n: usize, c: &mut syn::ExprClosure) {
		let spec = self.ctx.spec.cloned();
		// Parameters: `_` gets a name, all get a type.
		let mut names = vec![];
		for (i, p) in c.inputs.iter_mut().enumerate() {
			if let Pat::Wild(_) = pat_of(p) {
				let id = format_ident!("vx_p{}", i);
				*p = parse_quote!(#id);
			}
			if !matches!(p, Pat::Type(_)) {
				let q = p.clone();
				*p = Pat::Type(parse_quote!(#q: &mut [u8]));
			}
			if let Pat::Type(t) = p {
				if let Pat::Ident(i) = &*t.pat {
					names.push(i.ident.to_string());
				}
			}
		}
		let outer = self.ctx.ret_option;
		self.ctx.ret_option = is_option(&c.output);
		self.visit_expr_mut(&mut c.body);
		self.ctx.ret_option = outer;
		if matches!(c.output, syn::ReturnType::Default) {
			c.output = parse_quote!(-> Result<(), crate::error::BufferTooSmallError>);
		}
		if !matches!(&*c.body, Expr::Block(_)) {
			let b = c.body.clone();
			*c.body = parse_quote!({ #b });
		}
		let texts = match spec.as_ref().and_then(|s| s.closures.get(&n)) {
			Some((_, t)) => {
				self.ctx.used_closures.push(n);
				t.clone()
			},
			None => return,
		};
		// In closure texts, `$0`, `$1` are the parameters.
		let texts: Vec<Text> = texts
			.into_iter()
			.map(|mut t| {
				for l in &mut t.lines {
					for (i, nm) in names.iter().enumerate() {
						*l = l.replace(&format!("${i}"), nm);
					}
				}
				t
			})
			.collect();
		let slot = Literal::usize_unsuffixed(self.ctx.slot(texts, "r"));
		if let syn::ReturnType::Type(_, t) = &mut c.output {
			let inner = t.clone();
			**t = parse_quote!(vx_ret!(#slot, #inner));
		}
		if let Expr::Block(b) = &mut *c.body {
			b.block.stmts.insert(0, parse_quote!(vx_marker!(#slot);));
		}
	}
}

// ---------------------------------------------------------------- types

pub struct Types;

impl VisitMut for Types {
	fn visit_path_mut(&mut self, p: &mut syn::Path) {
		syn::visit_mut::visit_path_mut(self, p);
		let s = p.to_token_stream().to_string().replace(' ', "");
		if let Some(n) = external(&s) {
			*p = syn::parse_str(&n).unwrap();
			return;
		}
		if s.starts_with("alloc::vec::Vec") || s.starts_with("std::vec::Vec") {
			let last = p.segments.last().unwrap().clone();
			*p = parse_quote!(#last);
		}
		if s.starts_with("core::marker::PhantomData") || s.starts_with("PhantomData<fn()->") {
			if let syn::PathArguments::AngleBracketed(a) = &mut p.segments.last_mut().unwrap().arguments {
				for a in a.args.iter_mut() {
					if let syn::GenericArgument::Type(syn::Type::BareFn(f)) = a {
						if let syn::ReturnType::Type(_, t) = &f.output {
							let t = (**t).clone();
							*a = syn::GenericArgument::Type(t);
						}
					}
				}
			}
		}
	}

	fn visit_type_impl_trait_mut(&mut self, t: &mut syn::TypeImplTrait) {
		t.bounds = bounds(&t.bounds);
		syn::visit_mut::visit_type_impl_trait_mut(self, t);
	}

	fn visit_generics_mut(&mut self, g: &mut syn::Generics) {
		for p in g.params.iter_mut() {
			if let syn::GenericParam::Type(t) = p {
				t.default = None;
				t.eq_token = None;
				t.bounds = bounds(&t.bounds);
			}
		}
		if let Some(w) = &mut g.where_clause {
			let preds = std::mem::take(&mut w.predicates);
			for mut p in preds {
				if let syn::WherePredicate::Type(t) = &mut p {
					let subject = t.bounded_ty.to_token_stream().to_string().replace(' ', "");
					let bs = t.bounds.to_token_stream().to_string().replace(' ', "");
					// `[u8]: Borrow<T>` is a property of T.
					if subject == "[u8]" && bs.contains("Borrow<") {
						let inner = bs.split("Borrow<").nth(1).unwrap().trim_end_matches('>').to_string();
						let id: syn::Type = syn::parse_str(&inner).unwrap();
						w.predicates.push(parse_quote!(#id: crate::vx::BorrowBytes));
						continue;
					}
					if let Some(own) = iter_bounds(&subject, &bs) {
						if let Some(x) = own {
							w.predicates.push(x);
						}
						continue;
					}
					t.bounds = bounds(&t.bounds);
					if t.bounds.is_empty() {
						continue;
					}
				}
				w.predicates.push(p);
			}
			if w.predicates.is_empty() {
				g.where_clause = None;
			}
		}
		syn::visit_mut::visit_generics_mut(self, g);
	}
}

/// Paths of the standard library and of serial2 that have an interface in the contracts.
pub fn external(s: &str) -> Option<String> {
	const MAP: &[(&str, &str)] = &[
		("core::time::Duration", "crate::vx::Duration"),
		("std::time::Duration", "crate::vx::Duration"),
		("std::time::Instant", "crate::vxs::Instant"),
		("std::time::{Duration,Instant}", "crate::vxs::{Duration,Instant}"),
		("std::io", "crate::vxs::io"),
		("core::mem::MaybeUninit", "crate::vxm::MaybeUninit"),
		("std::mem::MaybeUninit", "crate::vxm::MaybeUninit"),
		("core::mem::ManuallyDrop", "crate::vxm::ManuallyDrop"),
		("std::mem::ManuallyDrop", "crate::vxm::ManuallyDrop"),
		("core::mem::{ManuallyDrop,MaybeUninit}", "crate::vxm::{ManuallyDrop,MaybeUninit}"),
		("std::mem::{ManuallyDrop,MaybeUninit}", "crate::vxm::{ManuallyDrop,MaybeUninit}"),
		("serial2", "crate::vxs::serial2"),
		("dynamixel2::Client", "crate::vxcli::Client"),
		("dynamixel2", "crate"),
		("logging", "crate::vxcli::logging"),
		("clap_complete", "crate::vxcli::clap_complete"),
		("std::path", "crate::vxcli::path"),
	];
	for (a, b) in MAP {
		if let Some(rest) = s.strip_prefix(a) {
			if rest.is_empty() || rest.starts_with("::") {
				return Some(format!("{b}{rest}"));
			}
		}
	}
	None
}

/// Iterator bounds of the multi-motor writes, by the crate's own traits.
fn iter_bounds(subject: &str, bounds: &str) -> Option<Option<syn::WherePredicate>> {
	if let Some(item) = bounds.strip_prefix("IntoIterator<Item=") {
		let item = item.trim_end_matches('>');
		let s: syn::Type = syn::parse_str(subject).ok()?;
		let i: syn::Type = syn::parse_str(item).ok()?;
		return Some(Some(parse_quote!(#s: crate::vx::Items<Item = #i>)));
	}
	if subject.ends_with("::IntoIter") && bounds == "ExactSizeIterator" {
		return Some(None);
	}
	if subject.starts_with("&'a") && bounds == "IntoIterator" {
		let s: syn::Type = syn::parse_str(subject.trim_start_matches("&'a")).ok()?;
		return Some(Some(parse_quote!(#s: crate::vx::RefItems<BulkWriteData<D>>)));
	}
	if subject.contains("asIntoIterator>::") {
		return Some(None);
	}
	None
}

fn bounds(
	b: &syn::punctuated::Punctuated<syn::TypeParamBound, syn::Token![+]>,
) -> syn::punctuated::Punctuated<syn::TypeParamBound, syn::Token![+]> {
	let mut out = syn::punctuated::Punctuated::new();
	let strs: Vec<String> = b.iter().map(|x| x.to_token_stream().to_string().replace(' ', "")).collect();
	let both = strs.iter().any(|s| s == "AsRef<[u8]>") && strs.iter().any(|s| s == "AsMut<[u8]>");
	for (x, s) in b.iter().zip(&strs) {
		let s = s.as_str();
		match s {
			"AsRef<[u8]>" if both => out.push(parse_quote!(crate::vx::ByteBuf)),
			"AsMut<[u8]>" if both => {},
			"AsRef<[u8]>" => out.push(parse_quote!(crate::vx::ByteSrc)),
			"?Sized" => {},
			"AsRef<std::path::Path>" | "AsRef<Path>" => out.push(parse_quote!(crate::vxs::AsPath)),
			"for<'b>From<&'b[u8]>" => out.push(parse_quote!(crate::vx::FromBytes)),
			"From<&'a[u8]>" => out.push(parse_quote!(crate::vx::FromBytes)),
			_ if s.starts_with("AsRef<SyncWriteData<") => {
				let inner: syn::Type = syn::parse_str(s.strip_prefix("AsRef<").unwrap().strip_suffix('>').unwrap()).unwrap();
				out.push(parse_quote!(crate::vx::RefTo<#inner>));
			},
			_ if s.ends_with("fmt::Debug") => {},
			_ => out.push(x.clone()),
		}
	}
	out
}

pub fn tokens_of(b: &impl ToTokens) -> TokenStream {
	b.to_token_stream()
}
