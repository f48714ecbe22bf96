//! Token printer. Places the overlay texts at their markers and keeps track of output lines.
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};

#[derive(Clone, Debug)]
pub struct Line {
	pub func: String,
	pub kind: String,
	pub props: Vec<String>,
	pub origin: String,
	pub start: usize,
	pub end: usize,
}

pub struct Slot {
	pub func: String,
	pub texts: Vec<crate::overlay::Text>,
	pub rename: Vec<(String, String)>,
	/// Return value name for function specs.
	pub ret: String,
}

#[derive(Default)]
pub struct Printer {
	pub out: String,
	pub line: usize,
	pub indent: usize,
	at_start: bool,
	glue: bool,
	pub slots: Vec<Slot>,
	pub lines: Vec<Line>,
	/// (function, original line, output line)
	pub srcmap: Vec<(usize, usize)>,
	last_src: usize,
}

fn marker(v: &[TokenTree]) -> Option<usize> {
	// vx_marker ! ( N ) ;
	if v.len() < 3 {
		return None;
	}
	match (&v[0], &v[1], &v[2]) {
		(TokenTree::Ident(i), TokenTree::Punct(_), TokenTree::Group(g)) if i == "vx_marker" => {
			g.stream().to_string().trim().parse().ok()
		},
		_ => None,
	}
}

fn is_ident_char(c: char) -> bool {
	c.is_alphanumeric() || c == '_'
}

pub fn rename_words(line: &str, map: &[(String, String)]) -> String {
	if map.is_empty() {
		return line.to_string();
	}
	let mut out = String::new();
	let chars: Vec<char> = line.chars().collect();
	let mut i = 0;
	while i < chars.len() {
		if is_ident_char(chars[i]) {
			let s = i;
			while i < chars.len() && is_ident_char(chars[i]) {
				i += 1;
			}
			let w: String = chars[s..i].iter().collect();
			let field = s > 0 && chars[s - 1] == '.' && !(s > 1 && chars[s - 2] == '.');
			let path = i + 1 < chars.len() && chars[i] == ':' && chars[i + 1] == ':'
				|| s > 1 && chars[s - 1] == ':' && chars[s - 2] == ':';
			match map.iter().find(|(a, _)| *a == w) {
				Some((_, b)) if !field && !path => out.push_str(b),
				_ => out.push_str(&w),
			}
		} else {
			out.push(chars[i]);
			i += 1;
		}
	}
	out
}

impl Printer {
	pub fn new(slots: Vec<Slot>) -> Self {
		Self { line: 1, at_start: true, slots, ..Default::default() }
	}

	pub fn newline(&mut self) {
		if !self.at_start {
			self.out.push('\n');
			self.line += 1;
			self.at_start = true;
		}
		self.glue = false;
	}

	fn word(&mut self, s: &str) {
		if self.at_start {
			for _ in 0..self.indent {
				self.out.push('\t');
			}
			self.at_start = false;
		} else if !self.glue {
			self.out.push(' ');
		}
		self.glue = false;
		self.out.push_str(s);
	}

	pub fn raw(&mut self, text: &str) {
		self.newline();
		for l in text.lines() {
			self.out.push_str(l);
			self.out.push('\n');
			self.line += 1;
		}
		self.at_start = true;
	}

	fn src(&mut self, t: &TokenTree) {
		let l = t.span().start().line;
		if l != 0 && (l != self.last_src || self.at_start) {
			self.last_src = l;
			self.srcmap.push((self.line, l));
		}
	}

	fn emit_texts(&mut self, n: usize, kinds: &[&str]) {
		let slot = &self.slots[n];
		let texts: Vec<_> = slot.texts.iter().filter(|t| kinds.contains(&t.kind)).cloned().collect();
		let func = slot.func.clone();
		let rename = slot.rename.clone();
		if texts.is_empty() {
			return;
		}
		self.newline();
		let mut last_kind = "";
		for t in texts {
			if matches!(t.kind, "requires" | "ensures" | "decreases" | "returns") && t.kind != last_kind {
				self.raw(&format!("\t{}", t.kind));
			}
			last_kind = t.kind;
			let start = self.line;
			for l in &t.lines {
				let l = rename_words(l, &rename);
				self.raw(&format!("\t{l}"));
			}
			let end = self.line.max(start + 1) - 1;
			self.lines.push(Line {
				func: func.clone(),
				kind: t.kind.to_string(),
				props: t.props.clone(),
				origin: t.origin.clone(),
				start,
				end,
			});
		}
		self.newline();
	}

	pub fn emit(&mut self, n: usize) {
		self.emit_texts(n, &["requires", "ensures", "returns", "decreases"]);
	}

	pub fn tokens(&mut self, ts: TokenStream) {
		let v: Vec<TokenTree> = ts.into_iter().collect();
		let mut i = 0;
		while i < v.len() {
			if let Some(n) = marker(&v[i..]) {
				self.emit_texts(n, &["proof", "panic", "attr"]);
				i += 3;
				if let Some(TokenTree::Punct(p)) = v.get(i) {
					if p.as_char() == ';' {
						i += 1;
					}
				}
				continue;
			}
			if let (TokenTree::Ident(id), Some(TokenTree::Punct(_)), Some(TokenTree::Group(g))) = (&v[i], v.get(i + 1), v.get(i + 2)) {
				if id == "vx_ret" {
					// vx_ret!(N, Type)
					let inner: Vec<TokenTree> = g.stream().into_iter().collect();
					let n: usize = inner[0].to_string().parse().unwrap();
					let name = self.slots[n].ret.clone();
					self.word("(");
					self.glue = true;
					self.word(&name);
					self.glue = true;
					self.word(":");
					self.tokens(inner[2..].iter().cloned().collect());
					self.word(")");
					i += 3;
					continue;
				}
			}
			match &v[i] {
				TokenTree::Group(g) => {
					let inner: Vec<TokenTree> = g.stream().into_iter().collect();
					match g.delimiter() {
						Delimiter::Brace => {
							let mut start = 0;
							if let Some(n) = marker(&inner) {
								if self.slots[n].texts.iter().all(|t| t.kind != "proof" && t.kind != "panic") {
									self.emit_texts(n, &["requires", "ensures", "returns", "decreases", "loop", "closure"]);
									start = 4;
								}
							}
							self.word("{");
							self.indent += 1;
							if !inner.is_empty() {
								self.newline();
							}
							self.tokens(inner[start.min(inner.len())..].iter().cloned().collect());
							self.indent -= 1;
							if !inner.is_empty() {
								self.newline();
							}
							self.word("}");
							let next_glue = matches!(v.get(i + 1), Some(TokenTree::Punct(p)) if matches!(p.as_char(), '.' | '?' | ',' | ';' | ')'));
							let next_else = matches!(v.get(i + 1), Some(TokenTree::Ident(id)) if id == "else");
							if !next_glue && !next_else {
								self.newline();
							}
						},
						d => {
							let (a, b) = match d {
								Delimiter::Parenthesis => ("(", ")"),
								Delimiter::Bracket => ("[", "]"),
								_ => ("", ""),
							};
							if !a.is_empty() {
								self.glue = true;
								self.word(a);
								self.glue = true;
							}
							self.tokens(g.stream());
							if !b.is_empty() {
								self.glue = true;
								self.word(b);
							}
						},
					}
				},
				TokenTree::Punct(p) => {
					self.src(&v[i]);
					let c = p.as_char();
					if matches!(c, ',' | ';' | '?' | '.' | ':') {
						self.glue = self.glue || matches!(c, ',' | ';' | '?' | '.');
					}
					self.word(&c.to_string());
					if p.spacing() == Spacing::Joint || c == '\'' || c == '.' || c == '&' || c == '!' {
						self.glue = true;
					}
					if c == ';' {
						self.newline();
					}
				},
				t => {
					self.src(t);
					self.word(&t.to_string());
				},
			}
			i += 1;
		}
	}
}
