//! Parser for the contract overlay files (`*.vx`).
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
pub struct Text {
	/// Lines of Verus text.
	pub lines: Vec<String>,
	/// Properties that depend on this text (empty: the properties of the function).
	pub props: Vec<String>,
	/// `requires`, `ensures`, `decreases`, `loop`, `closure`, `proof`.
	pub kind: &'static str,
	/// Where the text was written.
	pub origin: String,
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Anchor {
	Begin,
	End,
	Loop(usize, Pos),
	Call(String, usize, bool),
	Let(String, usize, bool),
	Return(usize),
	/// The error path of the n-th `?`.
	Try(usize),
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Pos {
	Before,
	BodyBegin,
	BodyEnd,
	After,
}

#[derive(Clone, Debug, Default)]
pub struct FnSpec {
	pub path: String,
	pub origin: String,
	pub ret: Option<String>,
	pub props: Vec<String>,
	pub attrs: Vec<String>,
	pub spec: Vec<Text>,
	pub loops: BTreeMap<usize, Vec<Text>>,
	pub loop_kind: BTreeMap<usize, String>,
	pub closures: BTreeMap<usize, (String, Vec<Text>)>,
	pub anchors: Vec<(Anchor, Text)>,
	/// Ghost condition under which the n-th panic is documented behaviour.
	pub panics: BTreeMap<usize, Text>,
	pub drop_fn: bool,
	/// Calls of a function value made through a checked wrapper: (name, occurrence) -> wrapper.
	pub vias: BTreeMap<(String, usize), String>,
	/// Closures that get a name for proofs: `vx_fN`.
	pub hoists: Vec<usize>,
}

pub fn parse(file: &str, text: &str, out: &mut BTreeMap<String, FnSpec>) -> Result<(), String> {
	let mut cur: Option<FnSpec> = None;
	let mut section: Option<usize> = None; // marker only
	enum Sink {
		None,
		Spec(usize),
		Loop(usize, usize),
		Closure(usize, usize),
		Anchor(usize),
		Panic(usize),
	}
	let mut sink = Sink::None;
	let _ = &mut section;
	for (no, raw) in text.lines().enumerate() {
		let origin = format!("{}:{}", file, no + 1);
		let line = raw.trim_end();
		if line.starts_with("//") || (line.is_empty() && matches!(sink, Sink::None)) {
			continue;
		}
		if line.is_empty() {
			continue;
		}
		if let Some(rest) = line.strip_prefix("## fn ").or(line.strip_prefix("## ")) {
			if let Some(f) = cur.take() {
				out.insert(f.path.clone(), f);
			}
			cur = Some(FnSpec { path: rest.trim().to_string(), origin: origin.clone(), ..Default::default() });
			sink = Sink::None;
			continue;
		}
		let indented = raw.starts_with(' ') || raw.starts_with('\t');
		let f = cur.as_mut().ok_or_else(|| format!("{origin}: text before the first function"))?;
		if indented {
			let l = line.to_string();
			let t = match &sink {
				Sink::None => return Err(format!("{origin}: text without section")),
				Sink::Spec(i) => &mut f.spec[*i],
				Sink::Loop(n, i) => &mut f.loops.get_mut(n).unwrap()[*i],
				Sink::Closure(n, i) => &mut f.closures.get_mut(n).unwrap().1[*i],
				Sink::Anchor(i) => &mut f.anchors[*i].1,
				Sink::Panic(n) => f.panics.get_mut(n).unwrap(),
			};
			t.lines.push(l);
			continue;
		}
		let (line, props) = match (line.find('['), line.ends_with(']')) {
			(Some(i), true) => (
				line[..i].trim_end().to_string(),
				line[i + 1..line.len() - 1].split_whitespace().map(|x| x.to_string()).collect::<Vec<_>>(),
			),
			_ => (line.to_string(), vec![]),
		};
		let words: Vec<&str> = line.split_whitespace().collect();
		let text = |kind: &'static str| Text { lines: vec![], props: props.clone(), kind, origin: origin.clone() };
		let num = |s: &str| s.parse::<usize>().map_err(|_| format!("{origin}: bad number {s}"));
		match words[0] {
			"->" => {
				f.ret = Some(words[1].to_string());
				sink = Sink::None;
			},
			"props" => {
				f.props = words[1..].iter().map(|x| x.to_string()).collect();
				sink = Sink::None;
			},
			"attr" => {
				f.attrs.push(line["attr ".len()..].to_string());
				// Attributes contain brackets themselves.
				if line.ends_with("#") {
					return Err(format!("{origin}: write attributes without brackets: attr verifier::external_body"));
				}
				sink = Sink::None;
			},
			"drop" => f.drop_fn = true,
			k @ ("requires" | "ensures" | "decreases" | "returns") => {
				let kind = match k {
					"requires" => "requires",
					"ensures" => "ensures",
					"returns" => "returns",
					_ => "decreases",
				};
				f.spec.push(text(kind));
				sink = Sink::Spec(f.spec.len() - 1);
			},
			"loop" => {
				let n = num(words[1])?;
				match words.get(2) {
					None => {
						let v = f.loops.entry(n).or_default();
						v.push(text("loop"));
						sink = Sink::Loop(n, v.len() - 1);
					},
					Some(&"kind") => {
						f.loop_kind.insert(n, words[3].to_string());
						sink = Sink::None;
					},
					Some(p) => {
						let pos = match *p {
							"before" => Pos::Before,
							"begin" => Pos::BodyBegin,
							"end" => Pos::BodyEnd,
							"after" => Pos::After,
							_ => return Err(format!("{origin}: bad loop position {p}")),
						};
						f.anchors.push((Anchor::Loop(n, pos), text("proof")));
						sink = Sink::Anchor(f.anchors.len() - 1);
					},
				}
			},
			"closure" => {
				// closure N (a: T, b: U) -> (r: V)
				let n = num(words[1])?;
				let mut header = line.splitn(3, ' ').nth(2).unwrap_or("").trim().to_string();
				if let Some(h) = header.strip_prefix("hoist ") {
					header = h.to_string();
					f.hoists.push(n);
				}
				f.closures.insert(n, (header, vec![text("closure")]));
				sink = Sink::Closure(n, 0);
			},
			"begin" => {
				f.anchors.push((Anchor::Begin, text("proof")));
				sink = Sink::Anchor(f.anchors.len() - 1);
			},
			"end" => {
				f.anchors.push((Anchor::End, text("proof")));
				sink = Sink::Anchor(f.anchors.len() - 1);
			},
			"call" | "let" => {
				let n = num(words[2])?;
				if words[3] == "via" {
					f.vias.insert((words[1].to_string(), n), words[4].to_string());
					sink = Sink::None;
					continue;
				}
				let after = match words[3] {
					"after" => true,
					"before" => false,
					_ => return Err(format!("{origin}: before or after")),
				};
				let a = if words[0] == "call" {
					Anchor::Call(words[1].to_string(), n, after)
				} else {
					Anchor::Let(words[1].to_string(), n, after)
				};
				f.anchors.push((a, text("proof")));
				sink = Sink::Anchor(f.anchors.len() - 1);
			},
			"return" => {
				f.anchors.push((Anchor::Return(num(words[1])?), text("proof")));
				sink = Sink::Anchor(f.anchors.len() - 1);
			},
			"try" => {
				f.anchors.push((Anchor::Try(num(words[1])?), text("proof")));
				sink = Sink::Anchor(f.anchors.len() - 1);
			},
			"panic" => {
				let n = num(words[1])?;
				f.panics.insert(n, text("panic"));
				sink = Sink::Panic(n);
			},
			_ => return Err(format!("{origin}: unknown directive {line}")),
		}
	}
	if let Some(f) = cur.take() {
		out.insert(f.path.clone(), f);
	}
	Ok(())
}
