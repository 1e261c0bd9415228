//! The checks, one module per property.
use crate::engine::*;
use crate::gen::{self, Chars};
use crate::model::*;
use kiss_xml::dom::*;
use kiss_xml::errors::KissXmlError;

mod build;
mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod c06;
mod c07;
mod c08;
mod c09;
mod c10;
mod c11;
mod c12;
mod c13;
mod c14;
mod c15;
mod c16;
mod c17;
mod c18;
mod c19;
pub mod c20;
mod c21;

pub const ASSUMPTIONS: &[&str] = &[
	"generated-input search: absence of a violation is evidence for the cases run, not a proof",
	"the reference models of the harness (model.rs, refxml.rs) state the documented behaviour correctly",
	"the crate is built with overflow checks and debug assertions on the installed stable toolchain; patterns are compiled once per process by a changed copy of the regex crate",
];

pub fn all() -> Vec<Prop> {
	vec![
		c01::prop(),
		c02::prop(),
		c03::prop(),
		c04::prop(),
		c05::prop(),
		c06::prop(),
		c07::prop(),
		c08::prop(),
		c09::prop(),
		c10::prop(),
		c11::prop(),
		c12::prop(),
		c13::prop(),
		c14::prop(),
		c15::prop(),
		c16::prop(),
		c17::prop(),
		c18::prop(),
		c19::prop(),
		c20::prop(),
		c21::prop(),
	]
}

pub fn no_sweep() -> Vec<Vec<u64>> {
	Vec::new()
}

pub fn parse(t: &str) -> Result<Document, KissXmlError> {
	kiss_xml::parse_str(t)
}
/// parses text that must be accepted
pub fn reparse(t: &str, what: &str) -> Result<Document, Fail> {
	kiss_xml::parse_str(t).map_err(|e| Fail::Bad(format!("{what} is rejected: {e}\n{t}")))
}

/// edits a text at random places
pub fn scramble(s: &mut Src, text: &str, ch: Chars) -> String {
	let mut t: Vec<char> = text.chars().collect();
	let n = 1 + s.size(8, 1);
	for _ in 0..n {
		let p = s.idx(t.len() + 1);
		match s.weighted(&[4, 4, 2, 2, 2, 2, 1]) {
			0 => {
				let q = (p + 1 + s.size(12, 1)).min(t.len());
				if p < q {
					t.drain(p..q);
				}
			}
			1 => {
				let x = gen::piece(s, ch);
				t.splice(p..p, x.chars().take(200));
			}
			2 => {
				// a structural character
				let c = *s.pick(&['<', '>', '/', '"', '\'', '=', '&', ';', ' ', '!', '?', '-', '[', ']', ':', '\n', 'a']);
				t.insert(p, c);
			}
			3 => {
				let c = *s.pick(&['<', '>', '/', '"', '\'', '=', '&', ';', ' ', '!', '?', '-', '[', ']', ':', '\n', 'a']);
				if p < t.len() {
					t[p] = c;
				}
			}
			4 => {
				// copy a stretch elsewhere
				let q = (p + 1 + s.size(40, 8)).min(t.len());
				let x: Vec<char> = t[p.min(q)..q].to_vec();
				let at = s.idx(t.len() + 1);
				t.splice(at..at, x);
			}
			5 => {
				// copy or move a whole tag
				let open: Vec<usize> = (0..t.len()).filter(|i| t[*i] == '<').collect();
				if !open.is_empty() {
					let a = open[s.idx(open.len())];
					let b = (a..t.len()).find(|i| t[*i] == '>').map_or(t.len(), |x| x + 1);
					let x: Vec<char> = t[a..b].to_vec();
					if s.chance(1, 2) {
						t.drain(a..b);
					}
					let at = if s.chance(1, 2) {
						s.idx(t.len() + 1)
					} else {
						let open: Vec<usize> = (0..t.len()).filter(|i| t[*i] == '<').collect();
						if open.is_empty() {
							0
						} else {
							open[s.idx(open.len())]
						}
					};
					t.splice(at..at, x);
				}
			}
			_ => t.truncate(p),
		}
	}
	t.into_iter().collect()
}
pub fn show<T: std::fmt::Debug>(t: &T) -> String {
	crate::util::clip(&format!("{t:?}"), 1500)
}
pub fn same_doc(a: &MDoc, b: &MDoc, what: &str) -> R {
	match diff_doc(a, b) {
		None => Ok(()),
		Some(d) => Err(Fail::Bad(format!("{what}: {}", crate::util::clip(&d, 1500)))),
	}
}
pub fn same_el(a: &MEl, b: &MEl, what: &str) -> R {
	match diff(a, b) {
		None => Ok(()),
		Some(d) => Err(Fail::Bad(format!("{what}: {}", crate::util::clip(&d, 1500)))),
	}
}
/// removes what XML would normalize when it is written literally
pub fn no_cr(e: &mut MEl) {
	for k in &mut e.kids {
		match k {
			MNode::El(c) => no_cr(c),
			MNode::Text(t) if is_ws(t) => t.retain(|c| c != '\r'),
			MNode::Comment(t) => {
				t.retain(|c| c != '\r');
				while t.contains("--") {
					*t = t.replace("--", "-");
				}
				while t.ends_with('-') {
					t.pop();
				}
			}
			MNode::CData(t) => {
				t.retain(|c| c != '\r');
				*t = gen::without(std::mem::take(t), "]]>");
			}
			_ => {}
		}
	}
}
