//! C02: well-formed documents are read faithfully, whatever their surface syntax.
use super::*;
use crate::refxml::{judge, Verdict};
use crate::surface;

pub fn prop() -> Prop {
	Prop {
		id: "C02",
		check,
		sweep: || gen::huge_sweep(&[1, 0]),
		rule: "case = a document model with one or two surface renderings, or a scrambled rendering that the reference parser proves well-formed; non-trivial = at least 3 nodes, or an attribute or text with a markup or non-ASCII character",
		quick: (7000, 8000),
		thorough: (420000, 480000),
		witnesses: &[],
	}
}
pub fn wf_doc(s: &mut Src, max_nodes: usize) -> MDoc {
	let mut d = gen::doc(s, gen::TreeOpts { chars: Chars::Xml, strict_comments: true, max_nodes, ..Default::default() });
	no_cr(&mut d.root);
	d.root.clean_deep();
	d
}
pub fn interesting(e: &MEl) -> bool {
	let odd = |t: &str| t.chars().any(|c| !c.is_ascii_alphanumeric());
	e.count() >= 3 || e.attrs.values().any(|v| odd(v)) || odd(&e.text())
}

fn check(s: &mut Src, c: &mut Ctx) -> R {
	let mode = s.weighted(&[2, 1]);
	if mode == 1 {
		// differential: a scrambled document, judged by the reference parser
		let d = wf_doc(s, 25);
		let t = surface::join(&surface::render(s, &MDoc { dtds: vec![], ..d }));
		let t = scramble(s, &t, Chars::Xml);
		c.input(&t);
		return match judge(&t) {
			Verdict::Good(mut want) => {
				c.label("scrambled, still well-formed");
				want.root.clean_deep();
				c.nontrivial = interesting(&want.root);
				let got = reparse(&t, "a well-formed document")?;
				same_doc(&observe_doc(&got), &want, "parsed vs reference")
			}
			Verdict::Bad(_) => {
				c.label("scrambled, malformed (not used here)");
				Ok(())
			}
			Verdict::Unknown(_) => {
				c.label("scrambled, outside of the subset (not used here)");
				Ok(())
			}
		};
	}
	c.label("rendered model");
	let d = wf_doc(s, 150);
	c.nontrivial = interesting(&d.root);
	for k in 0..2 {
		let raw_ws = s.chance(1, 4);
		let t = surface::join(&surface::render_with(s, &d, raw_ws));
		c.input(&t);
		let got = reparse(&t, "a well-formed document")?;
		if raw_ws {
			// literal tabs and line breaks in attributes may be kept or read as spaces
			c.label("literal white space in attributes");
			let (mut a, mut b) = (observe_doc(&got), d.clone());
			spaced(&mut a.root);
			spaced(&mut b.root);
			same_doc(&a, &b, "parsed vs model (up to the kind of white space in attributes)")?;
		} else {
			same_doc(&observe_doc(&got), &d, "parsed vs model")?;
		}
		ensure!(got.root_element().text() == d.root.text(), "text() of the root is {:?} instead of {:?}", got.root_element().text(), d.root.text());
		// cross-check the oracle itself
		if k == 0 && d.dtds.is_empty() {
			if let Verdict::Bad(w) = judge(&t) {
				bad!("harness: the reference parser rejects a generated document: {w}\n{t}");
			}
		}
		if !s.chance(1, 2) {
			break;
		}
	}
	Ok(())
}
/// every white space character in attribute values becomes a space
fn spaced(e: &mut MEl) {
	for v in e.attrs.values_mut() {
		*v = v.replace(['\t', '\n', '\r'], " ");
	}
	for k in &mut e.kids {
		if let MNode::El(c) = k {
			spaced(c);
		}
	}
}
