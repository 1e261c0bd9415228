//! C04: rewriting accepted input is lossless and reaches a fixed point.
use super::*;
use crate::surface;

pub fn prop() -> Prop {
	Prop {
		id: "C04",
		check,
		sweep: || gen::huge_sweep(&[1]),
		rule: "case = an input text (rendered, scrambled, or token soup around a document); cases that the parser rejects are discarded; non-trivial = accepted and at least 8 characters",
		quick: (4000, 4500),
		thorough: (240000, 270000),
		witnesses: &[("deep-nesting", "writing (or cloning, comparing, searching) a parsed document that is nested 100000 elements deep overflows the stack and aborts the process", deep)],
	}
}
fn deep() -> bool {
	let n = 100_000;
	let t = format!("{}{}", "<a>".repeat(n), "</a>".repeat(n));
	std::thread::Builder::new()
		.stack_size(8 << 20)
		.spawn(move || {
			let d = kiss_xml::parse_str(t).expect("accepted");
			let o = d.to_string();
			o.len() < 100_000
		})
		.expect("thread")
		.join()
		.unwrap_or(true)
}
/// names that make namespaces ambiguous are not namespace-well-formed
fn odd_names(e: &MEl) -> bool {
	e.attrs.keys().any(|k| k == "xmlns:" || k.starts_with("xmlns::")) || e.elems().any(odd_names)
}

fn check(s: &mut Src, c: &mut Ctx) -> R {
	let mut d = gen::doc(s, gen::TreeOpts { max_nodes: 30, ..Default::default() });
	d.root.clean_deep();
	let t = surface::join(&surface::render(s, &d));
	let t = if s.chance(4, 5) {
		c.label("scrambled");
		scramble(s, &t, Chars::Any)
	} else {
		c.label("rendered");
		t
	};
	c.input(&t);
	let Ok(d1) = parse(&t) else {
		c.label("rejected");
		return Err(Fail::Discard);
	};
	c.nontrivial = t.len() >= 8;
	let ind = gen::indent(s);
	let w1 = d1.to_string_with_indent(ind.as_str());
	let d2 = reparse(&w1, "the rewritten form of an accepted document")?;
	same_doc(&observe_doc(&d2), &observe_doc(&d1), "reparsed vs first")?;
	if !odd_names(&observe(d1.root_element())) {
		ensure!(d2 == d1, "the reparsed document is not equal to the first one\n{w1}");
	}
	let w2 = d2.to_string_with_indent(ind.as_str());
	ensure!(w1 == w2, "writing again gives different text:\n{w1}\n---\n{w2}");
	Ok(())
}
