//! C07: indentation never changes content, mixed content is verbatim.
use super::*;
use crate::surface;

pub fn prop() -> Prop {
	Prop {
		id: "C07",
		check,
		sweep: || gen::huge_sweep(&[1, 1]),
		rule: "case = a document heavy in whitespace text, written with two indents (one may be invalid) and reparsed; non-trivial = at least 3 nodes, one of them text",
		quick: (7000, 8000),
		thorough: (420000, 480000),
		witnesses: &[],
	}
}
const ODD: &[&str] = &["\u{A0}", "\u{2003}", "\u{2028}", "\u{3000}", "\u{85}", "\u{FEFF}", "\u{200B}", "\u{B}", "\u{C}", "\u{1680}", "\u{202F}"];
fn spacey(s: &mut Src) -> String {
	let mut o = String::new();
	for _ in 0..s.size(8, 2) {
		match s.weighted(&[5, 5, 2, 1]) {
			0 => o.push_str(s.pick(&[" ", "\n", "\t", "  ", "\n  ", "\r\n", "\r", "\n\n\n"])),
			1 => o.push_str(s.pick(&["a", "b c", "text", "&", "<", "]]>", "é☼"])),
			2 => o.push_str(*s.pick(ODD)),
			_ => o.push_str(&gen::piece(s, Chars::Any)),
		}
	}
	o
}
pub fn tree(s: &mut Src, depth: usize, budget: &mut usize) -> MEl {
	let mut e = MEl::new(s.pick(&["a", "b", "c", "pre", "p"]));
	*budget = budget.saturating_sub(1);
	if s.chance(1, 5) {
		e.attrs.insert("k".into(), spacey(s));
	}
	if s.chance(1, 12) {
		e.attrs.insert("xml:space".into(), s.pick(&["preserve", "default"]).to_string());
	}
	let n = if depth >= 9 { s.size(1, 1) } else { s.size(9, 2) };
	for _ in 0..n {
		if *budget == 0 {
			break;
		}
		*budget -= 1;
		e.kids.push(match s.weighted(&[6, 4, 4, 2, 2]) {
			0 => MNode::El(tree(s, depth + 1, budget)),
			1 => MNode::Text(gen::ws(s)),
			2 => MNode::Text(spacey(s)),
			3 => MNode::Comment(gen::without(spacey(s), "-->")),
			_ => MNode::CData(gen::without(spacey(s), "]]>")),
		});
	}
	e
}
/// markup of the model exactly as it is, no whitespace added
fn flat(e: &MEl, o: &mut String) {
	o.push_str(&format!("<{}", e.tag()));
	for (k, v) in &e.attrs {
		o.push_str(&format!(" {k}='{}'", esc_full(v)));
	}
	o.push('>');
	for k in &e.kids {
		match k {
			MNode::El(c) => flat(c, o),
			MNode::Text(t) => o.push_str(&esc_text(t)),
			MNode::Comment(t) => o.push_str(&format!("<!--{t}-->")),
			MNode::CData(t) => o.push_str(&format!("<![CDATA[{t}]]>")),
		}
	}
	o.push_str(&format!("</{}>", e.tag()));
}

fn check(s: &mut Src, c: &mut Ctx) -> R {
	let mut m = MDoc::default();
	let mut budget = 60;
	m.root = if s.chance(1, 12) { gen::tree(s, gen::TreeOpts { max_nodes: 60, ..Default::default() }) } else { tree(s, 0, &mut budget) };
	if s.chance(1, 30) {
		c.label("one thing is big");
		gen::grow(s, &mut m.root, Chars::Any, 60);
	}
	let wraps = if s.chance(1, 6) { s.size(30, 6) } else { 0 };
	for i in 0..wraps {
		let mut o = MEl::new("w");
		if s.chance(1, 3) {
			o.kids.push(MNode::Text(if s.chance(1, 2) { spacey(s) } else { format!("t{i}") }));
		}
		o.kids.push(MNode::El(std::mem::take(&mut m.root)));
		if s.chance(1, 3) {
			o.kids.push(MNode::Text(gen::ws(s)));
		}
		m.root = o;
	}
	let want = m.root.cleaned();
	c.nontrivial = want.count() >= 3 && !want.text().is_empty();
	let d = match s.weighted(&[3, 3, 3]) {
		0 => {
			c.label("parsed, written as it is");
			let mut t = String::new();
			flat(&m.root, &mut t);
			c.input(&t);
			reparse(&t, "the document")?
		}
		1 => {
			c.label("parsed, rendered");
			let t = surface::join(&surface::render(s, &MDoc { root: want.clone(), ..Default::default() }));
			c.input(&t);
			reparse(&t, "the document")?
		}
		_ => {
			c.label("built");
			c.input(&format!("{:?}", m.root));
			Document::new(build::exact(&m.root))
		}
	};
	same_el(&observe(d.root_element()), &want, "the document vs the whitespace rules")?;
	ensure!(d.root_element().text() == want.text(), "text() is {:?} instead of {:?}", d.root_element().text(), want.text());
	let i1 = gen::any_indent(s);
	let i2 = gen::any_indent(s);
	c.note(format!("indents {i1:?} and {i2:?}"));
	let default = d.to_string_with_indent("  ");
	for i in [&i1, &i2] {
		let t = d.to_string_with_indent(i.as_str());
		let e = d.root_element().to_string_with_indent(i);
		if !valid_indent(i) {
			c.label("invalid indent");
			ensure!(t == default, "the invalid indent {i:?} gives\n{t}\ninstead of the default\n{default}");
			ensure!(e == d.root_element().to_string_with_indent("  "), "the invalid indent {i:?} on the element gives\n{e}");
		}
		for (t, what) in [(&t, "document"), (&e, "element")] {
			let got = reparse(t, "written text")?;
			same_el(&observe(got.root_element()), &want, &format!("content after writing the {what} with indent {i:?}\n{t}\n"))?;
		}
	}
	Ok(())
}
