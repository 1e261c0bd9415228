//! C03: a document that is built, written and reread is the same.
use super::*;

pub fn prop() -> Prop {
	Prop {
		id: "C03",
		check,
		sweep: || gen::huge_sweeps(&[]),
		rule: "case = a document built through the public API (then possibly edited in place), written with one indent and reparsed; non-trivial = at least 3 nodes or special characters in text or attributes",
		quick: (5000, 6000),
		thorough: (300000, 360000),
		witnesses: &[],
	}
}
/// edits that can leave adjacent, empty or whitespace-only text behind
pub fn edit(s: &mut Src, e: &mut Element) {
	match s.idx(5) {
		0 => {
			let n = e.children().count();
			if n > 0 {
				let i = s.idx(n);
				e.remove(i).expect("index in range");
			}
		}
		1 => {
			let t = gen::text(s, Chars::Any);
			if let Some(n) = e.children_mut().find(|n| n.is_text()) {
				n.as_text_mut().expect("text").content = t;
			}
		}
		2 => {
			let t = gen::text(s, Chars::Any);
			e.set_text(t);
		}
		3 => {
			let k = gen::attr_name(s);
			let v = gen::text(s, Chars::Any);
			e.set_attr(k, v).expect("valid name");
		}
		_ => {
			let t = gen::comment(s, Chars::Any, false);
			let d = gen::cdata(s, Chars::Any);
			for n in e.children_mut() {
				if let Ok(c) = n.as_comment_mut() {
					c.set_content(t.as_str()).expect("valid comment");
				} else if let Ok(c) = n.as_cdata_mut() {
					c.set_text(d.as_str()).expect("valid cdata");
				}
			}
		}
	}
}
pub fn walk<'a>(e: &'a mut Element, path: &[usize]) -> &'a mut Element {
	match path.split_first() {
		None => e,
		Some((i, rest)) => walk(e.child_elements_mut().nth(*i).expect("path"), rest),
	}
}

fn check(s: &mut Src, c: &mut Ctx) -> R {
	let m = gen::doc(s, gen::TreeOpts { max_nodes: 120, ..Default::default() });
	let mut d = build::document(s, &m);
	for _ in 0..s.weighted(&[6, 2, 1, 1]) {
		c.label("edited");
		let o = observe(d.root_element());
		let p = o.paths();
		let path = s.pick(&p).clone();
		edit(s, walk(d.root_element_mut(), &path));
	}
	if s.chance(1, 8) {
		c.label("nodes replaced in place");
		build::loosen(s, d.root_element_mut());
	}
	let before = observe_doc(&d);
	ensure!(before.decl == m.decl && before.dtds == m.dtds, "declaration or DTDs of the built document: {:?} {:?} instead of {:?} {:?}", before.decl, before.dtds, m.decl, m.dtds);
	c.nontrivial = super::c02::interesting(&before.root);
	let ind = gen::indent(s);
	let t = d.to_string_with_indent(ind.as_str());
	c.input(&t);
	let got = reparse(&t, "a written document")?;
	let mut want = before;
	want.root.clean_deep();
	same_doc(&observe_doc(&got), &want, "reread vs written")?;
	// (== compares namespaces too, which elements put in through a mutable reference do not take over)
	let edited = c.labels.iter().any(|l| l == "edited" || l == "nodes replaced in place");
	if want.root == observe(d.root_element()) && resolve(&want.root).is_some() && !edited {
		ensure!(got == d, "the reread document is not equal to the written one\n{t}");
		c.label("compared with ==");
	}
	Ok(())
}
