//! C08: canonical serialized form.
use super::*;
use crate::surface;
use std::sync::atomic::Ordering;

pub fn prop() -> Prop {
	Prop {
		id: "C08",
		check,
		sweep: || gen::huge_sweep(&[1]),
		rule: "case = a document constructed in two ways (two builds, edits, or parsing) under two hash seeds, all outputs compared with the reference serializer; non-trivial = at least 3 nodes or 3 attributes on an element",
		quick: (4000, 4000),
		thorough: (240000, 240000),
		witnesses: &[],
	}
}
fn max_attrs(e: &MEl) -> usize {
	e.elems().map(max_attrs).max().unwrap_or(0).max(e.attrs.len())
}
const KEYS: &[&str] = &["xmlns:b", "xmlns:a", "xmlns", "xml:lang", "xml", "xmln", "xmlnsx", "a", "b", "A", "Z", "z", "_", "é", "a:b", "a-b", "a.b", "ab", "id", "x", "xm", "y", "xn", "xmm", "xmlnr", "xmlnt", "w", "aa", "a1", "a0", "ÿ", "𐀀", "\u{FFFD}", "xlink:href"];
fn more_attrs(s: &mut Src, e: &mut MEl) {
	if s.chance(1, 2) {
		for _ in 0..s.size(24, 5) {
			let k = s.pick(KEYS).to_string();
			let v = if k.starts_with("xmlns") && !k.ends_with('x') { s.pick(gen::URIS).to_string() } else { gen::text(s, Chars::Any) };
			e.attrs.entry(k).or_insert(v);
		}
	}
	for k in &mut e.kids {
		if let MNode::El(c) = k {
			if s.chance(1, 4) {
				more_attrs(s, c);
			}
		}
	}
}
fn reseed(s: &mut Src) {
	let v = s.below(1 << 16);
	crate::cov::HASH_SEED.store(v.wrapping_mul(0x5851_F42D_4C95_7F2D) ^ 0x1234_5671, Ordering::Relaxed);
}

fn outputs(s: &mut Src, c: &mut Ctx, d: &Document, indent: &str) -> Result<String, Fail> {
	let content = observe_doc(d);
	let want = write_doc(&content, indent);
	let got = d.to_string_with_indent(indent);
	ensure!(got == want, "indent {indent:?}: written as\n{got}\nexpected\n{want}");
	let want2 = write_doc(&content, "  ");
	let got2 = d.to_string();
	ensure!(got2 == want2, "to_string:\n{got2}\nexpected\n{want2}");
	ensure!(format!("{d}") == want2, "Display:\n{d}\nexpected\n{want2}");
	let mut b = Vec::new();
	ensure!(d.write_to_file(&mut b).is_ok() && b == want2.as_bytes(), "write_to_file:\n{}\nexpected\n{want2}", String::from_utf8_lossy(&b));
	let mut b = Vec::new();
	ensure!(d.write_to_file_with_indent(&mut b, indent).is_ok() && b == want.as_bytes(), "write_to_file_with_indent:\n{}\nexpected\n{want}", String::from_utf8_lossy(&b));
	let e = d.root_element();
	ensure!(e.to_string_with_indent(indent) == write_element(&content.root, indent), "Element::to_string_with_indent({indent:?}):\n{}", e.to_string_with_indent(indent));
	ensure!(format!("{e}") == write_element(&content.root, "  "), "Display of the root:\n{e}");
	if s.chance(1, 16) {
		c.label("files");
		let p = c.scratch.join("o.xml");
		ensure!(d.write_to_filepath(&p).is_ok(), "write_to_filepath failed");
		ensure!(std::fs::read(&p).ok().as_deref() == Some(want2.as_bytes()), "write_to_filepath wrote something else");
		ensure!(d.write_to_filepath_with_indent(&p, indent).is_ok(), "write_to_filepath_with_indent failed");
		ensure!(std::fs::read(&p).ok().as_deref() == Some(want.as_bytes()), "write_to_filepath_with_indent wrote something else");
	}
	Ok(got)
}

fn check(s: &mut Src, c: &mut Ctx) -> R {
	let mut m = gen::doc(s, gen::TreeOpts { max_nodes: 60, ..Default::default() });
	more_attrs(s, &mut m.root);
	let ind = gen::any_indent(s);
	c.nontrivial = m.root.count() >= 3 || max_attrs(&m.root) >= 3;
	let mut d1 = build::document(s, &m);
	let t1 = outputs(s, c, &d1, &ind)?;
	c.input(&t1);
	// the same content made in another way
	reseed(s);
	let d2 = match s.weighted(&[3, 2]) {
		0 => {
			c.label("built twice");
			build::document(s, &m)
		}
		_ => {
			c.label("built and parsed");
			let mut w = observe_doc(&d1);
			w.root.clean_deep();
			if w != observe_doc(&d1) || !renderable(&w.root) {
				return Err(Fail::Discard);
			}
			let t = surface::join(&surface::render(s, &w));
			reparse(&t, "a rendered document")?
		}
	};
	if observe_doc(&d2) == observe_doc(&d1) {
		let t2 = outputs(s, c, &d2, &ind)?;
		ensure!(t1 == t2, "two documents with equal content are written differently:\n{t1}\n---\n{t2}");
	} else {
		c.label("contents differ (whitespace)");
	}
	// and after edits
	if s.chance(1, 2) {
		c.label("edited");
		for _ in 0..1 + s.size(4, 1) {
			let o = observe(d1.root_element());
			let p = o.paths();
			let path = s.pick(&p).clone();
			super::c03::edit(s, super::c03::walk(d1.root_element_mut(), &path));
		}
		if s.chance(1, 4) {
			c.label("nodes replaced in place");
			build::loosen(s, d1.root_element_mut());
		}
		reseed(s);
		outputs(s, c, &d1, &ind)?;
	}
	Ok(())
}
/// text that a literal rendering would not keep
pub fn renderable(e: &MEl) -> bool {
	resolve(e).is_some() && e.attrs.keys().all(|k| k != "xmlns:")
}
