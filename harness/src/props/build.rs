//! Builds a real DOM from a model through the public API, by any of the ways there are.
use crate::gen::{self, Chars};
use crate::engine::*;
use crate::model::*;
use kiss_xml::dom::*;
use std::collections::HashMap;

pub fn node(s: &mut Src, n: &MNode) -> Box<dyn Node> {
	match n {
		MNode::El(e) => element(s, e).boxed(),
		MNode::Text(t) => Text::new(t.as_str()).boxed(),
		MNode::Comment(t) => Comment::new(t.as_str()).expect("comment").boxed(),
		MNode::CData(t) => CData::new(t.as_str()).expect("cdata").boxed(),
	}
}
fn add(s: &mut Src, e: &mut Element, n: &MNode) {
	match s.idx(3) {
		0 => match n {
			MNode::El(c) => {
				let c = element(s, c);
				e.append(c)
			}
			MNode::Text(t) => e.append(Text::new(t.as_str())),
			MNode::Comment(t) => e.append(Comment::new(t.as_str()).expect("comment")),
			MNode::CData(t) => e.append(CData::new(t.as_str()).expect("cdata")),
		},
		1 => {
			let b = node(s, n);
			e.append_boxed(b)
		}
		_ => {
			let at = e.children().count();
			match n {
				MNode::El(c) => {
					let c = element(s, c);
					e.insert(at, c)
				}
				MNode::Text(t) => e.insert(at, Text::new(t.as_str())),
				MNode::Comment(t) => e.insert(at, Comment::new(t.as_str()).expect("comment")),
				MNode::CData(t) => e.insert(at, CData::new(t.as_str()).expect("cdata")),
			}
			.expect("insert at the end");
		}
	}
}
/// All children are given at once when the element is mixed (so that whitespace next to text is
/// kept), otherwise in any way.
pub fn element(s: &mut Src, m: &MEl) -> Element {
	let attrs: HashMap<String, String> = m.attrs.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
	let sole_text = match &m.kids[..] {
		[MNode::Text(t)] => Some(t.clone()),
		_ => None,
	};
	let mixed = m.is_mixed();
	let all_at_once = mixed || s.chance(1, 2);
	let kids = |s: &mut Src| -> Vec<Box<dyn Node>> { m.kids.iter().map(|k| node(s, k)).collect() };
	let mut done_kids = false;
	let mut done_attrs = true;
	let mut e = if m.prefix.is_some() || s.chance(1, 4) {
		let p = m.prefix.clone();
		let a = if attrs.is_empty() && s.chance(1, 2) { None } else { Some(attrs.clone()) };
		let mut t = None;
		let mut c = None;
		if let (Some(x), true) = (&sole_text, s.chance(1, 2)) {
			t = Some(x.clone());
			done_kids = true;
		} else if all_at_once {
			c = Some(kids(s));
			done_kids = true;
		}
		Element::new(m.name.as_str(), t, a, None, p, c)
	} else if attrs.is_empty() {
		match (&sole_text, s.idx(3)) {
			(Some(t), 1) => {
				done_kids = true;
				Element::new_with_text(&m.name, t.as_str())
			}
			(_, 2) if all_at_once => {
				done_kids = true;
				let k = kids(s);
				Element::new_with_children(&m.name, k)
			}
			_ => Element::new_from_name(&m.name),
		}
	} else {
		let borrowed: HashMap<&str, &str> = m.attrs.iter().map(|(k, v)| (k.as_str(), v.as_str())).collect();
		match (&sole_text, s.idx(4)) {
			(Some(t), 1) => {
				done_kids = true;
				Element::new_with_attributes_and_text(&m.name, borrowed, t.as_str())
			}
			(_, 2) if all_at_once => {
				done_kids = true;
				let k = kids(s);
				Element::new_with_attributes_and_children(&m.name, attrs.clone(), k)
			}
			(_, 3) if !m.attrs.keys().any(|k| k.starts_with("xmlns")) => {
				done_attrs = false;
				Element::new_from_name(&m.name)
			}
			_ => Element::new_with_attributes(&m.name, attrs.clone()),
		}
	}
	.expect("valid element");
	if !done_attrs {
		for (k, v) in &m.attrs {
			e.set_attr(k.as_str(), v.as_str()).expect("valid attribute");
		}
	}
	if !done_kids && !m.kids.is_empty() {
		if all_at_once {
			let k = kids(s);
			e.append_all(k);
		} else {
			for k in &m.kids {
				add(s, &mut e, k);
			}
		}
	}
	if s.chance(1, 24) {
		e = elsewhere(s, e);
	}
	e
}
/// the element after a stay in another place, of which it keeps nothing that anybody can see
pub fn elsewhere(s: &mut Src, e: Element) -> Element {
	let mut t = Element::new_with_attributes("t", HashMap::from([("xmlns:zq9", "urn:zq9")])).expect("valid element");
	t.append(e);
	if s.chance(1, 2) {
		t.append(Element::new_from_name("u").expect("valid element"));
	}
	if s.chance(1, 2) {
		t.remove_element(0).expect("present")
	} else {
		let n = t.remove(0).expect("present");
		n.as_element().expect("element").clone()
	}
}
pub fn document(s: &mut Src, m: &MDoc) -> Document {
	let root = element(s, &m.root);
	let decl = m.decl.as_ref().map(|d| Declaration::from_str(d).expect("declaration"));
	let dtds: Vec<DTD> = m.dtds.iter().map(|d| DTD::from_string(d.as_str()).expect("dtd")).collect();
	if s.chance(1, 3) {
		let mut d = Document::new(root);
		d.set_declaration(decl);
		d.set_doctype_defs(if dtds.is_empty() { None } else { Some(&dtds) });
		d
	} else {
		Document::new_with_decl_dtd(root, decl, if dtds.is_empty() { None } else { Some(&dtds) })
	}
}
/// an exact copy of the model, whitespace and adjacent text included where the API keeps them:
/// all nodes of an element are given at once
pub fn exact(m: &MEl) -> Element {
	let attrs: HashMap<String, String> = m.attrs.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
	let kids: Vec<Box<dyn Node>> = m
		.kids
		.iter()
		.map(|k| match k {
			MNode::El(e) => exact(e).boxed(),
			MNode::Text(t) => Text::new(t.as_str()).boxed(),
			MNode::Comment(t) => Comment::new(t.as_str()).expect("comment").boxed(),
			MNode::CData(t) => CData::new(t.as_str()).expect("cdata").boxed(),
		})
		.collect();
	Element::new(m.name.as_str(), None, Some(attrs), None, m.prefix.clone(), Some(kids)).expect("valid element")
}

/// replaces, swaps and changes nodes in place, so that texts are neighbours, blank or empty without being tidied
pub fn loosen(s: &mut Src, root: &mut Element) {
	for _ in 0..1 + s.size(8, 2) {
		let p = observe(root).paths();
		let path = s.pick(&p).clone();
		let e = super::c03::walk(root, &path);
		let n = e.children().count();
		if n == 0 {
			let mut k = vec![];
			for _ in 0..2 + s.idx(3) {
				k.push(Comment::new("c").expect("comment").boxed());
			}
			e.append_all(k);
			continue;
		}
		let i = s.idx(n);
		let t = match s.weighted(&[5, 2]) {
			0 => s.pick(&["", " ", "x", "\n", " y ", "\u{A0}", "\t \n", "&"]).to_string(),
			_ => gen::text(s, Chars::Any),
		};
		match s.idx(4) {
			0 => {
				*e.children_mut().nth(i).expect("child") = match s.weighted(&[6, 1, 1, 1]) {
					0 => Text::new(t).boxed(),
					1 => Comment::new(gen::without(t, "-->")).expect("comment").boxed(),
					2 => CData::new(gen::without(t, "]]>")).expect("cdata").boxed(),
					_ => Element::new_from_name("x").expect("name").boxed(),
				}
			}
			1 => {
				// two neighbours
				for n in e.children_mut().skip(i).take(2) {
					*n = Text::new(t.as_str()).boxed();
				}
			}
			2 => {
				let at = e.children().position(|n| !n.is_text());
				if let Some(i) = at {
					e.remove(i).expect("index in range");
				}
			}
			_ => {
				for n in e.children_mut() {
					if let Ok(x) = n.as_text_mut() {
						x.content = t.clone();
					}
				}
			}
		}
	}
}
