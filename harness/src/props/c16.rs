//! C16: node kinds, casts and views are consistent.
use super::*;

pub fn prop() -> Prop {
	Prop {
		id: "C16",
		check,
		sweep: || gen::wide(gen::huge_sweeps(&[])),
		rule: "case = every node of one tree (built or parsed) looked at through every view, cast and copy, then edited through a mutable cast; non-trivial = the tree has nodes of at least two kinds",
		quick: (3500, 4000),
		thorough: (210000, 240000),
		witnesses: &[],
	}
}
fn kind(m: &MNode) -> DomNodeType {
	match m {
		MNode::El(_) => DomNodeType::ElementNode,
		MNode::Text(_) => DomNodeType::TextNode,
		MNode::Comment(_) => DomNodeType::CommentNode,
		MNode::CData(_) => DomNodeType::CDataNode,
	}
}
fn written(m: &MNode, indent: &str) -> String {
	match m {
		MNode::El(e) => write_element(e, indent),
		MNode::Text(t) => esc_text(t),
		MNode::Comment(t) => format!("<!--{t}-->"),
		MNode::CData(t) => format!("<![CDATA[{t}]]>"),
	}
}
fn text(m: &MNode) -> String {
	match m {
		MNode::El(e) => e.text(),
		MNode::Text(t) | MNode::Comment(t) | MNode::CData(t) => t.clone(),
	}
}
fn at<T: ?Sized>(t: &T) -> usize {
	t as *const T as *const u8 as usize
}
/// one view of a node
fn view(n: &dyn Node, m: &MNode, indent: &str, who: &str) -> R {
	let k = kind(m);
	let here = at(n);
	let flags = (n.is_element(), n.is_text(), n.is_comment(), n.is_cdata());
	let want = (k == DomNodeType::ElementNode, k == DomNodeType::TextNode, k == DomNodeType::CommentNode, k == DomNodeType::CDataNode);
	ensure!(flags == want, "{who} of kind {k:?} answers is_element, is_text, is_comment, is_cdata with {flags:?}");
	ensure!(n.node_type() == k, "{who} of kind {k:?} has node_type {:?}", n.node_type());
	let casts = (n.as_element().ok().map(at), n.as_text().ok().map(at), n.as_comment().ok().map(at), n.as_cdata().ok().map(at));
	let w = (want.0.then_some(here), want.1.then_some(here), want.2.then_some(here), want.3.then_some(here));
	ensure!(casts == w, "casts of {who} of kind {k:?} give the objects {casts:?} (it is at {here:#x})");
	for e in [n.as_element().err(), n.as_text().err(), n.as_comment().err(), n.as_cdata().err()].into_iter().flatten() {
		let e: kiss_xml::errors::TypeCastError = e;
		ensure!(matches!(KissXmlError::from(e), KissXmlError::TypeCastError(_)), "a failing cast of {who} is not a type error");
	}
	let any = n.as_any();
	let anys = (any.downcast_ref::<Element>().map(at), any.downcast_ref::<Text>().map(at), any.downcast_ref::<Comment>().map(at), any.downcast_ref::<CData>().map(at));
	ensure!(anys == w, "downcasts through Any of {who} of kind {k:?} give the objects {anys:?} (it is at {here:#x})");
	ensure!(at(n.as_node()) == here, "as_node of {who} is another object");
	ensure!(n.as_node().node_type() == k, "as_node of {who} of kind {k:?} is of kind {:?}", n.as_node().node_type());
	ensure!(n.text() == text(m), "text() of {who} is {:?} instead of {:?}", n.text(), text(m));
	let d = written(m, "  ");
	ensure!(format!("{n}") == d, "Display of {who} is {n} instead of {d}");
	ensure!(n.to_string() == d, "to_string of {who} is {} instead of {d}", n.to_string());
	ensure!(format!("{n:?}") == d, "Debug of {who} is {n:?} instead of {d}");
	let d = written(m, indent);
	ensure!(n.to_string_with_indent(indent) == d, "to_string_with_indent({indent:?}) of {who} is {} instead of {d}", n.to_string_with_indent(indent));
	Ok(())
}
fn views(n: &Box<dyn Node>, m: &MNode, indent: &str) -> R {
	view(n.as_ref(), m, indent, "a boxed node")?;
	// methods called on the box itself
	let k = kind(m);
	ensure!(n.node_type() == k && n.text() == text(m) && n.to_string() == written(m, "  ") && format!("{n:?}") == written(m, "  "), "the box of {m:?} behaves differently");
	match m {
		MNode::El(e) => {
			let Ok(x) = n.as_element() else { bad!("not an element: {n}") };
			view(x, m, indent, "an element")?;
			ensure!(x.text() == e.text() && Node::to_string_with_indent(x, indent) == written(m, indent) && x.to_string() == written(m, "  "), "the element {n} behaves differently when it is used directly");
			ensure!(x.name() == e.name && x.tag_name() == e.tag() && x.namespace_prefix() == e.prefix, "names of {n}: {} {} {:?}", x.name(), x.tag_name(), x.namespace_prefix());
		}
		MNode::Text(t) => {
			let Ok(x) = n.as_text() else { bad!("not a text: {n}") };
			view(x, m, indent, "a text")?;
			ensure!(x.content == *t && x.text() == *t, "content of the text {t:?}: {:?}", x.content);
		}
		MNode::Comment(t) => {
			let Ok(x) = n.as_comment() else { bad!("not a comment: {n}") };
			view(x, m, indent, "a comment")?;
			ensure!(x.get_content() == t && x.text() == *t, "content of the comment {t:?}: {:?}", x.get_content());
		}
		MNode::CData(t) => {
			let Ok(x) = n.as_cdata() else { bad!("not a CDATA section: {n}") };
			view(x, m, indent, "a CDATA section")?;
			ensure!(x.get_content() == t && x.text() == *t, "content of the CDATA section {t:?}: {:?}", x.get_content());
		}
	}
	// copies
	let y = clone_node(n);
	view(y.as_ref(), m, indent, "a cloned node")?;
	ensure!(at(y.as_ref()) != at(n.as_ref()), "the clone is the same object");
	ensure!(DomNodeType::from(y) == k, "the kind of a clone of {m:?}");
	let y: Box<dyn Node> = if let Ok(x) = n.as_element() {
		x.clone().boxed()
	} else if let Ok(x) = n.as_text() {
		x.clone().boxed()
	} else if let Ok(x) = n.as_comment() {
		x.clone().boxed()
	} else {
		n.as_cdata().expect("cdata").clone().boxed()
	};
	view(y.as_ref(), m, indent, "a node that was cloned and boxed")
}
/// mutable casts; returns the kind that succeeded
fn casts_mut(n: &mut dyn Node, m: &MNode) -> R {
	let k = kind(m);
	let here = at(n);
	let want = [DomNodeType::ElementNode, DomNodeType::TextNode, DomNodeType::CommentNode, DomNodeType::CDataNode].map(|x| (x == k).then_some(here));
	let got = [n.as_element_mut().ok().map(|x| at(x)), n.as_text_mut().ok().map(|x| at(x)), n.as_comment_mut().ok().map(|x| at(x)), n.as_cdata_mut().ok().map(|x| at(x))];
	ensure!(got == want, "mutable casts of a node of kind {k:?} give the objects {got:?} (it is at {here:#x})");
	let a = n.as_any_mut();
	let got = [a.downcast_mut::<Element>().map(|x| at(x)), a.downcast_mut::<Text>().map(|x| at(x)), a.downcast_mut::<Comment>().map(|x| at(x)), a.downcast_mut::<CData>().map(|x| at(x))];
	ensure!(got == want, "mutable downcasts through Any of a node of kind {k:?} give the objects {got:?} (it is at {here:#x})");
	let x = n.as_node_mut();
	ensure!(at(x) == here && x.node_type() == k, "as_node_mut of a node of kind {k:?} is another object");
	Ok(())
}
fn edit(s: &mut Src, n: &mut Box<dyn Node>, m: &mut MNode) -> R {
	let t = gen::text(s, Chars::Any);
	let how = s.idx(4);
	macro_rules! get {
		($cast:ident, $t:ty) => {
			match how {
				0 => n.$cast().ok(),
				1 => n.as_mut().$cast().ok(),
				2 => n.as_node_mut().$cast().ok(),
				_ => n.as_any_mut().downcast_mut::<$t>(),
			}
		};
	}
	match m {
		MNode::El(e) => {
			let Some(x) = get!(as_element_mut, Element) else { bad!("mutable cast {how} fails") };
			x.set_attr("edited", t.as_str()).expect("valid");
			e.attrs.insert("edited".into(), t);
		}
		MNode::Text(c) => {
			let Some(x) = get!(as_text_mut, Text) else { bad!("mutable cast {how} fails") };
			x.content = t.clone();
			*c = t;
		}
		MNode::Comment(c) => {
			let Some(x) = get!(as_comment_mut, Comment) else { bad!("mutable cast {how} fails") };
			if x.set_content(t.as_str()).is_ok() {
				*c = t;
			}
		}
		MNode::CData(c) => {
			let Some(x) = get!(as_cdata_mut, CData) else { bad!("mutable cast {how} fails") };
			if x.set_text(t.as_str()).is_ok() {
				*c = t;
			}
		}
	}
	Ok(())
}
fn all(e: &Element, m: &MEl, indent: &str) -> R {
	ensure!(e.children().count() == m.kids.len(), "number of children");
	for (n, k) in e.children().zip(&m.kids) {
		views(n, k, indent)?;
		if let (Ok(x), MNode::El(y)) = (n.as_element(), k) {
			all(x, y, indent)?;
		}
	}
	Ok(())
}
fn all_mut(e: &mut Element, m: &MEl) -> R {
	for (n, k) in e.children_mut().zip(&m.kids) {
		casts_mut(n.as_mut(), k)?;
		if let (Ok(x), MNode::El(y)) = (n.as_element_mut(), k) {
			all_mut(x, y)?;
		}
	}
	Ok(())
}
fn check(s: &mut Src, c: &mut Ctx) -> R {
	let m = gen::doc(s, gen::TreeOpts { max_nodes: 20, ..Default::default() });
	let mut d = match s.idx(3) {
		0 => build::document(s, &m),
		1 => Document::new(build::exact(&m.root)),
		_ => {
			let d = build::document(s, &m);
			kiss_xml::parse_str(d.to_string()).unwrap_or(d)
		}
	};
	if s.chance(1, 4) {
		c.label("nodes replaced in place");
		build::loosen(s, d.root_element_mut());
	}
	let indent = gen::any_indent(s);
	let mut m = observe(d.root_element());
	c.input(&d.to_string());
	let kinds = [m.kids.iter().any(|k| matches!(k, MNode::El(_))), m.kids.iter().any(|k| matches!(k, MNode::Text(_))), m.kids.iter().any(|k| matches!(k, MNode::Comment(_))), m.kids.iter().any(|k| matches!(k, MNode::CData(_)))];
	c.nontrivial = kinds.iter().filter(|k| **k).count() >= 2;
	for (k, n) in kinds.iter().zip(["elements", "text", "comments", "CDATA"]) {
		if *k {
			c.label(n);
		}
	}
	let root = MNode::El(m.clone());
	view(d.root_element(), &root, &indent, "the root element")?;
	view(d.root_element().as_node(), &root, &indent, "the root element as a node")?;
	all(d.root_element(), &m, &indent)?;
	casts_mut(d.root_element_mut(), &root)?;
	all_mut(d.root_element_mut(), &m)?;
	same_el(&observe(d.root_element()), &m, "after looking only")?;
	// edits through mutable casts
	for _ in 0..1 + s.size(4, 1) {
		let p = m.paths();
		let path = s.pick(&p).clone();
		let e = super::c03::walk(d.root_element_mut(), &path);
		let x = m.at_mut(&path);
		if x.kids.is_empty() {
			continue;
		}
		let i = s.idx(x.kids.len());
		let Some(n) = e.children_mut().nth(i) else { bad!("child {i} is missing") };
		edit(s, n, &mut x.kids[i])?;
		views(n, &x.kids[i], &indent)?;
		same_el(&observe(d.root_element()), &m, "after an edit through a mutable cast")?;
	}
	ensure!(d.root_element().to_string() == write_element(&m, "  "), "after the edits the root is written as {} instead of {}", d.root_element(), write_element(&m, "  "));
	// loose nodes
	let t = gen::text(s, Chars::Any);
	let u = gen::text(s, Chars::Any);
	let x = Text::new(t.as_str()).concat(&Text::from(u.as_str()));
	view(&x, &MNode::Text(format!("{t}{u}")), &indent, "a concatenated text")?;
	view(&Text::from(t.clone()), &MNode::Text(t.clone()), &indent, "a text made from a string")?;
	if !t.contains("-->") {
		view(&Comment::from(t.as_str()), &MNode::Comment(t.clone()), &indent, "a comment made from a string")?;
		view(&Comment::from(t.clone()), &MNode::Comment(t.clone()), &indent, "a comment made from a string")?;
	}
	if !t.contains("]]>") {
		view(&CData::from(t.as_str()), &MNode::CData(t.clone()), &indent, "a CDATA section made from a string")?;
		view(&CData::from(t.clone()), &MNode::CData(t.clone()), &indent, "a CDATA section made from a string")?;
	}
	for (k, n) in [(DomNodeType::CDataNode, "CDATA"), (DomNodeType::CommentNode, "Comment"), (DomNodeType::ElementNode, "Element"), (DomNodeType::TextNode, "Text")] {
		ensure!(k.to_string() == n, "the kind {k:?} is displayed as {k}");
	}
	Ok(())
}
