//! C10: namespaces of built documents match what their XML means.
use super::*;
use std::collections::HashMap;

pub fn prop() -> Prop {
	Prop {
		id: "C10",
		check,
		sweep: || gen::huge_sweeps(&[1]),
		rule: "case = a namespace-heavy tree assembled from new elements in a random order of append, append_boxed, append_all, insert and constructors; non-trivial = at least 2 elements and 2 declarations",
		quick: (12000, 13000),
		thorough: (720000, 780000),
		witnesses: &[],
	}
}

struct Item {
	m: MEl,
	/// for what is not an element
	leaf: Option<MNode>,
	parent: Option<usize>,
	/// position among the siblings
	pos: usize,
	attached: bool,
	/// set while it is a root of the forest
	e: Option<Box<dyn Node>>,
	/// which declaration the constructor gets as an argument
	explicit: bool,
}
/// splits the tree into items, in document order
fn flatten(s: &mut Src, m: &MEl, parent: Option<usize>, pos: usize, out: &mut Vec<Item>) {
	let me = out.len();
	let mut own = m.clone();
	let kids = std::mem::take(&mut own.kids);
	let key = match &m.prefix {
		None => "xmlns".to_string(),
		Some(p) => format!("xmlns:{p}"),
	};
	let explicit = m.attrs.get(&key).map_or(false, |v| !v.is_empty()) && s.chance(1, 2);
	out.push(Item { m: own, leaf: None, parent, pos, attached: false, e: None, explicit });
	for (k, n) in kids.iter().enumerate() {
		match n {
			MNode::El(c) => flatten(s, c, Some(me), k, out),
			n => out.push(Item { m: MEl::default(), leaf: Some(n.clone()), parent: Some(me), pos: k, attached: false, e: None, explicit: false }),
		}
	}
}
fn make(s: &mut Src, it: &Item, kids: Option<Vec<Box<dyn Node>>>) -> Result<Box<dyn Node>, Fail> {
	if let Some(n) = &it.leaf {
		return Ok(super::build::node(s, n));
	}
	let mut attrs: HashMap<String, String> = it.m.attrs.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
	let key = match &it.m.prefix {
		None => "xmlns".to_string(),
		Some(p) => format!("xmlns:{p}"),
	};
	let mut ns = None;
	if it.explicit {
		ns = attrs.get(&key).cloned();
		// the attribute may be absent, equal or different: the argument wins
		match s.idx(3) {
			0 => {
				attrs.remove(&key);
			}
			1 => {}
			_ => {
				let v = s.pick(&["urn:overridden", "", "urn:b"]).to_string();
				attrs.insert(key.clone(), v);
			}
		}
	}
	let e = if ns.is_some() || it.m.prefix.is_some() || s.chance(1, 3) {
		let a = if attrs.is_empty() && s.chance(1, 2) { None } else { Some(attrs) };
		Element::new(it.m.name.as_str(), None, a, ns.clone(), it.m.prefix.clone(), kids)
	} else {
		match (attrs.is_empty(), kids) {
			(true, None) => Element::new_from_name(&it.m.name),
			(true, Some(k)) => Element::new_with_children(&it.m.name, k),
			(false, None) => Element::new_with_attributes(&it.m.name, attrs),
			(false, Some(k)) => Element::new_with_attributes_and_children(&it.m.name, attrs, k),
		}
	};
	let e = match e {
		Ok(e) => e,
		Err(x) => bad!("constructor failed: {x}"),
	};
	if let Some(n) = ns {
		ensure!(e.get_attr(key.as_str()) == Some(&n), "the explicit namespace {n:?} is not visible as attribute {key}: {:?}", e.attributes());
		ensure!(e.namespace().as_ref() == Some(&n), "explicit namespace {n:?}, namespace() = {:?}", e.namespace());
	}
	Ok(e.boxed())
}
/// (root of the forest, path of indices among attached siblings)
fn locate(v: &[Item], i: usize) -> (usize, Vec<usize>) {
	if !v[i].attached {
		return (i, vec![]);
	}
	let p = v[i].parent.unwrap();
	let at = v.iter().filter(|x| x.parent == Some(p) && x.attached && x.leaf.is_none() && x.pos < v[i].pos).count();
	let (r, mut path) = locate(v, p);
	path.push(at);
	(r, path)
}
fn insert(target: &mut Element, at: usize, mut n: Box<dyn Node>) -> Result<(), kiss_xml::errors::IndexOutOfBounds> {
	match n.node_type() {
		DomNodeType::CommentNode => target.insert(at, n.as_comment().unwrap().clone()),
		DomNodeType::CDataNode => target.insert(at, n.as_cdata().unwrap().clone()),
		DomNodeType::TextNode => target.insert(at, n.as_text().unwrap().clone()),
		DomNodeType::ElementNode => target.insert(at, std::mem::take(n.as_element_mut().unwrap())),
	}
}

/// any tree, built in any of the ways there are
fn built(s: &mut Src, c: &mut Ctx) -> R {
	c.label("any tree");
	let m = gen::tree(s, gen::TreeOpts { max_nodes: 40, ..Default::default() });
	let d = Document::new(build::element(s, &m));
	let m = observe(d.root_element());
	let t = d.to_string();
	c.input(&t);
	c.nontrivial = m.count() >= 2;
	let Some(want) = resolve(&m) else { bad!("harness: undeclared prefix") };
	if let Some(x) = super::c09::diff_ns(&observe_ns(d.root_element()), &want) {
		bad!("built document: {x}\n{t}");
	}
	let r = reparse(&t, "the written document")?;
	if let Some(x) = super::c09::diff_ns(&observe_ns(r.root_element()), &want) {
		bad!("reread document: {x}\n{t}");
	}
	Ok(())
}
/// a tree to which new elements are added, between other edits
fn history(s: &mut Src, c: &mut Ctx) -> R {
	c.label("additions between other edits");
	let mut budget = 8;
	let mut m = super::c09::tree(s, &[], 0, &mut budget);
	if s.chance(1, 3) {
		m = gen::tree(s, gen::TreeOpts { max_nodes: 10, ..Default::default() });
	}
	let mut root = build::element(s, &m);
	for _ in 0..2 + s.size(12, 3) {
		let mut whole = observe(&root);
		let p = whole.paths();
		let path = s.pick(&p).clone();
		let e = super::c03::walk(&mut root, &path);
		let n = e.children().count();
		match s.weighted(&[6, 3, 2, 2, 1]) {
			0 => {
				let mut budget = 3;
				let mut x = super::c09::tree(s, &[], 0, &mut budget);
				let at = s.idx(n + 1);
				let local = x.prefix.clone();
				if s.chance(1, 2) {
					x.prefix = Some(s.pick(gen::PREFIXES).to_string());
				}
				whole.at_mut(&path).kids.insert(at, MNode::El(x.clone()));
				if resolve(&whole).is_none() {
					x.prefix = local;
				}
				let x = build::element(s, &x);
				if at == n && s.chance(1, 3) {
					match s.idx(3) {
						0 => e.append(x),
						1 => e.append_boxed(x.boxed()),
						_ => e.append_all(vec![Text::new("u").boxed(), x.boxed()]),
					}
				} else {
					ensure!(e.insert(at, x).is_ok(), "insert({at}) of {n} failed");
				}
			}
			1 => {
				let t: Box<dyn Node> = match s.idx(3) {
					0 => Comment::new("c").expect("comment").boxed(),
					1 => Text::new(s.pick(&["t", " ", "\n"]).to_string()).boxed(),
					_ => Text::new("t").boxed(),
				};
				let at = s.idx(n + 1);
				ensure!(insert(e, at, t).is_ok(), "insert({at}) of {n} failed");
			}
			2 => {
				if n > 0 {
					e.remove(s.idx(n)).expect("index in range");
				}
			}
			3 => {
				// text, something and text, without what is between them
				e.append_all(vec![Text::new("t").boxed(), Comment::new("c").expect("comment").boxed(), Text::new("s").boxed()]);
				e.remove_by(&|n: &Box<dyn Node>| n.is_comment());
			}
			_ => {
				if s.chance(1, 3) {
					e.clear_children();
				} else {
					e.set_text("x");
				}
			}
		}
	}
	let d = Document::new(root);
	let m = observe(d.root_element());
	let t = d.to_string();
	c.input(&t);
	c.nontrivial = m.count() >= 2;
	let Some(want) = resolve(&m) else { return Err(Fail::Discard) };
	if let Some(x) = super::c09::diff_ns(&observe_ns(d.root_element()), &want) {
		bad!("document built by a history of edits: {x}\n{t}");
	}
	let r = reparse(&t, "the written document")?;
	if let Some(x) = super::c09::diff_ns(&observe_ns(r.root_element()), &want) {
		bad!("reread document: {x}\n{t}");
	}
	Ok(())
}
fn check(s: &mut Src, c: &mut Ctx) -> R {
	if s.chance(1, 30) {
		return built(s, c);
	}
	if s.chance(1, 6) {
		return history(s, c);
	}
	let mut budget = 16;
	let mut tree = super::c09::tree(s, &[], 0, &mut budget);
	if s.chance(1, 40) {
		super::c09::chain(s, &mut tree, 50);
	}
	if s.chance(1, 60) {
		gen::grow(s, &mut tree, Chars::Xml, 20);
	}
	let mut v: Vec<Item> = Vec::new();
	let mut model = tree.clone();
	// other nodes among the elements; one text per element at most, so that nothing is merged
	fn decorate(s: &mut Src, e: &mut MEl) {
		e.kids.retain(|k| matches!(k, MNode::El(_)));
		for k in &mut e.kids {
			if let MNode::El(x) = k {
				decorate(s, x)
			}
		}
		let mut text = false;
		for _ in 0..s.weighted(&[6, 3, 2, 1]) {
			let at = s.idx(e.kids.len() + 1);
			let n = match s.idx(3) {
				0 if !text => {
					text = true;
					MNode::Text("t".into())
				}
				1 => MNode::CData("d".into()),
				_ => MNode::Comment("c".into()),
			};
			e.kids.insert(at, n);
		}
	}
	if s.chance(1, 2) {
		decorate(s, &mut model);
	} else {
		fn strip(e: &mut MEl) {
			e.kids.retain(|k| matches!(k, MNode::El(_)));
			for k in &mut e.kids {
				if let MNode::El(x) = k {
					strip(x)
				}
			}
		}
		strip(&mut model);
	}
	flatten(s, &model, None, 0, &mut v);
	let n = v.len();
	// some elements are made together with all of their children
	let style = s.weighted(&[4, 2, 1, 1]);
	let mut edges: Vec<usize> = (1..n).collect();
	match style {
		0 => {
			c.label("random order");
			for i in 1..edges.len() {
				let j = s.idx(i + 1);
				edges.swap(i, i - j);
			}
		}
		1 => c.label("top-down"),
		2 => {
			c.label("bottom-up");
			edges.reverse();
		}
		_ => c.label("constructors"),
	}
	if style == 3 {
		for i in (0..n).rev() {
			let kids: Vec<usize> = (0..n).filter(|k| v[*k].parent == Some(i)).collect();
			let boxes: Vec<Box<dyn Node>> = kids.iter().map(|k| v[*k].e.take().expect("made")).collect();
			let e = make(s, &v[i], if boxes.is_empty() { None } else { Some(boxes) })?;
			for k in kids {
				v[k].attached = true;
			}
			v[i].e = Some(e);
		}
	} else {
		for i in 0..n {
			let e = make(s, &v[i], None)?;
			v[i].e = Some(e);
		}
		let mut k = 0;
		while k < edges.len() {
			let i = edges[k];
			k += 1;
			if v[i].attached {
				continue;
			}
			let p = v[i].parent.unwrap();
			let before = v.iter().filter(|x| x.parent == Some(p) && x.attached && x.pos < v[i].pos).count();
			let total = v.iter().filter(|x| x.parent == Some(p) && x.attached).count();
			let (r, path) = locate(&v, p);
			let mut kids = vec![i];
			let how = s.idx(4);
			if before == total && how == 2 {
				// the following siblings along with it
				let mut pos = v[i].pos + 1;
				while let Some(x) = (0..n).find(|x| v[*x].parent == Some(p) && v[*x].pos == pos && !v[*x].attached) {
					if !s.chance(2, 3) {
						break;
					}
					kids.push(x);
					pos += 1;
				}
			}
			let mut es: Vec<Box<dyn Node>> = kids.iter().map(|k| v[*k].e.take().expect("detached")).collect();
			let target = super::c03::walk(v[r].e.as_mut().expect("root").as_element_mut().expect("an element"), &path);
			if before == total {
				match how {
					0 => match es.pop().unwrap() {
						n if n.is_comment() => target.append(n.as_comment().unwrap().clone()),
						n if n.is_cdata() => target.append(n.as_cdata().unwrap().clone()),
						n if n.is_text() => target.append(n.as_text().unwrap().clone()),
						mut n => target.append(std::mem::take(n.as_element_mut().unwrap())),
					},
					1 => target.append_boxed(es.pop().unwrap()),
					2 => target.append_all(es),
					_ => {
						if let Err(x) = insert(target, before, es.pop().unwrap()) {
							bad!("insert at the end failed: {x}");
						}
					}
				}
			} else if let Err(x) = insert(target, before, es.pop().unwrap()) {
				bad!("insert({before}) of {total} failed: {x}");
			}
			for k in kids {
				v[k].attached = true;
			}
		}
	}
	let root = std::mem::take(v[0].e.take().expect("root").as_element_mut().expect("an element"));
	c.nontrivial = n >= 2 && v.iter().map(|x| x.m.attrs.keys().filter(|k| k.starts_with("xmlns")).count()).sum::<usize>() >= 2;
	let d = Document::new(root);
	let t = d.to_string();
	c.input(&t);
	c.note(format!("style {style}, edges {edges:?}"));
	same_el(&observe(d.root_element()), &model, "the assembled tree vs the model")?;
	let built = observe_ns(d.root_element());
	let Some(want) = resolve(&model) else { bad!("harness: undeclared prefix") };
	if let Some(x) = super::c09::diff_ns(&built, &want) {
		bad!("built document: {x}\n{t}");
	}
	let r = reparse(&t, "the written document")?;
	if let Some(x) = super::c09::diff_ns(&observe_ns(r.root_element()), &built) {
		bad!("reread document: {x}\n{t}");
	}
	ensure!(r == d, "the reread document is not equal\n{t}");
	let mut all = vec![d.root_element()];
	while let Some(e) = all.pop() {
		let want = match e.namespace_prefix() {
			Some(p) => format!("{p}:{}", e.name()),
			None => e.name(),
		};
		ensure!(e.tag_name() == want, "tag_name() = {:?}, expected {want:?}", e.tag_name());
		all.extend(e.child_elements());
	}
	Ok(())
}
