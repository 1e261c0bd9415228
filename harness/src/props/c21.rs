//! C21: documents with equal content behave equally, however they came about.
use super::c11::{small_node, Pred};
use super::*;
use crate::surface;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

pub fn prop() -> Prop {
	Prop {
		id: "C21",
		check,
		sweep: || gen::huge_sweep(&[1, 1]),
		rule: "case = one content brought about in three to five ways (built, parsed, written and reread, cloned, edited and restored), then one random sequence of edits and queries applied to all of them, with a comparison of results and states after every step; non-trivial = at least 3 steps that changed the document",
		quick: (5000, 5000),
		thorough: (300000, 300000),
		witnesses: &[],
	}
}

#[derive(Debug)]
enum Op {
	Append(MNode, u8),
	Insert(usize, MNode),
	Remove(usize),
	RemoveElement(usize),
	RemoveWhere(Pred, u8),
	RemoveByName(String),
	SetText(String),
	SetAttr(String, String),
	RemoveAttr(String),
	ClearAttrs,
	ClearKids,
	/// removes the child at the index and appends it to the element at the path, or inserts it there at the front
	Move(usize, Vec<usize>, bool),
	/// appends a clone of the element to the element at the path
	Copy(Vec<usize>),
	Leaf(usize, String),
	Swap(usize, usize),
	Query(String, Option<String>, Option<String>),
	Decl(bool),
	Dtd(bool),
	Debug,
}
/// the element at the path, or the deepest one on the way to it that is there
fn walk<'a>(e: &'a mut Element, path: &[usize]) -> &'a mut Element {
	let Some((i, rest)) = path.split_first() else { return e };
	if e.child_elements().count() <= *i {
		return e;
	}
	walk(e.child_elements_mut().nth(*i).expect("child"), rest)
}
fn real(n: &MNode) -> Box<dyn Node> {
	match n {
		MNode::El(e) => build::exact(e).boxed(),
		MNode::Text(t) => Text::new(t.as_str()).boxed(),
		MNode::Comment(t) => Comment::new(t.as_str()).expect("comment").boxed(),
		MNode::CData(t) => CData::new(t.as_str()).expect("cdata").boxed(),
	}
}
fn err<T>(r: Result<T, impl std::fmt::Display>) -> String {
	match r {
		Ok(_) => "done".into(),
		Err(e) => format!("error: {e}"),
	}
}
fn hash(e: &Element) -> u64 {
	let mut h = DefaultHasher::new();
	e.hash(&mut h);
	h.finish()
}
fn list<'a>(i: impl Iterator<Item = &'a Element>) -> String {
	let v: Vec<String> = i.map(|e| format!("{} {:?} {:?}", e.tag_name(), e.namespace(), crate::util::clip(&e.text(), 40))).collect();
	format!("{v:?}")
}
fn apply(d: &mut Document, path: &[usize], op: &Op) -> String {
	let root = d.root_element_mut();
	match op {
		Op::Move(i, to, front) => {
			let n = match walk(root, path).remove(*i) {
				Ok(n) => n,
				Err(e) => return format!("error: {e}"),
			};
			let r = format!("{:?}", observe_node(n.as_ref()));
			let to = walk(root, to);
			if *front && n.is_element() {
				let e = n.as_element().expect("element").clone();
				return r + &err(to.insert(0, e));
			}
			to.append_boxed(n);
			return r;
		}
		Op::Copy(to) => {
			let e = walk(root, path).clone();
			let ns = format!("{:?}", observe_ns(&e));
			walk(root, to).append(e);
			return ns;
		}
		Op::Decl(on) => {
			d.set_declaration(on.then(Declaration::new));
			return format!("{:?}", d.declaration());
		}
		Op::Dtd(on) => {
			let t = DTD::from_string("<!DOCTYPE a [<!ENTITY b 'c'>]>").expect("dtd");
			d.set_doctype_defs(if *on { Some(std::slice::from_ref(&t)) } else { None });
			return d.doctype_defs().count().to_string();
		}
		_ => {}
	}
	let e = walk(root, path);
	match op {
		Op::Append(n, how) => {
			match (how, n) {
				(0, MNode::El(x)) => e.append(build::exact(x)),
				(0, MNode::Text(t)) => e.append(Text::new(t.as_str())),
				(1, n) => e.append_all(vec![real(n), real(n)]),
				(_, n) => e.append_boxed(real(n)),
			}
			String::new()
		}
		Op::Insert(i, n) => err(match n {
			MNode::El(x) => e.insert(*i, build::exact(x)),
			MNode::Text(t) => e.insert(*i, Text::new(t.as_str())),
			MNode::Comment(t) => e.insert(*i, Comment::new(t.as_str()).expect("comment")),
			MNode::CData(t) => e.insert(*i, CData::new(t.as_str()).expect("cdata")),
		}),
		Op::Remove(i) => match e.remove(*i) {
			Ok(n) => format!("{:?} {:?} {n:?}", observe_node(n.as_ref()), n.text()).replace('\n', "/").chars().take(400).collect(),
			Err(e) => format!("error: {e}"),
		},
		Op::RemoveElement(i) => match e.remove_element(*i) {
			Ok(n) => format!("{:?} {:?}", observe(&n), observe_ns(&n)),
			Err(e) => format!("error: {e}"),
		},
		Op::RemoveWhere(p, how) => {
			let f = |n: &Box<dyn Node>| p.eval(&observe_node(n.as_ref()));
			let g = |x: &Element| p.eval(&MNode::El(observe(x)));
			match how {
				0 => e.remove_by(&f),
				1 => e.remove_all(&f),
				2 => e.remove_elements(g),
				_ => e.remove_all_elements(g),
			}
			.to_string()
		}
		Op::RemoveByName(n) => e.remove_elements_by_name(n.as_str()).to_string(),
		Op::SetText(t) => {
			e.set_text(t.as_str());
			String::new()
		}
		Op::SetAttr(k, v) => err(e.set_attr(k.as_str(), v.as_str())),
		Op::RemoveAttr(k) => format!("{:?}", e.remove_attr(k.as_str())),
		Op::ClearAttrs => {
			e.clear_attributes();
			String::new()
		}
		Op::ClearKids => {
			e.clear_children();
			String::new()
		}
		Op::Leaf(i, t) => {
			let Some(n) = e.children_mut().nth(*i) else { return "none".into() };
			match n.node_type() {
				DomNodeType::TextNode => {
					n.as_text_mut().expect("text").content = t.clone();
					String::new()
				}
				DomNodeType::CommentNode => err(n.as_comment_mut().expect("comment").set_content(t.as_str())),
				DomNodeType::CDataNode => err(n.as_cdata_mut().expect("cdata").set_text(t.as_str())),
				DomNodeType::ElementNode => {
					n.as_element_mut().expect("element").set_text(t.as_str());
					String::new()
				}
			}
		}
		Op::Swap(i, j) => {
			let (lo, hi) = (*i.min(j), *i.max(j));
			let mut v: Vec<&mut Box<dyn Node>> = e.children_mut().collect();
			if lo == hi || hi >= v.len() {
				return "none".into();
			}
			let (a, b) = v.split_at_mut(hi);
			std::mem::swap(&mut *a[lo], &mut *b[0]);
			String::new()
		}
		Op::Query(n, ns, p) => {
			let mut o = vec![
				list(e.elements_by_name(n.as_str())),
				list(e.search_elements_by_name(n.as_str())),
				list(e.elements_by_namespace(ns.as_deref())),
				list(e.elements_by_namespace_prefix(p.as_deref())),
				list(e.search_elements(|x| x.namespace().as_deref() == ns.as_deref())),
				err(e.first_element_by_name(n.as_str())),
				e.search_text(|t| !t.content.is_empty()).count().to_string(),
				e.search_comments(|_| true).map(|c| c.get_content().to_string()).collect(),
				e.text(),
				format!("{:?} {:?} {:?}", e.default_namespace(), e.namespace_prefix(), e.get_attr(n.as_str())),
			];
			let mut all: Vec<(String, String)> = e.namespace_prefixes().unwrap_or_default().into_iter().collect();
			all.sort();
			o.push(format!("{all:?}"));
			let mut kinds: Vec<String> = e.all_children().map(|n| format!("{}{}", n.is_element(), n.text())).collect();
			kinds.sort();
			o.push(format!("{kinds:?}"));
			o.join("\n")
		}
		_ => format!("{e}"),
	}
}
fn op(s: &mut Src, paths: &[Vec<usize>]) -> Op {
	let name = |s: &mut Src| s.pick(&["a", "b", "c", "d", "x"]).to_string();
	let txt = |s: &mut Src| match s.idx(3) {
		0 => s.pick(&["t", " x", "", " ", "\n", "&lt;", "]]>", "-->"]).to_string(),
		1 => s.pick(&["urn:a", "urn:b", "a"]).to_string(),
		_ => gen::text(s, Chars::Any),
	};
	let key = |s: &mut Src| match s.idx(4) {
		0 => s.pick(&["k", "id", "p:k", "xml:lang"]).to_string(),
		1 => s.pick(&["xmlns", "xmlns:p", "xmlns:q", "xmlns:r"]).to_string(),
		2 => s.pick(&["", "1", "a b", "K"]).to_string(),
		_ => gen::attr_name(s),
	};
	let idx = |s: &mut Src| s.size(12, 1);
	match s.weighted(&[8, 6, 5, 3, 4, 2, 3, 4, 3, 1, 1, 5, 4, 3, 3, 6, 1, 1, 1]) {
		0 | 1 => {
			let mut n = small_node(s, 2);
			if let MNode::El(e) = &mut n {
				// it may use what is declared where it goes, or not declared at all
				if s.chance(1, 2) {
					e.prefix = Some(s.pick(super::c09::PFX).to_string());
				}
				if s.chance(1, 4) {
					let p = s.pick(super::c09::PFX).to_string();
					e.attrs.insert(format!("xmlns:{p}"), s.pick(super::c09::URI).to_string());
				}
				if s.chance(1, 6) {
					e.attrs.insert("xmlns".into(), s.pick(super::c09::URI).to_string());
				}
			}
			if s.chance(1, 2) {
				Op::Append(n, s.idx(3) as u8)
			} else {
				Op::Insert(idx(s), n)
			}
		}
		2 => Op::Remove(idx(s)),
		3 => Op::RemoveElement(idx(s)),
		4 => Op::RemoveWhere(super::c11::pred(s), s.idx(4) as u8),
		5 => Op::RemoveByName(name(s)),
		6 => Op::SetText(txt(s)),
		7 => Op::SetAttr(key(s), txt(s)),
		8 => Op::RemoveAttr(key(s)),
		9 => Op::ClearAttrs,
		10 => Op::ClearKids,
		11 => Op::Move(idx(s), s.pick(paths).clone(), s.chance(1, 3)),
		12 => Op::Copy(s.pick(paths).clone()),
		13 => Op::Leaf(idx(s), txt(s)),
		14 => Op::Swap(idx(s), idx(s)),
		15 => {
			let ns = if s.chance(1, 4) { None } else { Some(s.pick(super::c09::URI).to_string()) };
			let p = if s.chance(1, 4) { None } else { Some(s.pick(super::c09::PFX).to_string()) };
			Op::Query(name(s), ns, p)
		}
		16 => Op::Decl(s.chance(1, 2)),
		17 => Op::Dtd(s.chance(1, 2)),
		_ => Op::Debug,
	}
}
/// edits that restore what was there
fn there_and_back(s: &mut Src, d: &mut Document) -> R {
	for _ in 0..1 + s.size(5, 2) {
		let paths = observe(d.root_element()).paths();
		let path = s.pick(&paths).clone();
		let e = super::c03::walk(d.root_element_mut(), &path);
		match s.idx(12) {
			0 => {
				// an element at the end, and away
				e.append(Element::new_from_name("junk").expect("name"));
				let n = e.child_elements().count();
				ensure!(e.remove_element(n - 1).is_ok(), "the appended element cannot be removed");
			}
			1 => {
				let n = e.children().count();
				let c = Comment::new("junk").expect("comment");
				// not between two texts: there are none next to each other
				ensure!(e.insert(n, c).is_ok() && e.remove(n).is_ok(), "insert and remove at the end fail");
			}
			2 => {
				if e.get_attr("junk").is_none() {
					ensure!(e.set_attr("junk", "1").is_ok() && e.remove_attr("junk").is_some(), "set and remove of an attribute fail");
				}
			}
			3 => {
				let n = e.attributes().len();
				if n > 0 {
					let mut keys: Vec<String> = e.attributes().keys().cloned().collect();
					keys.sort();
					let k = s.pick(&keys).clone();
					let v = e.remove_attr(k.as_str()).expect("present");
					ensure!(e.set_attr(k.as_str(), v.as_str()).is_ok(), "an attribute cannot be set again");
				}
			}
			4 => {
				// out, and back into the same place
				let n = e.children().count();
				if n > 0 {
					let n = n - 1;
					let x = e.remove(n).map_err(|e| Fail::Bad(format!("remove: {e}")))?;
					e.append_boxed(x);
				}
			}
			5 => {
				// text at the end, and away
				if !e.children().last().is_some_and(|n| n.is_text()) {
					let n = e.children().count();
					let t = s.pick(&["junk", " junk ", "\njunk"]).to_string();
					e.append(Text::new(t));
					if s.chance(1, 2) {
						ensure!(e.remove(n).is_ok(), "the appended text cannot be removed");
					} else {
						let k = e.remove_by(&|n: &Box<dyn Node>| n.is_text() && n.text().contains("junk"));
						ensure!(k == 1, "remove_by removes {k} nodes instead of the appended text");
					}
				}
			}
			6 | 7 => {
				// any child out, elsewhere for a while, and back into the same place
				let n = e.children().count();
				if n > 0 {
					let k = s.idx(n);
					let x = e.remove(k).map_err(|e| Fail::Bad(format!("remove: {e}")))?;
					let r = match x.node_type() {
						DomNodeType::ElementNode => {
							let x = x.as_element().expect("element").clone();
							let x = if s.chance(1, 2) { build::elsewhere(s, x) } else { x };
							e.insert(k, x)
						}
						DomNodeType::TextNode => e.insert(k, x.as_text().expect("text").clone()),
						DomNodeType::CommentNode => e.insert(k, x.as_comment().expect("comment").clone()),
						DomNodeType::CDataNode => e.insert(k, x.as_cdata().expect("cdata").clone()),
					};
					ensure!(r.is_ok(), "the removed node cannot be inserted again");
				}
			}
			8 => {
				// an attribute overwritten and restored
				let mut keys: Vec<String> = e.attributes().keys().filter(|k| !k.starts_with("xmlns")).cloned().collect();
				keys.sort();
				if !keys.is_empty() {
					let k = s.pick(&keys).clone();
					let v = e.get_attr(k.as_str()).expect("present").clone();
					ensure!(e.set_attr(k.as_str(), "junk").is_ok() && e.set_attr(k.as_str(), v.as_str()).is_ok(), "an attribute cannot be overwritten");
				}
			}
			9 => {
				// the content of a leaf changed and restored
				for n in e.children_mut() {
					if let Ok(t) = n.as_text_mut() {
						let was = std::mem::replace(&mut t.content, "junk".into());
						t.content = was;
					} else if let Ok(t) = n.as_comment_mut() {
						let was = t.get_content().to_string();
						ensure!(t.set_content("junk").is_ok() && t.set_content(was).is_ok(), "a comment cannot be changed and restored");
					} else if let Ok(t) = n.as_cdata_mut() {
						let was = t.get_content().to_string();
						ensure!(t.set_text("junk").is_ok() && t.set_text(was).is_ok(), "a CDATA section cannot be changed and restored");
					}
				}
			}
			10 => {
				// two children swapped, and again
				for _ in 0..2 {
					let mut v: Vec<&mut Box<dyn Node>> = e.children_mut().collect();
					if v.len() > 1 {
						let (a, b) = v.split_at_mut(1);
						std::mem::swap(&mut *a[0], &mut *b[0]);
					}
				}
			}
			_ => {
				let x = e.clone();
				*e = x;
			}
		}
	}
	Ok(())
}
/// the same with a cloned root
fn copy(d: &Document) -> Document {
	let dtds: Vec<DTD> = d.doctype_defs().cloned().collect();
	Document::new_with_decl_dtd(d.root_element().clone(), d.declaration().clone(), if dtds.is_empty() { None } else { Some(&dtds) })
}
fn key_of(d: &Document) -> (MDoc, Vec<Ns>) {
	(observe_doc(d), observe_ns(d.root_element()))
}

fn check(s: &mut Src, c: &mut Ctx) -> R {
	let mut root = if s.chance(1, 3) {
		gen::tree(s, gen::TreeOpts { chars: Chars::Xml, strict_comments: true, max_nodes: 25, ..Default::default() })
	} else {
		let mut budget = 14;
		let mut t = super::c09::tree(s, &[], 0, &mut budget);
		if s.chance(1, 3) {
			let paths = t.paths();
			for _ in 0..1 + s.size(5, 2) {
				let p = s.pick(&paths).clone();
				let n = small_node(s, 1);
				let e = t.at_mut(&p);
				if !e.kids.last().is_some_and(|k| matches!(k, MNode::Text(_))) {
					e.kids.push(n);
				}
			}
		}
		t
	};
	super::c11::strict(&mut root);
	no_cr(&mut root);
	root.clean_deep();
	if !super::c08::renderable(&root) {
		return Err(Fail::Discard);
	}
	let m = MDoc { root, ..Default::default() };
	let built = build::document(s, &m);
	let want = key_of(&built);
	let mut twins: Vec<(&str, Document)> = Vec::new();
	let text = surface::join(&surface::render(s, &m));
	c.input(&text);
	let parsed = reparse(&text, "a rendered document")?;
	if s.chance(1, 2) {
		let t = built.to_string();
		twins.push(("written and reread", reparse(&t, "a written document")?));
	}
	if s.chance(1, 2) {
		let x = if s.chance(1, 2) { copy(&built) } else { copy(&parsed) };
		twins.push(("cloned", x));
	}
	if s.chance(1, 2) {
		let mut x = if s.chance(1, 2) { build::document(s, &m) } else { copy(&parsed) };
		there_and_back(s, &mut x)?;
		twins.push(("edited and restored", x));
	}
	twins.push(("parsed", parsed));
	// only what has the same content is a twin; what the content is, other properties say
	let n = twins.len();
	twins.retain(|(_, d)| observe_doc(d) == want.0);
	if twins.len() < n {
		c.label("content differs (not used)");
	}
	if twins.is_empty() {
		return Err(Fail::Discard);
	}
	for (n, _) in &twins {
		c.label(*n);
	}
	let mut all = vec![("built", built)];
	all.append(&mut twins);
	let ind = gen::indent(s);
	let mut changed = 0;
	let steps = s.size(40, 9);
	for step in 0..=steps {
		let mut what = "the start".to_string();
		if step > 0 {
			let before = observe_doc(&all[0].1);
			let paths = before.root.paths();
			let path = s.pick(&paths).clone();
			let o = op(s, &paths);
			what = format!("step {step}, {o:?} at {path:?}");
			c.note(what.clone());
			c.label(format!("{o:?}").split(['(', ' ']).next().unwrap_or("").to_string());
			let mut first: Option<String> = None;
			for (n, d) in all.iter_mut() {
				let r = apply(d, &path, &o);
				match &first {
					None => first = Some(r),
					Some(f) => ensure!(*f == r, "{what}: the {n} document answers\n{}\nand the built one\n{}", crate::util::clip(&r, 1200), crate::util::clip(f, 1200)),
				}
			}
			if observe_doc(&all[0].1) != before {
				changed += 1;
			}
			// a clone takes the place of its original
			if s.chance(1, 12) {
				let k = s.idx(all.len());
				let x = copy(&all[k].1);
				all[k].1 = x;
			}
		}
		let (k0, h0, t0) = (key_of(&all[0].1), hash(all[0].1.root_element()), all[0].1.to_string_with_indent(ind.as_str()));
		for (n, d) in &all[1..] {
			let k = key_of(d);
			same_doc(&k.0, &k0.0, &format!("after {what}: the {n} document vs the built one"))?;
			if let Some(x) = super::c09::diff_ns(&k.1, &k0.1) {
				bad!("after {what}: the {n} document vs the built one: {x}");
			}
			ensure!(*d == all[0].1 && all[0].1 == *d, "after {what}: the {n} document is not equal to the built one\n{t0}");
			ensure!(hash(d.root_element()) == h0, "after {what}: the hash of the {n} document is not that of the built one");
			let t = d.to_string_with_indent(ind.as_str());
			ensure!(t == t0, "after {what}: the {n} document is written as\n{t}\nand the built one as\n{t0}");
		}
	}
	c.nontrivial = changed >= 3;
	Ok(())
}
