//! C15: equality, hashing and cloning follow content.
use super::*;
use std::hash::{Hash, Hasher};

pub fn prop() -> Prop {
	Prop {
		id: "C15",
		check,
		sweep: || gen::wide([gen::huge_sweeps(&[0]), gen::huge_sweeps(&[2])].concat()),
		rule: "case = two documents that are equal or differ by one small edit of the model, compared as wholes and node by node, or one document, its clone and edits of either; non-trivial = the two sides have at least 3 nodes or attributes, or an edit was made after cloning",
		quick: (8000, 10000),
		thorough: (480000, 600000),
		witnesses: &[],
	}
}

/// everything that equality is about: structure, and namespaces in document order
type Content = (MEl, Vec<Option<String>>);
fn content(e: &Element) -> Content {
	(observe(e), observe_ns(e).into_iter().map(|n| n.ns).collect())
}
#[derive(PartialEq, Debug)]
enum Any {
	El(Content),
	Other(MNode),
}
fn content_node(n: &Box<dyn Node>) -> Any {
	match n.as_element() {
		Ok(e) => Any::El(content(e)),
		Err(_) => Any::Other(observe_node(n.as_ref())),
	}
}
/// records what is hashed
#[derive(Default)]
struct Trace(Vec<u8>);
impl Hasher for Trace {
	fn finish(&self) -> u64 {
		crate::util::fnv(&self.0)
	}
	fn write(&mut self, b: &[u8]) {
		self.0.extend_from_slice(b);
		self.0.push(0xFF);
	}
}
fn hash(t: &impl Hash) -> u64 {
	let mut h = Trace::default();
	t.hash(&mut h);
	h.finish()
}
fn hash_node(n: &Box<dyn Node>) -> u64 {
	if let Ok(x) = n.as_element() {
		hash(x)
	} else if let Ok(x) = n.as_text() {
		hash(x)
	} else if let Ok(x) = n.as_comment() {
		hash(x)
	} else {
		hash(n.as_cdata().expect("cdata"))
	}
}
fn compare_el(a: &Element, b: &Element) -> R {
	let (x, y) = (content(a), content(b));
	let want = x == y;
	ensure!((a == b) == want, "== is {} but the contents are {}:\n{}\n{}", a == b, if want { "the same" } else { "different" }, show(&x), show(&y));
	ensure!((b == a) == want, "== is not symmetric for\n{}\n{}", show(&x), show(&y));
	ensure!((a != b) != want, "!= disagrees with the contents of\n{}\n{}", show(&x), show(&y));
	if want {
		ensure!(hash(a) == hash(b), "equal elements have different hashes: {}", show(&x));
	}
	Ok(())
}
fn compare_node(a: &Box<dyn Node>, b: &Box<dyn Node>) -> R {
	let (x, y) = (content_node(a), content_node(b));
	let want = x == y;
	ensure!(node_eq(a, b) == want, "node_eq is {} but the contents are {}:\n{}\n{}", node_eq(a, b), if want { "the same" } else { "different" }, show(&x), show(&y));
	ensure!(node_eq(b, a) == want, "node_eq is not symmetric for\n{}\n{}", show(&x), show(&y));
	if want {
		ensure!(hash_node(a) == hash_node(b), "equal nodes have different hashes: {}", show(&x));
	}
	if let (Ok(p), Ok(q)) = (a.as_text(), b.as_text()) {
		ensure!((p == q) == want, "== of texts {:?} and {:?}", p.content, q.content);
	}
	if let (Ok(p), Ok(q)) = (a.as_comment(), b.as_comment()) {
		ensure!((p == q) == want, "== of comments {:?} and {:?}", p.get_content(), q.get_content());
	}
	if let (Ok(p), Ok(q)) = (a.as_cdata(), b.as_cdata()) {
		ensure!((p == q) == want, "== of CDATA {:?} and {:?}", p.get_content(), q.get_content());
	}
	if let (Ok(p), Ok(q)) = (a.as_element(), b.as_element()) {
		compare_el(p, q)?;
	}
	Ok(())
}
/// leaves are ordered by content
fn order(s: &mut Src, c: &mut Ctx) -> R {
	c.label("order and concatenation");
	c.nontrivial = true;
	let a = gen::text(s, Chars::Any);
	let b = match s.idx(3) {
		0 => tweak_str(s, &a),
		1 => gen::text(s, Chars::Any),
		_ => format!("{a}{}", gen::piece(s, Chars::Any)),
	};
	c.input(&a);
	c.input(&b);
	let want = Some(a.cmp(&b));
	let say = |what: &str, got: Option<std::cmp::Ordering>, eq: bool| -> R {
		ensure!(got == want, "{what} {a:?} and {b:?} compare as {got:?} instead of {want:?}");
		ensure!(eq == (a == b), "== of {what} {a:?} and {b:?} is {eq}");
		Ok(())
	};
	let (x, y) = (Text::new(a.as_str()), Text::from(b.as_str()));
	say("texts", x.partial_cmp(&y), x == y)?;
	ensure!(x.concat(&y).content == format!("{a}{b}") && x.content == a && y.content == b, "concat of {a:?} and {b:?} is {:?}", x.concat(&y).content);
	ensure!(hash(&x.concat(&y)) == hash(&Text::from(format!("{a}{b}"))), "equal texts have different hashes");
	if !a.contains("-->") && !b.contains("-->") {
		let (x, y) = (Comment::from(a.clone()), Comment::from(b.as_str()));
		say("comments", x.partial_cmp(&y), x == y)?;
	}
	if !a.contains("]]>") && !b.contains("]]>") {
		let (x, y) = (CData::from(a.clone()), CData::from(b.as_str()));
		say("CDATA", x.partial_cmp(&y), x == y)?;
	}
	Ok(())
}
fn tweak_str(s: &mut Src, t: &str) -> String {
	let mut v: Vec<char> = t.chars().collect();
	let at = s.idx(v.len() + 1);
	match s.idx(5) {
		0 if !v.is_empty() => {
			v.remove(at.min(v.len() - 1));
		}
		1 if !v.is_empty() => {
			let k = at.min(v.len() - 1);
			let c = v[k];
			v[k] = if c.is_lowercase() { c.to_uppercase().next().unwrap() } else { c.to_lowercase().next().unwrap() };
		}
		2 if v.len() > 1 => {
			let k = at.min(v.len() - 1);
			v.swap(k, 0)
		}
		3 => v.insert(at, *s.pick(&[' ', '\n', '\u{A0}', 'é', '&'])),
		_ => v.insert(at, 'x'),
	}
	v.into_iter().collect()
}
/// one small edit somewhere; the model stays buildable
fn tweak(s: &mut Src, d: &mut MDoc) -> &'static str {
	let p = d.root.paths();
	let path = s.pick(&p).clone();
	let swap_dtds = d.dtds.len() > 1;
	let e = d.root.at_mut(&path);
	match s.weighted(&[4, 4, 6, 4, 8, 4, 3, 2, 2]) {
		0 => {
			e.name = match s.idx(4) {
				0 => gen::ncname(s),
				1 => format!("{}x", e.name),
				2 => format!("_{}", e.name),
				_ => format!("{}.", e.name),
			};
			"name"
		}
		1 => {
			// the same prefix elsewhere, another one, or none
			e.prefix = match (&e.prefix, s.idx(3)) {
				(Some(_), 0) => None,
				(Some(q), 1) => Some(format!("{q}1")),
				_ => Some(s.pick(gen::PREFIXES).to_string()),
			};
			"prefix"
		}
		2 => {
			let keys: Vec<String> = e.attrs.keys().cloned().collect();
			if keys.is_empty() || s.chance(1, 4) {
				let k = match s.idx(3) {
					0 => gen::attr_name(s),
					1 => format!("xmlns:{}", s.pick(gen::PREFIXES)),
					_ => "xmlns".into(),
				};
				let v = if k.starts_with("xmlns") { s.pick(gen::URIS).to_string() } else { String::new() };
				e.attrs.insert(k, v);
				return "attribute added";
			}
			let k = s.pick(&keys).clone();
			let v = e.attrs[&k].clone();
			match s.idx(4) {
				0 => {
					e.attrs.remove(&k);
					"attribute removed"
				}
				1 if !k.starts_with("xmlns") => {
					e.attrs.remove(&k);
					e.attrs.insert(format!("{k}x"), v);
					"attribute renamed"
				}
				2 if keys.len() > 1 => {
					let k2 = s.pick(&keys).clone();
					if !k.starts_with("xmlns:") && !k2.starts_with("xmlns:") {
						let v2 = e.attrs[&k2].clone();
						e.attrs.insert(k, v2);
						e.attrs.insert(k2, v);
					}
					"attribute values swapped"
				}
				_ => {
					let mut w = tweak_str(s, &v);
					if k.starts_with("xmlns:") && w.is_empty() {
						w.push('x');
					}
					e.attrs.insert(k, w);
					"attribute value"
				}
			}
		}
		3 => {
			let n = e.kids.len();
			if n > 1 && s.chance(1, 2) {
				let (a, b) = (s.idx(n), s.idx(n));
				e.kids.swap(a, b);
				"children swapped"
			} else if n > 0 && s.chance(1, 2) {
				let a = s.idx(n);
				e.kids.remove(a);
				"child removed"
			} else {
				let at = s.idx(n + 1);
				let k = match s.idx(4) {
					0 => MNode::El(MEl::new("x")),
					1 => MNode::Comment(String::new()),
					2 => MNode::CData(String::new()),
					_ => MNode::Text("x".into()),
				};
				e.kids.insert(at, k);
				"child added"
			}
		}
		4 | 5 => {
			let n = e.kids.len();
			if n == 0 {
				e.kids.push(MNode::Text("x".into()));
				return "child added";
			}
			let i = s.idx(n);
			let rekind = s.chance(1, 4);
			let k = &mut e.kids[i];
			match k {
				MNode::Text(t) => {
					if rekind {
						let mut t = t.clone();
						while t.contains("]]>") || t.contains("-->") {
							t = t.replace("]]>", "").replace("-->", "");
						}
						*k = if s.chance(1, 2) { MNode::CData(t) } else { MNode::Comment(t) };
						return "kind of node";
					}
					*t = tweak_str(s, t);
					"text"
				}
				MNode::Comment(t) => {
					if rekind {
						*k = MNode::Text(t.clone());
						return "kind of node";
					}
					let w = tweak_str(s, t);
					if !w.contains("-->") {
						*t = w;
					}
					"comment"
				}
				MNode::CData(t) => {
					if rekind {
						*k = MNode::Text(t.clone());
						return "kind of node";
					}
					let w = tweak_str(s, t);
					if !w.contains("]]>") {
						*t = w;
					}
					"CDATA"
				}
				MNode::El(x) => {
					if rekind {
						*k = MNode::Text(x.text());
						return "kind of node";
					}
					x.name.push('y');
					"name"
				}
			}
		}
		6 => {
			d.decl = match &d.decl {
				None => Some("<?xml?>".into()),
				Some(_) if s.chance(1, 3) => None,
				Some(t) => Some(t.replacen("?>", " ?>", 1)),
			};
			"declaration"
		}
		7 => {
			if swap_dtds && s.chance(1, 2) {
				d.dtds.reverse();
			} else if !d.dtds.is_empty() && s.chance(1, 2) {
				let n = d.dtds.len();
				let i = s.idx(n);
				d.dtds[i] = d.dtds[i].replacen("<!DOCTYPE", "<!DOCTYPE ", 1);
			} else {
				d.dtds.push("<!DOCTYPE x>".into());
			}
			"DTDs"
		}
		_ => {
			// a declaration on the root, inherited by everything below
			let k = if s.chance(1, 2) { "xmlns".to_string() } else { format!("xmlns:{}", s.pick(gen::PREFIXES)) };
			d.root.attrs.insert(k, s.pick(gen::URIS).to_string());
			"namespace of the root"
		}
	}
}
fn make(s: &mut Src, m: &MDoc) -> Document {
	match s.weighted(&[3, 2, 2]) {
		0 => build::document(s, m),
		1 => {
			let mut d = build::document(s, &MDoc { root: MEl::new("x"), ..m.clone() });
			*d.root_element_mut() = build::exact(&m.root);
			d
		}
		_ => {
			// parsed, if that gives the same content
			let d = build::document(s, m);
			match kiss_xml::parse_str(if s.chance(1, 2) { d.to_string() } else { d.to_string_with_indent("") }) {
				Ok(x) => x,
				Err(_) => d,
			}
		}
	}
}
fn pairs(s: &mut Src, c: &mut Ctx) -> R {
	let m = gen::doc(s, gen::TreeOpts { max_nodes: 25, ..Default::default() });
	let mut m2 = m.clone();
	let mut how = "same";
	if s.chance(3, 4) {
		how = tweak(s, &mut m2);
	}
	c.label(format!("pair: {how}"));
	let (mut a, mut b) = (make(s, &m), make(s, &m2));
	if s.chance(1, 8) {
		c.label("nodes replaced in place");
		build::loosen(s, a.root_element_mut());
		if s.chance(1, 2) {
			*b.root_element_mut() = a.root_element().clone();
			build::loosen(s, b.root_element_mut());
		}
	}
	c.input(&a.to_string());
	c.input(&b.to_string());
	c.nontrivial = m.root.count() + m.root.attrs.len() >= 3;
	let want = observe_doc(&a) == observe_doc(&b) && content(a.root_element()) == content(b.root_element());
	ensure!((a == b) == want, "== of documents is {} but the contents are {}:\n{a}\n{b}", a == b, if want { "the same" } else { "different" });
	ensure!((b == a) == want, "== of documents is not symmetric:\n{a}\n{b}");
	#[allow(clippy::eq_op)]
	{
		ensure!(a == a && a.root_element() == a.root_element(), "a document is not equal to itself:\n{a}");
	}
	if want {
		c.label("equal documents");
	}
	compare_el(a.root_element(), b.root_element())?;
	let all = |d: &Document| -> Vec<Box<dyn Node>> { d.root_element().children_recursive().map(clone_node).collect() };
	let (x, y) = (all(&a), all(&b));
	for i in 0..x.len().max(y.len()) {
		if let (Some(p), Some(q)) = (x.get(i), y.get(i)) {
			compare_node(p, q)?;
		}
	}
	for _ in 0..10 {
		if x.is_empty() || y.is_empty() {
			break;
		}
		let (i, j) = (s.idx(x.len()), s.idx(y.len()));
		compare_node(&x[i], &y[j])?;
		let j = s.idx(x.len());
		compare_node(&x[i], &x[j])?;
	}
	// declarations and DTDs
	let (p, q) = (a.declaration(), b.declaration());
	let same = p.as_ref().map(|x| x.to_string()) == q.as_ref().map(|x| x.to_string());
	ensure!((p == q) == same, "== of declarations {p:?} and {q:?}");
	if same {
		ensure!(hash(p) == hash(q), "equal declarations have different hashes");
	}
	for (p, q) in a.doctype_defs().zip(b.doctype_defs()) {
		let same = p.to_string() == q.to_string();
		ensure!((p == q) == same, "== of DTDs {p} and {q}");
		if same {
			ensure!(hash(p) == hash(q), "equal DTDs have different hashes");
		}
		ensure!(p.clone() == *p && p.clone().to_string() == p.to_string(), "the clone of {p} differs");
	}
	Ok(())
}
/// elements that differ in nothing but an inherited namespace
fn inherited(s: &mut Src, c: &mut Ctx) -> R {
	c.label("inherited namespaces");
	let sub = gen::tree(s, gen::TreeOpts { prefixes: false, max_nodes: 8, ..Default::default() });
	let outer = |s: &mut Src, sub: &MEl| {
		let mut r = MEl::new("r");
		for _ in 0..s.idx(3) {
			let k = if s.chance(1, 2) { "xmlns".to_string() } else { format!("xmlns:{}", s.pick(&["p", "q"])) };
			r.attrs.insert(k, s.pick(&["urn:a", "urn:b"]).to_string());
		}
		let mut x = sub.clone();
		if s.chance(1, 2) {
			let p: Vec<String> = r.attrs.keys().filter_map(|k| k.strip_prefix("xmlns:").map(|x| x.to_string())).collect();
			if !p.is_empty() {
				x.prefix = Some(s.pick(&p).clone());
			}
		}
		r.kids.push(MNode::El(x));
		MDoc { root: r, ..Default::default() }
	};
	let (m1, m2) = (outer(s, &sub), outer(s, &sub));
	let (a, b) = (make(s, &m1), make(s, &m2));
	c.input(&a.to_string());
	c.input(&b.to_string());
	c.nontrivial = true;
	let (x, y) = (a.root_element().child_elements().next(), b.root_element().child_elements().next());
	let (Some(x), Some(y)) = (x, y) else { bad!("the child is missing:\n{a}\n{b}") };
	compare_el(x, y)?;
	compare_el(a.root_element(), b.root_element())
}
fn clones(s: &mut Src, c: &mut Ctx) -> R {
	let m = gen::doc(s, gen::TreeOpts { max_nodes: 30, ..Default::default() });
	let mut d = make(s, &m);
	if s.chance(1, 3) {
		c.label("nodes replaced in place");
		build::loosen(s, d.root_element_mut());
	}
	c.label("clone");
	c.input(&d.to_string());
	// what is cloned may be any element
	let p = observe(d.root_element()).paths();
	let path = s.pick(&p).clone();
	let o: &Element = super::c03::walk(d.root_element_mut(), &path);
	let mut a = o.clone();
	ensure!(content(&a) == content(o) && observe_ns(&a) == observe_ns(o), "a clone differs: {} instead of {}", show(&content(&a)), show(&content(o)));
	ensure!(a == *o && *o == a && hash(&a) == hash(o), "a clone is not equal to its original:\n{o}");
	let mut b = if s.chance(1, 2) {
		a.clone()
	} else {
		let x: Box<dyn Node> = a.clone().boxed();
		let y = clone_node(&x);
		ensure!(node_eq(&x, &y), "the clone of a node is not equal to it: {x}");
		ensure!(x.node_type() == y.node_type(), "the clone of a node is of another kind: {x}");
		drop(x);
		match y.as_element() {
			Ok(e) => e.clone(),
			Err(_) => bad!("the clone of an element is no element"),
		}
	};
	let (wa, na) = (content(&a), observe_ns(&a));
	ensure!(content(&b) == wa && observe_ns(&b) == na, "a clone differs: {} instead of {}", show(&content(&b)), show(&wa));
	ensure!(a == b && b == a && hash(&a) == hash(&b), "a clone is not equal to its original:\n{a}");
	ensure!(a.to_string() == b.to_string(), "a clone is written differently:\n{a}\n{b}");
	for k in a.children() {
		let x = clone_node(k);
		ensure!(node_eq(&x, k) && content_node(&x) == content_node(k), "the clone of {k} is {x}");
	}
	// the same edits have the same effect on an original where it is and on its clone
	let mut tree = std::mem::take(d.root_element_mut());
	if let Ok(mut x) = kiss_xml::parse_str(tree.to_string()) {
		if s.chance(1, 2) {
			tree = std::mem::take(x.root_element_mut());
		}
	}
	let p = observe(&tree).paths();
	let path = s.pick(&p).clone();
	let o = super::c03::walk(&mut tree, &path);
	let mut twin = o.clone();
	for _ in 0..1 + s.size(3, 1) {
		let prefix = s.chance(1, 2).then(|| s.pick(gen::PREFIXES).to_string());
		let mut k = MEl::new(&gen::ncname(s));
		k.prefix = prefix;
		if s.chance(1, 2) {
			k.kids.push(MNode::El(MEl::new("x")));
		}
		let k = build::exact(&k);
		if s.chance(1, 2) {
			o.append(k.clone());
			twin.append(k);
		} else {
			let at = s.idx(o.children().count() + 1);
			ensure!(o.insert(at, k.clone()).is_ok() && twin.insert(at, k).is_ok(), "insert at {at} fails:\n{o}\n{twin}");
		}
		ensure!(content(o) == content(&twin) && observe_ns(o) == observe_ns(&twin), "the same edits have different effects on an element and on its clone: {} and {}", show(&(content(o), observe_ns(o))), show(&(content(&twin), observe_ns(&twin))));
	}
	// edits of one side
	let (edited, kept, want) = if s.chance(1, 2) { (&mut a, &b, content(&b)) } else { (&mut b, &a, content(&a)) };
	let text = kept.to_string();
	for _ in 0..1 + s.size(6, 2) {
		c.nontrivial = true;
		let p = observe(edited).paths();
		let path = s.pick(&p).clone();
		let e = super::c03::walk(edited, &path);
		match s.idx(3) {
			0 => super::c03::edit(s, e),
			1 => {
				e.append(Element::new_from_name("new").expect("valid"));
			}
			_ => {
				e.remove_all(&|n: &Box<dyn Node>| n.is_text());
			}
		}
		ensure!(content(kept) == want, "an edit of the clone (or original) changes the other: {} instead of {}", show(&content(kept)), show(&want));
	}
	ensure!(kept.to_string() == text, "an edit of the clone (or original) changes how the other is written:\n{kept}\n{text}");
	let same = content(edited) == want;
	ensure!((*edited == *kept) == same, "== after an edit is {}:\n{edited}\n{kept}", *edited == *kept);
	Ok(())
}
fn check(s: &mut Src, c: &mut Ctx) -> R {
	match s.weighted(&[12, 2, 6, 1]) {
		0 => pairs(s, c),
		1 => inherited(s, c),
		2 => clones(s, c),
		_ => order(s, c),
	}
}
