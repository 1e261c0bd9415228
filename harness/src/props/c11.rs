//! C11: editing operations against a list/map model.
use super::*;
use kiss_xml::errors::KissXmlError as KE;

pub fn prop() -> Prop {
	Prop {
		id: "C11",
		check,
		// not parsed: texts with random surface syntax would take too long
		sweep: || gen::huge_sweeps(&[1]).into_iter().map(|v| [&v[..], &[0, 0]].concat()).collect(),
		rule: "case = a tree and a sequence of up to 60 editing operations, each mirrored on the model and followed by a full comparison; non-trivial = at least 3 operations that changed the tree",
		quick: (18000, 18000),
		thorough: (1080000, 1080000),
		witnesses: &[],
	}
}

/// a predicate on nodes that looks at the whole subtree
#[derive(Clone, Debug)]
pub enum Pred {
	All,
	Never,
	Kind(u8),
	Name(String),
	HasAttr(String),
	TextHas(String),
	Kids(usize),
	HasChild(String),
	Hash(u64, u64),
}
impl Pred {
	pub fn eval(&self, n: &MNode) -> bool {
		match (self, n) {
			(Pred::All, _) => true,
			(Pred::Never, _) => false,
			(Pred::Kind(k), n) => k >> kind(n) & 1 == 1,
			(Pred::Name(s), MNode::El(e)) => e.name == *s,
			(Pred::HasAttr(s), MNode::El(e)) => e.attrs.contains_key(s),
			(Pred::TextHas(s), MNode::El(e)) => e.text().contains(s.as_str()),
			(Pred::TextHas(s), MNode::Text(t) | MNode::Comment(t) | MNode::CData(t)) => t.contains(s.as_str()),
			(Pred::Kids(k), MNode::El(e)) => e.kids.len() == *k,
			(Pred::HasChild(s), MNode::El(e)) => e.elems().any(|x| x.name == *s),
			(Pred::Hash(m, r), n) => crate::util::fnv(format!("{n:?}").as_bytes()) % m == *r,
			_ => false,
		}
	}
}
fn kind(n: &MNode) -> u8 {
	match n {
		MNode::El(_) => 0,
		MNode::Text(_) => 1,
		MNode::Comment(_) => 2,
		MNode::CData(_) => 3,
	}
}
const NM: &[&str] = &["a", "b", "c", "d"];
const KEYS: &[&str] = &["k", "id", "a", "x:y", "ö", "K", "k1", "xmlns:p", "xmlns:q", "xmlns"];
pub fn pred(s: &mut Src) -> Pred {
	match s.weighted(&[1, 1, 5, 5, 2, 3, 2, 2, 6]) {
		0 => Pred::Never,
		1 => Pred::All,
		2 => Pred::Kind(1 + s.below(15) as u8),
		3 => Pred::Name(s.pick(NM).to_string()),
		4 => Pred::HasAttr(s.pick(KEYS).to_string()),
		5 => Pred::TextHas(s.pick(&["a", " ", "t", "1"]).to_string()),
		6 => Pred::Kids(s.idx(3)),
		7 => Pred::HasChild(s.pick(NM).to_string()),
		_ => {
			let m = 2 + s.below(3);
			Pred::Hash(m, s.below(m))
		}
	}
}
fn small_text(s: &mut Src) -> String {
	match s.weighted(&[4, 3, 1, 1]) {
		0 => s.pick(&["t", "a b", "1", "text", " x", "y ", "\n z"]).to_string(),
		1 => s.pick(&["", " ", "\n", "\t  ", "\r\n"]).to_string(),
		2 => s.pick(&["\u{A0}", "\u{2003}", "&", "<", "]]>"]).to_string(),
		_ => gen::text(s, Chars::Any),
	}
}
fn small_el(s: &mut Src, depth: usize) -> MEl {
	let mut e = MEl::new(s.pick(NM));
	for _ in 0..s.weighted(&[4, 2, 1]) {
		let k = s.pick(KEYS).to_string();
		let v = small_text(s);
		e.attrs.insert(k, v);
	}
	if depth > 0 {
		for _ in 0..s.size(5, 2) {
			e.kids.push(small_node(s, depth - 1));
		}
	}
	e
}
pub fn small_node(s: &mut Src, depth: usize) -> MNode {
	match s.weighted(&[5, 4, 2, 2]) {
		0 => MNode::El(small_el(s, depth)),
		1 => MNode::Text(small_text(s)),
		2 => MNode::Comment(gen::without(small_text(s), "-->")),
		_ => MNode::CData(gen::without(small_text(s), "]]>")),
	}
}
fn real(n: &MNode) -> Box<dyn Node> {
	match n {
		MNode::El(e) => build::exact(e).boxed(),
		MNode::Text(t) => Text::new(t.as_str()).boxed(),
		MNode::Comment(t) => Comment::new(t.as_str()).expect("comment").boxed(),
		MNode::CData(t) => CData::new(t.as_str()).expect("cdata").boxed(),
	}
}
/// what a new node looks like once constructed
fn settled(n: &MNode) -> MNode {
	match n {
		MNode::El(e) => MNode::El(e.cleaned()),
		n => n.clone(),
	}
}
fn remove_direct(e: &mut MEl, f: &dyn Fn(&MNode) -> bool) -> usize {
	let n = e.kids.len();
	e.kids.retain(|k| !f(k));
	n - e.kids.len()
}
fn remove_deep(e: &mut MEl, f: &dyn Fn(&MNode) -> bool) -> usize {
	let mut n = remove_direct(e, f);
	for k in &mut e.kids {
		if let MNode::El(c) = k {
			n += remove_deep(c, f);
		}
	}
	n
}
fn index(s: &mut Src, n: usize) -> usize {
	match s.weighted(&[12, 2, 1]) {
		0 => s.idx(n + 1),
		1 => n + s.idx(3),
		_ => *s.pick(&[usize::MAX, usize::MAX / 2, n + 100]),
	}
}

/// only characters that a well-formed document can contain, and no attribute with a prefix
pub fn strict(e: &mut MEl) {
	let xml = |t: &mut String| t.retain(gen::xml_char);
	e.attrs.retain(|k, _| !k.contains(':') || k.starts_with("xmlns:"));
	e.attrs.values_mut().for_each(xml);
	for k in &mut e.kids {
		match k {
			MNode::El(x) => strict(x),
			MNode::Text(t) | MNode::CData(t) | MNode::Comment(t) => xml(t),
		}
	}
}

fn check(s: &mut Src, c: &mut Ctx) -> R {
	let mut model = if s.chance(1, 60) { gen::tree(s, gen::TreeOpts { max_nodes: 40, prefixes: false, ..Default::default() }) } else { small_el(s, 3) };
	if s.chance(1, 40) {
		gen::grow(s, &mut model, Chars::Any, 40);
		c.label("big");
	}
	let mut doc;
	match s.weighted(&[4, 2, 1]) {
		0 => {
			doc = Document::new(build::exact(&model));
			model.clean_deep();
		}
		1 => {
			// what comes from the parser is edited in the same way
			c.label("parsed");
			strict(&mut model);
			no_cr(&mut model);
			model.clean_deep();
			let m = MDoc { root: model.clone(), ..Default::default() };
			doc = reparse(&crate::surface::join(&crate::surface::render(s, &m)), "a well-formed document")?;
		}
		_ => {
			c.label("cloned");
			let e = build::exact(&model);
			doc = Document::new(e.clone());
			model.clean_deep();
			drop(e);
		}
	}
	same_el(&observe(doc.root_element()), &model, "the initial tree")?;
	c.input(&write_element(&model, ""));
	let mut detached: Vec<(Box<dyn Node>, MNode)> = Vec::new();
	let ops = 1 + s.size(60, 8);
	let mut changes = 0;
	for step in 0..ops {
		let paths = model.paths();
		let path = s.pick(&paths).clone();
		let before = model.clone();
		let m = model.at_mut(&path);
		let e = super::c03::walk(doc.root_element_mut(), &path);
		let k = s.weighted(&[6, 4, 4, 8, 5, 4, 4, 4, 4, 4, 3, 1, 3, 4, 2, 2, 1, 3, 2, 2, 3]);
		let what: String;
		match k {
			0 => {
				let n = small_node(s, 2);
				what = format!("append {n:?}");
				match &n {
					MNode::El(x) => e.append(build::exact(x)),
					MNode::Text(t) => e.append(Text::new(t.as_str())),
					MNode::Comment(t) => e.append(Comment::new(t.as_str()).expect("comment")),
					MNode::CData(t) => e.append(CData::new(t.as_str()).expect("cdata")),
				}
				m.kids.push(settled(&n));
				m.clean();
			}
			1 => {
				let n = small_node(s, 2);
				what = format!("append_boxed {n:?}");
				e.append_boxed(real(&n));
				m.kids.push(settled(&n));
				m.clean();
			}
			2 => {
				let v: Vec<MNode> = (0..1 + s.size(6, 2)).map(|_| small_node(s, 1)).collect();
				what = format!("append_all {v:?}");
				e.append_all(v.iter().map(real).collect());
				m.kids.extend(v.iter().map(settled));
				m.clean();
			}
			3 => {
				let n = small_node(s, 2);
				let i = index(s, m.kids.len());
				what = format!("insert {i} {n:?}");
				let r = match &n {
					MNode::El(x) => e.insert(i, build::exact(x)),
					MNode::Text(t) => e.insert(i, Text::new(t.as_str())),
					MNode::Comment(t) => e.insert(i, Comment::new(t.as_str()).expect("comment")),
					MNode::CData(t) => e.insert(i, CData::new(t.as_str()).expect("cdata")),
				};
				if i <= m.kids.len() {
					ensure!(r.is_ok(), "step {step}: insert({i}) with {} children gives {r:?}", m.kids.len());
					m.kids.insert(i, settled(&n));
					m.clean();
				} else {
					match r {
						Ok(()) => bad!("step {step}: insert({i}) with {} children succeeds", m.kids.len()),
						Err(x) => ensure!(x.index == i as isize, "step {step}: insert({i}) reports index {}", x.index),
					}
				}
			}
			4 => {
				let i = index(s, m.kids.len());
				what = format!("remove {i}");
				match e.remove(i) {
					Ok(n) => {
						ensure!(i < m.kids.len(), "step {step}: remove({i}) with {} children succeeds", m.kids.len());
						let x = m.kids.remove(i);
						ensure!(observe_node(n.as_ref()) == x, "step {step}: remove({i}) returns {n:?} instead of {x:?}");
						detached.push((n, x));
					}
					Err(x) => {
						ensure!(i >= m.kids.len(), "step {step}: remove({i}) with {} children fails: {x}", m.kids.len());
						ensure!(x.index == i as isize, "step {step}: remove({i}) reports index {}", x.index);
					}
				}
			}
			5 => {
				let els: Vec<usize> = (0..m.kids.len()).filter(|i| matches!(m.kids[*i], MNode::El(_))).collect();
				let i = index(s, els.len());
				what = format!("remove_element {i}");
				match e.remove_element(i) {
					Ok(n) => {
						ensure!(i < els.len(), "step {step}: remove_element({i}) with {} elements succeeds", els.len());
						let x = m.kids.remove(els[i]);
						let MNode::El(x) = x else { unreachable!() };
						same_el(&observe(&n), &x, &format!("step {step}: element returned by remove_element({i})"))?;
						detached.push((n.boxed(), MNode::El(x)));
					}
					Err(x) => {
						ensure!(i >= els.len(), "step {step}: remove_element({i}) with {} elements fails: {x}", els.len());
						ensure!(x.index == i as isize, "step {step}: remove_element({i}) reports index {}", x.index);
					}
				}
			}
			6 | 7 => {
				let p = pred(s);
				let deep = k == 7;
				what = format!("{} {p:?}", if deep { "remove_all" } else { "remove_by" });
				let f = |n: &Box<dyn Node>| p.eval(&observe_node(n.as_ref()));
				let got = if deep { e.remove_all(&f) } else { e.remove_by(&f) };
				let g = |n: &MNode| p.eval(n);
				let want = if deep { remove_deep(m, &g) } else { remove_direct(m, &g) };
				ensure!(got == want, "step {step}: {what} returns {got} instead of {want}");
			}
			8 | 9 => {
				let p = pred(s);
				let deep = k == 9;
				what = format!("{} {p:?}", if deep { "remove_all_elements" } else { "remove_elements" });
				let f = |x: &Element| p.eval(&MNode::El(observe(x)));
				let got = if deep { e.remove_all_elements(f) } else { e.remove_elements(f) };
				let g = |n: &MNode| matches!(n, MNode::El(_)) && p.eval(n);
				let want = if deep { remove_deep(m, &g) } else { remove_direct(m, &g) };
				ensure!(got == want, "step {step}: {what} returns {got} instead of {want}");
			}
			10 => {
				let n = if s.chance(1, 6) { small_text(s) } else { s.pick(NM).to_string() };
				what = format!("remove_elements_by_name {n:?}");
				let got = e.remove_elements_by_name(n.as_str());
				let want = remove_direct(m, &|k| matches!(k, MNode::El(x) if x.name == n));
				ensure!(got == want, "step {step}: {what} returns {got} instead of {want}");
			}
			11 => {
				what = "clear_children".into();
				e.clear_children();
				m.kids.clear();
			}
			12 => {
				let t = small_text(s);
				what = format!("set_text {t:?}");
				e.set_text(t.as_str());
				m.kids = vec![MNode::Text(t)];
				m.clean();
			}
			13 => {
				let k = match s.weighted(&[6, 2, 2]) {
					0 => s.pick(KEYS).to_string(),
					1 => gen::attr_name(s),
					_ => s.pick(&["", "1", "a b", "-", "a=", "<", "a\"", ":a", "a\u{A0}", "\u{D7}", " k", "k ", "k\n", "a/b"]).to_string(),
				};
				let v = small_text(s);
				what = format!("set_attr {k:?} {v:?}");
				match e.set_attr(k.as_str(), v.as_str()) {
					Ok(()) => {
						ensure!(valid_name(&k), "step {step}: {what} succeeds");
						m.attrs.insert(k, v);
					}
					Err(x) => ensure!(!valid_name(&k), "step {step}: {what} fails: {x}"),
				}
			}
			14 => {
				let k = if m.attrs.is_empty() || s.chance(1, 3) { s.pick(KEYS).to_string() } else { m.attrs.keys().nth(s.idx(m.attrs.len())).unwrap().clone() };
				what = format!("remove_attr {k:?}");
				let got = e.remove_attr(k.as_str());
				let want = m.attrs.remove(&k);
				ensure!(got == want, "step {step}: {what} returns {got:?} instead of {want:?}");
			}
			15 => {
				let k = s.pick(KEYS).to_string();
				what = format!("get_attr {k:?}");
				ensure!(e.get_attr(k.as_str()) == m.attrs.get(&k), "step {step}: {what} = {:?}", e.get_attr(k.as_str()));
			}
			16 => {
				what = "clear_attributes".into();
				e.clear_attributes();
				m.attrs.clear();
			}
			17 => {
				// edit the content of a leaf in place
				let t = small_text(s);
				let n = m.kids.len();
				if n == 0 {
					continue;
				}
				let i = s.idx(n);
				what = format!("edit child {i} to {t:?}");
				let node = e.children_mut().nth(i).expect("child");
				match &mut m.kids[i] {
					MNode::Text(x) => {
						node.as_text_mut().expect("text").content = t.clone();
						*x = t;
					}
					MNode::Comment(x) => {
						let r = node.as_comment_mut().expect("comment").set_content(t.as_str());
						ensure!(r.is_ok() != t.contains("-->"), "step {step}: {what}: {r:?}");
						if r.is_ok() {
							*x = t;
						}
					}
					MNode::CData(x) => {
						let r = node.as_cdata_mut().expect("cdata").set_text(t.as_str());
						ensure!(r.is_ok() != t.contains("]]>"), "step {step}: {what}: {r:?}");
						if r.is_ok() {
							*x = t;
						}
					}
					MNode::El(x) => {
						node.as_element_mut().expect("element").set_text(t.as_str());
						x.kids = vec![MNode::Text(t)];
						x.clean();
					}
				}
			}
			18 => {
				// replace or swap through children_mut
				let n = m.kids.len();
				if n == 0 {
					continue;
				}
				let (i, j) = (s.idx(n), s.idx(n));
				if i != j {
					what = format!("swap children {i} and {j}");
					let mut v: Vec<&mut Box<dyn Node>> = e.children_mut().collect();
					let (lo, hi) = (i.min(j), i.max(j));
					let (a, b) = v.split_at_mut(hi);
					std::mem::swap(&mut *a[lo], &mut *b[0]);
					m.kids.swap(i, j);
				} else {
					let x = small_node(s, 1);
					what = format!("replace child {i} by {x:?}");
					*e.children_mut().nth(i).expect("child") = real(&x);
					m.kids[i] = settled(&x);
				}
			}
			19 => {
				// back from the removed ones
				let Some((n, x)) = detached.pop() else { continue };
				what = format!("append again {x:?}");
				e.append_boxed(n);
				m.kids.push(x);
				m.clean();
			}
			_ => {
				let n = s.pick(NM).to_string();
				what = format!("first_element_by_name_mut {n:?} and edit");
				let want = m.kids.iter_mut().find_map(|k| match k {
					MNode::El(x) if x.name == n => Some(x),
					_ => None,
				});
				match (e.first_element_by_name_mut(n.as_str()), want) {
					(Ok(x), Some(y)) => {
						x.set_attr("k", "edited").expect("valid name");
						y.attrs.insert("k".into(), "edited".into());
					}
					(Err(_), None) => {}
					(a, b) => bad!("step {step}: {what}: {a:?} vs {b:?}"),
				}
			}
		}
		let declared: std::collections::HashMap<String, String> = m.attrs.iter().filter_map(|(k, v)| k.strip_prefix("xmlns:").map(|p| (p.to_string(), v.clone()))).collect();
		ensure!(e.namespace_prefixes().unwrap_or_default() == declared, "step {step} ({what}): namespace_prefixes is {:?} with the attributes {:?}", e.namespace_prefixes(), m.attrs);
		c.note(format!("step {step}: at {path:?}: {what}"));
		c.key = crate::util::mix(c.key, crate::util::fnv(what.as_bytes()));
		c.label(what.split(' ').next().unwrap_or("").to_string());
		if model != before {
			changes += 1;
		}
		let now = observe(doc.root_element());
		same_el(&now, &model, &format!("after step {step} ({})", crate::util::clip(&what, 300)))?;
		ensure!(doc.root_element().text() == model.text(), "text() after step {step} ({what}): {:?} instead of {:?}", doc.root_element().text(), model.text());
		for (n, x) in &detached {
			ensure!(observe_node(n.as_ref()) == *x, "step {step} ({what}) changed a removed node into {n:?}");
		}
	}
	// errors convert into the general error type
	if let Err(x) = doc.root_element_mut().remove(usize::MAX) {
		ensure!(matches!(KE::from(x), KE::IndexOutOfBounds(_)), "error conversion");
	}
	c.nontrivial = changes >= 3;
	if model.count() > 600 {
		c.label("large");
	}
	Ok(())
}
