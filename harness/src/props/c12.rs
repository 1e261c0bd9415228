//! C12: queries against a naive traversal.
use super::*;

pub fn prop() -> Prop {
	Prop {
		id: "C12",
		check,
		sweep: || gen::wide(gen::huge_sweep(&[1, 1])),
		rule: "case = a built or parsed tree and a few names and predicates, all queries on every element compared with a naive traversal by address; non-trivial = at least 4 nodes",
		quick: (6000, 6000),
		thorough: (360000, 360000),
		witnesses: &[],
	}
}
fn na(n: &Box<dyn Node>) -> usize {
	n.as_any() as *const dyn std::any::Any as *const () as usize
}
fn ea(e: &Element) -> usize {
	e as *const Element as usize
}
fn all<'a>(e: &'a Element, out: &mut Vec<&'a Box<dyn Node>>) {
	for n in e.children() {
		out.push(n);
		if let Ok(c) = n.as_element() {
			all(c, out);
		}
	}
}
fn sorted(mut v: Vec<usize>) -> Vec<usize> {
	v.sort();
	v
}
const NM: &[&str] = &["a", "b", "A", "p", "ab", "é"];
fn tree(s: &mut Src, depth: usize, budget: &mut usize) -> MEl {
	let mut e = MEl::new(s.pick(NM));
	if s.chance(1, 5) {
		e.attrs.insert(format!("xmlns:{}", if s.chance(1, 2) { "p" } else { "a" }), "u".into());
		if s.chance(1, 2) {
			e.prefix = e.attrs.keys().next().map(|k| k[6..].to_string());
		}
		if s.chance(1, 4) {
			e.attrs.insert("xmlns".into(), s.pick(&["u", "v", ""]).to_string());
		}
	} else if s.chance(1, 6) {
		e.prefix = Some(s.pick(&["p", "a"]).to_string());
	}
	for _ in 0..s.weighted(&[4, 2, 1]) {
		let k = s.pick(&["k", "id", "K", "a", "p:k", "k1"]).to_string();
		let v = gen::piece(s, Chars::Any);
		e.attrs.insert(k, v);
	}
	let n = if depth >= 9 { 0 } else { s.size(30, 3) };
	for _ in 0..n {
		if *budget == 0 {
			break;
		}
		*budget -= 1;
		e.kids.push(match s.weighted(&[6, 4, 2, 2]) {
			0 => MNode::El(tree(s, depth + 1, budget)),
			1 => MNode::Text(s.pick(&["a", "b", " ", "ab", "\n", "é", "", "x<y"]).to_string()),
			2 => MNode::Comment(s.pick(&["a", "b", "ab", ""]).to_string()),
			_ => MNode::CData(s.pick(&["a", "b", "ab", ""]).to_string()),
		});
	}
	e
}
fn queries(e: &Element, m: &MEl, q: &str, k: &str, bit: u64) -> R {
	let at = e.tag_name();
	let mut v = Vec::new();
	all(e, &mut v);
	let every: Vec<usize> = sorted(v.iter().map(|n| na(n)).collect());
	let rec = |what: &str, got: Vec<usize>, want: Vec<usize>| -> R {
		let (got, want) = (sorted(got), sorted(want));
		ensure!(got == want, "{what} of <{at}> yields {} nodes, expected {}", got.len(), want.len());
		Ok(())
	};
	rec("all_children", e.all_children().map(na).collect(), every.clone())?;
	rec("children_recursive", e.children_recursive().map(na).collect(), every.clone())?;
	rec("search(true)", e.search(|_| true).map(na).collect(), every)?;
	rec("search(false)", e.search(|_| false).map(na).collect(), vec![])?;
	// by content and by address
	let sel = |n: &Box<dyn Node>| crate::util::fnv(n.text().as_bytes()) >> 3 & 1 == bit;
	rec("search(by text)", e.search(|n| sel(n)).map(na).collect(), v.iter().filter(|n| sel(n)).map(|n| na(n)).collect())?;
	let pick = |a: usize| crate::util::mix(a as u64, bit) & 1 == 0;
	rec("search(by address)", e.search(|n| pick(na(n))).map(na).collect(), v.iter().map(|n| na(n)).filter(|a| pick(*a)).collect())?;
	let els: Vec<&Element> = v.iter().filter_map(|n| n.as_element().ok()).collect();
	rec("search_elements(true)", e.search_elements(|_| true).map(ea).collect(), els.iter().map(|x| ea(x)).collect())?;
	rec("search_elements(by attribute)", e.search_elements(|x| x.get_attr(k).is_some()).map(ea).collect(), els.iter().filter(|x| x.attributes().contains_key(k)).map(|x| ea(x)).collect())?;
	rec("search_elements_by_name", e.search_elements_by_name(q).map(ea).collect(), els.iter().filter(|x| x.name() == q).map(|x| ea(x)).collect())?;
	rec(
		"search_text",
		e.search_text(|t| t.content.contains(q)).map(|t| t as *const Text as usize).collect(),
		v.iter().filter(|n| n.as_text().map_or(false, |t| t.content.contains(q))).map(|n| na(n)).collect(),
	)?;
	rec("search_text(true)", e.search_text(|_| true).map(|t| t as *const Text as usize).collect(), v.iter().filter(|n| n.is_text()).map(|n| na(n)).collect())?;
	rec(
		"search_comments",
		e.search_comments(|t| t.get_content().contains(q)).map(|t| t as *const Comment as usize).collect(),
		v.iter().filter(|n| n.as_comment().map_or(false, |t| t.get_content().contains(q))).map(|n| na(n)).collect(),
	)?;
	rec("search_comments(true)", e.search_comments(|_| true).map(|t| t as *const Comment as usize).collect(), v.iter().filter(|n| n.is_comment()).map(|n| na(n)).collect())?;
	// direct ones, in document order
	let kids: Vec<&Box<dyn Node>> = e.children().collect();
	ensure!(kids.len() == m.kids.len(), "children of <{at}> yields {} nodes, expected {}", kids.len(), m.kids.len());
	for (n, k) in kids.iter().zip(&m.kids) {
		ensure!(observe_node(n.as_ref()) == *k, "children of <{at}>: {n:?} instead of {k:?}");
	}
	let want: Vec<usize> = kids.iter().filter(|n| n.is_element()).map(|n| na(n)).collect();
	let got: Vec<usize> = e.child_elements().map(ea).collect();
	ensure!(got == want, "child_elements of <{at}> yields {} elements, expected {}", got.len(), want.len());
	let named: Vec<usize> = kids.iter().filter(|n| n.as_element().map_or(false, |x| x.name() == q)).map(|n| na(n)).collect();
	let got: Vec<usize> = e.elements_by_name(q).map(ea).collect();
	ensure!(got == named, "elements_by_name({q:?}) of <{at}> yields {} elements, expected {}", got.len(), named.len());
	match e.first_element_by_name(q) {
		Ok(x) => ensure!(Some(&ea(x)) == named.first(), "first_element_by_name({q:?}) of <{at}> is not the first one"),
		Err(_) => ensure!(named.is_empty(), "first_element_by_name({q:?}) of <{at}> finds nothing"),
	}
	for ns in [None, Some("u"), Some("v"), Some(""), Some(q)] {
		let want: Vec<usize> = e.child_elements().filter(|x| x.namespace().as_deref() == ns).map(ea).collect();
		let got: Vec<usize> = e.elements_by_namespace(ns).map(ea).collect();
		ensure!(got == want, "elements_by_namespace({ns:?}) of <{at}> yields {} elements, expected {}", got.len(), want.len());
		let want: Vec<usize> = e.child_elements().filter(|x| x.namespace_prefix().as_deref() == ns).map(ea).collect();
		let got: Vec<usize> = e.elements_by_namespace_prefix(ns).map(ea).collect();
		ensure!(got == want, "elements_by_namespace_prefix({ns:?}) of <{at}> yields {} elements, expected {}", got.len(), want.len());
	}
	ensure!(e.get_attr(k) == m.attrs.get(k), "get_attr({k:?}) of <{at}> is {:?}", e.get_attr(k));
	for (a, b) in &m.attrs {
		ensure!(e.get_attr(a.as_str()) == Some(b), "get_attr({a:?}) of <{at}> is {:?}", e.get_attr(a.as_str()));
	}
	ensure!(e.text() == m.text(), "text() of <{at}> is {:?} instead of {:?}", e.text(), m.text());
	Ok(())
}
fn mutable(e: &mut Element, q: &str) -> R {
	let at = e.tag_name();
	let kids: Vec<usize> = e.children().map(na).collect();
	let els: Vec<usize> = e.child_elements().map(ea).collect();
	let named: Vec<usize> = e.child_elements().filter(|x| x.name() == q).map(ea).collect();
	let got: Vec<usize> = e.children_mut().map(|n| na(n)).collect();
	ensure!(got == kids, "children_mut of <{at}> yields {} nodes, expected {}", got.len(), kids.len());
	let got: Vec<usize> = e.child_elements_mut().map(|n| ea(n)).collect();
	ensure!(got == els, "child_elements_mut of <{at}> yields {} elements, expected {}", got.len(), els.len());
	let got: Vec<usize> = e.elements_by_name_mut(q).map(|n| ea(n)).collect();
	ensure!(got == named, "elements_by_name_mut({q:?}) of <{at}> yields {} elements, expected {}", got.len(), named.len());
	match e.first_element_by_name_mut(q) {
		Ok(x) => {
			let a = ea(x);
			ensure!(Some(&a) == named.first(), "first_element_by_name_mut({q:?}) of <{at}> is not the first one")
		}
		Err(_) => ensure!(named.is_empty(), "first_element_by_name_mut({q:?}) of <{at}> finds nothing"),
	}
	for ns in [None, Some("u"), Some("v"), Some(""), Some(q)] {
		let want: Vec<usize> = e.elements_by_namespace(ns).map(ea).collect();
		let got: Vec<usize> = e.elements_by_namespace_mut(ns).map(|x| ea(x)).collect();
		ensure!(got == want, "elements_by_namespace_mut({ns:?}) of <{at}> yields {} elements, expected {}", got.len(), want.len());
		let want: Vec<usize> = e.elements_by_namespace_prefix(ns).map(ea).collect();
		let got: Vec<usize> = e.elements_by_namespace_prefix_mut(ns).map(|x| ea(x)).collect();
		ensure!(got == want, "elements_by_namespace_prefix_mut({ns:?}) of <{at}> yields {} elements, expected {}", got.len(), want.len());
	}
	for c in e.child_elements_mut() {
		mutable(c, q)?;
	}
	Ok(())
}
fn each(e: &Element, m: &MEl, q: &str, k: &str, bit: u64) -> R {
	queries(e, m, q, k, bit)?;
	for (c, x) in e.child_elements().zip(m.elems()) {
		each(c, x, q, k, bit)?;
	}
	Ok(())
}

fn check(s: &mut Src, c: &mut Ctx) -> R {
	let mut budget = 60;
	let mut m = if s.chance(1, 8) {
		gen::tree(s, gen::TreeOpts { max_nodes: 60, prefixes: false, ..Default::default() })
	} else {
		let mut t = tree(s, 0, &mut budget);
		if s.chance(1, 30) {
			c.label("one thing is big");
			gen::grow(s, &mut t, Chars::Any, 40);
		}
		let keep = s.chance(1, 3);
		fix_prefixes(&mut t, keep, true);
		t
	};
	let mut d = Document::new(build::exact(&m));
	m.clean_deep();
	let t = d.to_string_with_indent("");
	c.input(&t);
	if s.chance(1, 2) {
		c.label("parsed");
		d = reparse(&t, "the written document")?;
	} else {
		c.label("built");
	}
	c.nontrivial = m.count() >= 4;
	same_el(&observe(d.root_element()), &m, "the tree")?;
	for _ in 0..1 + s.size(2, 1) {
		let q = match s.weighted(&[6, 1, 1]) {
			0 => s.pick(NM).to_string(),
			1 => s.pick(&["", "p:a", "*", "nope", ":a", "B"]).to_string(),
			_ => gen::ncname(s),
		};
		let k = s.pick(&["k", "id", "K", "a", "p:k", "xmlns:p", "nope", "", "xmlns"]).to_string();
		let bit = s.below(2);
		c.note(format!("name {q:?}, attribute {k:?}, bit {bit}"));
		each(d.root_element(), &m, &q, &k, bit)?;
		mutable(d.root_element_mut(), &q)?;
	}
	Ok(())
}
/// prefixes where they are declared (or, if `keep`, also elsewhere, but not on the root)
fn fix_prefixes(e: &mut MEl, keep: bool, root: bool) {
	if let (Some(p), true) = (&e.prefix, root || !keep) {
		if !e.attrs.contains_key(&format!("xmlns:{p}")) {
			e.prefix = None;
		}
	}
	for k in &mut e.kids {
		if let MNode::El(c) = k {
			fix_prefixes(c, keep, false);
		}
	}
}
