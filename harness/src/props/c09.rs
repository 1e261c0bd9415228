//! C09: namespaces of parsed documents.
use super::*;
use crate::surface;

pub fn prop() -> Prop {
	Prop {
		id: "C09",
		check,
		sweep: || gen::wide(gen::huge_sweep(&[1, 1])),
		rule: "case = a rendered and parsed tree with namespace declarations, redeclarations and undeclarations; non-trivial = at least 2 elements and at least 2 declarations",
		quick: (6000, 7000),
		thorough: (360000, 420000),
		witnesses: &[],
	}
}
pub const PFX: &[&str] = &["p", "q", "r", "pp", "xs", "é", "xmlns1", "P", "p.1"];
pub const URI: &[&str] = &["urn:a", "urn:b", "urn:A", "a", "urn:a&b", "http://x/?a=1&b=\"2\"", " urn:a", "<u>", "p", "urn:é☼"];

/// declarations on about half of the elements
pub fn tree(s: &mut Src, scope: &[String], depth: usize, budget: &mut usize) -> MEl {
	let mut e = MEl::new(s.pick(&["a", "b", "c", "x"]));
	*budget = budget.saturating_sub(1);
	let mut inner: Vec<String> = scope.to_vec();
	for _ in 0..s.weighted(&[8, 6, 3, 1]) {
		if s.chance(1, 2) {
			let u = if s.chance(1, 4) { "" } else { *s.pick(URI) };
			e.attrs.insert("xmlns".into(), u.into());
		} else {
			let p = s.pick(PFX).to_string();
			let u = s.pick(URI).to_string();
			e.attrs.insert(format!("xmlns:{p}"), u);
			if !inner.contains(&p) {
				inner.push(p);
			}
		}
	}
	if s.chance(1, 8) {
		e.attrs.insert(s.pick(&["k", "p:k", "xml:lang", "xmlnsx", "a:xmlns"]).to_string(), s.pick(URI).to_string());
	}
	if !inner.is_empty() && s.chance(2, 5) {
		e.prefix = Some(s.pick(&inner).clone());
	}
	let n = if depth >= 10 { 0 } else { s.size(6, 2) };
	for _ in 0..n {
		if *budget == 0 {
			break;
		}
		if s.chance(1, 8) {
			e.kids.push(MNode::Text("t".into()));
		}
		e.kids.push(MNode::El(tree(s, &inner, depth + 1, budget)));
	}
	e
}
/// puts the tree below a chain of ancestors that declare things
pub fn chain(s: &mut Src, root: &mut MEl, max: usize) {
	let n = 1 + s.size(max, 12);
	let dense = 1 + s.below(6);
	let mut declared: Vec<String> = Vec::new();
	for i in 0..n {
		let mut outer = MEl::new(s.pick(&["a", "b", "c", "x"]));
		// the outermost one always declares something
		if s.chance(1, dense) || i + 1 == n {
			let p = s.pick(PFX).to_string();
			outer.attrs.insert(format!("xmlns:{p}"), s.pick(URI).to_string());
			if s.chance(1, 3) {
				outer.prefix = Some(p.clone());
			}
			declared.push(p);
		}
		if s.chance(1, 3 * dense) {
			outer.attrs.insert("xmlns".into(), if s.chance(1, 4) { "".into() } else { s.pick(URI).to_string() });
		}
		if s.chance(1, 12) {
			outer.kids.push(MNode::El(MEl::new("s")));
		}
		outer.kids.push(MNode::El(std::mem::take(root)));
		*root = outer;
	}
	// what the outermost one declares, used anywhere
	let Some(p) = declared.pop() else { return };
	let paths = root.paths();
	for _ in 0..1 + s.size(4, 1) {
		let at = s.pick(&paths).clone();
		root.at_mut(&at).prefix = Some(p.clone());
	}
}
pub fn diff_ns(a: &[Ns], b: &[Ns]) -> Option<String> {
	if a.len() != b.len() {
		return Some(format!("{} elements instead of {}", a.len(), b.len()));
	}
	a.iter().zip(b).enumerate().find(|(_, (x, y))| x != y).map(|(i, (x, y))| format!("element {i}: {x:?} instead of {y:?}"))
}
fn addr(e: &Element) -> usize {
	e as *const Element as usize
}
/// the namespace queries of `e` against its children; `ns` are the expected values in document order
fn queries(e: &mut Element, ns: &[Ns], all_ns: &[Option<String>], all_p: &[Option<String>]) -> R {
	// expected values of the direct children, by position in document order
	let mut kids: Vec<(usize, &Ns)> = Vec::new();
	let mut at = 1;
	for k in e.child_elements() {
		kids.push((addr(k), &ns[at]));
		at += observe(k).paths().len();
	}
	for q in all_ns {
		let want: Vec<usize> = kids.iter().filter(|(_, n)| n.ns == *q).map(|x| x.0).collect();
		let got: Vec<usize> = e.elements_by_namespace(q.as_deref()).map(addr).collect();
		ensure!(got == want, "elements_by_namespace({q:?}) of {} yields {} elements, expected {}", e.tag_name(), got.len(), want.len());
		let got: Vec<usize> = e.elements_by_namespace_mut(q.as_deref()).map(|x| addr(x)).collect();
		ensure!(got == want, "elements_by_namespace_mut({q:?}) of {} yields {} elements, expected {}", e.tag_name(), got.len(), want.len());
	}
	for q in all_p {
		let want: Vec<usize> = kids.iter().filter(|(_, n)| n.prefix == *q).map(|x| x.0).collect();
		let got: Vec<usize> = e.elements_by_namespace_prefix(q.as_deref()).map(addr).collect();
		ensure!(got == want, "elements_by_namespace_prefix({q:?}) of {} yields {} elements, expected {}", e.tag_name(), got.len(), want.len());
		let got: Vec<usize> = e.elements_by_namespace_prefix_mut(q.as_deref()).map(|x| addr(x)).collect();
		ensure!(got == want, "elements_by_namespace_prefix_mut({q:?}) of {} yields {} elements, expected {}", e.tag_name(), got.len(), want.len());
	}
	let mut at = 1;
	for k in e.child_elements_mut() {
		let n = observe(k).paths().len();
		queries(k, &ns[at..at + n], all_ns, all_p)?;
		at += n;
	}
	Ok(())
}

fn check(s: &mut Src, c: &mut Ctx) -> R {
	let mut root = if s.chance(1, 6) {
		gen::tree(s, gen::TreeOpts { chars: Chars::Xml, comments: false, max_nodes: 60, ..Default::default() })
	} else {
		let mut budget = 40;
		let mut t = tree(s, &[], 0, &mut budget);
		if s.chance(1, 12) {
			chain(s, &mut t, 120);
		}
		if s.chance(1, 60) {
			gen::grow(s, &mut t, Chars::Xml, 60);
		}
		t
	};
	no_cr(&mut root);
	root.clean_deep();
	let Some(want) = resolve(&root) else { bad!("harness: undeclared prefix in {root:?}") };
	let m = MDoc { root, ..Default::default() };
	let t = surface::join(&surface::render(s, &m));
	c.input(&t);
	let decls: usize = want.iter().map(|n| n.declared.len()).sum::<usize>();
	c.nontrivial = want.len() >= 2 && decls + t.matches("xmlns=").count() >= 2;
	let mut d = reparse(&t, "a well-formed document")?;
	if let Some(x) = diff_ns(&observe_ns(d.root_element()), &want) {
		bad!("{x}\n{t}");
	}
	let mut all_ns: Vec<Option<String>> = want.iter().map(|n| n.ns.clone()).collect();
	all_ns.extend([None, Some("".into()), Some("nope".into()), Some("p".into()), Some("urn:a".into())]);
	let mut all_p: Vec<Option<String>> = want.iter().map(|n| n.prefix.clone()).collect();
	all_p.extend([None, Some("".into()), Some("nope".into()), Some("xmlns".into())]);
	all_ns.sort();
	all_ns.dedup();
	all_p.sort();
	all_p.dedup();
	queries(d.root_element_mut(), &want, &all_ns, &all_p)
}
