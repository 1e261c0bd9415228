//! C20: results depend on the arguments only.
use super::*;
use crate::surface;
use std::fmt::Write as _;

pub fn prop() -> Prop {
	Prop {
		id: "C20",
		check,
		sweep: no_sweep,
		rule: "case = a batch of calls, many with almost the same arguments; each is run alone in a fresh process, then repeatedly in one process in generated orders with earlier results kept alive, then in parallel threads; non-trivial = at least two different calls, one of them on a document of at least 3 nodes",
		quick: (1200, 1200),
		thorough: (72000, 72000),
		witnesses: &[],
	}
}

#[derive(Clone, Debug)]
pub enum Item {
	Parse(String, String),
	Build(MDoc, String),
	Text(String),
	Name(String),
	Same(String, String),
	Edit(MEl, MEl, usize),
}
/// an error without the names it quotes: which of several is reported may differ
fn error(e: &KissXmlError) -> String {
	let t = e.to_string();
	t.split('\'').step_by(2).collect::<Vec<_>>().join("'")
}
fn see(d: &Document, indent: &str, o: &mut String) {
	let _ = writeln!(o, "{:?}", observe_doc(d));
	let _ = writeln!(o, "{:?}", observe_ns(d.root_element()));
	let _ = writeln!(o, "{}", d.to_string_with_indent(indent));
	let _ = writeln!(o, "{d}{d:?}");
	let _ = writeln!(o, "{}", d.root_element().to_string_with_indent(indent));
	let _ = writeln!(o, "{:?}", d.root_element().text());
	let mut names: Vec<String> = d.root_element().search_elements(|e| e.attributes().is_empty()).map(|e| e.tag_name()).collect();
	names.sort();
	let _ = writeln!(o, "{names:?}");
}
/// everything that can be seen of the result of a call; documents are kept in `keep`
fn digest(i: &Item, keep: &mut Vec<(Document, String, String)>) -> String {
	let mut o = String::new();
	match i {
		Item::Parse(t, ind) => match parse(t) {
			Ok(d) => {
				see(&d, ind, &mut o);
				keep.push((d, ind.clone(), o.clone()));
			}
			Err(e) => o = error(&e),
		},
		Item::Build(m, ind) => {
			let mut d = Document::new(build::exact(&m.root));
			match m.decl.as_ref().map(|t| Declaration::from_str(t)) {
				Some(Ok(x)) => d.set_declaration(Some(x)),
				Some(Err(e)) => o = error(&e),
				None => d.set_declaration(None),
			}
			see(&d, ind, &mut o);
			keep.push((d, ind.clone(), o.clone()));
		}
		Item::Text(t) => {
			let _ = writeln!(o, "{:?}", kiss_xml::unescape(t.as_str()));
			let _ = writeln!(o, "{:?}", kiss_xml::text_escape(t.as_str()));
			let _ = writeln!(o, "{:?}", kiss_xml::attribute_escape(t.as_str()));
			let _ = writeln!(o, "{:?}", kiss_xml::escape(t.as_str()));
			let _ = writeln!(o, "{:?} {:?}", Comment::new(t.as_str()).is_ok(), CData::new(t.as_str()).is_ok());
			let _ = writeln!(o, "{:?}", Declaration::from_str(t).map(|d| d.to_string()).ok());
			let _ = writeln!(o, "{:?}", DTD::from_string(t.as_str()).map(|d| d.to_string()).ok());
			let mut e = Element::new_with_text("a", t.as_str()).expect("valid");
			let _ = e.set_attr("k", t.as_str());
			let _ = writeln!(o, "{e} {:?} {}", e.text(), e.children().count());
			e.append(Element::new_from_name("b").expect("valid"));
			let _ = writeln!(o, "{e} {:?} {}", e.text(), e.children().count());
		}
		Item::Name(n) => {
			let _ = writeln!(o, "{:?}", Element::new_from_name(n).map(|e| e.to_string()).map_err(|e| e.to_string()));
			let mut e = Element::new_from_name("a").expect("valid");
			let _ = writeln!(o, "{:?}", e.set_attr(n.as_str(), n.as_str()).map_err(|e| e.to_string()));
			let _ = writeln!(o, "{e} {:?}", e.get_attr(n.as_str()));
			let _ = writeln!(o, "{:?}", parse(&format!("<{n} {n}='1'/>")).map(|d| d.to_string()).map_err(|e| error(&e)));
		}
		Item::Same(a, b) => match (parse(a), parse(b)) {
			(Ok(x), Ok(y)) => {
				let _ = writeln!(o, "{} {}", x == y, x.root_element() == y.root_element());
			}
			(x, y) => {
				let _ = writeln!(o, "{} {}", x.is_ok(), y.is_ok());
			}
		},
		Item::Edit(m, n, k) => {
			let mut e = build::exact(m);
			let x = build::exact(n);
			let at = k % (e.children().count() + 1);
			let r = e.insert(at, x.clone());
			let _ = writeln!(o, "{r:?}\n{e}");
			e.append_all(vec![x.clone().boxed(), Text::new(n.name.as_str()).boxed(), x.boxed()]);
			let _ = writeln!(o, "{e}\n{:?}", observe_ns(&e));
			let _ = writeln!(o, "{}", e.remove_all(&|n: &Box<dyn Node>| n.is_comment()));
			let _ = writeln!(o, "{:?}", e.remove(at).map(|n| n.to_string()).map_err(|e| e.to_string()));
			let _ = writeln!(o, "{:?}", e.remove_elements_by_name(n.name.as_str()));
			let _ = writeln!(o, "{e}\n{:?}", observe_ns(&e));
			let _ = writeln!(o, "{:?}", e.remove(k + 1000).map(|n| n.to_string()).map_err(|e| e.to_string()));
		}
	}
	o
}
/// almost the same text
fn variant(s: &mut Src, t: &str) -> String {
	let mut v: Vec<char> = t.chars().collect();
	let at = s.idx(v.len().max(1));
	match s.weighted(&[6, 3, 2, 2, 2]) {
		0 if !v.is_empty() => {
			// the same length and structure, another letter or digit
			let p: Vec<usize> = (0..v.len()).filter(|i| v[*i].is_alphanumeric()).collect();
			if !p.is_empty() {
				let i = p[at % p.len()];
				v[i] = *s.pick(&['a', 'b', 'z', 'é', 'Z', 'k', 'q', '1']);
			}
		}
		1 if v.len() > 1 => {
			v.swap(at, 0);
		}
		2 => return t.to_string(),
		3 => {
			let c = *s.pick(&['<', '>', '&', '"', ' ', '\n', 'x']);
			v.insert(at, c);
		}
		_ => {
			if !v.is_empty() {
				v.remove(at);
			}
		}
	}
	v.into_iter().collect()
}
pub fn batch(s: &mut Src) -> Vec<Item> {
	let mut out: Vec<Item> = Vec::new();
	let n = 2 + s.size(5, 2);
	// everything here is processed many times
	s.grown = 2 - s.chance(1, 3) as u32;
	let mut doc = super::c02::wf_doc(s, 30);
	let mut text = surface::join(&surface::render(s, &doc));
	let mut ind = gen::any_indent(s);
	for _ in 0..n {
		if s.chance(1, 6) {
			doc = super::c02::wf_doc(s, 30);
			text = surface::join(&surface::render(s, &doc));
		}
		if s.chance(1, 4) {
			ind = gen::any_indent(s);
		}
		let item = match s.weighted(&[8, 4, 3, 2, 2, 3]) {
			0 => {
				let t = match s.weighted(&[3, 4, 2, 1]) {
					0 => text.clone(),
					1 => variant(s, &text),
					2 => scramble(s, &text, Chars::Xml),
					_ => surface::join(&surface::render(s, &doc)),
				};
				Item::Parse(t, ind.clone())
			}
			1 => {
				let mut m = doc.clone();
				if s.chance(1, 2) {
					let p = m.root.paths();
					let path = s.pick(&p).clone();
					let e = m.root.at_mut(&path);
					match s.idx(4) {
						0 => e.name = gen::ncname(s),
						1 => {
							e.attrs.insert("k".into(), gen::text(s, Chars::Any));
						}
						2 => e.kids.push(MNode::Text(gen::text(s, Chars::Any))),
						_ => {
							e.attrs.insert("xmlns".into(), s.pick(gen::URIS).to_string());
						}
					}
				}
				Item::Build(m, ind.clone())
			}
			2 => {
				let t = gen::text(s, Chars::Any);
				if s.chance(1, 2) {
					out.push(Item::Text(variant(s, &t)));
				}
				Item::Text(t)
			}
			3 => {
				let t = gen::ncname(s);
				if s.chance(1, 2) {
					out.push(Item::Name(variant(s, &t)));
				}
				Item::Name(if s.chance(1, 3) { variant(s, &t) } else { t })
			}
			4 => {
				let t = variant(s, &text);
				Item::Same(text.clone(), t)
			}
			_ => {
				let e = if s.chance(1, 2) { MEl::new("x") } else { gen::tree(s, gen::TreeOpts { max_nodes: 6, ..Default::default() }) };
				Item::Edit(doc.root.clone(), e, s.idx(20))
			}
		};
		out.push(item);
	}
	out
}
/// what the fresh process computes: (index, number of choices, choices)
pub fn alone(req: &[u64]) -> String {
	let env = Env { dict: vec![], consts: vec![] };
	let mut s = Src::new(&req[1..], false, 0, &env, std::ptr::null_mut());
	s.choice(1 << 16, |_, _| 0);
	let items = batch(&mut s);
	digest(&items[req[0] as usize], &mut Vec::new())
}

fn check(s: &mut Src, c: &mut Ctx) -> R {
	let items = batch(s);
	let choices = s.out.clone();
	let mut big = false;
	for i in &items {
		c.input(&format!("{i:?}"));
		c.label(match i {
			Item::Parse(..) => "parse",
			Item::Build(..) => "build",
			Item::Text(..) => "text",
			Item::Name(..) => "name",
			Item::Same(..) => "compare",
			Item::Edit(..) => "edit",
		});
		big |= match i {
			Item::Parse(t, _) => t.matches('<').count() >= 3,
			Item::Build(m, _) => m.root.count() >= 3,
			Item::Edit(m, ..) => m.count() >= 3,
			_ => false,
		};
	}
	c.nontrivial = big && items.iter().any(|i| format!("{i:?}") != format!("{:?}", items[0]));
	let mut want: Vec<String> = Vec::new();
	for i in 0..items.len() {
		let mut req = vec![i as u64];
		req.extend(&choices);
		match crate::fresh::ask(&req) {
			Some(t) => want.push(t),
			None => return Err(Fail::Discard),
		}
	}
	let differ = |i: usize, got: &str, when: &str| -> R {
		ensure!(got == want[i], "{when}, {:?} gives\n{}\nbut alone in a fresh process\n{}", items[i], crate::util::clip(got, 1500), crate::util::clip(&want[i], 1500));
		Ok(())
	};
	// one after the other, results kept
	let mut keep = Vec::new();
	let mut order: Vec<usize> = (0..items.len()).collect();
	for _ in 0..s.size(12, 5) {
		order.push(s.idx(items.len()));
	}
	for k in 0..order.len() {
		let j = k + s.idx(order.len() - k);
		order.swap(k, j);
	}
	let mut done: Vec<usize> = Vec::new();
	for i in &order {
		let got = digest(&items[*i], &mut keep);
		differ(*i, &got, &format!("after calls {done:?}"))?;
		done.push(*i);
		if keep.len() > 3 && s.chance(1, 3) {
			let k = s.idx(keep.len());
			keep.remove(k);
		}
	}
	for (d, ind, was) in &keep {
		let mut o = String::new();
		see(d, ind, &mut o);
		ensure!(o == *was, "a document changed while others were handled, from\n{}\nto\n{}", crate::util::clip(was, 1500), crate::util::clip(&o, 1500));
	}
	drop(keep);
	// in parallel
	if s.chance(1, 2) {
		c.label("threads");
		let n = 2 + s.idx(3);
		let orders: Vec<Vec<usize>> = (0..n).map(|_| (0..4 + s.idx(12)).map(|_| s.idx(items.len())).collect()).collect();
		let bad: Vec<(usize, String)> = crate::cov::pause(|| {
			let barrier = std::sync::Barrier::new(n);
			std::thread::scope(|sc| {
				let hs: Vec<_> = orders
					.iter()
					.map(|o| {
						let (items, want, barrier) = (&items, &want, &barrier);
						std::thread::Builder::new()
							.stack_size(16 << 20)
							.spawn_scoped(sc, move || {
								barrier.wait();
								let mut keep = Vec::new();
								for i in o {
									let got = digest(&items[*i], &mut keep);
									if got != want[*i] {
										return Some((*i, got));
									}
								}
								None
							})
							.expect("thread")
					})
					.collect();
				hs.into_iter()
					.filter_map(|h| match h.join() {
						Ok(x) => x,
						Err(e) => Some((0, format!("panic: {:?}", e.downcast_ref::<String>()))),
					})
					.collect()
			})
		});
		for (i, got) in bad {
			differ(i, &got, "in parallel threads")?;
		}
	}
	Ok(())
}
