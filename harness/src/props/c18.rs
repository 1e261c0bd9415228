//! C18: error positions.
use super::c05::*;
use super::*;
use crate::surface::{self, AttrTok, Tok};

pub fn prop() -> Prop {
	Prop {
		id: "C18",
		check,
		sweep: no_sweep,
		rule: "case = a rendered document with one fault planted at a known place; non-trivial = the message states a position and the fault is not on line 1, column 1",
		quick: (12000, 13000),
		thorough: (720000, 780000),
		witnesses: &[],
	}
}
/// line and column stated in a message; None if it states none or more than one
fn stated(m: &str) -> Option<(usize, usize)> {
	let mut found = Vec::new();
	let mut rest = m;
	while let Some(i) = rest.find("line ") {
		rest = &rest[i + 5..];
		let a: String = rest.chars().take_while(|c| c.is_ascii_digit()).collect();
		if let Some(r) = rest[a.len()..].strip_prefix(", column ") {
			let b: String = r.chars().take_while(|c| c.is_ascii_digit()).collect();
			if let (Ok(a), Ok(b)) = (a.parse(), b.parse()) {
				found.push((a, b));
			}
		}
	}
	if found.len() == 1 {
		Some(found[0])
	} else {
		None
	}
}
fn line_col(before: &str) -> (usize, usize) {
	let line = before.matches('\n').count() + 1;
	let col = before.chars().rev().take_while(|c| *c != '\n').count() + 1;
	(line, col)
}
/// text before token `i`, without a byte order mark
fn before(t: &[Tok], i: usize) -> String {
	surface::join(&t[..i]).trim_start_matches('\u{FEFF}').to_string()
}
/// start of the stretch of text and white space that token `i` belongs to
fn run_start(t: &[Tok], i: usize) -> usize {
	let mut k = i;
	while k > 0 && match &t[k - 1] {
		Tok::Misc(m) => is_ws(m),
		Tok::Ws(_) | Tok::Text(_) => true,
		_ => false,
	} {
		k -= 1;
	}
	k
}
fn first_mismatch(t: &[Tok]) -> Option<usize> {
	let mut stack: Vec<&str> = Vec::new();
	let mut begun = false;
	for (i, k) in t.iter().enumerate() {
		match k {
			Tok::Start(x) => {
				if stack.is_empty() && begun {
					return None; // a second root, another kind of fault
				}
				begun = true;
				stack.push(&x.name)
			}
			Tok::Empty(_) => {
				if stack.is_empty() && begun {
					return None;
				}
				begun = true;
			}
			Tok::Text(x) if stack.is_empty() && !is_ws(x) => return None,
			Tok::CData(_) | Tok::Comment(_) if stack.is_empty() => return None,
			Tok::End(x) => match stack.pop() {
				Some(n) if n == x.name => {}
				_ => return Some(i),
			},
			_ => {}
		}
	}
	None
}

/// (text, text before the fault, description)
fn faulty(s: &mut Src, t: &mut Vec<Tok>) -> Option<(String, String, &'static str)> {
	let (r0, r1) = root_range(t);
	match s.weighted(&[5, 3, 3, 4, 3, 6, 4, 4, 3, 3, 2, 2, 3]) {
		0 => {
			// a changed or misplaced closing tag
			let ends = positions(t, |x| matches!(x, Tok::End(_)));
			if ends.is_empty() {
				return None;
			}
			let a = *s.pick(&ends);
			match s.idx(4) {
				0 => open_tag(&mut t[a]).name.push('x'),
				3 => {
					open_tag(&mut t[a]).close = "/>".into();
					return Some((surface::join(t), before(t, a), "closing tag that closes itself"));
				}
				1 => {
					let n = gen::ncname(s);
					open_tag(&mut t[a]).name = n;
				}
				_ => {
					let b = *s.pick(&ends);
					t.swap(a, b);
				}
			}
			let i = first_mismatch(t)?;
			Some((surface::join(t), before(t, i), "mismatched closing tag"))
		}
		1 => {
			let mut x = tag_name(s);
			x.open = "</".into();
			let at = if s.chance(1, 2) { r1 + s.idx(t.len() - r1 + 1) } else { (matches!(t[0], Tok::Bom) as usize).max(s.idx(r0 + 1)) };
			t.insert(at, Tok::End(x));
			Some((surface::join(t), before(t, at), "closing tag outside the root"))
		}
		2 => {
			let mut x = tag_name(s);
			x.close = s.pick(&[">", "/>"]).to_string();
			let at = r1 + s.idx(t.len() - r1 + 1);
			t.insert(at, Tok::Empty(x));
			Some((surface::join(t), before(t, at), "second root"))
		}
		3 => {
			let x = outside_text(s);
			let at = if s.chance(1, 2) { r1 + s.idx(t.len() - r1 + 1) } else { (matches!(t[0], Tok::Bom) as usize).max(s.idx(r0 + 1)) };
			// before a declaration, the declaration is at fault as well; the text comes first
			t.insert(at, Tok::Text(x));
			let k = run_start(t, at);
			Some((surface::join(t), before(t, k), "text outside the root"))
		}
		4 => {
			if r1 == r0 + 1 {
				return None;
			}
			let at = r0 + 1 + s.idx(r1 - r0 - 1);
			let d = if s.chance(1, 2) { gen::dtd(s) } else { s.pick(&["<!FOO>", "<!ELEMENT a ANY>", "<!ENTITY a 'b>'>", "<!>", "<!doctype a>"]).to_string() };
			t.insert(at, Tok::Dtd(d));
			Some((surface::join(t), before(t, at), "declaration inside the root"))
		}
		5 => {
			// faults inside of a start tag
			let tags = positions(t, |x| matches!(x, Tok::Start(_) | Tok::Empty(_)));
			let a = *s.pick(&tags);
			let what = s.idx(8);
			let bad_name = s.pick(BAD_NAMES).to_string();
			let e = open_tag(&mut t[a]);
			let at = s.idx(e.attrs.len() + 1);
			let mut x = AttrTok { ws: " ".into(), name: "zz".into(), eq: "=".into(), value: "\"1\"".into() };
			match what {
				0 => {
					x.eq.clear();
					x.value.clear();
				}
				1 => x.value.clear(),
				2 => x.value = s.pick(&["v", "1", "é", "&amp;", "="]).to_string(),
				3 => x.name.clear(),
				4 => x.name = bad_name,
				5 => x.value = "\"1\"\"2\"".into(),
				6 => {
					// the same attribute twice
					let again = s.idx(e.attrs.len() + 1);
					match e.attrs.get(again) {
						Some(y) => {
							x.name = y.name.clone();
							x.value = s.pick(&["\"1\"", "''"]).to_string();
						}
						None => e.attrs.push(x.clone()),
					}
				}
				_ => x.value = "\"1\"x".into(),
			}
			e.attrs.insert(at, x);
			Some((surface::join(t), before(t, a), "attribute syntax"))
		}
		6 => {
			// element name
			let tags = positions(t, is_tag);
			let a = *s.pick(&tags);
			let n = match s.idx(3) {
				0 => String::new(),
				1 => format!(" {}", open_tag(&mut t[a]).name),
				_ => s.pick(BAD_NAMES).to_string(),
			};
			if n.starts_with('?') {
				return None;
			}
			open_tag(&mut t[a]).name = n;
			Some((surface::join(t), before(t, a), "element name"))
		}
		7 => {
			// unterminated tag
			let tags = positions(t, is_tag);
			let a = *s.pick(&tags);
			open_tag(&mut t[a]).close.clear();
			let b = before(t, a);
			let mut o = surface::join(&t[..=a]);
			match s.idx(3) {
				0 => {}
				1 => {
					if let Some(n) = t[a + 1..].iter().position(is_tag) {
						o.push(' ');
						o.push_str(&surface::join(&t[a + 1 + n..]));
					}
				}
				_ => {
					let e = open_tag(&mut t[a]);
					let q = if s.chance(1, 2) { '"' } else { '\'' };
					e.attrs.push(AttrTok { ws: " ".into(), name: "zz".into(), eq: "=".into(), value: format!("{q}{}", gen::text(s, Chars::Xml).replace(q, "")) });
					e.close = ">".into();
					o = surface::join(&t[..=a]);
				}
			}
			Some((o, b, "unterminated tag or quote"))
		}
		8 => {
			let at = (matches!(t[0], Tok::Bom) as usize).max(s.idx(t.len() + 1));
			let b = before(t, at);
			let rest = surface::join(&t[at..]);
			let c = gen::comment(s, Chars::Xml, true);
			let mut o = format!("{}<!--{c}", surface::join(&t[..at]));
			if !rest.contains("-->") && !rest.starts_with(['-', '>']) {
				o.push_str(&rest);
			}
			Some((o, b, "unterminated comment"))
		}
		9 => {
			if r1 == r0 + 1 {
				return None;
			}
			let at = r0 + 1 + s.idx(r1 - r0 - 1);
			let b = before(t, at);
			let rest = surface::join(&t[at..]);
			let c = gen::cdata(s, Chars::Xml);
			let mut o = format!("{}<![CDATA[{c}", surface::join(&t[..at]));
			if !rest.contains("]]>") && !c.ends_with(']') {
				o.push_str(&rest);
			}
			Some((o, b, "unterminated CDATA section"))
		}
		10 => {
			let at = (matches!(t[0], Tok::Bom) as usize).max(s.idx(r0 + 1));
			if t[at..r0].iter().any(|x| matches!(x, Tok::Decl(_))) {
				return None;
			}
			let mut d = gen::dtd(s);
			d.pop();
			Some((format!("{}{d}", surface::join(&t[..at])), before(t, at), "unterminated DOCTYPE"))
		}
		11 => {
			// a declaration that is not at the start
			let lo = t[..r0].iter().position(|x| !matches!(x, Tok::Bom) && !matches!(x, Tok::Misc(m) if is_ws(m))).unwrap_or(r0);
			let at = (lo + 1 + s.idx(t.len() - lo)).min(t.len());
			let d = gen::decl(s);
			t.insert(at, Tok::Decl(d));
			Some((surface::join(t), before(t, at), "declaration not at the start"))
		}
		_ => {
			// an undeclared prefix on the root
			let n = format!("nope:{}", gen::ncname(s));
			for k in t.iter_mut() {
				if let Tok::Start(x) | Tok::Empty(x) = k {
					x.attrs.retain(|a| a.name != "xmlns:nope");
					break;
				}
			}
			open_tag(&mut t[r0]).name = n.clone();
			if r1 > r0 + 1 {
				open_tag(&mut t[r1 - 1]).name = n;
			}
			Some((surface::join(t), before(t, r0), "undeclared prefix"))
		}
	}
}
fn check(s: &mut Src, c: &mut Ctx) -> R {
	let d = super::c02::wf_doc(s, 25);
	let mut t = surface::render(s, &d);
	if s.chance(1, 60) {
		// far from the start of the document or of the line
		let n = *s.pick(&[300usize, 5000, 33_000, 66_000, 140_000]);
		let x = match s.idx(4) {
			0 => "\n".repeat(n),
			1 => "é".repeat(n),
			2 => " x\n".repeat(n / 2),
			_ => format!("{}\n{}", "a".repeat(n), "☼ ".repeat(n / 4)),
		};
		let (r0, r1) = root_range(&t);
		// in a comment before or in the root
		let lo = t[..r0].iter().position(|x| matches!(x, Tok::Decl(_))).map_or(matches!(t[0], Tok::Bom) as usize, |i| i + 1);
		let at = if s.chance(1, 2) || r1 == r0 + 1 { lo + s.idx(r0 - lo + 1) } else { r0 + 1 };
		// not before the declaration
		if !t[at..].iter().any(|x| matches!(x, Tok::Decl(_))) {
			t.insert(at, if at <= r0 { Tok::Misc(format!("<!--{x}-->")) } else { Tok::Comment(x) });
			c.label("far from the start");
		}
	}
	let Some((text, before, what)) = faulty(s, &mut t) else { return Err(Fail::Discard) };
	c.input(&text);
	let want = line_col(&before);
	let Err(e) = parse(&text) else { return Err(Fail::Discard) };
	let m = e.to_string();
	match stated(&m) {
		None => {
			c.label(format!("{what}: no position stated"));
			Ok(())
		}
		Some(got) => {
			c.label(what);
			if want.0 > 1 {
				c.label("not on the first line");
			}
			c.nontrivial = want != (1, 1);
			ensure!(got == want, "{what} at line {}, column {} is reported at line {}, column {}: {m}\n{text}", want.0, want.1, got.0, got.1);
			Ok(())
		}
	}
}
