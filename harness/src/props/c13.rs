//! C13: validation of names and content.
use super::*;
use std::collections::HashMap;

pub fn prop() -> Prop {
	Prop {
		id: "C13",
		check,
		sweep,
		rule: "case = a block of 1024 code points tried at every name position, or one string tried at every place that takes a name or content; non-trivial = at least one acceptance or rejection was decided by more than emptiness",
		quick: (4000, 4500),
		thorough: (240000, 270000),
		witnesses: &[],
	}
}
const BLOCK: u64 = 1024;
const LONG: u64 = 16;
fn sweep() -> Vec<Vec<u64>> {
	let mut v: Vec<Vec<u64>> = (0..0x110000 / BLOCK).map(|b| vec![1, 3, b]).collect();
	v.extend((0..LONG).map(|k| vec![1, 4, gen::sweep_choice(k)]));
	v
}

fn name_everywhere(n: &str) -> R {
	let ok = valid_name(n);
	let say = |what: &str, got: bool| -> R {
		ensure!(got == ok, "{what}({n:?}) is {}", if got { "accepted" } else { "rejected" });
		Ok(())
	};
	let none: Option<HashMap<String, String>> = None;
	let map = |k: &str| -> HashMap<String, String> { [("ok".to_string(), "1".to_string()), (k.to_string(), "2".to_string())].into() };
	// element names
	say("Element::new name ", Element::new(n, None, none.clone(), None, None, None).is_ok())?;
	say("Element::new_from_name ", Element::new_from_name(n).is_ok())?;
	say("Element::new_with_text ", Element::new_with_text(n, "t").is_ok())?;
	say("Element::new_with_attributes name ", Element::new_with_attributes(n, map("k")).is_ok())?;
	say("Element::new_with_attributes_and_text name ", Element::new_with_attributes_and_text(n, map("k"), "t").is_ok())?;
	say("Element::new_with_attributes_and_children name ", Element::new_with_attributes_and_children(n, map("k"), vec![]).is_ok())?;
	say("Element::new_with_children name ", Element::new_with_children(n, vec![Text::new("t").boxed()]).is_ok())?;
	// prefixes
	say("Element::new prefix ", Element::new("a", None, none.clone(), Some("u".into()), Some(n.into()), None).is_ok())?;
	say("Element::new prefix without namespace ", Element::new("a", None, none, None, Some(n.into()), None).is_ok())?;
	// attribute names
	say("Element::new attribute ", Element::new("a", None, Some(map(n)), None, None, None).is_ok())?;
	say("Element::new_with_attributes ", Element::new_with_attributes("a", map(n)).is_ok())?;
	say("Element::new_with_attributes_and_text ", Element::new_with_attributes_and_text("a", map(n), "t").is_ok())?;
	say("Element::new_with_attributes_and_children ", Element::new_with_attributes_and_children("a", map(n), vec![]).is_ok())?;
	let mut e = Element::new_with_attributes("a", map("k")).expect("valid");
	e.append(Text::new("t"));
	let before = observe(&e);
	let r = e.set_attr(n, "v").is_ok();
	say("set_attr ", r)?;
	let mut want = before;
	if r {
		want.attrs.insert(n.into(), "v".into());
	}
	same_el(&observe(&e), &want, &format!("after set_attr({n:?})"))
}
fn survives(e: Element) -> R {
	let d = Document::new(e);
	let t = d.to_string();
	let r = reparse(&t, "a document with accepted names and content")?;
	same_el(&observe(r.root_element()), &observe(d.root_element()).cleaned(), "reread vs written")
}

/// the content of comments and CDATA sections
fn content(t: &str, old: &str) -> R {
	let (okc, okd) = (!t.contains("-->"), !t.contains("]]>"));
	let mut e = Element::new_from_name("r").expect("valid");
	match Comment::new(t) {
		Ok(x) => {
			ensure!(okc, "Comment::new({t:?}) is accepted");
			ensure!(x.get_content() == t, "content of Comment::new({t:?}) is {:?}", x.get_content());
			e.append(x);
		}
		Err(_) => ensure!(!okc, "Comment::new({t:?}) is rejected"),
	}
	match CData::new(t) {
		Ok(x) => {
			ensure!(okd, "CData::new({t:?}) is accepted");
			ensure!(x.get_content() == t, "content of CData::new({t:?}) is {:?}", x.get_content());
			e.append(x);
		}
		Err(_) => ensure!(!okd, "CData::new({t:?}) is rejected"),
	}
	let mut x = Comment::new(old).expect("valid");
	let r = x.set_content(t).is_ok();
	ensure!(r == okc, "set_content({t:?}) is {}", if r { "accepted" } else { "rejected" });
	ensure!(x.get_content() == if okc { t } else { old }, "after set_content({t:?}): {:?}", x.get_content());
	e.append(x);
	let mut x = CData::new(old).expect("valid");
	let r = x.set_text(t).is_ok();
	ensure!(r == okd, "set_text({t:?}) is {}", if r { "accepted" } else { "rejected" });
	ensure!(x.get_content() == if okd { t } else { old }, "after set_text({t:?}): {:?}", x.get_content());
	e.append(x);
	survives(e)
}

fn check(s: &mut Src, c: &mut Ctx) -> R {
	match s.weighted(&[4, 2, 2, 0, 0]) {
		0 => {
			let n = match s.weighted(&[3, 3, 2, 2]) {
				0 => {
					// a name with one odd character somewhere
					let base = gen::ncname(s);
					let mut v: Vec<char> = base.chars().collect();
					let at = s.idx(v.len() + 1);
					v.insert(at, s.char_any());
					v.into_iter().collect::<String>()
				}
				1 => gen::attr_name(s),
				2 => gen::text(s, Chars::Any),
				_ => {
					let a = gen::ncname(s);
					let x = s.pick(&["\n", " ", "\t", "", "\0", ":", "-", ".", "=", "/", ">", "<", "\"", "'", "&", "\u{85}", "\u{A0}", "é", "1", "\u{2028}", "\r", "\r\n"]).to_string();
					match s.idx(3) {
						0 => format!("{a}{x}"),
						1 => format!("{x}{a}"),
						_ => format!("{a}{x}{a}"),
					}
				}
			};
			c.label("name");
			c.input(&n);
			c.nontrivial = !n.is_empty();
			name_everywhere(&n)?;
			if valid_name(&n) {
				c.label("accepted name");
				let mut e = Element::new_from_name("r").expect("valid");
				if !n.starts_with("xmlns") {
					e.set_attr(n.as_str(), n.as_str()).expect("accepted");
				}
				if valid_ncname(&n) {
					e.append(Element::new_with_text(&n, n.as_str()).expect("accepted"));
					e.append(Element::new(n.as_str(), None, Option::<HashMap<String, String>>::None, Some("urn:u".into()), Some(n.clone()), None).expect("accepted"));
				}
				survives(e)?;
			}
			Ok(())
		}
		4 => {
			let Some(k) = gen::sweep_only(s) else { return Err(Fail::Discard) };
			let k = k as usize;
			c.label("very long");
			c.nontrivial = true;
			let n = [1_000, 4_093, 65_533, 300_001][k % 4];
			let fill = ["a", "é", "a-", "n\u{10000}"][k / 4 % 4];
			let fill = fill.repeat(n / fill.len());
			for odd in ["", ":", " ", "<", "\u{D7}", "\n", "\u{F0000}", "☼"] {
				for t in [format!("{odd}{fill}"), format!("{fill}{odd}"), format!("{fill}{odd}{fill}")] {
					c.input(&t);
					name_everywhere(&t)?;
				}
			}
			for (begin, end) in [("-->", ""), ("", "-->"), ("", "--"), ("", "->"), ("", "]]>"), ("]]>", ""), ("", "]]"), ("]>", "]")] {
				content(&format!("{begin}{fill}{end}"), "old")?;
				content(&format!("{fill}{begin}{end}{fill}"), "old")?;
			}
			Ok(())
		}
		1 | 2 => {
			let mut t = match s.weighted(&[3, 2]) {
				0 => gen::text(s, Chars::Any),
				_ => (0..s.size(12, 4)).map(|_| *s.pick(&['-', '>', ']', '<', '!', 'a', '[', ' '])).collect(),
			};
			if s.chance(1, 3) {
				let k: Vec<usize> = t.char_indices().map(|x| x.0).chain([t.len()]).collect();
				let at = *s.pick(&k);
				t.insert_str(at, *s.pick(&["-->", "]]>", "--", "->", "]]", "]>", "-- >"]));
			}
			let old = s.pick(&["old", "", "-", "]"]).to_string();
			c.label("comment and CDATA content");
			c.input(&t);
			c.nontrivial = t.contains(['-', ']', '>']);
			content(&t, &old)
		}
		_ => {
			let b = s.below(0x110000 / BLOCK) * BLOCK;
			c.label("block of code points");
			c.input(&format!("block {b:#x}"));
			c.nontrivial = true;
			let mut holder = Element::new_from_name("r").expect("valid");
			let mut plain = Element::new_from_name("r").expect("valid");
			for v in b..b + BLOCK {
				let Some(ch) = char::from_u32(v as u32) else { continue };
				for n in [format!("{ch}"), format!("a{ch}"), format!("{ch}a"), format!("a{ch}b")] {
					let ok = valid_name(&n);
					let r = Element::new_from_name(&n);
					ensure!(r.is_ok() == ok, "Element::new_from_name({n:?}) is {}", if r.is_ok() { "accepted" } else { "rejected" });
					let a = plain.set_attr(n.as_str(), "").is_ok();
					ensure!(a == ok, "set_attr({n:?}) is {}", if a { "accepted" } else { "rejected" });
					plain.clear_attributes();
				}
				// all of them at once in one document
				if valid_ncname(&format!("a{ch}")) && v % 8 == b / BLOCK % 8 {
					holder.set_attr(format!("a{ch}"), "1").expect("accepted");
					if valid_ncname(&format!("{ch}")) {
						holder.append(Element::new_with_text(&format!("{ch}"), "t").expect("accepted"));
					}
				}
			}
			survives(holder)
		}
	}
}
