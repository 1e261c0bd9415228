//! C05: malformed documents are rejected.
use super::*;
use crate::refxml::{judge, Verdict};
use crate::surface::{self, AttrTok, TagTok, Tok};

pub fn prop() -> Prop {
	Prop {
		id: "C05",
		check,
		sweep,
		rule: "case = a rendered document with one planted fault from the catalog, or a scrambled rendering that the reference parser proves malformed; non-trivial = the case is certainly malformed and was given to the parser",
		quick: (16000, 18000),
		thorough: (960000, 1080000),
		witnesses: &[],
	}
}

const FIXED: &[&str] = &[
	"", " \n", "text", "<!-- c -->", "<?xml version='1.0'?>", "<!DOCTYPE a>", "<a>", "</a>", "<a></b>", "<a></a></a>", "<a/></a>", "<a/><b/>", "<a/>x", "x<a/>", "<a/><?xml version='1.0'?>",
	"<!-- c --><?xml version='1.0'?><a/>", "<?xml version='1.0'?><?xml version='1.0'?><a/>", "<a", "<a b='", "<a b='c", "<a b='c'", "<a><!-- ", "<a><!-- --", "<a><![CDATA[", "<a><![CDATA[ ]]", "<!DOCTYPE a",
	"<!DOCTYPE a [", "<!DOCTYPE a []", "<a><!DOCTYPE a></a>", "<a/><!DOCTYPE a>", "<>", "<></>", "<a><></></a>", "< a/>", "<1/>", "<-a/>", "<.a/>", "<a$/>", "<a b/>", "<a b=/>", "<a b=c/>", "<a ='c'/>", "<a 1='c'/>", "<a b$='c'/>",
	"<a b='1'c='2'/>", "<a b='1'c=\"2\"/>", "<a b='1' c/>", "<a b c='1'/>", "<a b= c='1'/>", "<a b='1' ='2'/>", "<a b==\"1\"/>", "<a \"b\"/>", "<a 'b'='1'/>", "< a b='<c>'/>", "<a><b></a></b>", "<a></ a>", "<a>< /a>", "<a><a></a>",
	"<a>]]></a><![CDATA[x]]>", "<a/>&amp;", "<a/>\u{A0}", "\u{A0}<a/>", "<a><![CDATA[</a>", "<a><!--</a>", "<a b=\"</a>", "<a b=\"1\"><c d='</c></a>", "<a =</a>", "<a b='1''2'/>", "<a b='1'\"2\"/>", "<a b=1'2'/>", "<a b='1'2/>",
	"<a\u{D7}/>", "<a b\u{D7}='1'/>", "<a/b/>", "<a / b='1'/>", "<a,b/>", "<a;/>", "<a b,c='1'/>", "<a b='1',c='2'/>", "<a><b/ ></a>", "<a><!-- x --></a", "<a></a", "<a></", "<a><", "<a>&lt;</a", "<\u{1F600}\u{F0000}/>", "<?xml version='1.0'?>x<a/>", "<a></a/>",
	"<a><b></b/></a>", "<a></a />", "<a></a/><!-- -->", "<a b='1' b='2'/>", "<a b='1' b='1'/>", "<a b='1' c='' b=\"\"></a>", "<a xmlns='u' xmlns='v'/>", "<a xmlns:p='u' xmlns:p='u'/>", "<a><b c='' c=''/></a>",
];
fn sweep() -> Vec<Vec<u64>> {
	let mut v: Vec<Vec<u64>> = (0..FIXED.len() as u64).map(|i| vec![1, 2, i]).collect();
	for k in 0..gen::HUGE_KINDS {
		for f in 0..FAR {
			v.push(vec![1, 3, gen::sweep_choice(k), f]);
		}
	}
	v
}
const FAR: u64 = 16;
/// a very large document with one fault at its end or beginning
fn far(kind: u64, fault: u64) -> (String, &'static str) {
	let mut root = gen::huge(kind as usize, &gen::TreeOpts { chars: Chars::Xml, strict_comments: true, ..Default::default() });
	root.clean_deep();
	if root.kids.is_empty() {
		root.kids.push(MNode::El(MEl::new("e")));
	}
	let name = root.tag();
	let mut t = write_element(&root, "");
	while t.ends_with('\n') {
		t.pop();
	}
	let end = format!("</{name}>");
	let body = t.strip_suffix(&end).expect("an end tag").to_string();
	match fault {
		0 => (body, "missing closing tag"),
		1 => (format!("{body}</{name}x>"), "mismatched closing tag"),
		2 => (format!("{t}<z/>"), "second root"),
		3 => (format!("{t}x"), "text after the root"),
		4 => (format!("{body}<!--{end}"), "unterminated comment"),
		5 => (format!("{body}<![CDATA[{end}"), "unterminated CDATA section"),
		6 => (format!("{body}<z></y>{end}"), "mismatched tags at the end"),
		7 => (format!("{t}{end}"), "extra closing tag"),
		8 => (format!("{body}<z a='1' b=2/>{end}"), "unquoted attribute"),
		9 => (format!("{body}<!DOCTYPE z>{end}"), "DOCTYPE inside the root"),
		10 => (format!("{body}<z a='{end}"), "unterminated attribute"),
		11 => (format!("{body}<z>{end}"), "missing closing tag at the end"),
		12 => (format!("<z>{t}"), "missing closing tag of an outer element"),
		13 => (format!("{body}<1/>{end}"), "bad name"),
		14 => (format!("x{t}"), "text before the root"),
		_ => (format!("{body}</z>{end}"), "closing tag without opening tag"),
	}
}

pub const BAD_NAMES: &[&str] = &["1a", "-a", ".a", "a$b", "a!", "@a", "a,b", "a;b", "(a)", "a*", "a+b", "×", "÷a", "a×", "\u{37E}", "\u{300}a", "\u{B7}a", "‿", "a\u{2000}b", "\u{F0000}", "a|b", "{a}", "a%", "a#b", "#a", "~a", "^", "a\\b", "a`", "&amp;", "a&b", "?a", "a?", "[a]", "a\u{10FFFF}", "☼", "9", "a\u{200B}b", "\u{2190}"];

/// what the tokens say about tag structure
pub fn structure_bad(t: &[Tok]) -> Option<&'static str> {
	let mut stack: Vec<&str> = Vec::new();
	let mut roots = 0;
	let mut before = false;
	for k in t {
		match k {
			Tok::Bom => {}
			Tok::Decl(_) => {
				if before {
					return Some("declaration not at the start");
				}
				before = true;
			}
			Tok::Dtd(_) => {
				if roots > 0 {
					return Some("DOCTYPE after the start of the root");
				}
				before = true;
			}
			Tok::Misc(m) | Tok::Ws(m) => before |= !is_ws(m),
			Tok::Start(x) | Tok::Empty(x) => {
				before = true;
				if stack.is_empty() {
					roots += 1;
					if roots > 1 {
						return Some("more than one root");
					}
				}
				if matches!(k, Tok::Start(_)) {
					stack.push(&x.name);
				}
			}
			Tok::End(x) => {
				before = true;
				match stack.pop() {
					None => return Some("closing tag without opening tag"),
					Some(n) if n != x.name => return Some("mismatched tags"),
					_ => {}
				}
			}
			Tok::Text(x) => {
				if stack.is_empty() && !is_ws(x) {
					return Some("text outside the root");
				}
				before |= !x.is_empty();
			}
			Tok::Comment(_) => before = true,
			Tok::CData(_) => {
				if stack.is_empty() && roots > 0 {
					return Some("CDATA after the root");
				}
				before = true
			}
		}
	}
	if !stack.is_empty() {
		return Some("missing closing tag");
	}
	if roots == 0 {
		return Some("no root");
	}
	None
}
pub fn end_tags(t: &[Tok]) -> String {
	let mut stack: Vec<&str> = Vec::new();
	for k in t {
		match k {
			Tok::Start(x) => stack.push(&x.name),
			Tok::End(_) => {
				stack.pop();
			}
			_ => {}
		}
	}
	stack.iter().rev().map(|n| format!("</{n}>")).collect()
}
pub fn positions(t: &[Tok], f: impl Fn(&Tok) -> bool) -> Vec<usize> {
	(0..t.len()).filter(|i| f(&t[*i])).collect()
}
pub fn is_tag(t: &Tok) -> bool {
	matches!(t, Tok::Start(_) | Tok::Empty(_) | Tok::End(_))
}
pub fn open_tag(t: &mut Tok) -> &mut TagTok {
	match t {
		Tok::Start(x) | Tok::Empty(x) | Tok::End(x) => x,
		_ => panic!("not a tag"),
	}
}
pub fn tag_name(s: &mut Src) -> TagTok {
	TagTok { open: "<".into(), name: gen::ncname(s), attrs: vec![], ws: String::new(), close: ">".into() }
}
pub fn outside_text(s: &mut Src) -> String {
	let t = match s.weighted(&[3, 2, 1]) {
		0 => gen::text(s, Chars::Xml),
		1 => gen::piece(s, Chars::Xml),
		_ => s.pick(&["x", "\u{A0}", "&amp;", "&#32;", "&", ".", "]]>", "-->", ">", "?>", "\u{3000}", "\u{85}", "=", "\"", "'"]).to_string(),
	};
	let t: String = t.replace('<', "");
	if is_ws(&t) || t.starts_with('\u{FEFF}') {
		format!("x{t}")
	} else {
		t
	}
}
/// first root token and the one after the last root token
pub fn root_range(t: &[Tok]) -> (usize, usize) {
	let p = positions(t, is_tag);
	(p[0], p[p.len() - 1] + 1)
}

/// plants one fault; the document is certainly malformed if a description is returned
pub fn plant(s: &mut Src, t: &mut Vec<Tok>) -> Option<(String, &'static str)> {
	let text = |t: &[Tok]| surface::join(t);
	let (r0, r1) = root_range(t);
	let k = s.weighted(&[6, 4, 4, 4, 3, 4, 4, 3, 6, 4, 4, 4, 3, 4, 3, 3, 2, 3]);
	match k {
		// structural edits, decided on the tokens
		0 => {
			let tags = positions(t, is_tag);
			let a = *s.pick(&tags);
			match s.idx(5) {
				0 => {
					t.remove(a);
				}
				1 => {
					let x = t[a].clone();
					let b = s.idx(t.len() + 1);
					t.insert(b, x);
				}
				2 => {
					let x = t.remove(a);
					let b = s.idx(t.len() + 1);
					t.insert(b, x);
				}
				3 => {
					let b = *s.pick(&tags);
					t.swap(a, b);
				}
				_ => {
					let n = s.pick(&["x", "", "A", "p:a"]).to_string();
					let e = open_tag(&mut t[a]);
					let old = e.name.clone();
					e.name = match s.idx(6) {
						0 => gen::ncname(s),
						1 => format!("{old}x"),
						2 if old.chars().count() > 1 => old.chars().take(old.chars().count() - 1).collect(),
						3 => old.to_uppercase(),
						4 => old.split(':').last().unwrap_or("x").to_string(),
						_ if n.is_empty() => format!("x{old}"),
						_ => n,
					};
				}
			}
			// an extra Empty or Start tag that keeps the structure is fine
			structure_bad(t).map(|w| (text(t), w))
		}
		// a second root
		1 => {
			let x = tag_name(s);
			let at = if s.chance(1, 2) { r1 + s.idx(t.len() - r1 + 1) } else { s.idx(r0 + 1) };
			let mut new = Vec::new();
			if s.chance(1, 2) {
				let mut e = x;
				e.close = "/>".into();
				new.push(Tok::Empty(e));
			} else {
				let mut e = x.clone();
				e.open = "</".into();
				new.push(Tok::Start(x));
				new.push(Tok::End(e));
			}
			t.splice(at..at, new);
			Some((text(t), "more than one root"))
		}
		// text outside
		2 => {
			let x = outside_text(s);
			let at = if s.chance(1, 2) { r1 + s.idx(t.len() - r1 + 1) } else { s.idx(r0 + 1) };
			t.insert(at, Tok::Text(x));
			Some((text(t), "text outside the root"))
		}
		// a declaration that is not at the start
		3 => {
			let d = gen::decl(s);
			let lo = t[..r0].iter().position(|x| !matches!(x, Tok::Bom) && !matches!(x, Tok::Misc(m) if is_ws(m)))?;
			let at = lo + 1 + s.idx(t.len() - lo);
			t.insert(at.min(t.len()), Tok::Decl(d));
			Some((text(t), "declaration not at the start"))
		}
		// no root
		4 => {
			t.drain(r0..r1);
			Some((text(t), "no root"))
		}
		// truncated before the end of the root
		5 => {
			let all = surface::join(&t[..r1]);
			let n = all.chars().count();
			let k = s.idx(n);
			Some((all.chars().take(k).collect(), "truncated"))
		}
		// attribute faults
		6 | 8 => {
			let tags = positions(t, |x| matches!(x, Tok::Start(_) | Tok::Empty(_)));
			let a = *s.pick(&tags);
			let bad_name = s.pick(BAD_NAMES).to_string();
			let fresh = AttrTok { ws: " ".into(), name: "zz".into(), eq: "=".into(), value: "\"1\"".into() };
			let what = s.idx(7);
			let which;
			{
				let e = open_tag(&mut t[a]);
				if e.attrs.is_empty() || s.chance(1, 4) {
					let at = s.idx(e.attrs.len() + 1);
					e.attrs.insert(at, fresh.clone());
				}
				if what == 3 && e.attrs.len() < 2 {
					e.attrs.push(AttrTok { name: "zy".into(), ..fresh });
				}
				which = s.idx(e.attrs.len());
			}
			let e = open_tag(&mut t[a]);
			let w = match what {
				0 => {
					e.attrs[which].eq.clear();
					e.attrs[which].value.clear();
					"attribute without value"
				}
				1 => {
					e.attrs[which].value.clear();
					"attribute without value after ="
				}
				2 => {
					let v = s.pick(&["v", "1", "v1", "é", "a.b", "&amp;", "v=w", "="]).to_string();
					e.attrs[which].value = v;
					// a following '=' or slash could only make it worse
					"unquoted value"
				}
				3 => {
					let i = which.max(1);
					e.attrs[i].ws.clear();
					"attributes not separated"
				}
				4 => {
					e.attrs[which].name.clear();
					"attribute without name"
				}
				5 => {
					e.attrs[which].name = bad_name;
					"illegal attribute name"
				}
				_ => {
					let mut x = e.attrs[which].clone();
					if x.ws.is_empty() {
						x.ws.push(' ');
					}
					match s.idx(3) {
						0 => {}
						1 => x.value = "''".into(),
						_ => x.value = "\"x\"".into(),
					}
					let at = s.idx(e.attrs.len() + 1);
					e.attrs.insert(at, x);
					"duplicate attribute"
				}
			};
			Some((text(t), w))
		}
		// illegal or empty element name
		7 => {
			let tags = positions(t, is_tag);
			let a = *s.pick(&tags);
			let n = match s.idx(5) {
				0 => String::new(),
				1 => format!(" {}", open_tag(&mut t[a]).name),
				2 => {
					let o = open_tag(&mut t[a]).name.clone();
					format!("{o}{}", s.pick(&["$", "!", "*", "×", "\u{F0000}", ",", "+", "\u{2190}", "|"]))
				}
				_ => s.pick(BAD_NAMES).to_string(),
			};
			// the matching tag too, half of the time, so that only the name is wrong
			let old = open_tag(&mut t[a]).name.clone();
			if s.chance(1, 2) && !old.is_empty() {
				for x in t.iter_mut().filter(|x| is_tag(x)) {
					let e = open_tag(x);
					if e.name == old {
						e.name = n.clone();
					}
				}
			} else {
				open_tag(&mut t[a]).name = n;
			}
			Some((text(t), "illegal or empty element name"))
		}
		// unterminated quote: nothing after it has that quote
		9 => {
			let tags = positions(t, |x| matches!(x, Tok::Start(_) | Tok::Empty(_)));
			let a = *s.pick(&tags);
			let e = open_tag(&mut t[a]);
			let q = if s.chance(1, 2) { '"' } else { '\'' };
			let v = gen::text(s, Chars::Xml).replace(q, "").replace('<', "");
			let n = s.idx(e.attrs.len() + 1);
			e.attrs.truncate(n);
			e.attrs.push(AttrTok { ws: " ".into(), name: "zz".into(), eq: "=".into(), value: format!("{q}{v}") });
			let mut o = surface::join(&t[..=a]);
			if let Tok::Start(x) = &t[a] {
				o.push_str(&format!("</{}>", x.name));
			}
			o.push_str(&end_tags(&t[..a]));
			Some((o, "unterminated attribute value"))
		}
		// unterminated tag
		10 => {
			let tags = positions(t, is_tag);
			let a = *s.pick(&tags);
			let e = open_tag(&mut t[a]);
			e.close.clear();
			let keep_rest = s.chance(1, 2);
			let mut o = surface::join(&t[..=a]);
			if keep_rest && a + 1 < r1 {
				// the next tag begins inside of this one
				let next = t[a + 1..].iter().position(is_tag).map(|i| a + 1 + i);
				if let Some(n) = next {
					o.push(' ');
					o.push_str(&surface::join(&t[n..]));
				}
			}
			Some((o, "unterminated tag"))
		}
		// unterminated comment
		11 => {
			let at = s.idx(t.len() + 1);
			let c = gen::comment(s, Chars::Xml, true);
			let mut o = surface::join(&t[..at]);
			o.push_str("<!--");
			o.push_str(&c);
			if s.chance(1, 2) {
				o.push_str(*s.pick(&["--", "-", "->", "-- >", "--!>", ">", "]]>"]));
				if o.ends_with("<!-->") || o.ends_with("<!--->") {
					o.push('x');
				}
			}
			let rest = surface::join(&t[at..]);
			if !o[o.rfind("<!--").unwrap() + 4..].contains("-->") && !rest.contains("-->") && !(o.ends_with('-') && rest.starts_with(['-', '>'])) {
				o.push_str(&rest);
			}
			if o[o.rfind("<!--").unwrap() + 4..].contains("-->") {
				return None;
			}
			Some((o, "unterminated comment"))
		}
		// unterminated CDATA section
		12 => {
			let at = r0 + 1 + s.idx(r1 - r0 - 1 + (r1 == r0 + 1) as usize);
			if r1 == r0 + 1 {
				return None; // self-closing root
			}
			let c = gen::cdata(s, Chars::Xml);
			let mut o = surface::join(&t[..at]);
			let begin = o.len() + 9;
			o.push_str("<![CDATA[");
			o.push_str(&c);
			if s.chance(1, 2) {
				o.push_str(*s.pick(&["]", "]]", "]>", "] ]>", "]] >", "-->", ">"]));
			}
			let rest = surface::join(&t[at..]);
			if !rest.contains("]]>") {
				o.push_str(&rest);
			}
			if o[begin..].contains("]]>") {
				return None;
			}
			Some((o, "unterminated CDATA section"))
		}
		// DOCTYPE inside the root
		13 => {
			if r1 == r0 + 1 {
				return None;
			}
			let at = r0 + 1 + s.idx(r1 - r0 - 1);
			let d = gen::dtd(s);
			t.insert(at, Tok::Dtd(d));
			Some((text(t), "DOCTYPE inside the root"))
		}
		// unterminated DOCTYPE
		14 => {
			let at = s.idx(r0 + 1);
			let mut d = gen::dtd(s);
			d.pop();
			let mut o = surface::join(&t[..at]);
			if matches!(t.get(at), Some(Tok::Bom)) {
				o.clear();
			}
			o.push_str(&d);
			if s.chance(1, 2) {
				// balanced markup after it does not close it
				o.push_str("<r></r>");
			}
			Some((o, "unterminated DOCTYPE"))
		}
		// a DOCTYPE after the root
		15 => {
			let at = r1 + s.idx(t.len() - r1 + 1);
			let d = gen::dtd(s);
			t.insert(at, Tok::Dtd(d));
			Some((text(t), "DOCTYPE after the root"))
		}
		// a closing tag that closes itself
		16 => {
			let tags = positions(t, |x| matches!(x, Tok::End(_)));
			if tags.is_empty() {
				return None;
			}
			let a = *s.pick(&tags);
			let e = open_tag(&mut t[a]);
			e.close = "/>".into();
			Some((text(t), "closing tag that ends in />"))
		}
		// an extra closing tag
		_ => {
			let mut x = tag_name(s);
			x.open = "</".into();
			if s.chance(1, 2) {
				if let Tok::Start(e) | Tok::Empty(e) = &t[r0] {
					x.name = e.name.clone();
				}
			}
			let at = s.idx(t.len() + 1);
			t.insert(at, Tok::End(x));
			Some((text(t), "extra closing tag"))
		}
	}
}

fn must_fail(text: &str, why: &str) -> R {
	if let Ok(d) = parse(text) {
		bad!("malformed input ({why}) gives a document:\n{text}\nread as:\n{d}");
	}
	Ok(())
}

fn check(s: &mut Src, c: &mut Ctx) -> R {
	match s.weighted(&[3, 2, 0, 0]) {
		0 => {
			let d = super::c02::wf_doc(s, 25);
			let mut t = surface::render(s, &d);
			let Some((text, why)) = plant(s, &mut t) else { return Err(Fail::Discard) };
			c.label(format!("planted: {why}"));
			c.input(&text);
			c.nontrivial = true;
			must_fail(&text, why)
		}
		1 => {
			let d = super::c02::wf_doc(s, 20);
			let t = surface::join(&surface::render(s, &MDoc { dtds: vec![], ..d }));
			let t = scramble(s, &t, Chars::Xml);
			c.input(&t);
			match judge(&t) {
				Verdict::Bad(w) => {
					c.label(format!("scrambled: {w}"));
					c.nontrivial = true;
					must_fail(&t, w)
				}
				_ => Err(Fail::Discard),
			}
		}
		3 => {
			let Some(k) = gen::sweep_only(s) else { return Err(Fail::Discard) };
			let (t, why) = far(k, s.below(FAR));
			c.label("very large, with a fault at one end");
			c.input(&t);
			c.nontrivial = true;
			if let Ok(d) = parse(&t) {
				bad!("malformed input ({why}), a document of kind {k} with {} bytes, gives a document with {} child nodes in the root", t.len(), d.root_element().children().count());
			}
			Ok(())
		}
		_ => {
			let t = FIXED[s.idx(FIXED.len())];
			c.label("fixed input");
			c.input(t);
			c.nontrivial = true;
			must_fail(t, "fixed")
		}
	}
}
