//! Generators: names, text, trees, prologs.
use crate::engine::*;
use crate::model::*;
use std::collections::BTreeMap;

pub const NAMES: &[&str] = &[
	"a", "b", "c", "item", "x", "y", "r", "_", "A", "a.b", "a-b", "a1", "é", "名前", "μ", "ñandú", "xmlish", "_9", "a·b", "𐀀b",
	"p", "q", "li", "Root", "root", "x-", "c.", "Ωmega", "h1", "abcdefghijklmnopqrstuvwxyz",
];
const STARTS: &[char] = &['a', 'z', 'A', 'Z', '_', 'À', 'Ö', 'Ø', 'ö', 'ø', '˿', 'Ͱ', 'ͽ', 'Ϳ', '῿', '\u{200C}', '\u{200D}', '⁰', '\u{218F}', 'Ⰰ', '\u{2FEF}', '、', '\u{D7FF}', '\u{F900}', '\u{FDCF}', '\u{FDF0}', '\u{FFFD}', '𐀀', '\u{EFFFF}'];
const LATER: &[char] = &['-', '.', '0', '9', '·', '\u{300}', '\u{36F}', '‿', '⁀'];

/// a name without colon
pub fn ncname(s: &mut Src) -> String {
	match s.weighted(&[30, 4, 2, 1]) {
		0 => s.pick(NAMES).to_string(),
		1 => {
			let mut o = String::new();
			o.push(*s.pick(STARTS));
			for _ in 0..s.size(40, 3) {
				if s.chance(1, 2) {
					o.push(*s.pick(LATER))
				} else {
					o.push(*s.pick(STARTS))
				}
			}
			o
		}
		2 => {
			let n = s.literal(|r, e| {
				let v: Vec<&String> = e.dict.iter().filter(|d| valid_ncname(d)).collect();
				if v.is_empty() {
					"d".into()
				} else {
					(*r.pick(&v)).clone()
				}
			});
			if valid_ncname(&n) {
				n
			} else {
				"a".into()
			}
		}
		_ => {
			let n = s.size(300, 40).max(1);
			let c = *s.pick(STARTS);
			c.to_string().repeat(n)
		}
	}
}
/// attribute names other than namespace definitions
pub fn attr_name(s: &mut Src) -> String {
	let n = match s.weighted(&[12, 3, 2]) {
		0 => ncname(s),
		1 => s.pick(&["id", "class", "href", "xml:lang", "xml:space", "a:b", "p:x", "x-y", "version", "xm", "xml", "xmlfoo", "Xmlns", "xlink:href", "encoding", "a:", "z"]).to_string(),
		_ => format!("{}:{}", ncname(s), ncname(s)),
	};
	if n.starts_with("xmlns") {
		"k".into()
	} else {
		n
	}
}

const SNIPS: &[&str] = &[
	"]]>", "-->", "<!--", "&amp;", "&lt;", "&gt;", "&quot;", "&apos;", "&#65;", "&#x41;", "&#x263c;", "&#263c;", "&#0;", "&#x110000;", "&bogus;", "&;", "&",
	"&#;", "&#x;", "<a>", "</a>", "<a/>", "<![CDATA[", "?>", "<?xml", "<?xml version=\"1.0\"?>", "<!DOCTYPE a>", "xmlns", "a='b'", "b=\"c\"", "--",
	"-", "]]", "]", "/>", ">", "<", "'", "\"", "=", " = ", "&amp;amp;", "&amp;lt;", "&am", "amp;", ";", "#", "<x", "&#x1F600;", "xmlns:p", ":", "&&", "%x;",
];
const WS: &[&str] = &[" ", "\n", "\t", "\r", "\r\n", "  ", "\n\n", "\n  ", "\t \n"];
const ODD_WS: &[&str] = &["\u{A0}", "\u{2003}", "\u{2028}", "\u{2029}", "\u{3000}", "\u{85}", "\u{FEFF}", "\u{200B}", "\u{B}", "\u{C}", "\u{1680}", "\u{202F}", "\u{1F}"];
const MULTI: &[&str] = &[
	"é", "☼", "😀", "日本", "e\u{301}", "ש", "\u{7F}", "\u{80}", "\u{7FF}", "\u{800}", "\u{FFFD}", "\u{10000}", "\u{10FFFF}", "ß", "İ", "ſ", "K", "\u{D7FF}", "\u{E000}", "‘", "”", "＜", "＆", "꞉",
];
const WORDS: &[&str] = &["a", "text", "Hello", "0", "42", "foo bar", "x y", "b", "c", "The quick brown fox", "1.5", "A", "abc def ghi"];

#[derive(Clone, Copy, PartialEq)]
pub enum Chars {
	/// any Rust string
	Any,
	/// characters that XML 1.0 documents may contain
	Xml,
}
pub fn xml_char(c: char) -> bool {
	matches!(c, '\t' | '\n' | '\r' | '\u{20}'..='\u{D7FF}' | '\u{E000}'..='\u{FFFD}' | '\u{10000}'..='\u{10FFFF}')
}

pub fn piece(s: &mut Src, ch: Chars) -> String {
	let p: String = match s.weighted(&[10, 6, 8, 5, 2, 6, 3, 4, 3, 1]) {
		0 => s.pick(WORDS).to_string(),
		1 => {
			let c = s.below(95) as u8 + 0x20;
			(c as char).to_string()
		}
		2 => s.pick(SNIPS).to_string(),
		3 => s.pick(WS).to_string(),
		4 => s.pick(ODD_WS).to_string(),
		5 => s.pick(MULTI).to_string(),
		6 => s.char_any().to_string(),
		7 => s.literal(|r, e| if e.dict.is_empty() { String::new() } else { r.pick(&e.dict).clone() }),
		8 => {
			let n = s.size(70, 6);
			let c = *s.pick(&['a', ' ', '&', '<', '-', ']', '>', '"', '\'', '☼', 'é', ';', '\n', '😀', '\t', '=', '0']);
			c.to_string().repeat(if matches!(c, '&' | '<' | '>' | '"' | '\'') { n.min(24) } else { n })
		}
		_ => {
			// unescape takes quadratic time in the number of references: keep repeats of escaped characters short
			let n = s.size(2100, 200);
			let c = *s.pick(&['a', ' ', 'é', '<', '\u{10FFFF}', '"']);
			c.to_string().repeat(if matches!(c, '<' | '"') { n.min(400) } else { n })
		}
	};
	if ch == Chars::Xml {
		p.chars().filter(|c| xml_char(*c)).collect()
	} else {
		p
	}
}
/// arbitrary text, often short, often with markup characters
pub fn text(s: &mut Src, ch: Chars) -> String {
	let n = s.size(30, 2);
	let mut o = String::new();
	for _ in 0..n {
		o.push_str(&piece(s, ch));
	}
	o
}
pub fn ws(s: &mut Src) -> String {
	let n = s.size(6, 1);
	let mut o = String::new();
	for _ in 0..n {
		o.push_str(*s.pick(WS));
	}
	o
}
/// comment text; `strict`: also allowed by XML ("--" and a final "-" are not)
pub fn comment(s: &mut Src, ch: Chars, strict: bool) -> String {
	let mut t = text(s, ch);
	while t.contains("-->") {
		t = t.replace("-->", "->");
	}
	if strict {
		while t.contains("--") {
			t = t.replace("--", "-");
		}
		while t.ends_with('-') {
			t.pop();
		}
	}
	t
}
pub fn without(mut t: String, x: &str) -> String {
	while t.contains(x) {
		t = t.replace(x, "");
	}
	t
}
pub fn cdata(s: &mut Src, ch: Chars) -> String {
	let mut t = text(s, ch);
	while t.contains("]]>") {
		t = t.replace("]]>", "]>");
	}
	t
}
pub fn indent(s: &mut Src) -> String {
	match s.weighted(&[12, 6, 6, 6, 4, 1]) {
		0 => "  ".into(),
		1 => "\t".into(),
		2 => "".into(),
		3 => " ".repeat(s.size(24, 3)),
		4 => "    ".into(),
		_ => " ".repeat(24 + s.idx(250)),
	}
}
pub fn any_indent(s: &mut Src) -> String {
	match s.weighted(&[6, 4]) {
		0 => indent(s),
		_ => match s.weighted(&[4, 3]) {
			0 => s
				.pick(&["\t\t", " \t", "\t ", "\n", "x", "\u{A0}", "\u{3000}", "  \n", "\r", "<", "--", "\t\t\t", "&#32;", "  x  ", "\u{2003}\u{2003}", "\r\n", "   \t"])
				.to_string(),
			_ => text(s, Chars::Any),
		},
	}
}

#[derive(Clone, Copy)]
pub struct TreeOpts {
	pub chars: Chars,
	/// prefixes that are declared where they are used
	pub prefixes: bool,
	pub comments: bool,
	/// comment text that XML allows
	pub strict_comments: bool,
	pub max_nodes: usize,
}
impl Default for TreeOpts {
	fn default() -> Self {
		TreeOpts { chars: Chars::Any, prefixes: true, comments: true, strict_comments: false, max_nodes: 400 }
	}
}
pub const PREFIXES: &[&str] = &["p", "q", "xs", "é", "ns.1", "a", "svg", "x-"];
pub const URIS: &[&str] = &["urn:a", "urn:b", "http://x/?a=1&b=\"2\"", "urn:é☼", "a", "internal://ns/a", "x y", "<u>", "p", "urn:A"];

pub fn tree(s: &mut Src, o: TreeOpts) -> MEl {
	let mut budget = o.max_nodes.min(match s.weighted(&[12, 6, 2, 0]) {
		0 => 10,
		1 => 40,
		2 => 400,
		_ => {
			// only a sweep gets here (a changed choice would be too expensive)
			if let Some(k) = sweep_only(s) {
				return huge(k as usize, &o);
			}
			10
		}
	});
	let mut e = element(s, &o, &BTreeMap::new(), 0, &mut budget);
	// sometimes deeper than the recursion above makes it
	if s.chance(1, 40) {
		let d = s.size(60, 20);
		for _ in 0..d {
			let mut outer = MEl::new(&ncname(s));
			if s.chance(1, 3) {
				outer.kids.push(MNode::Text(text(s, o.chars)));
			}
			outer.kids.push(MNode::El(e));
			if s.chance(1, 4) {
				outer.kids.push(MNode::El(MEl::new(&ncname(s))));
			}
			e = outer;
		}
	}
	if s.chance(1, 80) {
		grow(s, &mut e, o.chars, 130);
	}
	e
}
const HUGE: u64 = 0xB16_7EE5;
pub const HUGE_KINDS: u64 = 17;
/// a number below 256 that a sweep gave, by `sweep_choice`
pub fn sweep_only(s: &mut Src) -> Option<u64> {
	let k = s.below(1 << 48);
	(k >> 8 == HUGE).then_some(k & 0xff)
}
pub fn sweep_choice(k: u64) -> u64 {
	HUGE << 8 | k
}
/// the choices that make `tree` return a very large tree, after the given ones
pub fn huge_sweep(before: &[u64]) -> Vec<Vec<u64>> {
	(0..HUGE_KINDS).map(|k| [before, &[3, HUGE << 8 | k]].concat()).collect()
}
/// without the deep ones, for checks that look at every pair of an ancestor and a descendant
pub fn wide(v: Vec<Vec<u64>>) -> Vec<Vec<u64>> {
	v.into_iter().filter(|v| !v.contains(&(HUGE << 8 | 9)) && !v.contains(&(HUGE << 8 | 11))).collect()
}
/// simple choices for the rest, and random ones
pub fn huge_sweeps(mode: &[u64]) -> Vec<Vec<u64>> {
	let f = |first: u64| huge_sweep(&[&[first], mode].concat());
	[f(1), f(2)].concat()
}
/// very large trees, each in one respect
pub fn huge(kind: usize, o: &TreeOpts) -> MEl {
	let el = |n: &str, kids: Vec<MNode>| MEl { kids, ..MEl::new(n) };
	let txt = |t: &str| MNode::Text(t.to_string());
	let mut r = MEl::new("r");
	match kind {
		0 if o.comments => {
			r.kids = (0..70_000).map(|i| MNode::Comment(i.to_string())).collect();
			r.kids.push(txt("end"));
		}
		1 => {
			// text and CDATA alternate
			for i in 0..35_000 {
				r.kids.push(txt(&format!("t{i} ")));
				r.kids.push(MNode::CData(i.to_string()));
			}
		}
		0 | 2 => {
			for i in 0..2500 {
				r.kids.push(MNode::El(if i % 50 == 7 { el("b", vec![txt("x")]) } else { MEl::new(NAMES[i % 5]) }));
			}
			r.kids.push(MNode::El(el("last", vec![MNode::El(MEl::new("in"))])));
		}
		3 => r.kids.push(txt(&format!("<é{}&☼{}\u{10FFFD}>", "é\ta ".repeat(30_000), "x".repeat(66_000)))),
		4 => {
			r.attrs.insert("big".into(), format!("\"{}'&é{}<", "☼ ab".repeat(25_000), "y".repeat(66_000)));
			r.attrs.insert("c".into(), "z".into());
		}
		5 if o.comments => {
			r.kids.push(MNode::Comment(format!(" {} & <é> {} ", "ab ☼\n".repeat(30_000), "- ".repeat(33_000))));
			r.kids.push(MNode::El(MEl::new("b")));
		}
		6 => {
			r.kids.push(MNode::CData(format!(" {} & <é> {} ]] ", "a]☼\n".repeat(30_000), "]>".repeat(33_000))));
			r.kids.push(MNode::El(MEl::new("b")));
		}
		5 | 7 => {
			let n = "né".repeat(25_000);
			r.attrs.insert(format!("k{n}"), "v".into());
			r.kids.push(MNode::El(el(&n, vec![txt("t")])));
			r.kids.push(MNode::El(MEl::new(&format!("{n}x"))));
		}
		8 => {
			for i in 0..3000 {
				r.attrs.insert(format!("k{i}"), format!("{i}\""));
			}
			r.kids.push(MNode::El(r.clone()));
		}
		9 => {
			// deep
			let mut e = el("a", vec![txt("bottom")]);
			for i in 0..1500 {
				e = el(NAMES[i % 3], vec![MNode::El(e)]);
				if i % 100 == 5 {
					e.kids.insert(0, txt("t"));
				}
			}
			return e;
		}
		10 if o.prefixes => {
			for i in 0..1500 {
				r.attrs.insert(format!("xmlns:n{i}"), format!("urn:{i}"));
			}
			for i in (0..1500).step_by(97) {
				r.kids.push(MNode::El(MEl { prefix: Some(format!("n{i}")), kids: vec![MNode::El(MEl { prefix: Some(format!("n{}", 1499 - i)), ..MEl::new("c") })], ..MEl::new("b") }));
			}
		}
		11 if o.prefixes => {
			// every level declares the prefix again
			let mut e = MEl::new("a");
			for i in 0..400 {
				e = MEl { prefix: (i % 3 != 0).then(|| "p".to_string()), attrs: [("xmlns:p".to_string(), format!("urn:{i}")), ("xmlns".to_string(), format!("urn:d{}", i / 2))].into(), kids: vec![MNode::El(e)], ..MEl::new(NAMES[i % 4]) };
			}
			return e;
		}
		12 => {
			// wide and three levels
			for i in 0..50 {
				let kids = (0..40).map(|j| MNode::El(el(NAMES[j % 6], if j % 9 == 0 { vec![txt("x"), MNode::El(MEl::new("i")), MNode::CData("<".into())] } else { vec![] }))).collect();
				let mut e = el(NAMES[i % 6], kids);
				e.attrs.insert("n".into(), i.to_string());
				r.kids.push(MNode::El(e));
			}
		}
		13 => {
			// many references in one text and one value
			let t = "<&>\"'é".repeat(300);
			r.attrs.insert("a".into(), t.clone());
			r.kids.push(txt(&t));
		}
		14 => {
			// 1 MiB of text
			let t = "0123456789abcde ".repeat(1 << 16);
			r.kids.push(MNode::El(el("b", vec![txt(&format!("{t}end"))])));
			r.kids.push(MNode::El(MEl::new("c")));
		}
		16 => {
			// long runs of white space around little text
			let w = format!("\n{}\t", " ".repeat(70_000));
			r.attrs.insert("a".into(), format!("{w}x{w}"));
			r.kids.push(MNode::El(el("b", vec![txt(&format!("{w}x{w}"))])));
			r.kids.push(MNode::El(el("c", vec![txt(&format!("{w}&")), MNode::El(MEl::new("i")), txt(&w), MNode::CData(w.clone())])));
			r.kids.push(MNode::El(el("d", vec![MNode::El(MEl::new("i")), txt(&format!("x{w}"))])));
			if o.comments {
				r.kids.push(MNode::Comment(format!("{w}x{w}")));
			}
		}
		_ => {
			// whitespace-only text in a large mixed element
			for i in 0..20_000 {
				r.kids.push(txt(" "));
				r.kids.push(MNode::CData(if i % 3 == 0 { String::new() } else { " ".into() }));
			}
			r.kids.push(txt("x"));
		}
	}
	r
}
/// makes one thing in the tree big: children, attributes, declarations, a text, a name, or the depth
pub fn grow(s: &mut Src, root: &mut MEl, ch: Chars, deep: usize) {
	// at most two in one case, so that a case stays affordable
	if s.grown >= 2 {
		return;
	}
	s.grown += 1;
	let p = root.paths();
	let path = s.pick(&p).clone();
	let which = s.weighted(&[8, 3, 3, 4, 2, 3, 2]);
	if which == 5 {
		// deeper
		let n = s.size(deep, 30);
		let text = s.chance(1, 4);
		for i in 0..n {
			let mut outer = MEl::new(NAMES[i % 3]);
			if text && i % 2 == 0 {
				outer.kids.push(MNode::Text("t".into()));
			}
			outer.kids.push(MNode::El(std::mem::take(root)));
			*root = outer;
		}
		return;
	}
	let e = root.at_mut(&path);
	match which {
		0 => {
			let n = s.size(1100, 40);
			let kind = s.idx(6);
			let name = ncname(s);
			let fill: Vec<MNode> = (0..n)
				.map(|i| match kind {
					0 => MNode::El(MEl::new(&name)),
					1 => MNode::El(MEl { kids: vec![MNode::Text("x".into())], ..MEl::new(&name) }),
					2 => MNode::Comment("c".into()),
					3 => MNode::CData("d".into()),
					4 if i % 2 == 0 => MNode::Text(" ".into()),
					5 if i % 3 == 0 => MNode::Comment("".into()),
					5 if i % 3 == 1 => MNode::CData("".into()),
					_ => MNode::El(MEl::new(&name)),
				})
				.collect();
			let at = if s.chance(1, 3) { s.idx(e.kids.len() + 1) } else { 0 };
			e.kids.splice(at..at, fill);
			match s.weighted(&[2, 1, 1]) {
				0 => {}
				1 => e.kids.push(MNode::Text(format!("{}.", text(s, ch)))),
				_ => e.kids.push(MNode::El(MEl::new("last"))),
			}
		}
		1 => {
			let n = s.size(300, 40);
			let k = ncname(s);
			if !k.starts_with("xmlns") {
				for i in 0..n {
					e.attrs.insert(format!("{k}{i}"), format!("{i}"));
				}
			}
		}
		2 => {
			for i in 0..s.size(100, 20) {
				e.attrs.insert(format!("xmlns:w{i}"), format!("urn:w{i}"));
			}
			let n = e.attrs.len();
			for k in &mut e.kids {
				if let MNode::El(c) = k {
					if c.prefix.is_none() && s.chance(1, 2) {
						let i = s.idx(n);
						if e.attrs.contains_key(&format!("xmlns:w{i}")) {
							c.prefix = Some(format!("w{i}"));
						}
					}
				}
			}
		}
		3 | 4 => {
			let c = *s.pick(&['a', 'é', ' ', '☼', '-', '\n']);
			// a reference per line break makes reading quadratic: less of it
			let n = match c {
				'\n' => s.size(2200, 600),
				_ if s.chance(1, 8) => s.size(70_000, 9000),
				_ => s.size(9000, 1500),
			};
			let mut t = piece(s, ch);
			t.push_str(&c.to_string().repeat(n / c.len_utf8()));
			t.push_str(&piece(s, ch));
			let c = |t: String| without(without(t, "--"), "]]>");
			match s.idx(4) {
				_ if which == 4 => {
					e.attrs.insert("big".into(), t);
				}
				0 => e.kids.push(MNode::Comment(format!("{}.", c(t)))),
				1 => e.kids.push(MNode::CData(c(t))),
				_ => e.kids.push(MNode::Text(t)),
			}
		}
		_ => {
			let n = s.size(2100, 200);
			e.name.push_str(&"n".repeat(n));
		}
	}
}
pub fn attrs_into(s: &mut Src, o: &TreeOpts, e: &mut MEl) {
	let n = match s.weighted(&[10, 8, 1]) {
		0 => 0,
		1 => s.size(6, 2),
		_ => s.size(70, 12),
	};
	for i in 0..n {
		let mut k = attr_name(s);
		if e.attrs.contains_key(&k) {
			k = format!("{k}{i}");
		}
		let v = text(s, o.chars);
		e.attrs.insert(k, v);
	}
}
fn element(s: &mut Src, o: &TreeOpts, scope: &BTreeMap<String, String>, depth: usize, budget: &mut usize) -> MEl {
	let mut e = MEl::new(&ncname(s));
	*budget = budget.saturating_sub(1);
	attrs_into(s, o, &mut e);
	let mut inner = scope.clone();
	if o.prefixes {
		let n = s.weighted(&[20, 3, 1]);
		for _ in 0..n {
			let u = s.pick(URIS).to_string();
			if s.chance(1, 3) {
				e.attrs.insert("xmlns".into(), if s.chance(1, 5) { String::new() } else { u });
			} else {
				let p = s.pick(PREFIXES).to_string();
				e.attrs.insert(format!("xmlns:{p}"), u.clone());
				inner.insert(p, u);
			}
		}
		if !inner.is_empty() && s.chance(2, 5) {
			let k: Vec<String> = inner.keys().cloned().collect();
			e.prefix = Some(s.pick(&k).clone());
		}
	}
	let nk = if depth >= 12 {
		0
	} else {
		// wide ones mostly where the budget allows them
		match s.weighted(if depth < 2 && *budget > 60 { &[8, 24, 16] } else { &[8, 24, 1] }) {
			0 => 0,
			1 => s.size(6, 2),
			_ => 20 + s.size(300, 60),
		}
	};
	// wide elements: often nearly uniform, with one child that is different, anywhere
	let profile = if nk > 12 { s.idx(5) } else { 0 };
	let odd_one = if profile > 0 { s.idx(nk) } else { 0 };
	for i in 0..nk {
		if *budget == 0 {
			break;
		}
		let k = if profile == 0 {
			kid(s, o, &inner, depth, budget, nk)
		} else if i == odd_one {
			if profile < 3 {
				let t = text(s, o.chars);
				MNode::Text(if is_ws(&t) { format!("{t}x") } else { t })
			} else {
				kid(s, o, &inner, depth, budget, nk)
			}
		} else {
			*budget = budget.saturating_sub(1);
			match profile {
				1 | 3 => {
					if i % 2 == 0 {
						MNode::Text(s.pick(WS).to_string())
					} else {
						MNode::El(MEl::new(*s.pick(NAMES)))
					}
				}
				2 => MNode::El(MEl::new(*s.pick(NAMES))),
				_ if o.comments && i % 2 == 0 => MNode::Comment(s.pick(WORDS).to_string()),
				_ => MNode::CData(s.pick(WORDS).to_string()),
			}
		};
		e.kids.push(k);
	}
	e
}
fn kid(s: &mut Src, o: &TreeOpts, scope: &BTreeMap<String, String>, depth: usize, budget: &mut usize, nk: usize) -> MNode {
	*budget = budget.saturating_sub(1);
	let w: &[u32] = if nk > 12 { &[6, 3, 1, 1, 1, 6] } else { &[8, 6, 2, 2, 2, 1] };
	match s.weighted(w) {
		0 => MNode::El(element(s, o, scope, depth + 1, budget)),
		1 => MNode::Text(text(s, o.chars)),
		2 => MNode::Text(ws(s)),
		3 if o.comments => MNode::Comment(comment(s, o.chars, o.strict_comments)),
		4 => MNode::CData(cdata(s, o.chars)),
		_ => MNode::El(MEl::new(*s.pick(NAMES))),
	}
}

// ---------------------------------------------------------------- prolog

pub fn decl(s: &mut Src) -> String {
	match s.weighted(&[4, 3, 2, 2, 2]) {
		0 => "<?xml version=\"1.0\" encoding=\"UTF-8\"?>".into(),
		1 => "<?xml version='1.0'?>".into(),
		2 => "<?xml version=\"1.0\"   encoding='utf-8'\n standalone = \"yes\" ?>".into(),
		3 => format!("<?xml version=\"1.0\" encoding=\"{}\"?>", s.pick(&["UTF-8", "utf8", "ISO-8859-1", "?", "a>b", "é☼"])),
		_ => {
			let v = s.pick(&["1.0", "1.1", "1.0\"?", "'"]).replace('"', "");
			let q = if v.contains('\'') { '"' } else { '\'' };
			let w = ws(s);
			let w2 = ws(s);
			format!("<?xml {w}version{w2}={w2}{q}{v}{q}{w}?>")
		}
	}
}
/// a document type declaration with balanced brackets; quotes occur only as delimiters
pub fn dtd(s: &mut Src) -> String {
	let name = ncname(s);
	let mut o = format!("<!DOCTYPE {}{name}", ws(s));
	match s.weighted(&[5, 2, 2]) {
		0 => {}
		1 => o.push_str(&format!(" SYSTEM {}", quoted(s))),
		_ => o.push_str(&format!(" PUBLIC {} {}", quoted(s), quoted(s))),
	}
	if s.chance(1, 2) {
		o.push_str(&ws(s));
		o.push('[');
		for _ in 0..s.size(6, 2) {
			o.push_str(&ws(s));
			match s.weighted(&[4, 4, 3, 3, 1, 1]) {
				0 => o.push_str(&format!("<!ELEMENT {} {}>", ncname(s), s.pick(&["ANY", "EMPTY", "(#PCDATA)", "(a|b)*", "(a,(b|c)+,d?)"]))),
				1 => o.push_str(&format!("<!ENTITY {} {}>", ncname(s), quoted(s))),
				2 => o.push_str(&format!("<!ATTLIST {} {} CDATA {}>", ncname(s), ncname(s), quoted(s))),
				3 => {
					let c = comment(s, Chars::Xml, true);
					o.push_str(&format!("<!--{c}-->"));
				}
				4 => o.push_str("%x;"),
				_ => o.push_str("<![INCLUDE[<!ELEMENT z ANY>]]>"),
			}
		}
		o.push_str(&ws(s));
		o.push(']');
	}
	o.push_str(&ws(s));
	o.push('>');
	o
}
fn quoted(s: &mut Src) -> String {
	let q = *s.pick(&['"', '\'']);
	let t = text(s, Chars::Xml).replace(q, "");
	format!("{q}{t}{q}")
}
pub fn doc(s: &mut Src, o: TreeOpts) -> MDoc {
	let root = tree(s, o);
	let decl = if s.chance(1, 2) { Some(decl(s)) } else { None };
	let mut dtds = Vec::new();
	if s.chance(1, 6) {
		for _ in 0..1 + s.size(3, 1) {
			dtds.push(dtd(s));
		}
	}
	MDoc { decl, dtds, root }
}
