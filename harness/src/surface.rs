//! Renders a document model to XML text with arbitrary surface syntax, as a list of tokens that
//! faults can be planted in.
use crate::engine::*;
use crate::gen;
use crate::model::*;

#[derive(Clone, Debug)]
pub struct AttrTok {
	/// whitespace before the name
	pub ws: String,
	pub name: String,
	/// "=" with optional whitespace
	pub eq: String,
	/// with quotes
	pub value: String,
}
#[derive(Clone, Debug)]
pub struct TagTok {
	/// "<" or "</"
	pub open: String,
	pub name: String,
	pub attrs: Vec<AttrTok>,
	pub ws: String,
	/// ">" or "/>"
	pub close: String,
}
impl TagTok {
	pub fn text(&self) -> String {
		let mut o = format!("{}{}", self.open, self.name);
		for a in &self.attrs {
			o.push_str(&a.ws);
			o.push_str(&a.name);
			o.push_str(&a.eq);
			o.push_str(&a.value);
		}
		o.push_str(&self.ws);
		o.push_str(&self.close);
		o
	}
}
#[derive(Clone, Debug)]
pub enum Tok {
	Bom,
	Decl(String),
	Dtd(String),
	/// whitespace or a comment outside the root
	Misc(String),
	Start(TagTok),
	/// self-closing
	Empty(TagTok),
	End(TagTok),
	Text(String),
	/// insignificant whitespace inside the root
	Ws(String),
	Comment(String),
	CData(String),
}
impl Tok {
	pub fn text(&self) -> String {
		match self {
			Tok::Bom => "\u{FEFF}".into(),
			Tok::Start(t) | Tok::Empty(t) | Tok::End(t) => t.text(),
			Tok::Decl(s) | Tok::Dtd(s) | Tok::Misc(s) | Tok::Text(s) | Tok::Ws(s) | Tok::Comment(s) | Tok::CData(s) => s.clone(),
		}
	}
}
pub fn join(v: &[Tok]) -> String {
	v.iter().map(|t| t.text()).collect()
}

/// one character as text or attribute content
fn put_char(s: &mut Src, c: char, quote: Option<char>, prev2: bool, raw_ws: bool, o: &mut String) {
	let must = matches!(c, '<' | '&' | '\r')
		|| Some(c) == quote
		|| (quote.is_some() && !raw_ws && matches!(c, '\n' | '\t'))
		|| (c == '>' && prev2);
	let named = match c {
		'<' => Some("&lt;"),
		'>' => Some("&gt;"),
		'&' => Some("&amp;"),
		'\'' => Some("&apos;"),
		'"' => Some("&quot;"),
		_ => None,
	};
	let as_ref = must || if named.is_some() { s.chance(1, 2) } else { s.chance(1, 24) };
	if !as_ref {
		o.push(c);
		return;
	}
	let k = s.weighted(&[3, 1, 1, 1, 1]);
	match (k, named) {
		(0, Some(n)) => o.push_str(n),
		(1, _) | (0, None) => o.push_str(&format!("&#{};", c as u32)),
		(2, _) => o.push_str(&format!("&#x{:x};", c as u32)),
		(3, _) => o.push_str(&format!("&#x{:X};", c as u32)),
		_ => o.push_str(&format!("&#x{}{:X};", "0".repeat(s.idx(4)), c as u32)),
	}
}
fn put_str(s: &mut Src, t: &str, quote: Option<char>, raw_ws: bool) -> String {
	let mut o = String::new();
	let (mut p1, mut p2) = (' ', ' ');
	for c in t.chars() {
		put_char(s, c, quote, p1 == ']' && p2 == ']', raw_ws, &mut o);
		p2 = p1;
		p1 = c;
	}
	o
}
fn tag_ws(s: &mut Src, min1: bool) -> String {
	let w = if s.chance(1, 4) { gen::ws(s) } else if min1 { " ".into() } else { String::new() };
	if min1 && w.is_empty() {
		" ".into()
	} else {
		w
	}
}
fn tag(s: &mut Src, e: &MEl, raw_ws: bool) -> TagTok {
	let mut attrs: Vec<(&String, &String)> = e.attrs.iter().collect();
	// any order
	for i in 1..attrs.len() {
		let j = s.idx(i + 1);
		attrs.swap(i, i - j.min(i));
	}
	let attrs = attrs
		.into_iter()
		.map(|(k, v)| {
			let q = if s.chance(1, 2) { '\'' } else { '"' };
			let value = format!("{q}{}{q}", put_str(s, v, Some(q), raw_ws));
			let eq = if s.chance(1, 4) { format!("{}={}", gen::ws(s), gen::ws(s)) } else { "=".into() };
			AttrTok { ws: tag_ws(s, true), name: k.clone(), eq, value }
		})
		.collect();
	let mut t = TagTok { open: "<".into(), name: e.tag(), attrs, ws: String::new(), close: ">".into() };
	t.ws = tag_ws(s, false);
	t
}
fn emit(s: &mut Src, e: &MEl, raw_ws: bool, out: &mut Vec<Tok>) {
	let mut t = tag(s, e, raw_ws);
	let mixed = e.is_mixed();
	if e.kids.is_empty() && s.chance(2, 3) {
		t.close = "/>".into();
		out.push(Tok::Empty(t));
		return;
	}
	let mut end = TagTok { open: "</".into(), name: t.name.clone(), attrs: vec![], ws: String::new(), close: ">".into() };
	end.ws = tag_ws(s, false);
	out.push(Tok::Start(t));
	let pad = |s: &mut Src, out: &mut Vec<Tok>| {
		if !mixed && s.chance(1, 2) {
			let w = gen::ws(s);
			if !w.is_empty() {
				out.push(Tok::Ws(w));
			}
		}
	};
	pad(s, out);
	for k in &e.kids {
		match k {
			MNode::El(c) => emit(s, c, raw_ws, out),
			MNode::Text(x) => {
				let t = if is_ws(x) { x.clone() } else { put_str(s, x, None, raw_ws) };
				out.push(Tok::Text(t));
			}
			MNode::Comment(x) => out.push(Tok::Comment(format!("<!--{x}-->"))),
			MNode::CData(x) => out.push(Tok::CData(format!("<![CDATA[{x}]]>"))),
		}
		pad(s, out);
	}
	out.push(Tok::End(end));
}
fn misc(s: &mut Src, out: &mut Vec<Tok>) {
	let n = s.weighted(&[6, 6, 2, 1]);
	for _ in 0..n {
		if s.chance(1, 3) {
			let c = gen::comment(s, gen::Chars::Xml, true);
			out.push(Tok::Misc(format!("<!--{c}-->")));
		} else {
			out.push(Tok::Misc(gen::ws(s)));
		}
	}
}
/// the model must be cleaned (see `MEl::clean_deep`)
pub fn render(s: &mut Src, d: &MDoc) -> Vec<Tok> {
	render_with(s, d, false)
}
/// `raw_ws`: tabs and line breaks in attribute values may be written as they are, which XML
/// lets a processor read as spaces
pub fn render_with(s: &mut Src, d: &MDoc, raw_ws: bool) -> Vec<Tok> {
	let mut out = Vec::new();
	if s.chance(1, 20) {
		out.push(Tok::Bom);
	}
	if let Some(x) = &d.decl {
		out.push(Tok::Decl(x.clone()));
	}
	misc(s, &mut out);
	for x in &d.dtds {
		out.push(Tok::Dtd(x.clone()));
		misc(s, &mut out);
	}
	emit(s, &d.root, raw_ws, &mut out);
	misc(s, &mut out);
	out
}
