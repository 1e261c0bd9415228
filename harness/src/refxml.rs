//! An independent strict parser for the supported subset of XML, used as a differential oracle
//! on mutated documents. It answers only when it is certain.
use crate::gen::xml_char;
use crate::model::*;

#[derive(Debug)]
pub enum Verdict {
	/// well-formed in the supported subset, with this content (text not yet cleaned)
	Good(MDoc),
	/// malformed, in a way that the parser must reject
	Bad(&'static str),
	/// outside of what is claimed (lenient or unsupported syntax before any definite fault)
	/// why
	Unknown(#[allow(dead_code)] &'static str),
}
use Verdict::*;

struct P<'a> {
	t: &'a str,
	i: usize,
	/// lenient syntax was seen
	odd: Option<&'static str>,
}
type E = &'static str;

impl<'a> P<'a> {
	fn rest(&self) -> &'a str {
		&self.t[self.i..]
	}
	fn peek(&self) -> Option<char> {
		self.rest().chars().next()
	}
	fn skip_ws(&mut self) -> bool {
		let a = self.i;
		while matches!(self.peek(), Some(' ' | '\t' | '\r' | '\n')) {
			self.i += 1;
		}
		self.i > a
	}
	fn eat(&mut self, s: &str) -> bool {
		let r = self.rest().starts_with(s);
		if r {
			self.i += s.len();
		}
		r
	}
	fn odd(&mut self, why: &'static str) {
		self.odd.get_or_insert(why);
	}
	fn name(&mut self) -> &'a str {
		let a = self.i;
		while let Some(c) = self.peek() {
			if !name_char(c) {
				break;
			}
			self.i += c.len_utf8();
		}
		&self.t[a..self.i]
	}
	/// content of a comment after "<!--"
	fn comment(&mut self) -> Result<&'a str, E> {
		let Some(j) = self.rest().find("-->") else { return Err("unterminated comment") };
		let c = &self.rest()[..j];
		if c.contains("--") || c.ends_with('-') {
			self.odd("double hyphen in a comment");
		}
		self.i += j + 3;
		Ok(c)
	}
	fn refs(&mut self, s: &str) -> String {
		// every '&' must start a reference that both sides read alike
		let mut r = s;
		while let Some(k) = r.find('&') {
			r = &r[k + 1..];
			let body = match r.find(';') {
				Some(j) => &r[..j],
				None => {
					self.odd("bare ampersand");
					break;
				}
			};
			let ok = matches!(body, "amp" | "lt" | "gt" | "apos" | "quot")
				|| body.strip_prefix("#x").map_or(false, |h| {
					!h.is_empty() && h.bytes().all(|b| b.is_ascii_hexdigit()) && u32::from_str_radix(h, 16).ok().and_then(char::from_u32).map_or(false, xml_char)
				}) || body.strip_prefix('#').map_or(false, |h| {
				!h.is_empty() && h.bytes().all(|b| b.is_ascii_digit()) && h.parse().ok().and_then(char::from_u32).map_or(false, xml_char)
			});
			if !ok {
				self.odd("unknown reference");
			}
		}
		decode_refs(s)
	}
	/// after "<": a start tag; returns the element and whether it was self-closing
	fn start_tag(&mut self) -> Result<(MEl, bool), E> {
		match self.peek() {
			None => return Err("unterminated tag"),
			Some(c) if c == ':' || !name_start(c) => return Err("illegal or empty element name"),
			_ => {}
		}
		let n = self.name();
		match self.peek() {
			None => return Err("unterminated tag"),
			Some(' ' | '\t' | '\r' | '\n' | '/' | '>') => {}
			Some('"' | '\'' | '=' | '<') => return Err("illegal element name"),
			Some(c) if c.is_whitespace() => self.odd("other white space in a tag"),
			Some(_) => return Err("illegal element name"),
		}
		let mut e = MEl::default();
		match n.split_once(':') {
			None => e.name = n.into(),
			Some((p, l)) => {
				if p.is_empty() || l.is_empty() || l.contains(':') || !l.starts_with(name_start) {
					self.odd("name with odd colons");
				}
				e.prefix = Some(p.into());
				e.name = l.into();
			}
		}
		loop {
			let had_ws = self.skip_ws();
			match self.peek() {
				None => return Err("unterminated tag"),
				Some('>') => {
					self.i += 1;
					return Ok((e, false));
				}
				Some('/') => {
					self.i += 1;
					if self.eat(">") {
						return Ok((e, true));
					}
					return Err(if self.peek().is_none() { "unterminated tag" } else { "illegal attribute name" });
				}
				Some('=') => return Err("attribute without a name"),
				Some(c) if c.is_whitespace() => {
					self.odd("other white space in a tag");
					return Err("illegal attribute name");
				}
				Some(c) if c == ':' || !name_start(c) => return Err("illegal attribute name"),
				_ => {}
			}
			if !had_ws {
				return Err("attributes not separated");
			}
			let k = self.name();
			self.skip_ws();
			match self.peek() {
				None => return Err("unterminated tag"),
				Some('=') => {}
				Some(c) if c.is_whitespace() => {
					self.odd("other white space in a tag");
					return Err("attribute without a value");
				}
				Some(c) => return Err(if name_char(c) || matches!(c, '>' | '/') { "attribute without a value" } else { "illegal attribute name" }),
			}
			self.i += 1;
			self.skip_ws();
			let q = match self.peek() {
				None => return Err("unterminated tag"),
				Some(q @ ('"' | '\'')) => q,
				Some(c) if c.is_whitespace() => {
					self.odd("other white space in a tag");
					return Err("attribute without a value");
				}
				Some(_) => return Err("attribute value without quotes"),
			};
			self.i += 1;
			let Some(j) = self.rest().find(q) else { return Err("unterminated attribute value") };
			let v = &self.rest()[..j];
			self.i += j + 1;
			if v.contains('<') {
				self.odd("markup in an attribute value");
			}
			if v.contains(['\n', '\t', '\r']) {
				self.odd("white space that XML would normalize in an attribute value");
			}
			if !v.chars().all(xml_char) {
				self.odd("character not allowed in XML");
			}
			let v = self.refs(v);
			if k.contains(':') && (k.ends_with(':') || k.matches(':').count() > 1) {
				self.odd("name with odd colons");
			}
			if e.attrs.insert(k.into(), v).is_some() {
				return Err("duplicate attribute");
			}
		}
	}
}

pub fn judge(text: &str) -> Verdict {
	let mut p = P { t: text, i: 0, odd: None };
	match parse(&mut p) {
		Ok(d) => match p.odd {
			None => Good(d),
			Some(w) => Unknown(w),
		},
		Err(w) => match p.odd {
			None => Bad(w),
			Some(w) => Unknown(w),
		},
	}
}

fn parse(p: &mut P) -> Result<MDoc, E> {
	let mut d = MDoc::default();
	p.eat("\u{FEFF}");
	let begin = p.i;
	// prolog
	loop {
		p.skip_ws();
		let Some(c) = p.peek() else { return Err("no root element") };
		if c != '<' {
			if c.is_whitespace() {
				p.odd("other white space outside the root");
			}
			return Err("text outside the root");
		}
		let at = p.i;
		if p.eat("<!--") {
			p.comment()?;
		} else if p.rest().starts_with("<?xml") && p.rest()[5..].starts_with([' ', '\t', '\r', '\n']) {
			if at != begin {
				if d.decl.is_none() && begin_ws(p, begin) == at {
					p.odd("white space before the declaration");
				} else {
					return Err("declaration not at the start");
				}
			}
			// the end, outside of quotes
			let mut q = None;
			let b = p.rest().as_bytes();
			let mut end = None;
			for k in 2..b.len() {
				match (q, b[k]) {
					(None, b'"' | b'\'') => q = Some(b[k]),
					(Some(x), y) if x == y => q = None,
					(None, b'?') if b.get(k + 1) == Some(&b'>') => {
						end = Some(k + 2);
						break;
					}
					_ => {}
				}
			}
			let Some(n) = end else {
				p.odd("unterminated declaration");
				return Err("unterminated declaration");
			};
			let t = &p.rest()[..n];
			if t[2..].contains(['<', '&']) || !t.chars().all(xml_char) {
				p.odd("odd declaration");
			}
			d.decl = Some(t.into());
			p.i += n;
		} else if p.rest().starts_with("<?") {
			p.odd("processing instruction");
			return Err("processing instruction");
		} else if p.rest().starts_with("<!") {
			p.odd("document type declaration");
			return Err("document type declaration");
		} else {
			break;
		}
	}
	// elements
	let mut stack: Vec<MEl> = Vec::new();
	loop {
		let rest = p.rest();
		let n = rest.find('<').unwrap_or(rest.len());
		let t = &rest[..n];
		if !t.is_empty() && !stack.is_empty() {
			if t.contains("]]>") {
				p.odd("']]>' in text");
			}
			if t.contains('\r') {
				p.odd("carriage return that XML would normalize");
			}
			if !t.chars().all(xml_char) {
				p.odd("character not allowed in XML");
			}
			let v = p.refs(t);
			if is_ws(&v) && !is_ws(t) {
				p.odd("white space written as a reference");
			}
			stack.last_mut().unwrap().kids.push(MNode::Text(v));
		}
		p.i += n;
		if p.rest().is_empty() {
			return Err("missing closing tag");
		}
		if p.eat("<!--") {
			let c = p.comment()?;
			if !c.chars().all(xml_char) {
				p.odd("character not allowed in XML");
			}
			stack.last_mut().unwrap().kids.push(MNode::Comment(c.into()));
		} else if p.eat("<![CDATA[") {
			let Some(j) = p.rest().find("]]>") else { return Err("unterminated CDATA section") };
			let c = &p.rest()[..j];
			if !c.chars().all(xml_char) {
				p.odd("character not allowed in XML");
			}
			stack.last_mut().unwrap().kids.push(MNode::CData(c.into()));
			p.i += j + 3;
		} else if p.rest().starts_with("<!DOCTYPE") {
			return Err("DOCTYPE inside the root");
		} else if p.rest().starts_with("<!") {
			p.odd("unknown markup");
			return Err("unknown markup");
		} else if p.rest().starts_with("<?") {
			p.odd("processing instruction");
			return Err("processing instruction");
		} else if p.eat("</") {
			let n = p.name();
			if n.is_empty() {
				return Err(if p.rest().is_empty() { "unterminated tag" } else { "illegal closing tag" });
			}
			let odd_space = matches!(p.peek(), Some(c) if c.is_whitespace() && !is_ws(&c.to_string()));
			p.skip_ws();
			if odd_space {
				p.odd("odd closing tag");
			}
			if !p.eat(">") {
				return Err(if p.rest().is_empty() { "unterminated tag" } else { "illegal closing tag" });
			}
			let Some(e) = stack.pop() else { return Err("closing tag without opening tag") };
			if e.tag() != n {
				return Err("mismatched closing tag");
			}
			match stack.last_mut() {
				Some(o) => o.kids.push(MNode::El(e)),
				None => {
					d.root = e;
					break;
				}
			}
		} else {
			p.i += 1;
			let (e, closed) = p.start_tag()?;
			if closed {
				match stack.last_mut() {
					Some(o) => o.kids.push(MNode::El(e)),
					None => {
						d.root = e;
						break;
					}
				}
			} else {
				stack.push(e);
			}
		}
	}
	if resolve(&d.root).is_none() {
		p.odd("undeclared prefix");
	}
	// epilog
	loop {
		p.skip_ws();
		let Some(c) = p.peek() else { return Ok(d) };
		if c != '<' {
			if c.is_whitespace() {
				p.odd("other white space outside the root");
			}
			return Err("text outside the root");
		}
		if p.eat("<!--") {
			p.comment()?;
		} else if p.rest().starts_with("<?") {
			p.odd("processing instruction");
			return Err("processing instruction");
		} else if p.rest().starts_with("<!") {
			p.odd("unknown markup");
			return Err("unknown markup");
		} else {
			return Err("more than one root element");
		}
	}
}
/// index after white space from `from`
fn begin_ws(p: &P, from: usize) -> usize {
	from + p.t[from..].len() - p.t[from..].trim_start_matches([' ', '\t', '\r', '\n']).len()
}
