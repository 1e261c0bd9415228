//! The reference model of a document, written from the documentation, and the reference
//! semantics: whitespace rules, namespace resolution, serialization, traversal.
use kiss_xml::dom::{Document, Element, Node};
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum MNode {
	El(MEl),
	Text(String),
	Comment(String),
	CData(String),
}
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Default)]
pub struct MEl {
	pub prefix: Option<String>,
	pub name: String,
	pub attrs: BTreeMap<String, String>,
	pub kids: Vec<MNode>,
}
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct MDoc {
	/// complete text, eg `<?xml version="1.0"?>`
	pub decl: Option<String>,
	/// complete texts, eg `<!DOCTYPE a>`
	pub dtds: Vec<String>,
	pub root: MEl,
}

/// XML white space
pub fn is_ws(s: &str) -> bool {
	s.bytes().all(|b| matches!(b, b' ' | b'\t' | b'\r' | b'\n'))
}

impl MEl {
	pub fn new(name: &str) -> Self {
		MEl { name: name.into(), ..Default::default() }
	}
	pub fn tag(&self) -> String {
		match &self.prefix {
			Some(p) => format!("{p}:{}", self.name),
			None => self.name.clone(),
		}
	}
	pub fn is_mixed(&self) -> bool {
		self.kids.iter().any(|k| matches!(k, MNode::Text(t) if !is_ws(t)))
	}
	/// the documented clean-up of text: adjacent text is merged, then whitespace-only text is
	/// dropped unless the element contains actual text (empty text always is)
	pub fn clean(&mut self) {
		let mut out: Vec<MNode> = Vec::with_capacity(self.kids.len());
		for k in std::mem::take(&mut self.kids) {
			match (out.last_mut(), k) {
				(Some(MNode::Text(a)), MNode::Text(b)) => a.push_str(&b),
				(_, k) => out.push(k),
			}
		}
		self.kids = out;
		let mixed = self.is_mixed();
		self.kids.retain(|k| match k {
			MNode::Text(t) => !t.is_empty() && (mixed || !is_ws(t)),
			_ => true,
		});
	}
	pub fn clean_deep(&mut self) {
		self.clean();
		for k in &mut self.kids {
			if let MNode::El(e) = k {
				e.clean_deep();
			}
		}
	}
	pub fn cleaned(&self) -> MEl {
		let mut e = self.clone();
		e.clean_deep();
		e
	}
	/// all text of the element, in document order
	pub fn text(&self) -> String {
		let mut o = String::new();
		self.push_text(&mut o);
		o
	}
	fn push_text(&self, o: &mut String) {
		for k in &self.kids {
			match k {
				MNode::Text(t) => o.push_str(t),
				MNode::El(e) => e.push_text(o),
				_ => {}
			}
		}
	}
	pub fn count(&self) -> usize {
		1 + self.kids.iter().map(|k| if let MNode::El(e) = k { e.count() } else { 1 }).sum::<usize>()
	}
	pub fn elems(&self) -> impl Iterator<Item = &MEl> {
		self.kids.iter().filter_map(|k| if let MNode::El(e) = k { Some(e) } else { None })
	}
	/// the element at a path of element indices
	pub fn at_mut(&mut self, path: &[usize]) -> &mut MEl {
		let mut e = self;
		for i in path {
			e = e.kids.iter_mut().filter_map(|k| if let MNode::El(e) = k { Some(e) } else { None }).nth(*i).expect("path");
		}
		e
	}
	/// paths of all elements, in document order
	pub fn paths(&self) -> Vec<Vec<usize>> {
		let mut v = vec![vec![]];
		for (i, e) in self.elems().enumerate() {
			for mut p in e.paths() {
				p.insert(0, i);
				v.push(p);
			}
		}
		v
	}
}

/// reads a DOM through its public accessors
pub fn observe(e: &Element) -> MEl {
	MEl {
		prefix: e.namespace_prefix(),
		name: e.name(),
		attrs: e.attributes().iter().map(|(k, v)| (k.clone(), v.clone())).collect(),
		kids: e.children().map(|n| observe_node(n.as_ref())).collect(),
	}
}
pub fn observe_node(n: &dyn Node) -> MNode {
	if let Ok(e) = n.as_element() {
		MNode::El(observe(e))
	} else if let Ok(t) = n.as_text() {
		MNode::Text(t.content.clone())
	} else if let Ok(c) = n.as_comment() {
		MNode::Comment(c.get_content().to_string())
	} else if let Ok(c) = n.as_cdata() {
		MNode::CData(c.get_content().to_string())
	} else {
		panic!("a node that is of no kind: {n:?}")
	}
}
pub fn observe_doc(d: &Document) -> MDoc {
	MDoc {
		decl: d.declaration().as_ref().map(|x| x.to_string()),
		dtds: d.doctype_defs().map(|x| x.to_string()).collect(),
		root: observe(d.root_element()),
	}
}

/// first difference between two trees, described
pub fn diff(a: &MEl, b: &MEl) -> Option<String> {
	diff_at(a, b, &format!("/{}", a.tag()))
}
fn diff_at(a: &MEl, b: &MEl, at: &str) -> Option<String> {
	if a.prefix != b.prefix || a.name != b.name {
		return Some(format!("{at}: element {:?}:{:?} vs {:?}:{:?}", a.prefix, a.name, b.prefix, b.name));
	}
	if a.attrs != b.attrs {
		return Some(format!("{at}: attributes {:?} vs {:?}", a.attrs, b.attrs));
	}
	for i in 0..a.kids.len().max(b.kids.len()) {
		match (a.kids.get(i), b.kids.get(i)) {
			(Some(MNode::El(x)), Some(MNode::El(y))) => {
				if let Some(d) = diff_at(x, y, &format!("{at}/{}[{i}]", x.tag())) {
					return Some(d);
				}
			}
			(x, y) if x == y => {}
			(x, y) => return Some(format!("{at}: child {i} is {x:?} vs {y:?}")),
		}
	}
	None
}
pub fn diff_doc(a: &MDoc, b: &MDoc) -> Option<String> {
	if a.decl != b.decl {
		return Some(format!("declaration {:?} vs {:?}", a.decl, b.decl));
	}
	if a.dtds != b.dtds {
		return Some(format!("DTDs {:?} vs {:?}", a.dtds, b.dtds));
	}
	diff(&a.root, &b.root)
}

// ---------------------------------------------------------------- namespaces

/// what the XML Namespaces rules say about one element
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Ns {
	pub prefix: Option<String>,
	pub name: String,
	pub ns: Option<String>,
	pub default: Option<String>,
	pub declared: BTreeMap<String, String>,
}
/// in document order; `None` if a prefix has no declaration in scope
pub fn resolve(root: &MEl) -> Option<Vec<Ns>> {
	let mut out = Vec::new();
	resolve_in(root, &BTreeMap::new(), &mut out).then_some(out)
}
fn resolve_in(e: &MEl, outer: &BTreeMap<String, String>, out: &mut Vec<Ns>) -> bool {
	let mut scope = outer.clone();
	let mut declared = BTreeMap::new();
	for (k, v) in &e.attrs {
		if k == "xmlns" {
			scope.insert(String::new(), v.clone());
		} else if let Some(p) = k.strip_prefix("xmlns:") {
			scope.insert(p.into(), v.clone());
			declared.insert(p.to_string(), v.clone());
		}
	}
	let default = scope.get("").filter(|v| !v.is_empty()).cloned();
	let ns = match &e.prefix {
		None => default.clone(),
		Some(p) => match scope.get(p) {
			Some(v) => Some(v.clone()),
			None => return false,
		},
	};
	out.push(Ns { prefix: e.prefix.clone(), name: e.name.clone(), ns, default, declared });
	e.elems().all(|k| resolve_in(k, &scope, out))
}
pub fn observe_ns(e: &Element) -> Vec<Ns> {
	let mut out = vec![Ns {
		prefix: e.namespace_prefix(),
		name: e.name(),
		ns: e.namespace(),
		default: e.default_namespace(),
		declared: e.namespace_prefixes().unwrap_or_default().into_iter().collect(),
	}];
	for k in e.child_elements() {
		out.extend(observe_ns(k));
	}
	out
}

// ---------------------------------------------------------------- reference serializer

pub fn esc_text(s: &str) -> String {
	let mut o = String::new();
	for c in s.chars() {
		match c {
			'&' => o.push_str("&amp;"),
			'<' => o.push_str("&lt;"),
			'>' => o.push_str("&gt;"),
			c => o.push(c),
		}
	}
	o
}
pub fn esc_full(s: &str) -> String {
	let mut o = String::new();
	for c in s.chars() {
		match c {
			'&' => o.push_str("&amp;"),
			'<' => o.push_str("&lt;"),
			'>' => o.push_str("&gt;"),
			'\'' => o.push_str("&apos;"),
			'"' => o.push_str("&quot;"),
			c => o.push(c),
		}
	}
	o
}
pub fn valid_indent(s: &str) -> bool {
	s == "\t" || s.chars().all(|c| c == ' ')
}
pub fn write_doc(d: &MDoc, indent: &str) -> String {
	let indent = if valid_indent(indent) { indent } else { "  " };
	let mut o = String::new();
	if let Some(x) = &d.decl {
		o.push_str(x);
		o.push('\n');
	}
	for x in &d.dtds {
		o.push_str(x);
		o.push('\n');
	}
	write_el(&d.root, 0, indent, false, &mut o);
	o.push('\n');
	o
}
pub fn write_element(e: &MEl, indent: &str) -> String {
	let indent = if valid_indent(indent) { indent } else { "  " };
	let mut o = String::new();
	write_el(e, 0, indent, false, &mut o);
	o
}
/// the text of an element; the caller has placed its first line
fn write_el(e: &MEl, depth: usize, indent: &str, inline: bool, o: &mut String) {
	let tag = e.tag();
	o.push('<');
	o.push_str(&tag);
	for pass in [true, false] {
		for (k, v) in e.attrs.iter().filter(|(k, _)| k.starts_with("xmlns") == pass) {
			o.push(' ');
			o.push_str(k);
			o.push_str("=\"");
			o.push_str(&esc_full(v));
			o.push('"');
		}
	}
	if e.kids.is_empty() {
		o.push_str("/>");
		return;
	}
	o.push('>');
	let single = e.kids.len() == 1 && !matches!(e.kids[0], MNode::El(_));
	let inline = inline || single || e.kids.iter().any(|k| matches!(k, MNode::Text(_)));
	for k in &e.kids {
		if !inline {
			o.push('\n');
			o.push_str(&indent.repeat(depth + 1));
		}
		match k {
			MNode::El(c) => write_el(c, depth + 1, indent, inline, o),
			MNode::Text(t) => o.push_str(&esc_text(t)),
			MNode::Comment(t) => {
				o.push_str("<!--");
				o.push_str(t);
				o.push_str("-->");
			}
			MNode::CData(t) => {
				o.push_str("<![CDATA[");
				o.push_str(t);
				o.push_str("]]>");
			}
		}
	}
	if !inline {
		o.push('\n');
		o.push_str(&indent.repeat(depth));
	}
	o.push_str("</");
	o.push_str(&tag);
	o.push('>');
}

/// reference decoder of XML references: each reference once, from left to right
pub fn decode_refs(s: &str) -> String {
	let mut o = String::new();
	let mut rest = s;
	while let Some(i) = rest.find('&') {
		o.push_str(&rest[..i]);
		rest = &rest[i..];
		let rep = rest.find(';').and_then(|j| {
			let body = &rest[1..j];
			let c = match body {
				"amp" => Some('&'),
				"lt" => Some('<'),
				"gt" => Some('>'),
				"apos" => Some('\''),
				"quot" => Some('"'),
				_ => body.strip_prefix('#').and_then(|d| {
					let v = match d.strip_prefix('x') {
						Some(h) if !h.is_empty() && h.bytes().all(|b| b.is_ascii_hexdigit()) => u32::from_str_radix(h, 16).ok(),
						None if !d.is_empty() && d.bytes().all(|b| b.is_ascii_digit()) => d.parse::<u32>().ok(),
						// older versions read these as hexadecimal, and one test pins that
						None if !d.is_empty() && d.bytes().all(|b| b.is_ascii_hexdigit()) => u32::from_str_radix(d, 16).ok(),
						_ => None,
					};
					v.and_then(char::from_u32)
				}),
			};
			c.map(|c| (c, j + 1))
		});
		match rep {
			Some((c, n)) => {
				o.push(c);
				rest = &rest[n..];
			}
			None => {
				o.push('&');
				rest = &rest[1..];
			}
		}
	}
	o.push_str(rest);
	o
}

// ---------------------------------------------------------------- names

/// XML 1.0 (5th edition) NameStartChar
pub fn name_start(c: char) -> bool {
	matches!(c, ':' | '_' | 'A'..='Z' | 'a'..='z' | '\u{C0}'..='\u{D6}' | '\u{D8}'..='\u{F6}' | '\u{F8}'..='\u{2FF}'
		| '\u{370}'..='\u{37D}' | '\u{37F}'..='\u{1FFF}' | '\u{200C}'..='\u{200D}' | '\u{2070}'..='\u{218F}'
		| '\u{2C00}'..='\u{2FEF}' | '\u{3001}'..='\u{D7FF}' | '\u{F900}'..='\u{FDCF}' | '\u{FDF0}'..='\u{FFFD}'
		| '\u{10000}'..='\u{EFFFF}')
}
pub fn name_char(c: char) -> bool {
	name_start(c) || matches!(c, '-' | '.' | '0'..='9' | '\u{B7}' | '\u{300}'..='\u{36F}' | '\u{203F}'..='\u{2040}')
}
/// what constructors and setters accept: XML names that do not start with ':'
pub fn valid_name(s: &str) -> bool {
	let mut c = s.chars();
	matches!(c.next(), Some(f) if name_start(f) && f != ':') && c.all(name_char)
}
pub fn valid_ncname(s: &str) -> bool {
	valid_name(s) && !s.contains(':')
}
