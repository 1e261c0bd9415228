//! C17: declaration and DTDs are preserved verbatim, in order.
use super::*;
use crate::surface;

pub fn prop() -> Prop {
	Prop {
		id: "C17",
		check,
		sweep: || (0..LARGE).map(|k| vec![1, 3, gen::sweep_choice(k)]).collect(),
		rule: "case = a document text with a generated prolog and epilog, parsed, written and reparsed, or a document whose declaration and DTDs are set, replaced and removed; non-trivial = at least one DTD or a declaration other than the default",
		quick: (5000, 5500),
		thorough: (300000, 330000),
		witnesses: &[],
	}
}
const DTDS: &[&str] = &[
	"<!DOCTYPE a>", "<!DOCTYPE a[]>", "<!DOCTYPE a [<!ELEMENT a ANY><!ELEMENT b (#PCDATA)>]>", "<!DOCTYPE a [ <!-- > ' \" ]> --> ]>", "<!DOCTYPE a SYSTEM 'a>b'>", "<!DOCTYPE a SYSTEM \"it's\">",
	"<!DOCTYPE a [<!ENTITY x '<!-- '><!ENTITY y \" -->\">]>", "<!DOCTYPE a [<!ENTITY x \"<a>\">]\n>", "<!DOCTYPE a [<!--<!ENTITY-->]>", "<!DOCTYPE\na\n>", "<!DOCTYPE a [<!ENTITY % x \"'\"> %x; ]>", "<!DOCTYPE é☼ [<!--é😀'-->]>",
	"<!DOCTYPE a [<!ATTLIST a b (c|d) 'c' e CDATA \"f'g\">]>", "<!DOCTYPE a [<![IGNORE[<!ELEMENT a (b,(c|d)*)>]]>]>", "<!DOCTYPE a [<!----><!-- - -->]>", "<!DOCTYPE a [<!NOTATION n PUBLIC \"p\">]>",
];
fn dtd(s: &mut Src) -> String {
	match s.weighted(&[5, 1]) {
		0 => gen::dtd(s),
		_ => s.pick(DTDS).to_string(),
	}
}
fn small_root(s: &mut Src) -> MEl {
	let mut r = gen::tree(s, gen::TreeOpts { chars: Chars::Xml, strict_comments: true, max_nodes: 6, ..Default::default() });
	no_cr(&mut r);
	r.clean_deep();
	r
}
fn misc(s: &mut Src) -> String {
	let mut o = String::new();
	for _ in 0..s.weighted(&[5, 4, 2, 1]) {
		if s.chance(1, 2) {
			let t = match s.weighted(&[3, 1]) {
				0 => gen::comment(s, Chars::Xml, true),
				_ => s.pick(&["<!DOCTYPE x>", " <?xml version='1.0'?> ", "<a>", "]>", "'", "\"", ">", "[", ""]).to_string(),
			};
			o.push_str(&format!("<!--{t}-->"));
		} else {
			o.push_str(&gen::ws(s));
		}
	}
	o
}
/// a DTD that defines what the document uses: none of it may take effect
fn defining(s: &mut Src, c: &mut Ctx) -> R {
	c.label("definitions");
	c.nontrivial = true;
	let mut root = small_root(s);
	let ent: Vec<String> = (0..1 + s.idx(3)).map(|i| format!("{}{i}", s.pick(&["ent", "e.", "nbsp", "é", "copy-", "amp", "lt"]))).collect();
	let mut d = format!("<!DOCTYPE {}{}[", if s.chance(1, 2) { root.tag() } else { gen::ncname(s) }, gen::ws(s).replace("", " "));
	for e in &ent {
		let v = s.pick(&["x", "", "<b/>", "&#38;", "&#60;b>", "&lt;", "a b", "&ent0;", "é", "]]", "-"]).to_string();
		d.push_str(&match s.idx(4) {
			0 => format!("<!ENTITY {e} '{v}'>"),
			1 => format!("<!ENTITY {e} SYSTEM \"file:///etc/hostname\">"),
			2 => format!("<!ENTITY {e} PUBLIC 'p' \"{v}\">"),
			_ => format!("<!ENTITY {e} \"{v}\">"),
		});
	}
	let paths = root.paths();
	for _ in 0..1 + s.idx(4) {
		let path = s.pick(&paths).clone();
		let e = root.at_mut(&path);
		match s.idx(4) {
			0 => d.push_str(&format!("<!ATTLIST {} {} CDATA {}'{}'>", e.tag(), if s.chance(1, 2) { gen::attr_name(s) } else { s.pick(&["xmlns", "xmlns:p", "xml:space", "id"]).to_string() }, if s.chance(1, 2) { "#FIXED " } else { "" }, s.pick(&["v", "preserve", "urn:dtd", ""]))),
			1 => d.push_str(&format!("<!ELEMENT {} {}>", e.tag(), s.pick(&["EMPTY", "(x,y)", "(#PCDATA)", "ANY"]))),
			_ => {}
		}
		let text = format!("{}&{};{}", s.pick(&["", " ", "a"]), s.pick(&ent), s.pick(&["", " ", "b", ";"]));
		match s.idx(3) {
			0 => {
				e.attrs.insert("ref".into(), text);
			}
			1 => match e.kids.iter_mut().find_map(|k| if let MNode::Text(t) = k { Some(t) } else { None }) {
				Some(t) => t.push_str(&text),
				None => e.kids.push(MNode::Text(text)),
			},
			_ => match e.kids.last_mut() {
				Some(MNode::Text(t)) => t.push_str(&text),
				_ => e.kids.push(MNode::Text(text)),
			},
		}
	}
	d.push_str("]>");
	let m = MDoc { decl: s.chance(1, 2).then(|| gen::decl(s)), dtds: vec![d], root };
	let mut t = surface::join(&surface::render(s, &m));
	// as references, not as escaped text
	for e in &ent {
		if s.chance(3, 4) {
			t = t.replace(&format!("&amp;{e};"), &format!("&{e};"));
		}
	}
	c.input(&t);
	let x = reparse(&t, "a document with definitions in its DTD")?;
	same_doc(&observe_doc(&x), &m, "parsed vs document without definitions")?;
	let ind = gen::indent(s);
	let w = x.to_string_with_indent(ind.as_str());
	let want = write_doc(&m, &ind);
	ensure!(w == want, "written as\n{w}\ninstead of\n{want}");
	let y = reparse(&w, "the written document")?;
	same_doc(&observe_doc(&y), &m, "reread vs document")
}
fn parsed(s: &mut Src, c: &mut Ctx) -> R {
	c.label("parsed");
	let m = MDoc { decl: s.chance(2, 3).then(|| gen::decl(s)), dtds: (0..s.weighted(&[2, 6, 3, 1])).map(|_| dtd(s)).collect(), root: small_root(s) };
	let root = surface::join(&surface::render(s, &MDoc { root: m.root.clone(), ..Default::default() }));
	let root = root.trim_start_matches('\u{FEFF}').to_string();
	let mut t = String::new();
	if s.chance(1, 16) {
		t.push('\u{FEFF}');
	}
	if m.decl.is_some() && s.chance(1, 10) {
		// white space may precede the declaration
		t.push_str(&gen::ws(s));
	}
	t.push_str(m.decl.as_deref().unwrap_or(""));
	t.push_str(&misc(s));
	for d in &m.dtds {
		t.push_str(d);
		t.push_str(&misc(s));
	}
	t.push_str(&root);
	t.push_str(&misc(s));
	c.input(&t);
	c.nontrivial = !m.dtds.is_empty() || m.decl.is_some();
	c.label(format!("{} DTDs", m.dtds.len()));
	let d = reparse(&t, "a document with a prolog")?;
	same_doc(&observe_doc(&d), &m, "parsed vs prolog and root")?;
	let plain = reparse(&root, "the root alone")?;
	ensure!(observe_ns(d.root_element()) == observe_ns(plain.root_element()) && *d.root_element() == *plain.root_element(), "the prolog affects the content:\n{t}\n{root}");
	let ind = gen::indent(s);
	let w = d.to_string_with_indent(ind.as_str());
	let want = write_doc(&m, &ind);
	ensure!(w == want, "written as\n{w}\ninstead of\n{want}");
	let d2 = reparse(&w, "the written document")?;
	same_doc(&observe_doc(&d2), &m, "reread vs prolog and root")?;
	ensure!(d2 == d, "the reread document is not equal:\n{t}");
	Ok(())
}
const LARGE: u64 = 16;
/// a very large prolog
fn large(s: &mut Src, c: &mut Ctx) -> R {
	let Some(k) = gen::sweep_only(s) else { return Err(Fail::Discard) };
	c.label("very large prolog");
	c.nontrivial = true;
	let mut m = MDoc { decl: Some("<?xml version='1.0'?>".into()), dtds: vec!["<!DOCTYPE r>".into()], root: MEl::new("r") };
	let mut between = String::new();
	let big = "é> ".repeat(30_000);
	match k {
		0 => m.dtds = (0..3000).map(|i| format!("<!DOCTYPE r{i}>")).collect(),
		1 => m.dtds = (0..1500).map(|i| format!("<!DOCTYPE r [<!ENTITY e{i} '>'><!-- ' {i} -->]>")).collect(),
		2 => m.dtds = vec![format!("<!DOCTYPE r [{}]>", (0..5000).map(|i| format!("<!ENTITY e{i} \"v>{i}\">\n")).collect::<String>())],
		3 => m.dtds = vec![format!("<!DOCTYPE r [{}]>", (0..5000).map(|i| format!("<!-- it's ]> {i} -->")).collect::<String>())],
		4 => m.dtds = vec![format!("<!DOCTYPE r [<!ENTITY e '{big}'>]>")],
		5 => m.dtds = vec![format!("<!DOCTYPE r [<!--{big}-->]>")],
		6 => m.dtds = vec![format!("<!DOCTYPE r SYSTEM \"{big}\">")],
		7 => m.dtds = vec![format!("<!DOCTYPE {}>", "né".repeat(30_000))],
		8 => m.decl = Some(format!("<?xml version='1.0' encoding='{big}'?>")),
		9 => m.decl = Some(format!("<?xml version='1.0'{}?>", " \n".repeat(40_000))),
		10 => between = " \n\t".repeat(50_000),
		11 => between = (0..20_000).map(|i| format!("<!--{i}-->")).collect(),
		12 => between = format!("<!-- {big} -->"),
		13 => m.dtds = vec![format!("<!DOCTYPE r [{}]{}>", " \n".repeat(40_000), "\n".repeat(70_000))],
		14 => m.dtds = vec![format!("<!DOCTYPE r [<!ELEMENT r {}a{}>]>", "(".repeat(3000), ")".repeat(3000)), "<!DOCTYPE last>".into()],
		_ => m.dtds = vec![format!("<!DOCTYPE r [{}<!ELEMENT z ANY>{}]>", "<![INCLUDE[".repeat(500), "]]>".repeat(500)), "<!DOCTYPE last>".into()],
	}
	let t = format!("{}{between}{}{between}<r></r>{between}", m.decl.as_deref().unwrap_or(""), m.dtds.iter().map(|d| format!("{d}{between}")).collect::<String>());
	c.input(&t);
	let d = reparse(&t, "a document with a large prolog")?;
	same_doc(&observe_doc(&d), &m, "parsed vs prolog and root")?;
	let w = d.to_string();
	ensure!(w == write_doc(&m, "  "), "written as\n{w}");
	let d2 = reparse(&w, "the written document")?;
	same_doc(&observe_doc(&d2), &m, "reread vs prolog and root")?;
	ensure!(d2 == d, "the reread document is not equal:\n{t}");
	Ok(())
}
/// a string that is a declaration or DTD as far as the constructors look at it
fn wrapped(s: &mut Src, begin: &str, end: &str) -> (String, String) {
	let inner = gen::text(s, Chars::Any);
	let t = format!("{begin}{inner}{end}");
	let full = format!("{}{t}{}", gen::ws(s), gen::ws(s));
	(full, t)
}
fn made(s: &mut Src, c: &mut Ctx) -> R {
	c.label("made from strings");
	// any content
	let (full, t) = wrapped(s, "<?", "?>");
	c.input(&full);
	match Declaration::from_str(&full) {
		Ok(d) => ensure!(d.to_string() == t && format!("{d:?}") == t, "the declaration made from {full:?} is {d}"),
		Err(e) => bad!("no declaration is made from {full:?}: {e}"),
	}
	let (full, t) = wrapped(s, "<!DOCTYPE", ">");
	c.input(&full);
	match DTD::from_string(full.as_str()) {
		Ok(d) => ensure!(d.to_string() == t, "the DTD made from {full:?} is {d}"),
		Err(e) => bad!("no DTD is made from {full:?}: {e}"),
	}
	ensure!(Declaration::new() == Declaration::default() && Declaration::new().to_string() == "<?xml version=\"1.0\" encoding=\"UTF-8\"?>", "the default declaration is {}", Declaration::new());
	// operations on a document
	let mut m = MDoc { decl: Some(Declaration::new().to_string()), dtds: vec![], root: small_root(s) };
	let mut d = Document::new(build::element(s, &m.root));
	if s.chance(1, 2) {
		m.decl = s.chance(1, 2).then(|| gen::decl(s));
		m.dtds = (0..s.idx(3)).map(|_| dtd(s)).collect();
		d = build::document(s, &m);
	}
	let odd = s.chance(1, 4);
	for _ in 0..1 + s.size(6, 2) {
		match s.idx(6) {
			0 => {
				d.set_declaration(None);
				m.decl = None;
			}
			1 => {
				let t = if odd { format!("<?{}?>", gen::text(s, Chars::Any)) } else { gen::decl(s) };
				d.set_declaration(Some(Declaration::from_str(&t).expect("declaration")));
				m.decl = Some(t);
			}
			2 => {
				d.set_doctype_defs(None);
				m.dtds.clear();
			}
			3 | 4 => {
				m.dtds = (0..s.idx(4)).map(|_| if odd { format!("<!DOCTYPE{}>", gen::text(s, Chars::Any)) } else { dtd(s) }).collect();
				let v: Vec<DTD> = m.dtds.iter().map(|t| DTD::from_string(t.as_str()).expect("DTD")).collect();
				d.set_doctype_defs(Some(&v));
			}
			_ => {
				let n = d.doctype_defs_mut().count();
				ensure!(n == m.dtds.len(), "doctype_defs_mut has {n} of {} DTDs", m.dtds.len());
				if n > 0 {
					let i = s.idx(n);
					let t = dtd(s);
					*d.doctype_defs_mut().nth(i).expect("DTD") = DTD::from_string(t.as_str()).expect("DTD");
					m.dtds[i] = t;
				}
			}
		}
		let ind = gen::indent(s);
		let w = d.to_string_with_indent(ind.as_str());
		c.input(&w);
		c.nontrivial |= !m.dtds.is_empty() || m.decl.is_some();
		let mut o = observe_doc(&d);
		ensure!(o.decl == m.decl && o.dtds == m.dtds, "declaration and DTDs are {:?} {:?} instead of {:?} {:?}", o.decl, o.dtds, m.decl, m.dtds);
		o.root = m.root.clone();
		let want = write_doc(&o, &ind);
		ensure!(w == want, "written as\n{w}\ninstead of\n{want}");
		if !odd {
			let r = reparse(&w, "the written document")?;
			same_doc(&observe_doc(&r), &m, "reread vs set")?;
		}
	}
	Ok(())
}
fn check(s: &mut Src, c: &mut Ctx) -> R {
	match s.weighted(&[6, 2, 3, 0]) {
		0 => parsed(s, c),
		1 => made(s, c),
		3 => large(s, c),
		_ => defining(s, c),
	}
}
