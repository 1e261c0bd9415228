//! C01: every input yields a document or an error.
use super::*;
use crate::surface;

pub fn prop() -> Prop {
	Prop {
		id: "C01",
		check,
		sweep,
		rule: "case = one input text or byte sequence (token soup, scrambled document, corrupted bytes, large or deep document, text for a helper function); non-trivial = it contains markup and at least 4 characters",
		quick: (3000, 3500),
		thorough: (180000, 210000),
		witnesses: &[],
	}
}

const FIXED: &[&str] = &[
	"", "<", ">", "<>", "</>", "<a", "<a/", "<a b", "<a b=", "<a b='", "<!", "<!-", "<!--", "<!-->", "<!--->", "<!---->", "<?", "<?>", "<??>", "<?xml?>",
	"<?xml", "<![CDATA[", "<![CDATA[]]", "<![CDATA[]]>", "<!DOCTYPE", "<!DOCTYPE>", "<!DOCTYPE a [", "<!DOCTYPE a [<!--", "</a>", "<a></a></a>",
	"<a>&amp;☼</a>", "<a>&☼;</a>", "<a b='&#x263C;☼'/>", "<a>&#xD800;</a>", "<a>&#x110000;</a>", "<a>&#99999999999999999999;</a>", "<a>&#;</a>",
	"<!-- ☼☼☼☼☼☼☼☼☼☼☼☼☼☼☼☼☼☼☼☼ --><a/>", "<a><!ELEMENT ☼☼☼☼☼☼☼☼☼☼☼☼☼☼☼☼☼☼☼☼☼></a>", "<something =</something>", "<a ☼='1'/>", "<a =/>", "<a ='1'/>", "<a b==/>", "<a ' '/>",
	"<☼/>", "<a>\u{0}</a>", "\u{FEFF}", "\u{FEFF}<a/>", "<a:/>", "<:a/>", "<a::b/>", "<xmlns:a/>", "<a xmlns:=''/>", "<a xmlns:p=''><p:b/></a>",
	"<a>\u{10FFFF}&\u{10FFFF};\u{10FFFF}</a>", "<a b=\"☼", "<a>☼", "☼<a/>", "<a/>☼", "<a/><!-- ☼☼☼☼☼☼☼☼☼☼☼☼☼☼☼☼☼☼☼☼ -->",
];
/// kinds of large inputs: (kind, size)
const LARGE: &[(u64, u64)] = &[
	(0, 20000), (0, 257), (0, 1025), (1, 4000), (2, 2500), (3, 200000), (4, 3000), (5, 3000), (6, 4000), (7, 3000), (8, 100000), (9, 3000), (10, 3000), (0, 5000), (11, 4096), (12, 20000), (13, 70000), (14, 70000),
];
fn sweep() -> Vec<Vec<u64>> {
	let mut v: Vec<Vec<u64>> = LARGE.iter().map(|(k, n)| vec![1, 7, *k, *n]).collect();
	v.extend((0..FIXED.len() as u64).map(|i| vec![1, 6, i]));
	// a few wide characters at every offset, wherever a message may quote a part
	for place in 0..PLACES {
		for lead in 0..4 {
			for wide in 0..3 {
				v.push(vec![1, 8, place, lead, wide]);
			}
		}
	}
	v
}

const PLACES: u64 = 14;
fn quoted(place: u64, t: &str) -> String {
	match place {
		0 => format!("<!--{t}--><a/>"),
		1 => format!("<a/><!--{t}-->"),
		2 => format!("<a><!{t}></a>"),
		3 => format!("<!{t}><a/>"),
		4 => format!("<?xml version='1.0'?><?xml-{t}?><a/>"),
		5 => format!("<a><b></b{t}></a>"),
		6 => format!("<a><b{t}></b></a>"),
		7 => format!("{t}<a/>"),
		8 => format!("<a/>{t}"),
		9 => format!("<a b{t}/>"),
		10 => format!("<a b={t}/>"),
		11 => format!("<a>&{t};&#{t};</a>"),
		12 => format!("<a><![CDATA[{t}</a>"),
		_ => format!("<!DOCTYPE{t}[<!--{t}-->'{t}'<{t}]>{t}"),
	}
}

fn large(kind: u64, n: usize) -> String {
	let n = match kind {
		3 | 8 => n.min(200000),
		13 | 14 => n.min(70000),
		0 | 12 => n.min(20000),
		_ => n.min(4096),
	};
	match kind {
		0 => format!("{}{}", "<a>".repeat(n), "</a>".repeat(n)),
		1 => format!("<a>{}</a>", "<b x='1'/>".repeat(n)),
		2 => format!("<a {}/>", (0..n).map(|i| format!("k{i}='v' ")).collect::<String>()),
		3 => format!("<a>{}</a>", "x".repeat(n)),
		4 => format!("<a>{}</a>", "&".repeat(n)),
		5 => format!("<a>{}</a>", "&amp;".repeat(n)),
		6 => "<a>".repeat(n),
		7 => format!("<a>{}</a>", "☼ <b/> é".repeat(n)),
		8 => format!("<!--{}--><a/>", "☼".repeat(n)),
		9 => format!("<!DOCTYPE a [{}]><a/>", "<!ENTITY x 'y'>".repeat(n)),
		10 => format!("<!DOCTYPE a [{}", "<".repeat(n)),
		11 => format!("<a b='{}'/>", "é\"&lt;".repeat(n)),
		12 => format!("<a>{}<b/>", " \n".repeat(n)),
		13 => format!("<a>{}</a>", "<!--c-->".repeat(n)),
		_ => format!("<a>x{}</a>", "<![CDATA[d]]>y".repeat(n)),
	}
}

fn total(text: &str) -> R {
	match parse(text) {
		Ok(d) => {
			// the document must be usable as such, and droppable
			let _ = d.root_element().name();
			drop(d);
		}
		Err(e) => {
			let _ = e.to_string();
		}
	}
	Ok(())
}

fn check(s: &mut Src, c: &mut Ctx) -> R {
	match s.weighted(&[10, 20, 4, 8, 1, 10, 0, 0, 0]) {
		0 => {
			c.label("token soup");
			let n = s.size(40, 8);
			let mut t = String::new();
			for _ in 0..n {
				match s.weighted(&[5, 3, 2]) {
					0 => t.push_str(s.pick(&[
						"<a>", "</a>", "<b/>", "<b x='1'>", "<a", ">", "/>", "<", "<!--", "-->", "<![CDATA[", "]]>", "<!DOCTYPE a [", "]>", "<?xml version='1.0'?>", "<?pi", "?>", "=", "\"", "'",
						" ", "\n", "&amp;", "&", ";", "text", "☼", "<p:a xmlns:p='u'>", "</p:a>", "<!", "<!-", "-", "</", "\u{FEFF}", "<:>",
					])),
					1 => t.push_str(&gen::piece(s, Chars::Any)),
					_ => t.push(s.char_any()),
				}
			}
			c.input(&t);
			c.nontrivial = t.len() >= 4 && t.contains('<');
			total(&t)
		}
		1 => {
			c.label("scrambled document");
			let mut d = gen::doc(s, gen::TreeOpts { max_nodes: 40, ..Default::default() });
			d.root.clean_deep();
			let t = surface::join(&surface::render(s, &d));
			let t = scramble(s, &t, Chars::Any);
			c.input(&t);
			c.nontrivial = t.len() >= 4 && t.contains('<');
			total(&t)
		}
		2 => {
			c.label("arbitrary text");
			let t = gen::text(s, Chars::Any);
			c.input(&t);
			c.nontrivial = t.len() >= 4 && t.contains('<');
			total(&t)
		}
		3 => {
			c.label("bytes through a reader");
			let mut d = gen::doc(s, gen::TreeOpts { max_nodes: 20, ..Default::default() });
			d.root.clean_deep();
			let mut b = surface::join(&surface::render(s, &d)).into_bytes();
			for _ in 0..s.size(6, 1) {
				let p = s.idx(b.len() + 1);
				match s.idx(3) {
					0 => b.insert(p, s.below(256) as u8),
					1 if p < b.len() => b[p] = s.below(256) as u8,
					_ => b.truncate(p),
				}
			}
			c.input(&String::from_utf8_lossy(&b));
			c.nontrivial = b.len() >= 4;
			let r = kiss_xml::parse_stream(&b[..]);
			if std::str::from_utf8(&b).is_err() {
				ensure!(r.is_err(), "bytes that are not UTF-8 gave a document");
			}
			Ok(())
		}
		4 => {
			c.label("large document");
			let kind = s.below(15);
			let n = s.size(1200, 100);
			c.input(&format!("large({kind},{n})"));
			c.nontrivial = n > 1;
			total(&large(kind, n))
		}
		5 => {
			c.label("helper functions");
			let t = gen::text(s, Chars::Any);
			c.input(&t);
			c.nontrivial = t.len() >= 4;
			let _ = kiss_xml::unescape(t.as_str());
			let _ = kiss_xml::escape(t.as_str());
			let _ = kiss_xml::text_escape(t.as_str());
			let _ = kiss_xml::attribute_escape(t.as_str());
			for t in [t.clone(), format!("<?{t}"), format!("{t}?>"), format!("<?{t}?>")] {
				let _ = Declaration::from_str(&t).map(|d| d.to_string());
			}
			for t in [t.clone(), format!("<!DOCTYPE{t}"), format!("{t}>"), format!("<!DOCTYPE{t}>")] {
				let _ = DTD::from_string(t.as_str()).map(|d| d.to_string());
			}
			let _ = Element::new_from_name(&t).map(|e| e.to_string());
			let mut e = Element::new_with_children("a", vec![Element::new_with_text("b", t.as_str()).expect("text").boxed(), Comment::new("c").expect("comment").boxed()]).expect("element");
			let _ = e.set_attr(t.as_str(), t.as_str());
			let _ = e.set_attr("k", t.as_str());
			let _ = e.to_string_with_indent(&t);
			let _ = e.to_string();
			let _ = Document::new(e).to_string_with_indent(t.as_str());
			if let Ok(mut x) = Comment::new(t.as_str()) {
				let _ = x.set_content(t.as_str());
				let _ = x.to_string();
			}
			if let Ok(mut x) = CData::new(t.as_str()) {
				let _ = x.set_text(t.as_str());
				let _ = x.to_string();
			}
			Ok(())
		}
		6 => {
			let t = FIXED[s.idx(FIXED.len())];
			c.label("fixed input");
			c.input(t);
			c.nontrivial = t.len() >= 4;
			total(t)
		}
		8 => {
			let place = s.below(PLACES);
			let lead = s.idx(4);
			let wide = *s.pick(&["é", "☼", "\u{1D11E}"]);
			c.label("wide characters where messages quote");
			c.nontrivial = true;
			for n in 0..24 {
				let t = quoted(place, &format!("{}{}", &"xyz"[..lead], wide.repeat(n)));
				c.input(&t);
				total(&t)?;
			}
			Ok(())
		}
		_ => {
			let kind = s.below(15);
			let n = s.below(1 << 20) as usize;
			c.label("fixed large input");
			c.input(&format!("large({kind},{n})"));
			c.nontrivial = true;
			let t = large(kind, n);
			// on a small stack: no recursion over the depth of the input
			std::thread::scope(|sc| std::thread::Builder::new().stack_size(1 << 20).spawn_scoped(sc, || total(&t)).expect("thread").join()).unwrap_or_else(|e| std::panic::resume_unwind(e))
		}
	}
}
