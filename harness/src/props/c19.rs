//! C19: failures identify their cause.
use super::*;
use crate::surface;
use kiss_xml::errors as er;
use kiss_xml::errors::KissXmlError as KE;
use std::collections::HashMap;

pub fn prop() -> Prop {
	Prop {
		id: "C19",
		check,
		sweep: || gen::huge_sweeps(&[2]),
		rule: "case = one failing call (constructor, setter, index, query, cast, parse, read) with a generated cause, or an error value made from generated parts; non-trivial = an error was returned and its kind and fields were compared",
		quick: (16000, 16000),
		thorough: (960000, 960000),
		witnesses: &[],
	}
}

fn kind(e: &KE) -> &'static str {
	match e {
		KE::ParsingError(_) => "ParsingError",
		KE::TypeCastError(_) => "TypeCastError",
		KE::DoesNotExistError(_) => "DoesNotExistError",
		KE::IndexOutOfBounds(_) => "IndexOutOfBounds",
		KE::InvalidAttributeName(_) => "InvalidAttributeName",
		KE::InvalidElementName(_) => "InvalidElementName",
		KE::InvalidContent(_) => "InvalidContent",
		KE::NotSupportedError(_) => "NotSupportedError",
		KE::IOError(_) => "IOError",
	}
}
fn msg(e: &KE) -> Option<&str> {
	match e {
		KE::ParsingError(x) => Some(&x.msg),
		KE::TypeCastError(x) => Some(&x.msg),
		KE::DoesNotExistError(x) => Some(&x.msg),
		KE::InvalidAttributeName(x) => Some(&x.msg),
		KE::InvalidElementName(x) => Some(&x.msg),
		KE::InvalidContent(x) => Some(&x.msg),
		KE::NotSupportedError(x) => Some(&x.msg),
		_ => None,
	}
}
/// what is shown for an error
fn shown(e: &KE) -> R {
	let t = e.to_string();
	match (e, msg(e)) {
		(_, Some(m)) => ensure!(t == format!("{}: {m}", kind(e)), "an error of kind {} with message {m:?} is shown as {t:?}", kind(e)),
		(KE::IndexOutOfBounds(x), _) => {
			let nums = |t: &str| -> Vec<String> { t.split(|c: char| !(c.is_ascii_digit() || c == '-')).filter(|s| s.chars().any(|c| c.is_ascii_digit())).map(|s| s.to_string()).collect() };
			let mut want = vec![x.index.to_string()];
			if let Some((a, b)) = x.bounds {
				want.push(a.to_string());
				want.push(b.to_string());
			}
			ensure!(nums(&t) == want, "the index error {x:?} is shown as {t:?}");
		}
		(KE::IOError(x), _) => ensure!(t == x.to_string(), "the I/O error {x} is shown as {t:?}"),
		_ => unreachable!(),
	}
	let b: Box<dyn std::error::Error + '_> = Box::new(ByRef(e));
	ensure!(b.to_string() == t, "error trait object shows {b}");
	let _ = format!("{e:?}");
	Ok(())
}
#[derive(Debug)]
struct ByRef<'a>(&'a KE);
impl std::fmt::Display for ByRef<'_> {
	fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
		std::fmt::Display::fmt(self.0, f)
	}
}
impl std::error::Error for ByRef<'_> {}

fn is_kind(e: KE, want: &str, what: &str) -> Result<KE, Fail> {
	if kind(&e) != want {
		bad!("{what} gives {} instead of {want}: {e}", kind(&e));
	}
	shown(&e)?;
	Ok(e)
}
/// the error of a call that has to fail, converted
fn err<T, E: Into<KE>>(r: Result<T, E>, want: &str, what: &str) -> Result<KE, Fail> {
	match r {
		Ok(_) => bad!("{what} succeeds"),
		Err(e) => is_kind(e.into(), want, what),
	}
}
fn names(e: &KE, n: &str, what: &str) -> R {
	let t = e.to_string();
	ensure!(t.contains(n), "the error of {what} does not contain {n:?}: {t:?}");
	Ok(())
}
fn bad_name(s: &mut Src) -> Option<String> {
	let n = match s.weighted(&[4, 3, 3]) {
		0 => {
			let mut v: Vec<char> = gen::ncname(s).chars().collect();
			let at = s.idx(v.len() + 1);
			v.insert(at, s.char_any());
			v.into_iter().collect::<String>()
		}
		1 => {
			let mut v: Vec<char> = gen::ncname(s).chars().collect();
			let at = s.idx(v.len() + 1);
			v.insert(at, *s.pick(&[' ', '\n', '<', '>', '"', '\'', '=', '&', '/', '{', '}', '%', '\\', '\u{D7}', '\u{A0}', '\u{2028}', '\0']));
			v.into_iter().collect::<String>()
		}
		_ => match s.idx(3) {
			0 => gen::text(s, Chars::Any),
			1 => s.pick(&["", ":", ":a", "-", "1", ".", "a b", "{}", "{0}", "ParsingError: ", "\n"]).to_string(),
			_ => format!(":{}", gen::ncname(s)),
		},
	};
	(!valid_name(&n)).then_some(n)
}
fn made_names(s: &mut Src, c: &mut Ctx) -> R {
	let Some(n) = bad_name(s) else { return Err(Fail::Discard) };
	c.input(&n);
	c.nontrivial = true;
	let good = gen::ncname(s);
	let mut map: HashMap<String, String> = (0..s.size(6, 2)).map(|i| (format!("{}{i}", gen::attr_name(s)), gen::text(s, Chars::Any))).collect();
	let none: Option<HashMap<String, String>> = None;
	let kids = || vec![Text::new("t").boxed()];
	match s.idx(3) {
		0 => {
			c.label("bad element name");
			let i = s.idx(6);
			let r = match i {
				0 => Element::new(n.as_str(), None, Some(map), None, None, None),
				1 => Element::new_from_name(&n),
				2 => Element::new_with_text(&n, "t"),
				3 => Element::new_with_attributes(&n, map),
				4 => Element::new_with_attributes_and_text(&n, map, "t"),
				_ => Element::new_with_children(&n, kids()),
			};
			let what = format!("constructor {i} with name {n:?}");
			names(&err(r, "InvalidElementName", &what)?, &n, &what)
		}
		1 => {
			c.label("bad prefix");
			let ns = s.chance(1, 2).then(|| "urn:u".to_string());
			let a = if s.chance(1, 2) { Some(map) } else { none };
			let k = s.chance(1, 2).then(kids);
			let what = format!("Element::new with prefix {n:?}");
			names(&err(Element::new(good.as_str(), None, a, ns, Some(n.clone()), k), "InvalidElementName", &what)?, &n, &what)
		}
		_ => {
			c.label("bad attribute name");
			if s.chance(1, 3) {
				let mut e = Element::new_with_attributes(&good, map).map_err(|e| Fail::Bad(format!("valid attributes are rejected: {e}")))?;
				let r = e.set_attr(n.as_str(), "v");
				let what = format!("set_attr({n:?})");
				return names(&err(r, "InvalidAttributeName", &what)?, &n, &what);
			}
			map.insert(n.clone(), "v".into());
			let i = s.idx(4);
			let r = match i {
				0 => Element::new(good.as_str(), None, Some(map), None, Some("p".into()), Some(kids())),
				1 => Element::new_with_attributes(&good, map),
				2 => Element::new_with_attributes_and_text(&good, map, "t"),
				_ => Element::new_with_attributes_and_children(&good, map, kids()),
			};
			let what = format!("constructor {i} with attribute {n:?}");
			names(&err(r, "InvalidAttributeName", &what)?, &n, &what)
		}
	}
}
fn content(s: &mut Src, c: &mut Ctx) -> R {
	c.label("impossible content");
	c.nontrivial = true;
	let (a, b) = (gen::text(s, Chars::Any), gen::text(s, Chars::Any));
	let comment = format!("{a}-->{b}");
	let cdata = format!("{a}]]>{b}");
	c.input(&comment);
	match s.idx(4) {
		0 => err(Comment::new(comment.as_str()), "InvalidContent", "Comment::new")?,
		1 => err(Comment::new("x").expect("valid").set_content(comment), "InvalidContent", "Comment::set_content")?,
		2 => err(CData::new(cdata.as_str()), "InvalidContent", "CData::new")?,
		_ => err(CData::new("x").expect("valid").set_text(cdata), "InvalidContent", "CData::set_text")?,
	};
	let t = gen::text(s, Chars::Any);
	let trimmed = t.trim();
	if !(trimmed.starts_with("<?") && trimmed.ends_with("?>")) {
		err(Declaration::from_str(&t), "ParsingError", "Declaration::from_str")?;
	}
	if !(trimmed.starts_with("<!DOCTYPE") && trimmed.ends_with('>')) {
		err(DTD::from_string(t.as_str()), "ParsingError", "DTD::from_string")?;
	}
	Ok(())
}
fn indices(s: &mut Src, c: &mut Ctx) -> R {
	let m = gen::tree(s, gen::TreeOpts { max_nodes: 40, ..Default::default() });
	let mut root = build::element(s, &m);
	let paths = observe(&root).paths();
	let path = s.pick(&paths).clone();
	let e = super::c03::walk(&mut root, &path);
	c.input(&e.to_string());
	c.nontrivial = true;
	let (n, els) = (e.children().count(), e.child_elements().count());
	let over = |s: &mut Src, n: usize| match s.weighted(&[4, 2, 2]) {
		0 => n,
		1 => n + s.idx(5),
		_ => *s.pick(&[isize::MAX as usize, n + 255, n + 256, 1 << 32, usize::MAX >> 2]),
	};
	let (what, r, i, len) = match s.idx(4) {
		0 => {
			let i = over(s, n) + 1;
			let i = i.min(isize::MAX as usize);
			(format!("insert({i})"), e.insert(i, Text::new("t")).map(|_| ()), i, n)
		}
		1 => {
			let i = over(s, n);
			(format!("remove({i})"), e.remove(i).map(|_| ()), i, n)
		}
		2 => {
			let i = over(s, els);
			(format!("remove_element({i})"), e.remove_element(i).map(|_| ()), i, els)
		}
		_ => {
			let name = loop {
				let n = gen::ncname(s);
				if !e.child_elements().any(|k| k.name() == n) {
					break n;
				}
				if s.out.len() > 4000 {
					return Err(Fail::Discard);
				}
			};
			c.label("missing element");
			if s.chance(1, 2) {
				err(e.first_element_by_name(name.as_str()).map(|_| ()), "DoesNotExistError", &format!("first_element_by_name({name:?})"))?;
			} else {
				err(e.first_element_by_name_mut(name.as_str()).map(|_| ()), "DoesNotExistError", &format!("first_element_by_name_mut({name:?})"))?;
			}
			return Ok(());
		}
	};
	c.label("index");
	let what = format!("{what} with {n} children, {els} of them elements");
	match err(r, "IndexOutOfBounds", &what)? {
		KE::IndexOutOfBounds(x) => {
			ensure!(x.index == i as isize, "{what} reports index {}", x.index);
			ensure!(x.bounds == Some((0, len as isize)), "{what} reports bounds {:?}", x.bounds);
			Ok(())
		}
		_ => unreachable!(),
	}
}
fn casts(s: &mut Src, c: &mut Ctx) -> R {
	c.label("casts");
	c.nontrivial = true;
	let m = gen::tree(s, gen::TreeOpts { max_nodes: 12, ..Default::default() });
	let root = build::element(s, &m);
	let mut nodes: Vec<Box<dyn Node>> = root.children_recursive().map(clone_node).collect();
	nodes.push(root.boxed());
	for n in &mut nodes {
		c.input(&n.to_string());
		let (e, t, k, d) = (n.is_element(), n.is_text(), n.is_comment(), n.is_cdata());
		macro_rules! wrong {
			($($is:expr, $f:ident, $g:ident);*) => {$(
				if !$is {
					err(n.$f().map(|_| ()), "TypeCastError", stringify!($f))?;
					err(n.$g().map(|_| ()), "TypeCastError", stringify!($g))?;
				}
			)*};
		}
		wrong!(e, as_element, as_element_mut; t, as_text, as_text_mut; k, as_comment, as_comment_mut; d, as_cdata, as_cdata_mut);
	}
	Ok(())
}
fn parsing(s: &mut Src, c: &mut Ctx) -> R {
	let d = super::c02::wf_doc(s, 20);
	let mut t = surface::render(s, &d);
	let Some((text, why)) = super::c05::plant(s, &mut t) else { return Err(Fail::Discard) };
	c.input(&text);
	c.label(format!("planted: {why}"));
	let e = match s.idx(3) {
		0 => parse(&text),
		1 => kiss_xml::parse_stream(text.as_bytes()),
		_ => {
			let p = c.scratch.join("in.xml");
			std::fs::write(&p, &text).map_err(|_| Fail::Discard)?;
			kiss_xml::parse_filepath(&p)
		}
	};
	let Err(e) = e else { return Err(Fail::Discard) };
	c.nontrivial = true;
	let k = kind(&e);
	c.label(format!("{why}: {k}"));
	shown(&e)?;
	if why == "DOCTYPE inside the root" {
		ensure!(k == "NotSupportedError", "a DOCTYPE inside the root gives {e}\n{text}");
	} else if why == "DOCTYPE after the start of the root" {
		ensure!(matches!(k, "ParsingError" | "NotSupportedError"), "malformed input ({why}) gives {e}\n{text}");
	} else if why.contains("name") || why.contains("tag") {
		ensure!(matches!(k, "ParsingError" | "InvalidElementName" | "InvalidAttributeName"), "malformed input ({why}) gives {e}\n{text}");
	} else {
		ensure!(k == "ParsingError", "malformed input ({why}) gives {k}: {e}\n{text}");
	}
	Ok(())
}
struct Failing(Vec<u8>, usize, Option<std::io::Error>);
impl std::io::Read for Failing {
	fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
		if self.1 < self.0.len() {
			let n = b.len().min(self.0.len() - self.1);
			b[..n].copy_from_slice(&self.0[self.1..self.1 + n]);
			self.1 += n;
			return Ok(n);
		}
		match self.2.take() {
			Some(e) => Err(e),
			None => Ok(0),
		}
	}
}
fn reading(s: &mut Src, c: &mut Ctx) -> R {
	use std::io::{Error, ErrorKind};
	c.nontrivial = true;
	let d = super::c02::wf_doc(s, 20);
	let text = surface::join(&surface::render(s, &d));
	let e = match s.idx(3) {
		0 => {
			c.label("invalid UTF-8");
			let mut b = text.into_bytes();
			let at = s.idx(b.len() + 1);
			let x: &[u8] = s.pick(&[&b"\xFF"[..], b"\xC0\x80", b"\xED\xA0\x80", b"\xF5\x80\x80\x80", b"\xFE\xFF"]);
			b.splice(at..at, x.iter().copied());
			if std::str::from_utf8(&b).is_ok() {
				return Err(Fail::Discard);
			}
			c.input(&String::from_utf8_lossy(&b));
			if s.chance(1, 2) {
				err(kiss_xml::parse_stream(&b[..]), "IOError", "invalid UTF-8 from a reader")?
			} else {
				let p = c.scratch.join("in.xml");
				std::fs::write(&p, &b).map_err(|_| Fail::Discard)?;
				err(kiss_xml::parse_filepath(&p), "IOError", "invalid UTF-8 from a file")?
			}
		}
		1 => {
			c.label("missing file");
			let p = c.scratch.join(format!("missing-{}", gen::ncname(s).chars().take(20).collect::<String>()));
			let r = if s.chance(1, 4) { kiss_xml::parse_filepath(&c.scratch) } else { kiss_xml::parse_filepath(&p) };
			err(r, "IOError", "parse_filepath of a missing file or a directory")?
		}
		_ => {
			c.label("read error");
			let k = *s.pick(&[ErrorKind::Other, ErrorKind::TimedOut, ErrorKind::UnexpectedEof, ErrorKind::ConnectionReset, ErrorKind::InvalidInput, ErrorKind::NotFound, ErrorKind::WouldBlock, ErrorKind::BrokenPipe]);
			let m = gen::text(s, Chars::Any);
			c.input(&m);
			let cut = if s.chance(1, 3) { text.len() } else { s.idx(text.len() + 1) };
			let r = Failing(text.into_bytes()[..cut].to_vec(), 0, Some(Error::new(k, m.clone())));
			let e = err(kiss_xml::parse_stream(r), "IOError", "a read error")?;
			let KE::IOError(x) = &e else { unreachable!() };
			ensure!(x.kind() == k, "a read error of kind {k:?} is reported as {:?}", x.kind());
			ensure!(x.to_string().contains(&m), "the message {m:?} of a read error is reported as {x}");
			e
		}
	};
	let _ = e;
	Ok(())
}
fn values(s: &mut Src, c: &mut Ctx) -> R {
	c.label("error values");
	c.nontrivial = true;
	let m = match s.weighted(&[3, 1]) {
		0 => gen::text(s, Chars::Any),
		_ => format!("{}{}", s.pick(&["ParsingError: ", "TypeCastError: ", "IOError: ", "Parsing", "{}"]), gen::text(s, Chars::Any)),
	};
	c.input(&m);
	macro_rules! each {
		($($t:ident),*) => {$(
			let x = er::$t::new(m.as_str());
			// nested parsing errors lose the repeated prefix
			let want = if stringify!($t) == "ParsingError" { m.trim_start_matches("ParsingError: ") } else { m.as_str() };
			ensure!(x.msg == want, "{}::new({m:?}) has message {:?}", stringify!($t), x.msg);
			ensure!(x.clone().msg == x.msg, "the clone of {x:?} differs");
			ensure!(x.to_string() == format!("{}: {want}", stringify!($t)), "{}::new({m:?}) is shown as {x}", stringify!($t));
			let k: KE = x.into();
			let k = is_kind(k, stringify!($t), "conversion")?;
			ensure!(msg(&k) == Some(want), "conversion of {} changes the message {want:?} to {:?}", stringify!($t), msg(&k));
		)*};
	}
	each!(ParsingError, TypeCastError, DoesNotExistError, InvalidAttributeName, InvalidElementName, InvalidContent, NotSupportedError);
	let num = |s: &mut Src| match s.weighted(&[3, 2, 1]) {
		0 => s.idx(10) as isize,
		1 => s.size(100000, 50) as isize,
		_ => *s.pick(&[-1, isize::MIN, isize::MAX, -100]),
	};
	let i = num(s);
	let b = if s.chance(3, 4) { Some((num(s), num(s))) } else { None };
	let x = er::IndexOutOfBounds::new(i, b);
	ensure!(x.index == i && x.bounds == b, "IndexOutOfBounds::new({i}, {b:?}) is {x:?}");
	let t = x.to_string();
	let k = is_kind(x.into(), "IndexOutOfBounds", "conversion")?;
	ensure!(k.to_string() == t, "conversion shows {k} instead of {t}");
	let KE::IndexOutOfBounds(x) = k else { unreachable!() };
	ensure!(x.index == i && x.bounds == b, "conversion of ({i}, {b:?}) gives {x:?}");
	let k = *s.pick(&[std::io::ErrorKind::Other, std::io::ErrorKind::NotFound, std::io::ErrorKind::PermissionDenied, std::io::ErrorKind::InvalidData]);
	let e = is_kind(std::io::Error::new(k, m.clone()).into(), "IOError", "conversion")?;
	let KE::IOError(x) = e else { unreachable!() };
	ensure!(x.kind() == k && x.to_string() == m, "conversion of an I/O error gives {x:?}");
	let e = is_kind(er::DoesNotExistError::default().into(), "DoesNotExistError", "default")?;
	ensure!(!msg(&e).unwrap_or("").is_empty(), "the default error has no message");
	Ok(())
}
fn check(s: &mut Src, c: &mut Ctx) -> R {
	match s.weighted(&[5, 2, 4, 1, 6, 2, 2]) {
		0 => made_names(s, c),
		1 => content(s, c),
		2 => indices(s, c),
		3 => casts(s, c),
		4 => parsing(s, c),
		5 => reading(s, c),
		_ => values(s, c),
	}
}
