//! C14: all input and output paths agree, and I/O failures are reported.
use super::*;
use crate::surface;
use std::io::{self, ErrorKind, Read, Write};
use std::path::Path;

pub fn prop() -> Prop {
	Prop {
		id: "C14",
		check,
		sweep,
		rule: "case = one byte sequence read through split, interrupted and failing readers (an error injected at every byte position of short inputs), or one document written through short, interrupted and failing writers (likewise), or one sequence of file operations in a scratch directory; non-trivial = at least one fault was injected, or a read or write was split",
		quick: (5000, 3000),
		thorough: (160000, 120000),
		witnesses: &[],
	}
}
fn sweep() -> Vec<Vec<u64>> {
	// every kind of file case
	let mut v: Vec<Vec<u64>> = (0..FILE_CASES as u64).map(|k| vec![1, 3, k]).collect();
	v.extend(gen::huge_sweep(&[1, 0]));
	v.extend(gen::huge_sweeps(&[2]));
	// every size and place of the big cases
	for n in 0..BIG.len() as u64 {
		for at in 0..4 {
			v.push(vec![1, 4, n, at, (n + at) % 3, n % 5]);
		}
	}
	v
}
/// sizes around the buffer sizes and limits that such code might have
const BIG: &[usize] = &[4_097, 8_193, 16_389, 32_771, 65_537, 131_077, 262_147, 524_293, 1_048_579, 2_097_163, 4_194_319, 5_242_883];
/// one big piece, read and written through every path
fn big(s: &mut Src, c: &mut Ctx) -> R {
	let n = *s.pick(BIG);
	let at = s.idx(4);
	let ch = *s.pick(&["x", "é", "☼"]);
	let k = s.idx(5);
	let fill = format!("{}{}", "y".repeat(k), ch.repeat(n / ch.len()));
	let t = match at {
		0 => format!("<a>{fill}</a>"),
		1 => format!("<a b=\"{fill}\">t</a>"),
		2 => format!("<a><!--{fill}--><b/></a>"),
		_ => format!("<a><![CDATA[{fill}]]><b/></a>"),
	};
	c.input(&format!("{n} bytes of {ch:?} after {k} of \"y\" in place {at}"));
	c.label("big");
	c.nontrivial = true;
	let want = kiss_xml::parse_str(t.as_str());
	ensure!(want.is_ok(), "{n} bytes: parse_str fails");
	let want = want.unwrap();
	let has: String = match at {
		0 => want.root_element().text(),
		1 => want.root_element().get_attr("b").cloned().unwrap_or_default(),
		_ => want.root_element().children().next().map(|n| n.text()).unwrap_or_default(),
	};
	ensure!(has == fill, "{n} bytes: the content has {} bytes", has.len());
	let r = Reader { data: t.as_bytes(), pos: 0, chunks: vec![1 + s.size(70_000, 30_000)], calls: 0, interrupts: vec![], fail: None, failed: false, splits: 0 };
	let got = kiss_xml::parse_stream(r);
	ensure!(got.as_ref().is_ok_and(|d| *d == want), "{n} bytes from a reader give another result than the same text: {}", got.map_or_else(|e| format!("{e:?}"), |_| "another document".into()));
	let text = want.to_string();
	ensure!(text.contains(fill.as_str()), "{n} bytes: the written text lacks the content");
	let mut w = Writer { chunks: vec![1 + s.size(70_000, 30_000)], ..Default::default() };
	let r = want.write_to_file(&mut w);
	ensure!(r.is_ok() && w.got == text.as_bytes(), "{n} bytes: a writer gets {} of {} bytes, {r:?}", w.got.len(), text.len());
	let p = c.scratch.join("big.xml");
	let r = want.write_to_filepath(&p);
	let back = std::fs::read(&p).unwrap_or_default();
	ensure!(r.is_ok() && back == text.as_bytes(), "{n} bytes: a file gets {} of {} bytes, {r:?}", back.len(), text.len());
	let got = kiss_xml::parse_filepath(&p);
	let _ = std::fs::remove_file(&p);
	ensure!(got.as_ref().is_ok_and(|d| *d == want), "{n} bytes from a file give another result than the same text: {}", got.map_or_else(|e| format!("{e:?}"), |_| "another document".into()));
	Ok(())
}

const KINDS: &[ErrorKind] = &[
	ErrorKind::Other,
	ErrorKind::UnexpectedEof,
	ErrorKind::WouldBlock,
	ErrorKind::TimedOut,
	ErrorKind::BrokenPipe,
	ErrorKind::ConnectionReset,
	ErrorKind::PermissionDenied,
	ErrorKind::InvalidData,
	ErrorKind::InvalidInput,
	ErrorKind::NotFound,
	ErrorKind::WriteZero,
	ErrorKind::OutOfMemory,
];

struct Reader<'a> {
	data: &'a [u8],
	pos: usize,
	chunks: Vec<usize>,
	calls: usize,
	/// the calls that are interrupted
	interrupts: Vec<bool>,
	fail: Option<(usize, ErrorKind)>,
	failed: bool,
	splits: usize,
}
impl Read for Reader<'_> {
	fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
		if buf.is_empty() {
			return Ok(0);
		}
		let c = self.calls;
		self.calls += 1;
		if !self.interrupts.is_empty() && self.interrupts[c % self.interrupts.len()] {
			return Err(ErrorKind::Interrupted.into());
		}
		let mut n = buf.len().min(self.data.len() - self.pos).min(self.chunks[c % self.chunks.len()].max(1));
		if let (Some((at, kind)), false) = (self.fail, self.failed) {
			if self.pos >= at {
				// only once: whoever reads on gets the rest
				self.failed = true;
				return Err(io::Error::new(kind, "injected"));
			}
			n = n.min(at - self.pos);
		}
		buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
		self.pos += n;
		self.splits += 1;
		Ok(n)
	}
}
#[derive(Default)]
struct Writer {
	got: Vec<u8>,
	chunks: Vec<usize>,
	calls: usize,
	interrupts: Vec<bool>,
	/// position and kind; None as kind: accepts nothing more
	fail: Option<(usize, Option<ErrorKind>)>,
	failed: bool,
}
impl Write for Writer {
	fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
		if buf.is_empty() {
			return Ok(0);
		}
		let c = self.calls;
		self.calls += 1;
		if !self.interrupts.is_empty() && self.interrupts[c % self.interrupts.len()] {
			return Err(ErrorKind::Interrupted.into());
		}
		let mut n = buf.len().min(self.chunks[c % self.chunks.len()].max(1));
		if let Some((at, kind)) = self.fail {
			if self.got.len() >= at && !self.failed {
				return match kind {
					Some(k) => {
						self.failed = true;
						Err(io::Error::new(k, "injected"))
					}
					None => Ok(0),
				};
			}
			if !self.failed {
				n = n.min(at - self.got.len());
			}
		}
		self.got.extend_from_slice(&buf[..n]);
		Ok(n)
	}
	fn flush(&mut self) -> io::Result<()> {
		Ok(())
	}
}
fn chunks(s: &mut Src) -> Vec<usize> {
	match s.weighted(&[3, 4, 1]) {
		0 => vec![1 + s.size(8, 1)],
		1 => (0..1 + s.size(6, 2)).map(|_| 1 + s.size(5000, 8)).collect(),
		_ => vec![usize::MAX],
	}
}
fn interrupts(s: &mut Src) -> Vec<bool> {
	if s.chance(1, 2) {
		return vec![];
	}
	let mut v: Vec<bool> = (0..1 + s.size(8, 2)).map(|_| s.chance(1, 2)).collect();
	v.push(false);
	v
}
/// all positions of a short sequence, some of a long one
fn positions(s: &mut Src, n: usize) -> Vec<usize> {
	if n <= 150 {
		return (0..=n).collect();
	}
	let mut v: Vec<usize> = (0..if n > 20_000 { 2 } else { 24 }).map(|_| s.idx(n + 1)).collect();
	v.extend([0, 1, n / 2, n - 1, n]);
	v
}

#[derive(PartialEq, Debug)]
enum Seen {
	Doc(MDoc, Vec<Ns>),
	Err(String),
}
fn seen(r: Result<Document, KissXmlError>) -> Seen {
	match r {
		Ok(d) => Seen::Doc(observe_doc(&d), observe_ns(d.root_element())),
		// which of several errors is reported depends on the order of a hash map
		Err(e) => Seen::Err(format!("{e:?}").split(['(', ' ', '{']).next().unwrap_or("").to_string()),
	}
}
fn is_io(r: &Result<Document, KissXmlError>, kind: ErrorKind) -> bool {
	matches!(r, Err(KissXmlError::IOError(e)) if e.kind() == kind)
}
/// a document, or something like it, as text
fn some_text(s: &mut Src) -> String {
	let d = super::c02::wf_doc(s, 12);
	let mut t = surface::join(&surface::render(s, &d));
	match s.weighted(&[6, 2, 2]) {
		0 => {}
		1 => t = scramble(s, &t, Chars::Any),
		_ => {
			// long, with multi-byte characters at all offsets near usual buffer sizes
			let c = *s.pick(&["é", "☼", "😀", "aé", "x"]);
			let n = match s.weighted(&[80, 1]) {
				0 => [32usize, 1024, 8192, 16384, 65536][s.idx(5)],
				_ => s.size(300_000, 70_000),
			};
			let n = n / c.len();
			let k = s.idx(8);
			t.push_str(&format!("<!--{}{}-->", "y".repeat(k), c.repeat(n)));
			if s.chance(1, 3) {
				t.push_str("<z/>");
			}
		}
	}
	t
}
fn reading(s: &mut Src, c: &mut Ctx) -> R {
	let t = some_text(s);
	c.input(&t);
	let want = seen(kiss_xml::parse_str(t.as_str()));
	let b = t.as_bytes();
	let mk = |s: &mut Src, fail| Reader { data: b, pos: 0, chunks: chunks(s), calls: 0, interrupts: interrupts(s), fail, failed: false, splits: 0 };
	for _ in 0..2 {
		let mut r = mk(s, None);
		let got = seen(kiss_xml::parse_stream(&mut r));
		ensure!(got == want, "parse_stream (chunks {:?}, interrupted {:?}) gives\n{}\nand parse_str\n{}", r.chunks, r.interrupts, show(&got), show(&want));
		c.nontrivial |= r.splits > 2;
	}
	let cut = s.idx(b.len() + 1);
	let wrapped = match s.idx(4) {
		0 => seen(kiss_xml::parse_stream(b)),
		1 => seen(kiss_xml::parse_stream(io::Cursor::new(b.to_vec()))),
		2 => seen(kiss_xml::parse_stream(b[..cut].chain(&b[cut..]))),
		_ => seen(kiss_xml::parse_stream(io::BufReader::with_capacity(1 + cut % 64, mk(s, None)))),
	};
	ensure!(wrapped == want, "parse_stream of a slice, cursor, chain or buffered reader gives\n{}\nand parse_str\n{}", show(&wrapped), show(&want));
	for at in positions(s, b.len()) {
		let kind = *s.pick(KINDS);
		let mut r = mk(s, Some((at, kind)));
		let got = kiss_xml::parse_stream(&mut r);
		ensure!(is_io(&got, kind), "a read error ({kind:?}) at byte {at} of {} gives {}", b.len(), show(&seen(got)));
		c.nontrivial = true;
	}
	c.label("reader with faults");
	Ok(())
}
fn invalid(s: &mut Src, c: &mut Ctx) -> R {
	let t = some_text(s);
	let mut b = t.into_bytes();
	const BAD: &[&[u8]] = &[&[0xFF], &[0xFE], &[0x80], &[0xC0, 0x80], &[0xC3], &[0xE2, 0x98], &[0xED, 0xA0, 0x80], &[0xF4, 0x90, 0x80, 0x80], &[0xF0, 0x9F, 0x98], &[0xF8], &[0xE9], &[0xFF, 0xFE]];
	let at = if s.chance(1, 4) { b.len() } else { s.idx(b.len() + 1) };
	let x = *s.pick(BAD);
	if s.chance(1, 5) && at < b.len() {
		// in UTF-16
		let w: Vec<u16> = String::from_utf8(b.clone()).unwrap().encode_utf16().collect();
		let mut v = vec![0xFF, 0xFE];
		for u in w {
			v.extend(u.to_le_bytes());
		}
		b = v;
	} else {
		b.splice(at..at, x.iter().copied());
	}
	if std::str::from_utf8(&b).is_ok() {
		return Err(Fail::Discard);
	}
	c.label("invalid UTF-8");
	c.input(&format!("{:?}", String::from_utf8_lossy(&b)));
	c.nontrivial = true;
	let r = Reader { data: &b, pos: 0, chunks: chunks(s), calls: 0, interrupts: interrupts(s), fail: None, failed: false, splits: 0 };
	ensure!(kiss_xml::parse_stream(r).is_err(), "invalid UTF-8 from a reader gives a document: {:?}", String::from_utf8_lossy(&b));
	ensure!(kiss_xml::parse_stream(&b[..]).is_err(), "invalid UTF-8 from a slice gives a document: {:?}", String::from_utf8_lossy(&b));
	if s.chance(1, 2) {
		let p = c.scratch.join("invalid.xml");
		std::fs::write(&p, &b).expect("scratch");
		ensure!(kiss_xml::parse_filepath(&p).is_err(), "invalid UTF-8 from a file gives a document: {:?}", String::from_utf8_lossy(&b));
		c.label("invalid UTF-8 in a file");
	}
	Ok(())
}
fn writing(s: &mut Src, c: &mut Ctx) -> R {
	let m = gen::doc(s, gen::TreeOpts { max_nodes: 10, ..Default::default() });
	let d = build::document(s, &m);
	let ind = gen::any_indent(s);
	let default = s.chance(1, 3);
	let want = if default { d.to_string() } else { d.to_string_with_indent(ind.as_str()) };
	c.input(&want);
	let put = |w: &mut Writer| if default { d.write_to_file(w) } else { d.write_to_file_with_indent(w, ind.as_str()) };
	let mk = |s: &mut Src, fail| Writer { chunks: chunks(s), interrupts: interrupts(s), fail, ..Default::default() };
	for _ in 0..2 {
		let mut w = mk(s, None);
		let r = put(&mut w);
		ensure!(r.is_ok(), "writing (chunks {:?}, interrupted {:?}) fails: {r:?}", w.chunks, w.interrupts);
		ensure!(w.got == want.as_bytes(), "the writer (chunks {:?}, interrupted {:?}) got {:?} instead of {want:?}", w.chunks, w.interrupts, String::from_utf8_lossy(&w.got));
		c.nontrivial |= w.calls > 2;
	}
	let mut v: Vec<u8> = b"before".to_vec();
	ensure!(d.write_to_file(&mut v).is_ok() && v[6..] == *d.to_string().as_bytes() && v.starts_with(b"before"), "writing to a Vec gives {:?}", String::from_utf8_lossy(&v));
	for at in positions(s, want.len()) {
		let kind = if s.chance(1, 5) { None } else { Some(*s.pick(KINDS)) };
		let mut w = mk(s, Some((at, kind)));
		let r = put(&mut w);
		if at >= want.len() {
			ensure!(r.is_ok() && w.got == want.as_bytes(), "an error that would come after all {} bytes: {r:?}, {} bytes written", want.len(), w.got.len());
			continue;
		}
		c.nontrivial = true;
		match &r {
			Ok(()) => bad!("a write error ({kind:?}) at byte {at} of {} is not reported", want.len()),
			Err(e) => {
				let k = kind.unwrap_or(ErrorKind::WriteZero);
				ensure!(e.kind() == k, "a write error ({k:?}) at byte {at} of {} is reported as {e:?}", want.len())
			}
		}
		ensure!(w.got.len() >= at && want.as_bytes().starts_with(&w.got), "after a write error ({kind:?}) at byte {at} of {}, the writer has {:?}", want.len(), String::from_utf8_lossy(&w.got));
	}
	// a fixed buffer that is too small
	let n = s.idx(want.len());
	let mut small = vec![0u8; n];
	let r = if default { d.write_to_file(&mut &mut small[..]) } else { d.write_to_file_with_indent(&mut &mut small[..], ind.as_str()) };
	ensure!(r.is_err(), "writing {} bytes into a buffer of {n} bytes succeeds", want.len());
	c.label("writer with faults");
	Ok(())
}

const FILE_CASES: usize = 12;
fn file_name(s: &mut Src) -> String {
	s.pick(&["a.xml", "b", "é☼.xml", "with space.xml", "c.d.xml", ".hidden", "😀", "x'y\".xml"]).to_string()
}
fn read_back(p: &Path, want: &str, c: &mut Ctx) -> R {
	let got = std::fs::read(p);
	match got {
		Err(e) => bad!("the written file cannot be read: {e}"),
		Ok(b) => ensure!(b == want.as_bytes(), "the file contains {:?} instead of {want:?}", String::from_utf8_lossy(&b)),
	}
	let a = seen(kiss_xml::parse_filepath(p));
	let b = seen(kiss_xml::parse_str(want));
	ensure!(a == b, "parse_filepath gives\n{}\nand parse_str\n{}", show(&a), show(&b));
	let f = std::fs::File::open(p).expect("scratch");
	let b2 = seen(kiss_xml::parse_stream(f));
	ensure!(b2 == b, "parse_stream of the file gives\n{}\nand parse_str\n{}", show(&b2), show(&b));
	c.nontrivial = true;
	Ok(())
}
struct Limit;
impl Drop for Limit {
	fn drop(&mut self) {
		crate::set_limit(1, u64::MAX, u64::MAX);
	}
}
struct Cwd(std::path::PathBuf);
impl Drop for Cwd {
	fn drop(&mut self) {
		let _ = std::env::set_current_dir(&self.0);
	}
}
fn files(s: &mut Src, c: &mut Ctx) -> R {
	let which = s.weighted(&[1; FILE_CASES]);
	let root = c.scratch.join("files");
	let _ = std::fs::remove_dir_all(&root);
	std::fs::create_dir_all(&root).expect("scratch");
	let m = gen::doc(s, gen::TreeOpts { max_nodes: 12, ..Default::default() });
	let mut d = build::document(s, &m);
	let ind = gen::any_indent(s);
	let default = s.chance(1, 2);
	let want = |d: &Document| if default { d.to_string() } else { d.to_string_with_indent(ind.as_str()) };
	let text = want(&d);
	c.input(&text);
	let write = |d: &Document, p: &Path| -> io::Result<()> {
		match (default, p.to_str()) {
			(true, Some(t)) => d.write_to_filepath(t),
			(true, None) => d.write_to_filepath(p),
			(false, _) => d.write_to_filepath_with_indent(p, ind.as_str()),
		}
	};
	match which {
		0 | 1 => {
			c.label("new file, missing directories");
			let mut p = root.clone();
			for _ in 0..s.size(5, 1) {
				p.push(*s.pick(&["d", "e.f", "é", "x y", "."]));
			}
			p.push(file_name(s));
			let r = write(&d, &p);
			ensure!(r.is_ok(), "writing to a new file {p:?} fails: {r:?}");
			read_back(&p, &text, c)
		}
		2 | 3 => {
			c.label("overwriting");
			let p = root.join(file_name(s));
			let old = match s.idx(5) {
				0 => format!("{text}x"),
				1 => format!("{text}{}", "<old/>\n".repeat(1 + s.size(2000, 20))),
				2 => text.chars().rev().collect(),
				3 => String::new(),
				_ => "é".repeat(s.size(40000, 200)),
			};
			std::fs::write(&p, old).expect("scratch");
			if s.chance(1, 4) {
				// through a link
				let l = root.join("link");
				std::os::unix::fs::symlink(&p, &l).expect("scratch");
				let r = write(&d, &l);
				ensure!(r.is_ok(), "writing through a link fails: {r:?}");
				read_back(&l, &text, c)?;
				return read_back(&p, &text, c);
			}
			let other = root.join(file_name(s));
			let beside = other != p;
			if beside {
				std::fs::write(&other, "keep").expect("scratch");
			}
			let r = write(&d, &p);
			ensure!(r.is_ok(), "overwriting {p:?} fails: {r:?}");
			read_back(&p, &text, c)?;
			// and again with less content
			d.root_element_mut().clear_children();
			let text = want(&d);
			let r = write(&d, &p);
			ensure!(r.is_ok(), "overwriting {p:?} again fails: {r:?}");
			read_back(&p, &text, c)?;
			ensure!(!beside || std::fs::read(&other).ok().as_deref() == Some(b"keep"), "writing to {p:?} changes {other:?}");
			let n = std::fs::read_dir(&root).expect("scratch").count();
			ensure!(n == 1 + beside as usize, "writing to {p:?} leaves other files behind");
			Ok(())
		}
		4 => {
			c.label("relative path");
			let _back = Cwd(std::env::current_dir().unwrap_or_else(|_| "/".into()));
			std::env::set_current_dir(&root).expect("scratch");
			let n = file_name(s);
			let p = match s.idx(4) {
				0 => n.clone(),
				1 => format!("./{n}"),
				2 => format!("sub/{n}"),
				_ => format!("a/direct.ory/../{n}"),
			};
			let r = write(&d, Path::new(&p));
			ensure!(r.is_ok(), "writing to the relative path {p:?} fails: {r:?}");
			read_back(Path::new(&p), &text, c)?;
			read_back(&root.join(&p), &text, c)
		}
		5 => {
			c.label("path is a directory");
			let p = root.join("dir");
			std::fs::create_dir(&p).expect("scratch");
			c.nontrivial = true;
			ensure!(write(&d, &p).is_err(), "writing to a directory succeeds");
			ensure!(p.is_dir(), "the directory is gone");
			ensure!(matches!(kiss_xml::parse_filepath(&p), Err(KissXmlError::IOError(_))), "reading a directory gives no I/O error");
			Ok(())
		}
		6 => {
			c.label("parent is a file");
			let f = root.join("file");
			std::fs::write(&f, "keep").expect("scratch");
			let p = if s.chance(1, 2) { f.join("x.xml") } else { f.join("y").join("x.xml") };
			c.nontrivial = true;
			ensure!(write(&d, &p).is_err(), "writing below a file succeeds");
			ensure!(std::fs::read(&f).ok().as_deref() == Some(b"keep"), "the file in the place of the directory has changed");
			Ok(())
		}
		7 => {
			c.label("missing file");
			let p = root.join("none").join(file_name(s));
			c.nontrivial = true;
			let r = if s.chance(1, 2) { kiss_xml::parse_filepath(&p) } else { kiss_xml::parse_filepath(root.join("none.xml")) };
			ensure!(is_io(&r, ErrorKind::NotFound), "parsing a missing file gives {}", show(&seen(r)));
			ensure!(!root.join("none").exists(), "parsing a missing file makes a directory");
			Ok(())
		}
		8 => {
			c.label("full device");
			// a link, so that whatever is done to the path stays in the scratch directory
			let p = root.join("full");
			std::os::unix::fs::symlink("/dev/full", &p).expect("scratch");
			if std::fs::write(&p, "x").is_ok() {
				return Err(Fail::Discard);
			}
			c.nontrivial = true;
			match write(&d, &p) {
				Ok(()) => ensure!(std::fs::read(&p).ok().as_deref() == Some(text.as_bytes()) && !std::fs::symlink_metadata(&p).unwrap().file_type().is_symlink(), "writing to a full device succeeds"),
				Err(_) => {}
			}
			Ok(())
		}
		9 => {
			c.label("file size limit");
			let p = root.join("limited.xml");
			let old = s.chance(1, 2);
			if old {
				std::fs::write(&p, "old").expect("scratch");
			}
			let n = s.idx(text.len() + 2);
			c.nontrivial = true;
			let r;
			{
				let _l = Limit;
				crate::set_limit(1, n as u64, u64::MAX);
				r = write(&d, &p);
			}
			if r.is_ok() {
				ensure!(std::fs::read(&p).ok().as_deref() == Some(text.as_bytes()), "with files limited to {n} bytes, writing {} bytes succeeds but the file is incomplete", text.len());
			} else {
				ensure!(n < text.len(), "with files limited to {n} bytes, writing {} bytes fails: {r:?}", text.len());
				c.label("write failed at the limit");
			}
			Ok(())
		}
		10 => {
			c.label("read-only or closed handle");
			let p = root.join("ro.xml");
			std::fs::write(&p, "keep").expect("scratch");
			let mut f = std::fs::File::open(&p).expect("scratch");
			c.nontrivial = true;
			let r = if default { d.write_to_file(&mut f) } else { d.write_to_file_with_indent(&mut f, ind.as_str()) };
			ensure!(r.is_err(), "writing to a handle that is open for reading only succeeds");
			let mut w = io::LineWriter::new(std::fs::File::create(root.join("lw.xml")).expect("scratch"));
			let r = if default { d.write_to_file(&mut w) } else { d.write_to_file_with_indent(&mut w, ind.as_str()) };
			ensure!(r.is_ok() && w.flush().is_ok(), "writing to a line writer fails: {r:?}");
			drop(w);
			read_back(&root.join("lw.xml"), &text, c)
		}
		_ => {
			c.label("file with arbitrary text");
			let t = some_text(s);
			c.input(&t);
			let p = root.join(file_name(s));
			std::fs::write(&p, &t).expect("scratch");
			read_back(&p, &t, c)?;
			ensure!(std::fs::read(&p).ok().as_deref() == Some(t.as_bytes()), "reading has changed the file");
			Ok(())
		}
	}
}

fn check(s: &mut Src, c: &mut Ctx) -> R {
	match s.weighted(&[400, 300, 400, 300, 1]) {
		0 => reading(s, c),
		1 => invalid(s, c),
		2 => writing(s, c),
		4 => big(s, c),
		_ => {
			let r = files(s, c);
			let _ = std::fs::remove_dir_all(c.scratch.join("files"));
			r
		}
	}
}
