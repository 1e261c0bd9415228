//! C06: escaping and unescaping.
use super::*;

pub fn prop() -> Prop {
	Prop {
		id: "C06",
		check,
		sweep,
		rule: "case = one string (or a block of 1024 code points in every reference form); non-trivial = the string contains a markup character or a reference",
		quick: (20000, 20000),
		thorough: (1200000, 1200000),
		witnesses: &[],
	}
}
const BLOCK: u64 = 1024;
fn sweep() -> Vec<Vec<u64>> {
	let mut v: Vec<Vec<u64>> = (0..0x110000 / BLOCK + 2).map(|b| vec![1, 2, b]).collect();
	v.extend((0..LONG).map(|k| vec![1, 3, gen::sweep_choice(k)]));
	v
}

const LONG: u64 = 40;
/// very long texts with few references in various places
fn long(k: u64) -> String {
	let n = [4_090, 65_530, 140_000, 1_100_000][k as usize / 10 % 4];
	let fill = ["x", "é", "☼ ", "\u{1F600}", "; "][k as usize % 5].repeat(n / ["x", "é", "☼ ", "\u{1F600}", "; "][k as usize % 5].len());
	if k / 5 % 2 == 0 {
		format!("&lt;{fill}<&amp;>\"'&#233;&#x263C;&amp;lt;&")
	} else {
		// and something that only looks like the beginning of a reference
		format!("&{fill}&#{fill}&#65;&#x{fill};&gt;&{fill};&quot;")
	}
}
fn reference(s: &mut Src) -> String {
	match s.weighted(&[4, 3, 3, 3, 2, 2]) {
		0 => s.pick(&["&amp;", "&lt;", "&gt;", "&apos;", "&quot;"]).to_string(),
		1 => format!("&#{};", s.char_any() as u32),
		2 => format!("&#x{:x};", s.char_any() as u32),
		3 => {
			let mut d: String = (0..1 + s.size(12, 3)).map(|_| *s.pick(&['0', '1', '6', '4', '9', 'a', 'F', 'x', 'g', ' ', '-', '+', '\u{661}'])).collect();
			if s.chance(1, 3) {
				d.insert(0, 'x');
			}
			format!("&#{d};")
		}
		4 => s
			.pick(&["&AMP;", "&Lt;", "&nbsp;", "&am;", "&ampx;", "&amp ;", "& amp;", "&amp", "&lt", "&;", "&#;", "&#x;", "&#X41;", "&#xD800;", "&#xDFFF;", "&#55296;", "&#1114112;", "&#x110000;", "&#4294967296;", "&#0;", "&&amp;", "&amp;amp;", "&amp;#65;", "&#38;#65;", "&#38;lt;", "&#x26;gt;", "&quote;", "&#x00000041;", "&#00065;", "&#+65;", "&#x+41;", "&#-65;", "&#x-41;", "&#xx41;", "&#x_4;"])
			.to_string(),
		_ => format!("&{};", gen::ncname(s)),
	}
}
fn check_all(c: &mut Ctx, t: &str) -> R {
	c.nontrivial = t.contains(['&', '<', '>', '"', '\'']);
	let (e, a, x) = (kiss_xml::escape(t), kiss_xml::attribute_escape(t), kiss_xml::text_escape(t));
	ensure!(e == esc_full(t), "escape({t:?}) = {e:?}, expected {:?}", esc_full(t));
	ensure!(a == esc_full(t), "attribute_escape({t:?}) = {a:?}, expected {:?}", esc_full(t));
	ensure!(x == esc_text(t), "text_escape({t:?}) = {x:?}, expected {:?}", esc_text(t));
	for (f, v) in [("escape", &e), ("text_escape", &x)] {
		let u = kiss_xml::unescape(v.as_str());
		ensure!(u == t, "unescape({f}({t:?})) = {u:?}");
	}
	let u = kiss_xml::unescape(t);
	ensure!(u == decode_refs(t), "unescape({t:?}) = {u:?}, expected {:?}", decode_refs(t));
	Ok(())
}

fn check(s: &mut Src, c: &mut Ctx) -> R {
	match s.weighted(&[2, 3, 0, 0]) {
		0 => {
			c.label("text");
			let t = gen::text(s, Chars::Any);
			c.input(&t);
			check_all(c, &t)?;
			let t2 = gen::text(s, Chars::Any);
			let j = format!("{t}{t2}");
			ensure!(kiss_xml::escape(j.as_str()) == kiss_xml::escape(t.as_str()) + &kiss_xml::escape(t2.as_str()), "escape is not a homomorphism on {t:?} + {t2:?}");
			Ok(())
		}
		1 => {
			c.label("dense references");
			let mut t = String::new();
			for _ in 0..s.size(60, 4) {
				if s.chance(2, 3) {
					t.push_str(&reference(s));
				} else {
					t.push_str(&gen::piece(s, Chars::Any));
				}
			}
			if s.chance(1, 5) {
				t = scramble(s, &t, Chars::Any);
			}
			c.input(&t);
			check_all(c, &t)
		}
		3 => {
			let Some(k) = gen::sweep_only(s) else { return Err(Fail::Discard) };
			c.label("very long");
			let t = long(k);
			c.input(&t);
			check_all(c, &t)
		}
		_ => {
			let b = s.below(0x110000 / BLOCK + 2) * BLOCK;
			c.label("block of code points");
			c.input(&format!("block {b:#x}"));
			let dec = |t: String| -> R {
				let u = kiss_xml::unescape(t.as_str());
				ensure!(u == decode_refs(&t), "unescape({t:?}) = {u:?}, expected {:?}", decode_refs(&t));
				Ok(())
			};
			for v in b..b + BLOCK {
				dec(format!("a&#{v};b"))?;
				dec(format!("a&#x{v:x};&#x{v:X};"))?;
				if let Some(ch) = char::from_u32(v as u32) {
					dec(format!("&{ch};&#{ch};&amp;{ch}"))?;
					let t = format!("{ch}&{ch}");
					ensure!(kiss_xml::escape(t.as_str()) == esc_full(&t), "escape({t:?}) = {:?}", kiss_xml::escape(t.as_str()));
					ensure!(kiss_xml::text_escape(t.as_str()) == esc_text(&t), "text_escape({t:?}) = {:?}", kiss_xml::text_escape(t.as_str()));
				}
			}
			c.nontrivial = true;
			Ok(())
		}
	}
}
