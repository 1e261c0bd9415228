//! Small helpers: PRNG, hashing, JSON strings.
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
	pub fn new(seed: u64) -> Self {
		let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15);
		r.next();
		r
	}
	pub fn next(&mut self) -> u64 {
		self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
		let mut z = self.0;
		z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
		z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
		z ^ (z >> 31)
	}
	/// uniform in 0..n (n > 0)
	pub fn below(&mut self, n: u64) -> u64 {
		if n == 0 {
			return self.next();
		}
		((self.next() as u128 * n as u128) >> 64) as u64
	}
	pub fn chance(&mut self, num: u64, den: u64) -> bool {
		self.below(den) < num
	}
	pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
		&v[self.below(v.len() as u64) as usize]
	}
}
pub fn mix(a: u64, b: u64) -> u64 {
	Rng(a.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ b).next()
}
pub fn fnv(s: &[u8]) -> u64 {
	let mut h = 0xcbf2_9ce4_8422_2325u64;
	for b in s {
		h = (h ^ *b as u64).wrapping_mul(0x100_0000_01b3);
	}
	h
}
pub fn jstr(s: &str) -> String {
	let mut o = String::from("\"");
	for c in s.chars() {
		match c {
			'"' => o.push_str("\\\""),
			'\\' => o.push_str("\\\\"),
			'\n' => o.push_str("\\n"),
			'\r' => o.push_str("\\r"),
			'\t' => o.push_str("\\t"),
			c if (c as u32) < 0x20 || c as u32 == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
			c => o.push(c),
		}
	}
	o.push('"');
	o
}
/// shortens a long string in the middle (for messages and samples)
pub fn clip(s: &str, n: usize) -> String {
	let c: Vec<char> = s.chars().collect();
	if c.len() <= n {
		return s.to_string();
	}
	let h = n / 2;
	format!(
		"{} …[{} characters]… {}",
		c[..h].iter().collect::<String>(),
		c.len() - 2 * h,
		c[c.len() - h..].iter().collect::<String>()
	)
}
