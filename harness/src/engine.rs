//! Choice-sequence engine: every generated case is a function of a sequence of bounded choices.
//! Random generation proposes choices, coverage-guided search mutates recorded sequences,
//! shrinking edits them, and a replay file stores them.
use crate::cov;
use crate::util::*;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::Instant;

pub const MAX_CHOICES: usize = 1 << 18;
/// edges of the crate under test that one case may execute before it counts as non-terminating
pub const STEP_LIMIT: u64 = 9_000_000_000;
const STACK: usize = 16 << 20;

/// knowledge used only to propose choices (never to interpret them)
pub struct Env {
	pub dict: Vec<String>,
	pub consts: Vec<u64>,
}

pub struct Src<'a> {
	seq: &'a [u64],
	pos: usize,
	pub out: Vec<u64>,
	random: bool,
	pub rng: Rng,
	pub env: &'a Env,
	shm: *mut u64,
	/// how often this case was made big
	pub grown: u32,
}
unsafe impl Send for Src<'_> {}

impl<'a> Src<'a> {
	pub fn new(seq: &'a [u64], random: bool, seed: u64, env: &'a Env, shm: *mut u64) -> Self {
		Src { seq, pos: 0, out: Vec::with_capacity(64), random, rng: Rng::new(seed), env, shm, grown: 0 }
	}
	/// one choice in 0..n (n = 0: any u64)
	pub fn choice(&mut self, n: u64, propose: impl FnOnce(&mut Rng, &Env) -> u64) -> u64 {
		let v = if self.pos < self.seq.len() {
			self.seq[self.pos]
		} else if self.random && self.out.len() < MAX_CHOICES - 1 {
			propose(&mut self.rng, self.env)
		} else {
			0
		};
		self.pos += 1;
		let v = if n > 0 { v % n } else { v };
		if self.out.len() < MAX_CHOICES - 1 {
			if !self.shm.is_null() {
				unsafe {
					let k = self.out.len();
					*self.shm.add(2 + k) = v;
					*self.shm.add(1) = (k + 1) as u64;
				}
			}
			self.out.push(v);
		}
		v
	}
	pub fn below(&mut self, n: u64) -> u64 {
		self.choice(n, |r, _| r.below(n))
	}
	pub fn idx(&mut self, n: usize) -> usize {
		self.below(n as u64) as usize
	}
	pub fn pick<'b, T>(&mut self, v: &'b [T]) -> &'b T {
		let i = self.idx(v.len());
		&v[i]
	}
	/// true with probability num/den; false is the simple choice
	pub fn chance(&mut self, num: u64, den: u64) -> bool {
		self.choice(2, |r, _| r.chance(num, den) as u64) == 1
	}
	/// index with the given weights; 0 is the simple choice
	pub fn weighted(&mut self, w: &[u32]) -> usize {
		let tot: u64 = w.iter().map(|x| *x as u64).sum();
		self.choice(w.len() as u64, |r, _| {
			let mut k = r.below(tot);
			for (i, x) in w.iter().enumerate() {
				if k < *x as u64 {
					return i as u64;
				}
				k -= *x as u64;
			}
			0
		}) as usize
	}
	/// a size in 0..=max, usually near `typ`, sometimes at boundaries the code compares with
	pub fn size(&mut self, max: usize, typ: usize) -> usize {
		self.choice(max as u64 + 1, |r, env| {
			let m = max as u64;
			let v = match r.below(40) {
				0 | 1 => {
					let c: Vec<u64> = env.consts.iter().copied().filter(|c| *c > 1 && *c <= m + 1).collect();
					if c.is_empty() {
						r.below(m + 1)
					} else {
						(*r.pick(&c)).saturating_add(r.below(3)).saturating_sub(1)
					}
				}
				2 => {
					let k = r.below(64 - m.max(1).leading_zeros() as u64 + 1);
					(1u64 << k.min(62)).saturating_add(r.below(3)).saturating_sub(1)
				}
				3 => r.below(m + 1),
				_ => {
					// geometric with mean about typ
					let mut v = 0;
					while v < m && r.below(typ as u64 + 1) != 0 {
						v += 1;
					}
					v
				}
			};
			v.min(m)
		}) as usize
	}
	/// a literal string, stored character by character
	pub fn literal(&mut self, propose: impl FnOnce(&mut Rng, &Env) -> String) -> String {
		let replaying = self.pos < self.seq.len();
		let s: Vec<char> = if replaying || !self.random { Vec::new() } else { propose(&mut self.rng, self.env).chars().collect() };
		let n = self.choice(4096, |_, _| s.len() as u64) as usize;
		let mut o = String::new();
		for i in 0..n {
			let c = self.choice(0x110000, |_, _| s.get(i).map_or(0x61, |c| *c as u64));
			o.push(char::from_u32(c as u32).unwrap_or('\u{FFFD}'));
		}
		o
	}
	pub fn char_any(&mut self) -> char {
		let c = self.choice(0x110000, |r, env| match r.below(8) {
			0 => r.below(0x80),
			1 => r.below(0x800),
			2 if !env.consts.is_empty() => *r.pick(&env.consts) % 0x110000,
			3 => {
				const B: &[u64] = &[
					0x00, 0x09, 0x0a, 0x0d, 0x20, 0x7f, 0x80, 0x85, 0xa0, 0xb7, 0xc0, 0xd7, 0xf7, 0x2ff, 0x300, 0x36f, 0x370,
					0x37e, 0x7ff, 0x800, 0x1fff, 0x2000, 0x200b, 0x200c, 0x200d, 0x2028, 0x2029, 0x203f, 0x2070, 0x218f, 0x2c00,
					0x2fef, 0x3000, 0x3001, 0xd7ff, 0xe000, 0xf900, 0xfdcf, 0xfdf0, 0xfeff, 0xfffd, 0xfffe, 0xffff, 0x10000,
					0x1f600, 0xeffff, 0xf0000, 0x10ffff,
				];
				*r.pick(B)
			}
			4 => r.below(0x10000),
			_ => r.below(0x110000),
		});
		char::from_u32(c as u32).unwrap_or('\u{FFFD}')
	}
}

pub enum Fail {
	Bad(String),
	Discard,
}
pub type R = Result<(), Fail>;
#[macro_export]
macro_rules! bad { ($($t:tt)*) => { return Err($crate::engine::Fail::Bad(format!($($t)*))) } }
#[macro_export]
macro_rules! ensure { ($c:expr, $($t:tt)*) => { if !$c { return Err($crate::engine::Fail::Bad(format!($($t)*))) } } }

#[derive(Default)]
pub struct Ctx {
	pub labels: Vec<String>,
	pub nontrivial: bool,
	pub key: u64,
	pub sample: String,
	pub notes: Vec<String>,
	pub scratch: std::path::PathBuf,
}
impl Ctx {
	pub fn label(&mut self, l: impl Into<String>) {
		self.labels.push(l.into());
	}
	pub fn input(&mut self, s: &str) {
		self.key = mix(self.key, fnv(s.as_bytes()));
		if self.sample.len() < 600 {
			if !self.sample.is_empty() {
				self.sample.push_str(" ⏎ ");
			}
			self.sample.push_str(&clip(s, 300));
		}
		self.notes.push(format!("input: {s:?}"));
	}
	pub fn note(&mut self, s: impl Into<String>) {
		self.notes.push(s.into());
	}
}

pub type Check = fn(&mut Src, &mut Ctx) -> R;
pub struct Prop {
	pub id: &'static str,
	pub check: Check,
	/// fixed choice prefixes that every run executes (exhaustive parts and regression inputs)
	pub sweep: fn() -> Vec<Vec<u64>>,
	pub rule: &'static str,
	/// (random, guided) cases per worker at the quick tier
	pub quick: (u64, u64),
	pub thorough: (u64, u64),
	/// witnesses of recorded findings: (name, description); run in a child process
	pub witnesses: &'static [(&'static str, &'static str, fn() -> bool)],
}

pub enum Outcome {
	Ok,
	Discard,
	Bad(String),
}
pub struct CaseResult {
	pub outcome: Outcome,
	pub choices: Vec<u64>,
	pub ctx: Ctx,
}

pub struct Runner<'e> {
	pub prop: &'e Prop,
	pub env: Env,
	pub shm: *mut u64,
	pub scratch: std::path::PathBuf,
	pub seen: Vec<u8>,
	pub base_consts: Vec<u64>,
}
struct SendPtr(*mut u64);
unsafe impl Send for SendPtr {}

impl<'e> Runner<'e> {
	pub fn new(prop: &'e Prop, dict: Vec<String>, shm: *mut u64, scratch: std::path::PathBuf) -> Self {
		Runner { prop, env: Env { dict, consts: Vec::new() }, shm, scratch, seen: vec![0; cov::MAXG], base_consts: Vec::new() }
	}
	pub fn run_case(&self, seq: &[u64], random: bool, seed: u64) -> CaseResult {
		if !self.shm.is_null() {
			unsafe {
				*self.shm.add(1) = 0;
				*self.shm += 1;
			}
		}
		let p = SendPtr(self.shm);
		let env = &self.env;
		let check = self.prop.check;
		let scratch = self.scratch.clone();
		std::thread::scope(|sc| {
			std::thread::Builder::new()
				.stack_size(STACK)
				.spawn_scoped(sc, move || {
					let p = p;
					let mut src = Src::new(seq, random, seed, env, p.0);
					let mut ctx = Ctx { scratch, ..Default::default() };
					// first choice: the seed of every hash map of this case
					let hs = src.choice(1 << 16, |r, _| r.below(1 << 16));
					cov::HASH_SEED.store(hs.wrapping_mul(0x5851_F42D_4C95_7F2D) | 1, std::sync::atomic::Ordering::Relaxed);
					cov::begin(STEP_LIMIT);
					let r = catch_unwind(AssertUnwindSafe(|| check(&mut src, &mut ctx)));
					cov::end();
					let outcome = match r {
						Ok(Ok(())) => Outcome::Ok,
						Ok(Err(Fail::Discard)) => Outcome::Discard,
						Ok(Err(Fail::Bad(m))) => Outcome::Bad(m),
						Err(e) => {
							let m = e
								.downcast_ref::<String>()
								.cloned()
								.or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
								.unwrap_or_default();
							let at = LAST_PANIC.lock().map(|g| g.clone()).unwrap_or_default();
							Outcome::Bad(format!("panic: {m} {at}"))
						}
					};
					CaseResult { outcome, choices: src.out, ctx }
				})
				.expect("thread")
				.join()
				.expect("case thread")
		})
	}
}
pub static LAST_PANIC: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());

/// what one worker process found
#[derive(Default)]
pub struct Report {
	pub evaluations: u64,
	pub discards: u64,
	pub guided: u64,
	pub sweep: u64,
	pub corpus: u64,
	pub edges: u64,
	pub labels: BTreeMap<String, u64>,
	pub samples: Vec<(u64, String)>,
	pub hashes: Vec<u64>,
	pub failure: Option<Failure>,
	pub truncated: bool,
}
#[derive(Clone)]
pub struct Failure {
	pub message: String,
	pub notes: Vec<String>,
	/// the failing case is the last one; earlier ones are the history that it needs
	pub cases: Vec<Vec<u64>>,
}

pub struct Worker<'e> {
	pub r: Runner<'e>,
	pub seed: u64,
	pub idx: u64,
	pub n: u64,
	pub random: u64,
	pub guided: u64,
	pub deadline: Instant,
	/// written before shrinking starts, in case shrinking crashes
	pub early: std::path::PathBuf,
}

const RING: usize = 256;
impl Worker<'_> {
	pub fn run(&mut self) -> Report {
		let mut rep = Report::default();
		let mut distinct: HashSet<u64> = HashSet::new();
		let mut corpus: Vec<Vec<u64>> = Vec::new();
		let mut ring: Vec<Vec<u64>> = Vec::new();
		let sweeps: Vec<Vec<u64>> =
			(self.r.prop.sweep)().into_iter().enumerate().filter(|(i, _)| *i as u64 % self.n == self.idx).map(|x| x.1).collect();
		let base = mix(mix(self.seed, fnv(self.r.prop.id.as_bytes())), self.idx);
		let total = sweeps.len() as u64 + self.random + self.guided;
		let mut gen = 0;
		let prof = std::env::var_os("KV_PROF").is_some();
		let mut rng = Rng::new(mix(base, 0xC0FFEE));
		for i in 0..total {
			if i % 64 == 0 && Instant::now() > self.deadline {
				rep.truncated = true;
				break;
			}
			let k = i.wrapping_sub(sweeps.len() as u64);
			let seed = mix(base, i);
			let t0 = Instant::now();
			let warm = self.random / 3;
			let res = if i < sweeps.len() as u64 {
				rep.sweep += 1;
				// the ones that start with 2 go on at random
				self.r.run_case(&sweeps[i as usize], sweeps[i as usize][0] == 2, seed)
			} else if k < warm || corpus.is_empty() || rng.below(self.random - warm + self.guided) >= self.guided {
				self.r.run_case(&[], true, seed)
			} else {
				rep.guided += 1;
				let m = mutate(&corpus, &mut rng, &self.r.env);
				self.r.run_case(&m, true, seed)
			};
			rep.evaluations += 1;
			if prof {
				eprintln!("PROF {} {} {} {}", t0.elapsed().as_micros(), cov::steps(), res.choices.len(), clip(&res.ctx.sample, 120).replace('\n', " "));
			}
			match &res.outcome {
				Outcome::Discard => rep.discards += 1,
				Outcome::Ok => {}
				Outcome::Bad(m) => {
					let mut cases: Vec<Vec<u64>> = ring.clone();
					cases.push(res.choices.clone());
					let f = Failure { message: m.clone(), notes: res.ctx.notes.clone(), cases };
					let _ = std::fs::write(&self.early, encode_failure(self.r.prop.id, &f));
					rep.failure = Some(self.shrink(f, &res.choices, seed));
				}
			}
			let (e, b) = cov::merge(&mut self.r.seen);
			if e > 0 || b > 0 {
				rep.edges += e as u64;
				if res.choices.len() <= 6000 && corpus.len() < 4000 && i >= sweeps.len() as u64 && cov::steps() < if e > 0 { 20_000_000 } else { 1_500_000 } {
					corpus.push(res.choices.clone());
				}
			}
			let g = cov::const_generation();
			if g != gen && i % 16 == 0 {
				gen = g;
				let mut c = cov::consts();
				c.extend(self.r.base_consts.iter().copied());
				c.sort();
				c.dedup();
				self.r.env.consts = c;
			}
			for l in &res.ctx.labels {
				*rep.labels.entry(l.clone()).or_default() += 1;
			}
			if res.ctx.nontrivial && matches!(res.outcome, Outcome::Ok) && distinct.insert(res.ctx.key) {
				// reservoir of samples
				let n = distinct.len() as u64;
				if rep.samples.len() < 6 {
					rep.samples.push((i, clip(&res.ctx.sample, 400)));
				} else {
					let j = mix(seed, 99) % n;
					if j < 6 {
						rep.samples[j as usize] = (i, clip(&res.ctx.sample, 400));
					}
				}
			}
			if rep.failure.is_some() {
				break;
			}
			if ring.len() == RING {
				ring.remove(0);
			}
			ring.push(res.choices);
		}
		rep.corpus = corpus.len() as u64;
		rep.hashes = distinct.into_iter().collect();
		rep
	}

	fn shrink(&mut self, mut f: Failure, first: &[u64], _seed: u64) -> Failure {
		let fails = |w: &Self, c: &[u64]| -> Option<CaseResult> {
			let r = w.r.run_case(c, false, 0);
			matches!(r.outcome, Outcome::Bad(_)).then_some(r)
		};
		let Some(mut best) = fails(self, first) else {
			return f; // depends on earlier cases: keep the history
		};
		let t0 = Instant::now();
		let mut cur = best.choices.clone();
		let mut evals = 0;
		let mut go = true;
		let better = |a: &[u64], b: &[u64]| a.len() < b.len() || (a.len() == b.len() && a.iter().map(|x| *x as u128).sum::<u128>() < b.iter().map(|x| *x as u128).sum::<u128>());
		while go && evals < 6000 && t0.elapsed().as_secs() < 20 {
			go = false;
			let mut size = (cur.len() / 2).max(1);
			loop {
				let mut i = 0;
				while i + size <= cur.len() && evals < 6000 && t0.elapsed().as_secs() < 20 {
					let mut c = cur.clone();
					c.drain(i..i + size);
					evals += 1;
					if let Some(r) = fails(self, &c) {
						if better(&r.choices, &cur) {
							cur = r.choices.clone();
							best = r;
							go = true;
							continue;
						}
					}
					i += if size > 8 { size / 2 } else { 1 };
				}
				if size == 1 {
					break;
				}
				size /= 2;
			}
			let mut i = 0;
			while i < cur.len() && evals < 6000 && t0.elapsed().as_secs() < 20 {
				let v = cur[i];
				for nv in [0, 1, v / 2, v.wrapping_sub(1)] {
					if nv < v {
						let mut c = cur.clone();
						c[i] = nv;
						evals += 1;
						if let Some(r) = fails(self, &c) {
							if better(&r.choices, &cur) {
								cur = r.choices.clone();
								best = r;
								go = true;
								break;
							}
						}
					}
				}
				i += 1;
			}
		}
		if let Outcome::Bad(m) = best.outcome {
			f.message = m;
		}
		f.notes = best.ctx.notes;
		f.cases = vec![cur];
		f
	}
}

fn mutate(corpus: &[Vec<u64>], rng: &mut Rng, env: &Env) -> Vec<u64> {
	let n = corpus.len() as u64;
	// favour recent finds
	let i = if rng.chance(1, 2) { n - 1 - rng.below(n).min(rng.below(n)) } else { rng.below(n) };
	let mut c = corpus[i as usize].clone();
	let k = 1 + rng.below(4);
	for _ in 0..k {
		if c.is_empty() {
			break;
		}
		let p = rng.below(c.len() as u64) as usize;
		match rng.below(10) {
			0..=3 => {
				c[p] = match rng.below(6) {
					0 => c[p].wrapping_add(1),
					1 => c[p].wrapping_sub(1) & 0xffff_ffff,
					2 if !env.consts.is_empty() => *rng.pick(&env.consts),
					3 => rng.below(0x110000),
					_ => rng.below(16),
				}
			}
			4 => {
				let q = (p + 1 + rng.below(8) as usize).min(c.len());
				c.drain(p..q);
			}
			5 => {
				let q = (p + 1 + rng.below(24) as usize).min(c.len());
				let s: Vec<u64> = c[p..q].to_vec();
				let at = rng.below(c.len() as u64 + 1) as usize;
				c.splice(at..at, s);
			}
			6 => {
				let o = &corpus[rng.below(n) as usize];
				if !o.is_empty() {
					let a = rng.below(o.len() as u64) as usize;
					let b = (a + 1 + rng.below(40) as usize).min(o.len());
					c.splice(p..p, o[a..b].iter().copied());
				}
			}
			7 => c.truncate(p),
			8 => {
				let v = rng.below(16);
				c.insert(p, v)
			}
			_ => {
				let q = rng.below(c.len() as u64) as usize;
				c.swap(p, q);
			}
		}
		if c.len() > 8000 {
			c.truncate(8000);
		}
	}
	c
}

pub fn encode_failure(id: &str, f: &Failure) -> String {
	let mut o = String::new();
	let _ = write!(o, "{{\"property\":{},\n\"message\":{},\n\"notes\":[", jstr(id), jstr(&clip(&f.message, 4000)));
	for (i, n) in f.notes.iter().enumerate() {
		if i > 0 {
			o.push(',');
		}
		let _ = write!(o, "\n {}", jstr(&clip(n, 20000)));
	}
	o.push_str("],\n\"cases\":[");
	for (i, c) in f.cases.iter().enumerate() {
		if i > 0 {
			o.push(',');
		}
		let _ = write!(o, "\n [{}]", c.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(","));
	}
	o.push_str("]}\n");
	o
}
/// reads back "property" and "cases" of a file written by `encode_failure`
pub fn decode_cases(text: &str) -> Option<(String, Vec<Vec<u64>>)> {
	let id = text.split("\"property\":\"").nth(1)?.split('"').next()?.to_string();
	let tail = &text[text.rfind("\"cases\":[")? + 9..];
	let mut cases = Vec::new();
	let mut cur: Option<Vec<u64>> = None;
	let mut num = String::new();
	for ch in tail.chars() {
		match ch {
			'[' => cur = Some(Vec::new()),
			'0'..='9' => num.push(ch),
			',' | ']' => {
				if let (Some(c), false) = (cur.as_mut(), num.is_empty()) {
					c.push(num.parse().ok()?);
				}
				num.clear();
				if ch == ']' {
					match cur.take() {
						Some(c) => cases.push(c),
						None => break,
					}
				}
			}
			_ => {}
		}
	}
	Some((id, cases))
}
