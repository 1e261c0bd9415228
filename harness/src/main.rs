//! kv: property-based testing and guided fuzzing of the kiss_xml crate.
//!   kv run <id>        run the check of a property (VERIF_SEED, VERIF_TIER)
//!   kv replay <file>   re-run a stored counterexample (exit 1 if it still fails)
//!   kv list            the properties
mod cov;
#[macro_use]
mod engine;
mod fresh;
mod gen;
mod model;
mod props;
mod refxml;
mod surface;
mod util;

use engine::*;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};
use util::*;

extern "C" {
	fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
	fn dup2(a: i32, b: i32) -> i32;
	fn setrlimit(r: i32, l: *const [u64; 2]) -> i32;
	fn signal(s: i32, h: usize) -> usize;
}
pub fn set_limit(res: i32, soft: u64, hard: u64) {
	unsafe {
		setrlimit(res, &[soft, hard]);
	}
}

const WORKERS: u64 = 8;
fn verif() -> PathBuf {
	Path::new(env!("CARGO_MANIFEST_DIR")).parent().unwrap().to_path_buf()
}
fn repo_src() -> PathBuf {
	Path::new(env!("CARGO_MANIFEST_DIR")).join("../../repo/src")
}

fn main() {
	let a: Vec<String> = std::env::args().collect();
	let code = match a.get(1).map(|s| s.as_str()) {
		Some("list") => {
			for p in props::all() {
				println!("{}", p.id);
			}
			0
		}
		Some("run") => run(&a[2]),
		Some("worker") => worker(&a[2..]),
		Some("replay") => replay(&a[2]),
		Some("witness") => {
			quiet();
			let (id, name) = (&a[2], &a[3]);
			let p = props::all().into_iter().find(|p| p.id == id).expect("property");
			let w = p.witnesses.iter().find(|w| w.0 == name).expect("witness");
			w.2() as i32
		}
		_ => {
			eprintln!("usage: kv run <id> | replay <file> | list");
			2
		}
	};
	std::process::exit(code);
}

/// string and number literals of the crate's source, used to propose inputs
fn literals() -> (Vec<String>, Vec<u64>) {
	let mut strs: Vec<String> = Vec::new();
	let mut nums: Vec<u64> = Vec::new();
	let mut files: Vec<PathBuf> = Vec::new();
	let mut dirs = vec![repo_src()];
	while let Some(d) = dirs.pop() {
		for e in std::fs::read_dir(&d).into_iter().flatten().flatten() {
			let p = e.path();
			if p.is_dir() {
				dirs.push(p);
			} else if p.extension().map_or(false, |x| x == "rs") {
				files.push(p);
			}
		}
	}
	files.sort();
	for f in files {
		let t: Vec<char> = std::fs::read_to_string(&f).unwrap_or_default().chars().collect();
		let mut i = 0;
		let at = |i: usize| t.get(i).copied().unwrap_or('\0');
		while i < t.len() {
			if at(i) == '/' && at(i + 1) == '/' {
				while i < t.len() && t[i] != '\n' {
					i += 1;
				}
			} else if at(i) == '/' && at(i + 1) == '*' {
				let mut d = 1;
				i += 2;
				while i < t.len() && d > 0 {
					if at(i) == '*' && at(i + 1) == '/' {
						d -= 1;
						i += 2;
					} else if at(i) == '/' && at(i + 1) == '*' {
						d += 1;
						i += 2;
					} else {
						i += 1;
					}
				}
			} else if at(i) == 'r' && (at(i + 1) == '"' || (at(i + 1) == '#' && (at(i + 2) == '"' || at(i + 2) == '#'))) {
				let mut h = 0;
				i += 1;
				while at(i) == '#' {
					h += 1;
					i += 1;
				}
				i += 1;
				let mut s = String::new();
				while i < t.len() && !(t[i] == '"' && (1..=h).all(|k| at(i + k) == '#')) {
					s.push(t[i]);
					i += 1;
				}
				i += 1 + h;
				strs.push(s);
			} else if at(i) == '"' {
				i += 1;
				let mut s = String::new();
				while i < t.len() && t[i] != '"' {
					if t[i] == '\\' {
						i += 1;
						match at(i) {
							'n' => s.push('\n'),
							't' => s.push('\t'),
							'r' => s.push('\r'),
							'0' => s.push('\0'),
							'u' => {
								let e = (i..t.len()).find(|k| t[*k] == '}').unwrap_or(i);
								let h: String = t[(i + 2).min(e)..e].iter().collect();
								s.extend(u32::from_str_radix(&h, 16).ok().and_then(char::from_u32));
								i = e;
							}
							'x' => {
								let h: String = t[i + 1..(i + 3).min(t.len())].iter().collect();
								s.extend(u32::from_str_radix(&h, 16).ok().and_then(char::from_u32));
								i += 2;
							}
							'\n' => {}
							c => s.push(c),
						}
						i += 1;
					} else {
						s.push(t[i]);
						i += 1;
					}
				}
				i += 1;
				strs.push(s);
			} else if at(i) == '\'' && at(i + 2) == '\'' && at(i + 1) != '\\' {
				strs.push(at(i + 1).to_string());
				i += 3;
			} else if t[i].is_ascii_digit() && (i == 0 || !(at(i - 1).is_alphanumeric() || at(i - 1) == '_')) {
				let mut s = String::new();
				while at(i).is_alphanumeric() || at(i) == '_' {
					s.push(t[i]);
					i += 1;
				}
				let s = s.replace('_', "");
				let v = match s.strip_prefix("0x") {
					Some(h) => u64::from_str_radix(h.trim_end_matches("usize").trim_end_matches("u32"), 16).ok(),
					None => s.trim_end_matches(|c: char| !c.is_ascii_digit()).parse().ok(),
				};
				nums.extend(v);
			} else {
				i += 1;
			}
		}
	}
	strs.retain(|s| {
		let n = s.chars().count();
		n >= 1 && n <= 28 && !s.contains('{')
	});
	strs.sort();
	strs.dedup();
	nums.retain(|v| *v > 2);
	nums.sort();
	nums.dedup();
	(strs, nums)
}

/// no warnings of the library on stderr, panic locations kept for messages
fn quiet() {
	use std::os::fd::AsRawFd;
	std::panic::set_hook(Box::new(|i| {
		if let Ok(mut g) = LAST_PANIC.lock() {
			*g = i.location().map(|l| format!("({}:{})", l.file(), l.line())).unwrap_or_default();
		}
	}));
	if std::env::var_os("KV_STDERR").is_none() {
		if let Ok(f) = std::fs::OpenOptions::new().write(true).open("/dev/null") {
			unsafe {
				dup2(f.as_raw_fd(), 2);
			}
		}
	}
	unsafe {
		signal(25, 1); // SIGXFSZ ignored: writes over the limit fail with EFBIG
	}
	set_limit(9, 3 << 30, 3 << 30); // RLIMIT_AS
	set_limit(4, 0, 0); // no core files
}

fn map_shm(path: &Path) -> *mut u64 {
	use std::os::fd::AsRawFd;
	let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path).expect("shm");
	f.set_len((MAX_CHOICES * 8 + 64) as u64).expect("shm size");
	let p = unsafe { mmap(std::ptr::null_mut(), MAX_CHOICES * 8 + 64, 3, 1, f.as_raw_fd(), 0) };
	assert!(p as isize != -1, "mmap");
	p as *mut u64
}

fn plan(p: &Prop, tier: &str) -> (u64, u64) {
	if let Ok(v) = std::env::var("KV_PLAN") {
		let v: Vec<u64> = v.split(',').filter_map(|x| x.parse().ok()).collect();
		return (v[0], v[1]);
	}
	if tier == "thorough" {
		p.thorough
	} else {
		p.quick
	}
}

/// worker <id> <tier> <seed> <idx> <dir> <deadline secs>
fn worker(a: &[String]) -> i32 {
	quiet();
	let prop = props::all().into_iter().find(|p| p.id == a[0]).expect("property");
	if prop.id == "C20" {
		fresh::start(props::c20::alone);
	}
	let (seed, idx): (u64, u64) = (a[2].parse().unwrap(), a[3].parse().unwrap());
	let dir = PathBuf::from(&a[4]);
	let (dict, nums) = literals();
	let shm = map_shm(&dir.join(format!("shm.{idx}")));
	let scratch = dir.join(format!("w{idx}"));
	std::fs::create_dir_all(&scratch).unwrap();
	let mut runner = Runner::new(&prop, dict, shm, scratch);
	runner.env.consts = nums.clone();
	runner.base_consts = nums;
	let (random, guided) = plan(&prop, &a[1]);
	let mut w = Worker {
		r: runner,
		seed,
		idx,
		n: WORKERS,
		random,
		guided,
		deadline: Instant::now() + Duration::from_secs(a[5].parse().unwrap()),
		early: dir.join(format!("early.{idx}")),
	};
	let rep = w.run();
	// edges seen, for the union over workers
	let edges: Vec<u8> = w.r.seen[..cov::guards() + 1].iter().map(|b| (*b != 0) as u8).collect();
	std::fs::write(dir.join(format!("edges.{idx}")), edges).unwrap();
	std::fs::write(dir.join(format!("hashes.{idx}")), rep.hashes.iter().flat_map(|h| h.to_le_bytes()).collect::<Vec<u8>>()).unwrap();
	let mut o = String::new();
	let _ = writeln!(o, "evaluations {}\ndiscards {}\nguided {}\nsweep {}\ncorpus {}\ntruncated {}", rep.evaluations, rep.discards, rep.guided, rep.sweep, rep.corpus, rep.truncated as u8);
	for (l, c) in &rep.labels {
		let _ = writeln!(o, "label {c} {l}");
	}
	for (i, s) in &rep.samples {
		let _ = writeln!(o, "sample {i} {}", jstr(s));
	}
	std::fs::write(dir.join(format!("report.{idx}")), o).unwrap();
	if let Some(f) = rep.failure {
		std::fs::write(dir.join(format!("fail.{idx}")), encode_failure(prop.id, &f)).unwrap();
		return 1;
	}
	0
}

fn replay(file: &str) -> i32 {
	let Ok(text) = std::fs::read_to_string(file) else {
		eprintln!("cannot read {file}");
		return 2;
	};
	let Some((id, cases)) = decode_cases(&text) else {
		eprintln!("cannot decode {file}");
		return 2;
	};
	let Some(prop) = props::all().into_iter().find(|p| p.id == id) else { return 2 };
	quiet();
	if prop.id == "C20" {
		fresh::start(props::c20::alone);
	}
	let (dict, _) = literals();
	let dir = std::env::temp_dir().join(format!("kv-replay-{}", std::process::id()));
	std::fs::create_dir_all(&dir).unwrap();
	let r = Runner::new(&prop, dict, std::ptr::null_mut(), dir.clone());
	let mut code = 0;
	for (i, c) in cases.iter().enumerate() {
		let res = r.run_case(c, false, 0);
		if i + 1 == cases.len() {
			for n in &res.ctx.notes {
				println!("{n}");
			}
			match res.outcome {
				Outcome::Bad(m) => {
					println!("FAILS: {m}");
					code = 1;
				}
				Outcome::Ok => println!("holds"),
				Outcome::Discard => println!("holds (case discarded)"),
			}
		}
	}
	let _ = std::fs::remove_dir_all(&dir);
	code
}

enum Sub {
	Exit(i32),
	Signal(i32),
	Timeout,
}
fn wait_sub(mut c: Child, secs: u64) -> Sub {
	let t0 = Instant::now();
	loop {
		if let Ok(Some(s)) = c.try_wait() {
			return match s.code() {
				Some(c) => Sub::Exit(c),
				None => Sub::Signal(s.signal().unwrap_or(0)),
			};
		}
		if t0.elapsed().as_secs() > secs {
			let _ = c.kill();
			let _ = c.wait();
			return Sub::Timeout;
		}
		std::thread::sleep(Duration::from_millis(10));
	}
}
fn me() -> Command {
	Command::new(std::env::current_exe().unwrap())
}
/// does the stored case fail in a fresh process? (None: no; Some(how))
fn confirm(path: &Path) -> Option<String> {
	let c = me().arg("replay").arg(path).stdout(Stdio::null()).stderr(Stdio::null()).spawn().ok()?;
	match wait_sub(c, 180) {
		Sub::Exit(0) | Sub::Exit(2) => None,
		Sub::Exit(1) => Some("fails".into()),
		Sub::Exit(cov::STEP_EXIT) => Some(format!("does not terminate within {STEP_LIMIT} executed edges")),
		Sub::Exit(_) => None,
		Sub::Signal(9) => None,
		Sub::Signal(s) => Some(format!("process killed by signal {s} (abort or stack overflow)")),
		Sub::Timeout => Some("does not terminate within 180 s".into()),
	}
}

fn run(id: &str) -> i32 {
	let t0 = Instant::now();
	let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
	let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
	let tier = if tier == "thorough" { "thorough" } else { "quick" };
	let Some(prop) = props::all().into_iter().find(|p| p.id == id) else {
		eprintln!("no property {id}");
		return 2;
	};
	let dir = std::env::temp_dir().join(format!("kv-{id}-{}", std::process::id()));
	std::fs::create_dir_all(&dir).unwrap();
	let deadline: u64 = if tier == "thorough" { 5400 } else { 400 };
	let mut kids: Vec<(u64, Option<Child>, *mut u64, u64, Instant)> = Vec::new();
	let spawn = |i: u64| {
		me().args(["worker", id, tier, &seed.to_string(), &i.to_string()])
			.arg(&dir)
			.arg(deadline.to_string())
			.stdin(Stdio::null())
			.stdout(Stdio::null())
			.stderr(Stdio::inherit())
			.spawn()
			.expect("worker")
	};
	for i in 0..WORKERS {
		let shm = map_shm(&dir.join(format!("shm.{i}")));
		kids.push((i, Some(spawn(i)), shm, 0, Instant::now()));
	}
	// (worker, how it ended, replay candidate)
	let mut suspects: Vec<(u64, String)> = Vec::new();
	let mut errors: Vec<String> = Vec::new();
	let mut stop_at: Option<Instant> = None;
	loop {
		let mut alive = 0;
		for (i, kid, shm, last, since) in kids.iter_mut() {
			let Some(c) = kid else { continue };
			match c.try_wait() {
				Ok(Some(s)) => {
					*kid = None;
					match (s.code(), s.signal()) {
						(Some(0), _) => {}
						(Some(1), _) => suspects.push((*i, "fail".into())),
						(Some(cov::STEP_EXIT), _) => suspects.push((*i, "steps".into())),
						(_, Some(9)) => {
							if stop_at.is_none() {
								errors.push(format!("worker {i} was killed"));
							}
						}
						(_, Some(g)) => suspects.push((*i, format!("signal {g}"))),
						(c, _) => errors.push(format!("worker {i} ended with {c:?}")),
					}
				}
				Ok(None) => {
					alive += 1;
					let n = unsafe { std::ptr::read_volatile(*shm) };
					if n != *last {
						*last = n;
						*since = Instant::now();
					} else if since.elapsed().as_secs() > 150 {
						let _ = c.kill();
						let _ = c.wait();
						*kid = None;
						suspects.push((*i, "stuck".into()));
					}
				}
				Err(e) => errors.push(format!("{e}")),
			}
		}
		if alive == 0 {
			break;
		}
		if !suspects.is_empty() && stop_at.is_none() {
			// give the others a moment, they may have something smaller
			stop_at = Some(Instant::now() + Duration::from_secs(2));
		}
		if stop_at.map_or(false, |t| Instant::now() > t) {
			for (_, kid, ..) in kids.iter_mut() {
				if let Some(mut c) = kid.take() {
					let _ = c.kill();
					let _ = c.wait();
				}
			}
			break;
		}
		std::thread::sleep(Duration::from_millis(20));
	}

	// replay files of suspects, confirmed in a fresh process
	let rdir = verif().join("replays");
	let mut violation: Option<(PathBuf, String)> = None;
	let mut cands: Vec<(usize, String, Vec<Vec<u64>>, String)> = Vec::new();
	for (i, how) in &suspects {
		let read = |n: &str| std::fs::read_to_string(dir.join(format!("{n}.{i}"))).ok();
		let shm = kids[*i as usize].2;
		let mut push = |text: String, how: &str| {
			if let Some((_, c)) = decode_cases(&text) {
				let head = text[..text.rfind("\"cases\":[").unwrap_or(0)].to_string();
				cands.push((c.iter().map(|x| x.len()).sum::<usize>() + 1000 * (c.len() - 1), head, c, how.to_string()));
			}
		};
		if let Some(t) = read("fail") {
			push(t, how);
		}
		if let Some(t) = read("early") {
			push(t, how);
		}
		if how != "fail" {
			let n = unsafe { *shm.add(1) } as usize;
			let c: Vec<u64> = (0..n.min(MAX_CHOICES)).map(|k| unsafe { *shm.add(2 + k) }).collect();
			push(encode_failure(id, &Failure { message: format!("worker ended: {how}"), notes: vec![], cases: vec![c] }), how);
		}
	}
	cands.sort_by_key(|c| c.0);
	'outer: for (_, head, cases, how) in &cands {
		let _ = std::fs::create_dir_all(&rdir);
		let mut ks: Vec<usize> = vec![1];
		while *ks.last().unwrap() < cases.len() {
			ks.push((ks.last().unwrap() * 2).min(cases.len()));
		}
		for k in ks {
			let sub = &cases[cases.len() - k..];
			let f = Failure { message: String::new(), notes: vec![], cases: sub.to_vec() };
			let enc = encode_failure(id, &f);
			let text = format!("{head}{}", &enc[enc.rfind("\"cases\":[").unwrap()..]);
			let path = rdir.join(format!("{id}-{:016x}.json", fnv(enc.as_bytes())));
			std::fs::write(&path, text).unwrap();
			if let Some(h) = confirm(&path) {
				let best = if h == "fails" || h.contains("180 s") { None } else { shrink_outside(id, sub.last().unwrap(), k == 1, &h, &rdir) };
				let path = match best {
					Some(p) => {
						let _ = std::fs::remove_file(&path);
						p
					}
					None => path,
				};
				violation = Some((path, format!("{how}: {h}")));
				break 'outer;
			}
			let _ = std::fs::remove_file(&path);
		}
	}
	if violation.is_none() && !suspects.is_empty() {
		// the failure needs more history than was kept: run that worker again from the start
		for (i, how) in &suspects {
			let _ = std::fs::remove_file(dir.join(format!("fail.{i}")));
			let again = wait_sub(spawn(*i), deadline);
			let same = match (&again, how.as_str()) {
				(Sub::Exit(1), "fail") => true,
				(Sub::Exit(cov::STEP_EXIT), "steps") => true,
				(Sub::Signal(s), h) => *s != 9 && h == format!("signal {s}"),
				_ => false,
			};
			if same {
				let path = rdir.join(format!("{id}-worker{i}-seed{seed}.json"));
				let t = std::fs::read_to_string(dir.join(format!("fail.{i}"))).unwrap_or_else(|_| encode_failure(id, &Failure { message: how.clone(), notes: vec![format!("happens when worker {i} runs with seed {seed}, tier {tier}")], cases: vec![] }));
				let _ = std::fs::write(&path, t);
				violation = Some((path, format!("reproduced by re-running worker {i} with seed {seed}")));
				break;
			}
			errors.push(format!("worker {i} failed ({how}) but the failure does not reproduce"));
		}
	}

	// known findings
	let mut known = 0;
	for (name, what, _) in prop.witnesses {
		let c = me().args(["witness", id, name]).stdout(Stdio::null()).stderr(Stdio::null()).spawn().expect("witness");
		match wait_sub(c, 120) {
			Sub::Exit(0) => {}
			Sub::Signal(9) | Sub::Timeout => errors.push(format!("witness {name} gave no answer")),
			_ => {
				let listed = std::fs::read_to_string(verif().join("known_findings.txt"))
					.map_or(false, |t| t.lines().any(|l| l.starts_with(&format!("finding: property={id} {name} "))));
				if listed {
					known += 1;
					println!("KNOWN-FINDING: property={id} {name}: {what}");
				} else if violation.is_none() {
					let _ = std::fs::create_dir_all(&rdir);
					let path = rdir.join(format!("{id}-{name}.txt"));
					let _ = std::fs::write(&path, format!("{what}\nreproduce: kv witness {id} {name}\n"));
					violation = Some((path, what.to_string()));
				}
			}
		}
	}

	// evidence
	let mut n: BTreeMap<String, u64> = BTreeMap::new();
	let mut labels: BTreeMap<String, u64> = BTreeMap::new();
	let mut samples: Vec<String> = Vec::new();
	let mut distinct: HashSet<u64> = HashSet::new();
	let mut edges: Vec<u8> = Vec::new();
	for i in 0..WORKERS {
		for line in std::fs::read_to_string(dir.join(format!("report.{i}"))).unwrap_or_default().lines() {
			let mut w = line.splitn(3, ' ');
			let (k, v, rest) = (w.next().unwrap_or(""), w.next().unwrap_or(""), w.next().unwrap_or(""));
			match k {
				"label" => *labels.entry(rest.into()).or_default() += v.parse::<u64>().unwrap_or(0),
				"sample" => {
					if samples.len() < 10 {
						samples.push(rest.into())
					}
				}
				_ => *n.entry(k.into()).or_default() += v.parse::<u64>().unwrap_or(0),
			}
		}
		for b in std::fs::read(dir.join(format!("hashes.{i}"))).unwrap_or_default().chunks_exact(8) {
			distinct.insert(u64::from_le_bytes(b.try_into().unwrap()));
		}
		let e = std::fs::read(dir.join(format!("edges.{i}"))).unwrap_or_default();
		if edges.len() < e.len() {
			edges.resize(e.len(), 0);
		}
		for (a, b) in edges.iter_mut().zip(e) {
			*a |= b;
		}
	}
	let g = |k: &str| n.get(k).copied().unwrap_or(0);
	let wall = t0.elapsed().as_secs_f64();
	let violations = violation.is_some() as u32;
	let mut o = String::new();
	let _ = write!(
		o,
		"{{\"property\":{},\"tier\":{},\"seed\":{seed},\"level\":{},\"coverage\":{{\"evaluations\":{},\"distinct_nontrivial\":{},\"rule\":{},\"samples\":[{}],\"discarded\":{},\"guided_cases\":{},\"fixed_sweep_cases\":{},\"corpus_entries\":{},\"crate_edges_covered\":{},\"crate_edges_total\":{},\"case_classes\":{{{}}},\"cut_short_by_time\":{}}},\"assumptions\":[{}],\"known_findings_seen\":{known},\"wall_s\":{:.2},\"violations\":{violations}}}\n",
		jstr(id), jstr(tier), jstr(if id == "C14" { "fault_enumeration" } else { "exploration" }),
		g("evaluations"), distinct.len(), jstr(prop.rule), samples.join(","), g("discards"), g("guided"), g("sweep"), g("corpus"),
		edges.iter().filter(|b| **b != 0).count(), edges.len().saturating_sub(1),
		labels.iter().map(|(k, v)| format!("{}:{v}", jstr(k))).collect::<Vec<_>>().join(","),
		g("truncated") > 0,
		props::ASSUMPTIONS.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(","),
		wall,
	);
	let ev = verif().join("evidence");
	let _ = std::fs::create_dir_all(&ev);
	std::fs::write(ev.join(format!("{id}.json")), o).expect("evidence");
	let _ = std::fs::remove_dir_all(&dir);
	println!(
		"{id}: {} cases ({} guided, {} fixed, {} discarded), {} distinct non-trivial, {} of {} edges, {wall:.1} s",
		g("evaluations"), g("guided"), g("sweep"), g("discards"), distinct.len(),
		edges.iter().filter(|b| **b != 0).count(), edges.len().saturating_sub(1)
	);
	if let Some((path, how)) = violation {
		println!("{how}");
		if let Ok(t) = std::fs::read_to_string(&path) {
			if let Some(m) = t.lines().find(|l| l.starts_with("\"message\":")) {
				println!("{}", clip(m, 1500));
			}
		}
		println!("VIOLATION property={id} replay={}", path.display());
		return 1;
	}
	if !errors.is_empty() {
		for e in errors {
			println!("ERROR: {e}");
		}
		return 2;
	}
	if g("evaluations") == 0 {
		println!("ERROR: nothing was run");
		return 2;
	}
	0
}

/// shrinks a case that kills the process, one subprocess per attempt
fn shrink_outside(id: &str, case: &[u64], single: bool, how: &str, rdir: &Path) -> Option<PathBuf> {
	if !single {
		return None;
	}
	let t0 = Instant::now();
	let mut cur = case.to_vec();
	let tmp = rdir.join(format!("{id}-shrinking-{}.json", std::process::id()));
	let fails = |c: &[u64]| {
		std::fs::write(&tmp, encode_failure(id, &Failure { message: how.into(), notes: vec![], cases: vec![c.to_vec()] })).unwrap();
		confirm(&tmp).is_some()
	};
	let mut size = cur.len() / 2;
	while size >= 1 && t0.elapsed().as_secs() < 30 {
		let mut i = 0;
		while i + size <= cur.len() && t0.elapsed().as_secs() < 30 {
			let mut c = cur.clone();
			c.drain(i..i + size);
			if fails(&c) {
				cur = c;
			} else {
				i += size;
			}
		}
		size /= 2;
	}
	let enc = encode_failure(id, &Failure { message: format!("the process ends: {how}"), notes: vec![], cases: vec![cur] });
	let _ = std::fs::remove_file(&tmp);
	let path = rdir.join(format!("{id}-{:016x}.json", fnv(enc.as_bytes())));
	std::fs::write(&path, enc).ok()?;
	Some(path)
}
