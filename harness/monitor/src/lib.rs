//! Shared machinery of the harnesses: byte-driven inputs, recorders of what the monitors observed,
//! and the driver that runs histories at random, from a replay file or under libFuzzer.
use std::{
	collections::{BTreeMap, HashSet},
	fmt::Write as _,
	panic::{catch_unwind, AssertUnwindSafe},
	sync::{
		atomic::{AtomicBool, AtomicU64, Ordering},
		Mutex,
	},
	time::{Duration, Instant},
};
pub mod dict;
pub mod record;
pub use dict::Dict;

/// splitmix64 / xorshift based generator; deterministic in its seed.
#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
	pub fn new(seed: u64) -> Self {
		Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xD1B5_4A32_D192_ED03)
	}
	pub fn next(&mut self) -> u64 {
		self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
		let mut z = self.0;
		z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
		z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
		z ^ (z >> 31)
	}
	pub fn below(&mut self, n: u64) -> u64 {
		self.next() % n.max(1)
	}
	pub fn bytes(&mut self, n: usize) -> Vec<u8> {
		let mut v = Vec::with_capacity(n + 8);
		while v.len() < n {
			v.extend_from_slice(&self.next().to_le_bytes());
		}
		v.truncate(n);
		v
	}
}

/// Where a history takes its choices from: a byte string, read front to back. Once it is used up
/// every further choice is 0 and `done()` is true, so a history is determined by its bytes.
pub struct Src<'a> {
	data: &'a [u8],
	pos: usize,
	pub dict: &'a Dict,
}
impl<'a> Src<'a> {
	pub fn new(data: &'a [u8], dict: &'a Dict) -> Self {
		Self { data, pos: 0, dict }
	}
	pub fn done(&self) -> bool {
		self.pos >= self.data.len()
	}
	pub fn u8(&mut self) -> u8 {
		let b = self.data.get(self.pos).copied().unwrap_or(0);
		self.pos += 1;
		b
	}
	pub fn below(&mut self, n: u64) -> u64 {
		if n <= 1 {
			return 0;
		}
		if n <= 256 {
			return self.u8() as u64 % n;
		}
		if n <= 65536 {
			return self.uint(2) as u64 % n;
		}
		self.uint(8) as u64 % n
	}
	pub fn bool(&mut self) -> bool {
		self.u8() & 1 == 1
	}
	pub fn chance(&mut self, one_in: u64) -> bool {
		self.below(one_in) == one_in - 1
	}
	pub fn uint(&mut self, bytes: usize) -> u128 {
		(0..bytes).fold(0u128, |a, _| (a << 8) | self.u8() as u128)
	}
	pub fn pick<T: Clone>(&mut self, xs: &[T]) -> T {
		let i = self.below(xs.len() as u64) as usize;
		xs[i].clone()
	}
	pub fn bytes(&mut self, n: usize) -> Vec<u8> {
		(0..n).map(|_| self.u8()).collect()
	}
	pub fn rest(&mut self) -> &'a [u8] {
		let p = self.pos.min(self.data.len());
		self.pos = self.data.len();
		&self.data[p..]
	}
	/// An integer of the given width: raw, a power-of-two edge, small, or a literal that occurs in
	/// the code under test (and its neighbours).
	pub fn interesting(&mut self, bits: u32) -> u128 {
		let mask = if bits >= 128 { u128::MAX } else { (1u128 << bits) - 1 };
		let v = match self.u8() % 8 {
			0 => self.uint((bits as usize + 7) / 8),
			1 => self.below(16) as u128,
			2 => {
				let s = self.below(bits as u64 + 1) as u32;
				let p = if s >= 128 { 0 } else { 1u128 << s };
				p.wrapping_add(self.below(3) as u128).wrapping_sub(1)
			}
			3 => mask.wrapping_sub(self.below(3) as u128),
			4 => self.uint(1),
			5 => self.uint(2),
			_ => {
				let v = self.dict.int(self.uint(2) as usize);
				v.wrapping_add(self.below(3) as u128).wrapping_sub(1)
			}
		};
		v & mask
	}
}

/// A refuting observation.
#[derive(Clone, Debug)]
pub struct Violation {
	pub property: &'static str,
	pub what: String,
	/// key of a recorded known finding this is an instance of
	pub known: Option<&'static str>,
}
/// What one history's monitors saw.
#[derive(Default)]
pub struct Report {
	pub violations: Vec<Violation>,
	pub events: u64,
	pub counts: BTreeMap<&'static str, u64>,
	pub states: Vec<(&'static str, u64)>,
	pub trace: Vec<String>,
	pub tracing: bool,
	/// when the history is recorded for comparison with other executions of it
	pub recorder: Option<Box<record::Recorder>>,
}
impl Report {
	pub fn fail(&mut self, property: &'static str, what: impl Into<String>) {
		let what = what.into();
		if self.tracing {
			self.trace.push(format!("!! {property}: {what}"));
		}
		self.violations.push(Violation { property, what, known: None })
	}
	pub fn known(&mut self, property: &'static str, key: &'static str, what: impl Into<String>) {
		self.violations.push(Violation { property, what: what.into(), known: Some(key) })
	}
	pub fn check(&mut self, property: &'static str, ok: bool, what: impl FnOnce() -> String) {
		*self.counts.entry(property).or_default() += 1;
		if !ok {
			let w = what();
			self.fail(property, w)
		}
	}
	/// One observation for a property, hashed from what makes it distinct.
	pub fn saw(&mut self, property: &'static str, state: impl std::hash::Hash) {
		use std::hash::{BuildHasher, BuildHasherDefault};
		let h = BuildHasherDefault::<std::collections::hash_map::DefaultHasher>::default().hash_one(state);
		self.states.push((property, h));
	}
	pub fn count(&mut self, what: &'static str) {
		*self.counts.entry(what).or_default() += 1
	}
	/// Has `f`, which must roll back what it does, go first in executions recorded in company.
	pub fn rehearse(&mut self, f: impl FnOnce()) {
		if self.recorder.as_mut().is_some_and(|x| x.rehearses()) {
			let _ = no_panic(f);
		}
	}
	pub fn log(&mut self, f: impl FnOnce() -> String) {
		self.events += 1;
		if let Some(rec) = &mut self.recorder {
			rec.step(&f());
		} else if self.tracing {
			let s = f();
			self.trace.push(s)
		}
	}
}

#[derive(Default)]
struct Totals {
	evaluations: u64,
	events: u64,
	distinct: HashSet<u64>,
	counts: BTreeMap<&'static str, u64>,
	samples: Vec<String>,
	violations: Vec<(Violation, Vec<u8>)>,
	known: BTreeMap<&'static str, (u64, String)>,
	other: BTreeMap<&'static str, u64>,
	histories: u64,
	/// histories the harness itself could not follow: how many, and why the first one
	undecided: (u64, String),
}
static TOTALS: Mutex<Option<Totals>> = Mutex::new(None);

pub struct Options {
	pub property: String,
	pub seed: u64,
	pub secs: f64,
	pub out: Option<String>,
	pub artifacts: Option<String>,
	pub replay: Option<String>,
	pub threads: usize,
	pub max_len: usize,
}
impl Options {
	pub fn from_args() -> Self {
		let a: Vec<String> = std::env::args().collect();
		let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
		Options {
			property: get("--property").unwrap_or_default(),
			seed: get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1),
			secs: get("--secs").and_then(|s| s.parse().ok()).unwrap_or(10.0),
			out: get("--out"),
			artifacts: get("--artifacts"),
			replay: get("--replay"),
			threads: get("--threads").and_then(|s| s.parse().ok()).unwrap_or(8),
			max_len: get("--max-len").and_then(|s| s.parse().ok()).unwrap_or(0),
		}
	}
}

/// The property this process was asked to decide, if it was asked for one.
pub fn wanted() -> &'static str {
	static W: std::sync::OnceLock<String> = std::sync::OnceLock::new();
	W.get_or_init(|| match Options::from_args().property {
		p if p.is_empty() => std::env::var("VERIF_PROPERTY").unwrap_or_default(),
		p => p,
	})
}

/// A workload: turns a byte string into one monitored history.
pub type Body = fn(&mut Src, &mut Report);

thread_local!(static LAST_PANIC: std::cell::RefCell<String> = Default::default());
pub fn install_panic_hook() {
	std::panic::set_hook(Box::new(|i| {
		let s = format!("{i}").replace('\n', " ");
		LAST_PANIC.with(|p| *p.borrow_mut() = s);
	}));
}
pub fn last_panic() -> String {
	LAST_PANIC.with(|p| p.borrow().clone())
}
/// Runs code under test; a panic in it becomes an `Err` with its message.
pub fn no_panic<R>(f: impl FnOnce() -> R) -> Result<R, String> {
	catch_unwind(AssertUnwindSafe(f)).map_err(|_| last_panic())
}

fn run_one(body: Body, dict: &Dict, data: &[u8], tracing: bool) -> Result<Report, String> {
	let mut r = Report { tracing, ..Default::default() };
	let mut src = Src::new(data, dict);
	match catch_unwind(AssertUnwindSafe(|| body(&mut src, &mut r))) {
		Ok(()) => Ok(r),
		Err(_) => Err(last_panic()),
	}
}

fn merge(property: &str, r: Report, data: &[u8]) {
	let mut g = TOTALS.lock().unwrap_or_else(|p| p.into_inner());
	let t = g.get_or_insert_with(Default::default);
	t.evaluations += r.counts.get(property).copied().unwrap_or(0);
	t.events += r.events;
	t.histories += 1;
	for (k, n) in r.counts {
		*t.counts.entry(k).or_default() += n;
	}
	for (p, h) in r.states {
		if p == property && t.distinct.len() < 2_000_000 {
			t.distinct.insert(h);
		}
	}
	if t.samples.len() < 5 && !r.trace.is_empty() {
		let mut s = r.trace.join(" | ");
		if s.len() > 1500 {
			let mut e = 1500;
			while !s.is_char_boundary(e) {
				e -= 1
			}
			s.truncate(e);
		}
		t.samples.push(s);
	}
	for v in r.violations {
		if v.property != property {
			*t.other.entry(v.property).or_default() += 1;
		} else if let Some(k) = v.known {
			let e = t.known.entry(k).or_insert((0, v.what.clone()));
			e.0 += 1;
		} else if t.violations.len() < 8 {
			t.violations.push((v, data.to_vec()));
		}
	}
}

/// The harness panicked: the history says nothing. A few are put down in the evidence, many are no verdict.
fn undecided(what: &str, data: &[u8]) -> bool {
	let mut g = TOTALS.lock().unwrap_or_else(|p| p.into_inner());
	let t = g.get_or_insert_with(Default::default);
	t.undecided.0 += 1;
	if t.undecided.0 == 1 {
		t.undecided.1 = format!("{what}; data {}", hex(data));
	}
	t.undecided.0 > 20 + t.histories / 500
}

pub fn esc(s: &str) -> String {
	let mut o = String::with_capacity(s.len() + 2);
	o.push('"');
	for c in s.chars() {
		match c {
			'"' => o.push_str("\\\""),
			'\\' => o.push_str("\\\\"),
			'\n' => o.push_str("\\n"),
			c if (c as u32) < 32 || c as u32 == 127 => {
				let _ = write!(o, "\\u{:04x}", c as u32);
			}
			c => o.push(c),
		}
	}
	o.push('"');
	o
}
pub fn hex(b: &[u8]) -> String {
	b.iter().map(|x| format!("{x:02x}")).collect()
}
pub fn unhex(s: &str) -> Vec<u8> {
	let s = s.trim();
	(0..s.len() / 2).filter_map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).ok()).collect()
}

fn summary(property: &str, inconclusive: Option<&str>, wall: f64) -> String {
	let g = TOTALS.lock().unwrap_or_else(|p| p.into_inner());
	let empty = Totals::default();
	let t = g.as_ref().unwrap_or(&empty);
	let counts: Vec<String> = t.counts.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect();
	let other: Vec<String> = t.other.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect();
	let samples: Vec<String> = t.samples.iter().map(|s| esc(s)).collect();
	let viol: Vec<String> = t
		.violations
		.iter()
		.map(|(v, d)| format!("{{\"what\":{},\"data\":{}}}", esc(&v.what), esc(&hex(d))))
		.collect();
	let known: Vec<String> =
		t.known.iter().map(|(k, (n, w))| format!("{{\"key\":{},\"count\":{},\"what\":{}}}", esc(k), n, esc(w))).collect();
	format!(
		"{{\"property\":{},\"evaluations\":{},\"distinct\":{},\"events\":{},\"wall_s\":{:.3},\"counts\":{{{}}},\"other\":{{{}}},\"samples\":[{}],\"violations\":[{}],\"known\":[{}],\"histories\":{},\"undecided\":{},\"undecided_first\":{},\"inconclusive\":{}}}",
		esc(property),
		t.evaluations,
		t.distinct.len(),
		t.events,
		wall,
		counts.join(","),
		other.join(","),
		samples.join(","),
		viol.join(","),
		known.join(","),
		t.histories,
		t.undecided.0,
		esc(&t.undecided.1),
		inconclusive.map(esc).unwrap_or("null".into())
	)
}

/// Random exploration (all cores) or replay. Exit code: 0 held, 1 violated, 2 inconclusive.
pub fn drive(body: Body, dict: Dict, default_len: usize) -> ! {
	let o = Options::from_args();
	install_panic_hook();
	let start = Instant::now();
	if let Some(r) = &o.replay {
		let data = if r.ends_with(".hex") {
			unhex(&std::fs::read_to_string(r).expect("replay file"))
		} else {
			std::fs::read(r).expect("replay file")
		};
		match run_one(body, &dict, &data, true) {
			Ok(rep) => {
				for l in &rep.trace {
					println!("{l}");
				}
				merge(&o.property, rep, &data);
			}
			Err(p) => {
				eprintln!("harness panic: {p}");
				std::process::exit(2)
			}
		}
		let s = summary(&o.property, None, start.elapsed().as_secs_f64());
		if let Some(p) = &o.out {
			std::fs::write(p, &s).expect("write out");
		}
		let bad = TOTALS.lock().unwrap().as_ref().map(|t| !t.violations.is_empty()).unwrap_or(false);
		std::process::exit(bad as i32)
	}
	let stop = AtomicBool::new(false);
	let iter = AtomicU64::new(0);
	let panics: Mutex<Option<(String, Vec<u8>)>> = Mutex::new(None);
	let deadline = start + Duration::from_secs_f64(o.secs);
	let len = if o.max_len > 0 { o.max_len } else { default_len };
	std::thread::scope(|s| {
		for _ in 0..o.threads.max(1) {
			std::thread::Builder::new()
				.stack_size(64 << 20)
				.spawn_scoped(s, || {
					while !stop.load(Ordering::Relaxed) && Instant::now() < deadline {
						let i = iter.fetch_add(1, Ordering::Relaxed);
						let mut rng = Rng::new(o.seed.wrapping_mul(1_000_003).wrapping_add(i));
						let n = match rng.below(4) {
							0 => len / 8,
							1 => len / 3,
							_ => len,
						};
						let data = rng.bytes(n.max(8));
						match run_one(body, &dict, &data, i < 5) {
							Ok(r) => {
								let hit = r.violations.iter().any(|v| v.property == o.property && v.known.is_none());
								merge(&o.property, r, &data);
								if hit {
									stop.store(true, Ordering::Relaxed);
								}
							}
							Err(p) => {
								if undecided(&p, &data) {
									*panics.lock().unwrap() = Some((p, data));
									stop.store(true, Ordering::Relaxed);
								}
							}
						}
					}
				})
				.expect("spawn");
		}
	});
	let p = panics.lock().unwrap().clone();
	let s = summary(
		&o.property,
		p.as_ref().map(|(m, d)| format!("harness panicked: {m}; data {}", hex(d))).as_deref(),
		start.elapsed().as_secs_f64(),
	);
	match &o.out {
		Some(f) => std::fs::write(f, &s).expect("write out"),
		None => println!("{s}"),
	}
	let bad = TOTALS.lock().unwrap().as_ref().map(|t| !t.violations.is_empty()).unwrap_or(false);
	std::process::exit(if bad {
		1
	} else if p.is_some() {
		2
	} else {
		0
	})
}

/// One input under libFuzzer. A violation is written to `$VERIF_FUZZ_HIT` and aborts the process.
pub fn fuzz_one(body: Body, dict: &Dict, data: &[u8]) {
	static N: AtomicU64 = AtomicU64::new(0);
	static PROP: std::sync::OnceLock<String> = std::sync::OnceLock::new();
	static START: std::sync::OnceLock<Instant> = std::sync::OnceLock::new();
	let prop = PROP.get_or_init(|| {
		install_panic_hook();
		START.get_or_init(Instant::now);
		std::env::var("VERIF_PROPERTY").unwrap_or_default()
	});
	let i = N.fetch_add(1, Ordering::Relaxed);
	match run_one(body, dict, data, i < 2) {
		Ok(r) => {
			let hit = r.violations.iter().find(|v| v.property == prop && v.known.is_none()).cloned();
			merge(prop, r, data);
			let dump = |p: &str| {
				let s = summary(prop, None, START.get().unwrap().elapsed().as_secs_f64());
				let _ = std::fs::write(p, s);
			};
			if i % 512 == 511 || hit.is_some() {
				if let Ok(p) = std::env::var("VERIF_FUZZ_OUT") {
					dump(&p);
				}
			}
			if let Some(v) = hit {
				eprintln!("VERIF-HIT {}: {}", v.property, v.what);
				if let Ok(p) = std::env::var("VERIF_FUZZ_HIT") {
					let _ = std::fs::write(p, hex(data));
				}
				std::process::abort();
			}
		}
		Err(p) => {
			if undecided(&p, data) {
				eprintln!("VERIF-HARNESS-PANIC {p}");
				std::process::abort();
			}
		}
	}
}
