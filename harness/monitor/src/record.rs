//! Recording executions, to compare those of one history in different builds, processes, threads and
//! companies. A record has one line per history: a digest per step of what was done, what came of it and
//! all of storage.
use crate::{Body, Dict, Report, Rng, Src};
use std::{
	fmt::Write as _,
	panic::{catch_unwind, AssertUnwindSafe},
};

/// How a harness shows its state, and how it tries calls out that are then rolled back.
#[derive(Clone, Copy)]
pub struct Probe {
	pub state: fn(&mut Digest),
	/// returns how many of the calls tried out went through
	pub noise: fn(&mut Src) -> u64,
}

/// FNV-1a over bytes; the same on every target.
pub struct Digest(pub u64);
impl Digest {
	pub fn new() -> Self {
		Digest(0xcbf2_9ce4_8422_2325)
	}
	pub fn add(&mut self, b: &[u8]) {
		for x in (b.len() as u64).to_le_bytes().iter().chain(b) {
			self.0 = (self.0 ^ *x as u64).wrapping_mul(0x0100_0000_01b3);
		}
	}
}

pub struct Recorder {
	probe: Probe,
	pub digests: Vec<u64>,
	pub lines: Option<Vec<String>>,
	noise: Option<Rng>,
	dict: Dict,
	pub tried: u64,
	pub tried_ok: u64,
	pub rehearsed: u64,
}
impl Recorder {
	/// Whether to try out what is about to be done, as a node does that builds a block or looks at its pool.
	pub fn rehearses(&mut self) -> bool {
		let yes = self.noise.as_mut().is_some_and(|rng| rng.below(2) == 0);
		self.rehearsed += yes as u64;
		yes
	}
	pub fn step(&mut self, line: &str) {
		let mut d = Digest::new();
		d.add(line.as_bytes());
		(self.probe.state)(&mut d);
		self.digests.push(d.0);
		if let Some(l) = &mut self.lines {
			l.push(format!("{:016x} {line}", d.0));
		}
		if let Some(rng) = &mut self.noise {
			let data = rng.bytes(96);
			let dict = &self.dict;
			self.tried += 1;
			self.tried_ok += (self.probe.noise)(&mut Src::new(&data, dict));
		}
	}
}

fn one(body: Body, probe: Probe, seed: u64, i: u64, len: usize, noise: bool, show: bool) -> (String, [u64; 3]) {
	let mut rng = Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(i));
	let data = rng.bytes(len / 2 + rng.clone().below(len as u64 / 2) as usize);
	let rec = Recorder {
		probe,
		digests: vec![],
		lines: show.then(Vec::new),
		noise: noise.then(|| Rng::new(i ^ 0x5eed)),
		dict: Dict::harvest(&[]),
		tried: 0,
		tried_ok: 0,
		rehearsed: 0,
	};
	let mut r = Report { recorder: Some(Box::new(rec)), ..Default::default() };
	let dict = Dict::harvest(&[]);
	let mut src = Src::new(&data, &dict);
	let end = catch_unwind(AssertUnwindSafe(|| body(&mut src, &mut r))).is_ok();
	let mut last = Digest::new();
	last.add(&[end as u8]);
	for (k, n) in &r.counts {
		last.add(k.as_bytes());
		last.add(&n.to_le_bytes());
	}
	for v in &r.violations {
		last.add(v.what.as_bytes());
	}
	let mut out = format!("H {i}");
	let Some(mut rec) = r.recorder.take() else { return (out + " lost", [0; 3]) };
	rec.digests.push(last.0);
	for d in &rec.digests {
		let _ = write!(out, " {d:016x}");
	}
	for l in rec.lines.iter().flatten() {
		let _ = write!(out, "\nL {l}");
	}
	if show {
		let _ = write!(out, "\nL end: {} {:?} {:?}", end, r.counts, r.violations.iter().map(|v| &v.what).collect::<Vec<_>>());
	}
	(out, [rec.tried, rec.tried_ok, rec.rehearsed])
}

/// `--record`: writes the record of `--count` histories from `--first` on of `--seed`. With `--company` they
/// run one after another in one thread, last one first and with calls tried out in between; otherwise each in
/// a thread of its own.
pub fn record(body: Body, probe: Probe, default_len: usize) {
	let a: Vec<String> = std::env::args().collect();
	if !a.iter().any(|x| x == "--record") {
		return;
	}
	let get = |k: &str| a.iter().position(|x| x == &format!("--{k}")).and_then(|i| a.get(i + 1)).cloned();
	let num = |k: &str, d: u64| get(k).and_then(|s| s.parse().ok()).unwrap_or(d);
	crate::install_panic_hook();
	let (n, first, seed, len) = (num("count", 1), num("first", 0), num("seed", 1), num("len", default_len as u64) as usize);
	let company = a.iter().any(|x| x == "--company");
	let show = a.iter().any(|x| x == "--show");
	let mut tried = [0; 3];
	if company {
		let run = move || {
			let mut tried = [0; 3];
			for i in (first..first + n).rev() {
				let (s, t) = one(body, probe, seed, i, len, true, show);
				println!("{s}");
				(0..3).for_each(|i| tried[i] += t[i]);
			}
			tried
		};
		tried = std::thread::Builder::new().stack_size(64 << 20).spawn(run).expect("spawn").join().expect("joins");
	} else {
		for i in first..first + n {
			let t = std::thread::Builder::new().stack_size(64 << 20).spawn(move || one(body, probe, seed, i, len, false, show));
			println!("{}", t.expect("spawn").join().expect("joins").0);
		}
	}
	println!("TRIED {} {} {}", tried[0], tried[1], tried[2]);
	std::process::exit(0)
}
