//! Literals that occur in the source under test, as interesting values for the workloads. Only a
//! source of inputs: no verdict depends on it.
use std::path::Path;

#[derive(Clone, Debug)]
pub struct Dict {
	pub ints: Vec<u128>,
	pub strs: Vec<String>,
}
impl Dict {
	pub fn harvest(paths: &[&str]) -> Self {
		let mut d = Dict { ints: vec![], strs: vec![] };
		for p in paths {
			d.walk(Path::new(p), 0);
		}
		d.ints.extend([0, 1, 2, 3, 5, 8, 10, 16, 50, 58, 99, 100, 127, 128, 255, 256, 1000, 1024, 1_000_000]);
		d.ints.sort();
		d.ints.dedup();
		d.strs.sort();
		d.strs.dedup();
		d
	}
	pub fn int(&self, i: usize) -> u128 {
		self.ints[i % self.ints.len()]
	}
	fn walk(&mut self, p: &Path, depth: usize) {
		if depth > 6 {
			return;
		}
		if p.is_dir() {
			let Ok(rd) = std::fs::read_dir(p) else { return };
			let mut es: Vec<_> = rd.flatten().map(|e| e.path()).collect();
			es.sort();
			for e in es {
				let n = e.file_name().and_then(|n| n.to_str()).unwrap_or("").to_string();
				// tests, generated weights and benchmarks are not code under test
				if ["tests.rs", "tests", "mock", "mock.rs", "weights.rs", "weights", "benchmarking.rs", "target"].contains(&n.as_str()) {
					continue;
				}
				self.walk(&e, depth + 1);
			}
		} else if p.extension().map(|x| x == "rs").unwrap_or(false) {
			if let Ok(s) = std::fs::read_to_string(p) {
				self.scan(&s);
			}
		}
	}
	fn scan(&mut self, s: &str) {
		for line in s.lines() {
			let l = line.trim_start();
			if l.starts_with("//") {
				continue;
			}
			let b = l.as_bytes();
			let mut i = 0;
			while i < b.len() {
				let prev = if i > 0 { b[i - 1] } else { b' ' };
				if b[i] == b'"' {
					let j = l[i + 1..].find('"').map(|j| i + 1 + j).unwrap_or(b.len());
					if j > i + 1 && j - i < 80 && l.is_char_boundary(i + 1) && l.is_char_boundary(j) {
						self.strs.push(l[i + 1..j].to_string());
					}
					i = j + 1;
					continue;
				}
				if b[i].is_ascii_digit() && !(prev.is_ascii_alphanumeric() || prev == b'_') {
					let mut j = i;
					while j < b.len() && (b[j].is_ascii_alphanumeric() || b[j] == b'_') {
						j += 1;
					}
					if let Some(v) = parse_int(&l[i..j]) {
						self.ints.push(v);
					}
					i = j;
					continue;
				}
				i += 1;
			}
		}
	}
}
fn parse_int(t: &str) -> Option<u128> {
	let t: String = t.chars().filter(|c| *c != '_').collect();
	let (radix, t) = match () {
		_ if t.starts_with("0x") => (16, &t[2..]),
		_ if t.starts_with("0b") => (2, &t[2..]),
		_ if t.starts_with("0o") => (8, &t[2..]),
		_ => (10, &t[..]),
	};
	let mut t = t;
	for suf in ["usize", "u128", "u64", "u32", "u16", "u8", "i128", "i64", "i32"] {
		if let Some(x) = t.strip_suffix(suf) {
			t = x;
			break;
		}
	}
	u128::from_str_radix(t, radix).ok()
}
