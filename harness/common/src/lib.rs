//! Workloads and oracles for virto-common. The oracles are written against the published
//! representation (little-endian number, base58 text, SCALE bytes, XCM locations), not against the
//! implementation.
#![cfg_attr(feature = "web", allow(unused))]
use monitor::{no_panic, Report, Src};
use virto_common::PaymentId;

pub mod base58;
#[cfg(feature = "node")]
pub mod node;

pub fn harvest() -> monitor::Dict {
	monitor::Dict::harvest(&["/repo/common/src"])
}

/// An id, from a number that is random, an edge, or made of interesting components.
pub fn any_number(s: &mut Src) -> u64 {
	match s.u8() % 6 {
		0 => s.uint(8) as u64,
		1 => s.interesting(64) as u64,
		2 => u64::from_be_bytes([s.u8(), 0, 0, 0, 0, 0, 0, s.u8()]),
		3 => {
			// few significant bytes: leading and trailing zero runs matter to base58
			let k = s.below(65) as u32;
			let v = s.uint(8) as u64;
			if s.bool() {
				v.checked_shr(k).unwrap_or(0)
			} else {
				v.checked_shl(k).unwrap_or(0)
			}
		}
		_ => {
			let (p, i, b) = (s.interesting(16) as u64, s.interesting(16) as u64, s.interesting(32) as u64);
			p | (i << 16) | (b << 32)
		}
	}
}

/// C01: number, bytes and components are one bijection.
pub fn c01(s: &mut Src, r: &mut Report) {
	const P: &str = "C01";
	for _ in 0..8 {
		if s.done() {
			break;
		}
		let n = any_number(s);
		let b = n.to_le_bytes();
		r.log(|| format!("number {n:#x}"));
		match no_panic(|| {
			let id = PaymentId::from_number(n);
			let id2: PaymentId = n.into();
			let back: u64 = id.into();
			(id == id2, id.to_number(), back, id.to_bytes(), id.as_ref().to_vec(), id.block_number(), id.extrinsic_index(), id)
		}) {
			Err(p) => r.fail(P, format!("number {n:#x}: panicked: {p}")),
			Ok((same, to, back, bytes, asr, block, idx, id)) => {
				r.check(P, same && to == n && back == n, || format!("number {n:#x} came back as {to:#x} / {back:#x}"));
				r.check(P, bytes == b && asr == b, || format!("number {n:#x}: bytes {bytes:02x?} / {asr:02x?}, want {b:02x?}"));
				let (wb, wi) = ((n >> 32) as u32, ((n >> 16) & 0xffff) as u32);
				r.check(P, block == wb && idx == wi, || {
					format!("number {n:#x}: block {block} index {idx}, want {wb} {wi}")
				});
				// injectivity against a neighbour
				let m = n ^ (1u64 << s.below(64));
				let other = no_panic(|| PaymentId::from_number(m));
				r.check(P, matches!(&other, Ok(o) if *o != id), || format!("{n:#x} and {m:#x} are the same id"));
				r.saw(P, (n.leading_zeros(), n.trailing_zeros(), n.count_ones()));
			}
		}
		// components -> id
		let block = s.interesting(32) as u32;
		let idx = s.interesting(16) as u32;
		let len = 2 + s.below(31) as usize;
		let extra = s.bytes(len);
		r.log(|| format!("parts {block} {idx} {:02x?}", &extra[..2]));
		match no_panic(|| {
			let id: PaymentId = (block, idx, &extra[..]).into();
			(id.block_number(), id.extrinsic_index(), id.to_number(), id.to_bytes(), id)
		}) {
			Err(p) => r.fail(P, format!("parts ({block},{idx}): panicked: {p}")),
			Ok((gb, gi, num, bytes, id)) => {
				let want = (block as u64) << 32 | (idx as u64) << 16 | (extra[1] as u64) << 8 | extra[0] as u64;
				r.check(P, gb == block && gi == idx, || format!("parts ({block},{idx}) read back as ({gb},{gi})"));
				r.check(P, num == want && bytes == want.to_le_bytes(), || {
					format!("parts ({block},{idx},{:02x?}) number {num:#x}, want {want:#x}", &extra[..2])
				});
				r.check(P, PaymentId::from_number(num) == id, || format!("id of parts ({block},{idx}) is not the id of its number"));
				r.saw(P, (block.leading_zeros(), block.trailing_zeros(), idx.leading_zeros(), idx.trailing_zeros(), true));
			}
		}
	}
}

/// C02: text form is base58 of the eight bytes and reads back to the same id.
pub fn c02(s: &mut Src, r: &mut Report) {
	const P: &str = "C02";
	for _ in 0..8 {
		if s.done() {
			break;
		}
		let n = any_number(s);
		let want = base58::encode(&n.to_le_bytes());
		let pretty_want = format!("{}-{}", &want[..5], &want[5..]);
		r.log(|| format!("{n:#x} = {want}"));
		let got = no_panic(|| {
			let id = PaymentId::from_number(n);
			let plain = format!("{id}");
			let pretty = format!("{id:#}");
			(id.encode(false) == plain && id.encode(true) == pretty, plain, pretty)
		});
		match got {
			Err(p) => r.fail(P, format!("{n:#x}: panicked while formatting: {p}")),
			Ok((agree, plain, pretty)) => {
				r.check(P, agree, || format!("{n:#x}: encode() and the formatter disagree"));
				r.check(P, plain == want, || format!("{n:#x}: text {plain:?}, want {want:?}"));
				r.check(P, pretty == pretty_want, || format!("{n:#x}: pretty text {pretty:?}, want {pretty_want:?}"));
			}
		}
		for t in [&want, &pretty_want] {
			match no_panic(|| (t.parse::<PaymentId>(), PaymentId::new(t))) {
				Err(p) => r.fail(P, format!("{t:?}: panicked while parsing: {p}")),
				Ok((parsed, new)) => {
					let got = parsed.map(|i| i.to_number());
					r.check(P, got == Ok(n), || format!("{t:?} parsed as {got:x?}, want {n:#x}"));
					let new = new.to_number();
					r.check(P, new == n, || format!("new({t:?}) is {new:#x}, want {n:#x}"));
				}
			}
		}
		r.saw(P, (want.len(), n.leading_zeros(), n.trailing_zeros(), want.as_bytes()[0]));
	}
}

/// Hostile text: mutations of canonical texts, literals of the code, raw unicode.
pub fn any_text(s: &mut Src) -> String {
	let mut cs: Vec<char> = match s.u8() % 8 {
		0 => {
			let n = s.below(24) as usize;
			(0..n).map(|_| char::from(s.u8() % 128)).collect()
		}
		1 if !s.dict.strs.is_empty() => {
			let i = s.uint(2) as usize % s.dict.strs.len();
			s.dict.strs[i].chars().collect()
		}
		2 => {
			let n = s.below(20) as usize;
			(0..n).map(|_| base58::ALPHABET[s.below(58) as usize] as char).collect()
		}
		_ => base58::encode(&any_number(s).to_le_bytes()).chars().collect(),
	};
	for _ in 0..s.below(4) {
		let at = s.below(cs.len() as u64 + 1) as usize;
		match s.u8() % 9 {
			0 | 1 | 2 => cs.insert(at, '-'),
			3 => cs.insert(at, base58::ALPHABET[s.below(58) as usize] as char),
			4 if at < cs.len() => {
				cs.remove(at);
			}
			5 if at < cs.len() => cs[at] = base58::ALPHABET[s.below(58) as usize] as char,
			6 => cs.insert(at, s.pick(&['0', 'O', 'I', 'l', ' ', '\0', '\n', '_', 'é', '𝟙', '–', '\u{200b}', '\u{feff}', '\u{a0}', '\t', '\r', '=', '+', '/', '.', ':', '\u{301}'])),
			7 => {
				let c = cs.clone();
				cs.extend(c.into_iter().take(s.below(40) as usize))
			}
			_ => cs.insert(0, '1'),
		}
	}
	// dressed up at either end
	if s.chance(6) {
		let c = match s.u8() % 4 {
			0 => char::from_u32(s.uint(3) as u32 & 0x1f_ffff).unwrap_or('\u{fffd}'),
			1 => char::from(s.u8()),
			_ => s.pick(&['\u{feff}', ' ', '\0', '"', '\n', '\t', '\u{2028}', '#', '-', '1', '\u{200e}']),
		};
		if s.bool() {
			cs.insert(0, c);
		} else {
			cs.push(c);
		}
	}
	cs.into_iter().collect()
}

/// C03: any text is either refused or is (up to one dash) the canonical text of the id it yields.
pub fn c03(s: &mut Src, r: &mut Report) {
	const P: &str = "C03";
	for _ in 0..8 {
		if s.done() {
			break;
		}
		let t = any_text(s);
		r.log(|| format!("{t:?}"));
		c03_text(&t, r);
		// the shape of the text: alphabet, dash, other ASCII, beyond ASCII
		let shape: String = t
			.chars()
			.map(|c| match c {
				'-' => '-',
				c if c.is_ascii() && base58::ALPHABET.contains(&(c as u8)) => 'a',
				c if c.is_ascii() => '.',
				_ => 'u',
			})
			.collect();
		r.saw(P, shape);
		if t.contains('-') {
			r.count("with-dash");
		}
	}
	let _ = P;
}
pub fn c03_text(t: &str, r: &mut Report) {
	const P: &str = "C03";
	match no_panic(|| (t.parse::<PaymentId>(), PaymentId::new(t))) {
		Err(p) => r.fail(P, format!("text {t:?}: panicked: {p}")),
		Ok((parsed, new)) => {
			match parsed {
				Err(_) => {
					r.count("refused");
					r.check(P, new == PaymentId::default(), || {
						format!("text {t:?} is refused but new() made id {:#x} of it", new.to_number())
					});
				}
				Ok(id) => {
					r.count("accepted");
					let canon = base58::encode(&id.to_number().to_le_bytes());
					let ok = t == canon || (t.matches('-').count() == 1 && t.replacen('-', "", 1) == canon);
					r.check(P, ok, || format!("text {t:?} was accepted as {:#x}, whose text is {canon:?}", id.to_number()));
					r.check(P, new == id, || format!("text {t:?}: new() and parse() disagree"));
				}
			};
		}
	}
}

/// C06: everything at once, for the sanitizer builds; verdicts of other properties are ignored, a
/// crash of the process is the observation.
pub fn c06(s: &mut Src, r: &mut Report) {
	let k = s.u8();
	let mut inner = Report { tracing: r.tracing, ..Default::default() };
	match k % 5 {
		0 => c01(s, &mut inner),
		1 => c02(s, &mut inner),
		2 => c03(s, &mut inner),
		#[cfg(feature = "node")]
		3 => node::c04(s, &mut inner),
		#[cfg(feature = "node")]
		4 => node::c05(s, &mut inner),
		_ => c03(s, &mut inner),
	}
	r.events += inner.events;
	r.count("C06");
	for (_, h) in inner.states {
		r.states.push(("C06", h));
	}
	if r.tracing {
		r.trace.push(format!("workload {}: {}", k % 5, inner.trace.join(" | ")));
	}
}

pub fn body(p: &str) -> monitor::Body {
	match p {
		"C01" => c01,
		"C02" => c02,
		"C03" => c03,
		#[cfg(feature = "node")]
		"C04" => node::c04,
		#[cfg(feature = "node")]
		"C05" => node::c05,
		"C06" => c06,
		_ => {
			eprintln!("no such property here: {p}");
			std::process::exit(3)
		}
	}
}
