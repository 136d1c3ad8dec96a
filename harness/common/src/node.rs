//! What the node links: SCALE forms and the mapping to XCM locations.
use monitor::{no_panic, Report, Src};
use parity_scale_codec::{Decode, Encode, MaxEncodedLen};
use sp_runtime::traits::MaybeEquivalence;
use virto_common::{AsFungibleAssetLocation, FungibleAssetLocation, PaymentId};
use xcm::latest::{BodyId, BodyPart, Junction, Location, NetworkId};

/// The published meaning of an asset location.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Net {
	Polkadot,
	Kusama,
	Ethereum(u64),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Loc {
	Here(u32),
	Sibling(u16, u8, u32),
	External(Net, Option<(u16, u8, u32)>),
}
impl Loc {
	pub fn scale(&self) -> Vec<u8> {
		let mut v = vec![];
		let para = |v: &mut Vec<u8>, (a, b, c): (u16, u8, u32)| {
			v.extend(a.to_le_bytes());
			v.push(b);
			v.extend(c.to_le_bytes());
		};
		match *self {
			Loc::Here(n) => {
				v.push(0);
				v.extend(n.to_le_bytes());
			}
			Loc::Sibling(a, b, c) => {
				v.push(1);
				para(&mut v, (a, b, c));
			}
			Loc::External(n, child) => {
				v.push(2);
				match n {
					Net::Polkadot => v.push(0),
					Net::Kusama => v.push(1),
					Net::Ethereum(c) => {
						v.push(2);
						v.extend(c.to_le_bytes());
					}
				}
				match child {
					None => v.push(0),
					Some(p) => {
						v.push(1);
						para(&mut v, p);
					}
				}
			}
		}
		v
	}
	/// Reference decoder: the value and how many bytes it took.
	pub fn from_scale(b: &[u8]) -> Option<(Loc, usize)> {
		fn take<'a>(b: &'a [u8], at: &mut usize, n: usize) -> Option<&'a [u8]> {
			let r = b.get(*at..*at + n)?;
			*at += n;
			Some(r)
		}
		fn para(b: &[u8], at: &mut usize) -> Option<(u16, u8, u32)> {
			let x = take(b, at, 7)?;
			Some((u16::from_le_bytes([x[0], x[1]]), x[2], u32::from_le_bytes([x[3], x[4], x[5], x[6]])))
		}
		let mut at = 0;
		let l = match take(b, &mut at, 1)?[0] {
			0 => Loc::Here(u32::from_le_bytes(take(b, &mut at, 4)?.try_into().ok()?)),
			1 => {
				let (x, y, z) = para(b, &mut at)?;
				Loc::Sibling(x, y, z)
			}
			2 => {
				let n = match take(b, &mut at, 1)?[0] {
					0 => Net::Polkadot,
					1 => Net::Kusama,
					2 => Net::Ethereum(u64::from_le_bytes(take(b, &mut at, 8)?.try_into().ok()?)),
					_ => return None,
				};
				let c = match take(b, &mut at, 1)?[0] {
					0 => None,
					1 => Some(para(b, &mut at)?),
					_ => return None,
				};
				Loc::External(n, c)
			}
			_ => return None,
		};
		Some((l, at))
	}
	pub fn any(s: &mut Src) -> Loc {
		match s.u8() % 3 {
			0 => Loc::Here(s.interesting(32) as u32),
			1 => {
				let (a, b, c) = any_para(s);
				Loc::Sibling(a, b, c)
			}
			_ => {
				let n = any_net(s);
				Loc::External(n, if s.bool() { Some(any_para(s)) } else { None })
			}
		}
	}
	/// Where it points to.
	pub fn location(&self) -> Location {
		use Junction::*;
		let net = |n: Net| match n {
			Net::Polkadot => NetworkId::Polkadot,
			Net::Kusama => NetworkId::Kusama,
			Net::Ethereum(chain_id) => NetworkId::Ethereum { chain_id },
		};
		match *self {
			Loc::Here(n) => Location::new(0, [PalletInstance(13), GeneralIndex(n as u128)]),
			Loc::Sibling(a, b, c) => Location::new(1, [Parachain(a as u32), PalletInstance(b), GeneralIndex(c as u128)]),
			Loc::External(n, None) => Location::new(2, [GlobalConsensus(net(n))]),
			Loc::External(n, Some((a, b, c))) => Location::new(
				2,
				[GlobalConsensus(net(n)), Parachain(a as u32), PalletInstance(b), GeneralIndex(c as u128)],
			),
		}
	}
}

pub fn c04(s: &mut Src, r: &mut Report) {
	const P: &str = "C04";
	for _ in 0..6 {
		if s.done() {
			break;
		}
		// payment ids
		let n = super::any_number(s);
		r.log(|| format!("payment id {n:#x}"));
		match no_panic(|| {
			let id = PaymentId::from_number(n);
			let e = Encode::encode(&id);
			(e, id.encoded_size(), id.size_hint())
		}) {
			Err(p) => r.fail(P, format!("encoding id {n:#x} panicked: {p}")),
			Ok((e, sz, hint)) => {
				r.check(P, e == n.encode() && sz == 8 && hint <= 8, || format!("id {n:#x} encodes as {e:02x?} ({sz} bytes)"));
				r.check(P, PaymentId::max_encoded_len() >= e.len(), || "an id is longer than its declared maximum".into());
				let fixed = PaymentId::encoded_fixed_size();
				r.check(P, fixed.map_or(true, |n| n == e.len()), || format!("an id takes {} bytes, and declares to always take {fixed:?}", e.len()));
			}
		}
		let len = s.below(14) as usize;
		let raw = s.bytes(len);
		match no_panic(|| {
			let mut i = &raw[..];
			let d = PaymentId::decode(&mut i);
			(d.map(|x| x.to_number()).ok(), raw.len() - i.len())
		}) {
			Err(p) => r.fail(P, format!("decoding {raw:02x?} panicked: {p}")),
			Ok((got, used)) => {
				let want = raw.get(..8).map(|b| u64::from_le_bytes(b.try_into().unwrap()));
				r.check(P, got == want && (got.is_none() || used == 8), || {
					format!("bytes {raw:02x?} decode to {got:x?} using {used}, want {want:x?}")
				});
				// inside a larger value: the next field must start right after
				if raw.len() >= 9 {
					let pair = <(PaymentId, u8)>::decode(&mut &raw[..]);
					r.check(P, matches!(&pair, Ok((i, b)) if i.to_number().to_le_bytes() == raw[..8] && *b == raw[8]), || {
						format!("{raw:02x?} does not decode as (id, byte)")
					});
				}
			}
		}
		r.saw(P, (n.leading_zeros(), n.trailing_zeros()));
		// asset locations: value -> bytes -> value
		let l = Loc::any(s);
		let bytes = l.scale();
		r.log(|| format!("asset {l:?}"));
		match no_panic(|| {
			let d = FungibleAssetLocation::decode(&mut &bytes[..]);
			let e = d.as_ref().ok().map(|d| (d.encode(), d.encoded_size()));
			let js = d.as_ref().ok().map(|d| serde_json::to_string(d));
			(d, e, js)
		}) {
			Err(p) => r.fail(P, format!("asset {l:?}: panicked: {p}")),
			Ok((d, e, js)) => {
				r.check(P, matches!(&e, Some((x, sz)) if *x == bytes && *sz == bytes.len()), || {
					format!("asset {l:?}: bytes {bytes:02x?} re-encode as {e:02x?}")
				});
				r.check(P, FungibleAssetLocation::max_encoded_len() >= bytes.len(), || {
					format!("asset {l:?} takes {} bytes, more than its declared maximum", bytes.len())
				});
				let fixed = FungibleAssetLocation::encoded_fixed_size();
				r.check(P, fixed.map_or(true, |n| n == bytes.len()), || {
					format!("asset {l:?} takes {} bytes, and declares to always take {fixed:?}", bytes.len())
				});
				if let (Ok(d), Loc::Here(n)) = (&d, l) {
					r.check(P, *d == FungibleAssetLocation::Here(n) && FungibleAssetLocation::from(n) == *d, || {
						format!("asset number {n} decoded as {d:?}")
					});
				}
				if let (Ok(d), Some(js)) = (&d, js) {
					match js {
						Err(e) => r.fail(P, format!("asset {l:?} has no JSON form: {e}")),
						Ok(j) => {
							let back: Result<FungibleAssetLocation, _> = serde_json::from_str(&j);
							r.check(P, matches!(&back, Ok(b) if b == d), || format!("asset {l:?}: JSON {j} reads back as {back:?}"));
						}
					}
				}
			}
		}
		// hostile bytes: mutated or raw
		let mut h = if s.bool() {
			let n = s.below(24) as usize;
			s.bytes(n)
		} else {
			Loc::any(s).scale()
		};
		match s.u8() % 4 {
			0 if !h.is_empty() => {
				let i = s.below(h.len() as u64) as usize;
				h[i] = s.u8();
			}
			1 => {
				let k = s.below(h.len() as u64 + 1) as usize;
				h.truncate(k)
			}
			2 => h.push(s.u8()),
			_ => {}
		}
		match no_panic(|| {
			let mut i = &h[..];
			let d = FungibleAssetLocation::decode(&mut i).ok();
			(d.map(|d| d.encode()), h.len() - i.len())
		}) {
			Err(p) => r.fail(P, format!("decoding {h:02x?} panicked: {p}")),
			Ok((got, used)) => {
				let want = Loc::from_scale(&h);
				let ok = match (&got, &want) {
					(None, None) => true,
					(Some(g), Some((w, n))) => *g == w.scale() && used == *n,
					_ => false,
				};
				r.check(P, ok, || format!("bytes {h:02x?} decode to {got:02x?} using {used}, want {want:?}"));
				r.count(if want.is_some() { "well-formed" } else { "malformed" });
				r.saw(P, (h.len(), want.is_some(), h.first().copied(), h.get(1).copied()));
			}
		}
	}
	use scale_info::TypeInfo;
	r.check(P, <PaymentId as TypeInfo>::type_info() == <u64 as TypeInfo>::type_info(), || {
		"the metadata of an id is not that of a u64".into()
	});
}

fn any_para(s: &mut Src) -> (u16, u8, u32) {
	// chains and pallets this chain deals with, or any
	match s.u8() % 6 {
		0 => (s.pick(&[1000, 1002, 2000, 2004, 2281]), s.pick(&[13, 50, 10, 0]), s.interesting(32) as u32),
		_ => (s.interesting(16) as u16, s.interesting(8) as u8, s.interesting(32) as u32),
	}
}
fn any_net(s: &mut Src) -> Net {
	match s.u8() % 3 {
		0 => Net::Polkadot,
		1 => Net::Kusama,
		_ => Net::Ethereum(s.interesting(64) as u64),
	}
}
fn at(parents: u8, js: Vec<Junction>) -> Location {
	js.into_iter().fold(Location::new(parents, []), |l, j| l.pushed_with_interior(j).expect("short"))
}
/// What makes a location distinct here: junction kinds and the sizes of their numbers.
fn shape(l: &Location) -> String {
	use Junction::*;
	let mut s = format!("{}", l.parents);
	for j in l.unpack().1 {
		s += &match j {
			Parachain(p) => format!("/para{}", 32 - p.leading_zeros()),
			PalletInstance(13) => "/pallet13".into(),
			PalletInstance(p) => format!("/pallet~{}", 8 - p.leading_zeros()),
			GeneralIndex(i) => format!("/index{}", 128 - i.leading_zeros()),
			GlobalConsensus(NetworkId::Ethereum { chain_id }) => format!("/eth{}", 64 - chain_id.leading_zeros()),
			GlobalConsensus(NetworkId::ByGenesis(_)) => "/genesis".into(),
			GlobalConsensus(n) => format!("/{n:?}"),
			AccountId32 { .. } => "/account".into(),
			_ => "/other".into(),
		};
	}
	s
}
fn any_network(s: &mut Src) -> NetworkId {
	const POLKADOT: [u8; 4] = [0x91, 0xb1, 0x71, 0xbb];
	const KUSAMA: [u8; 4] = [0xb0, 0xa8, 0xd4, 0x93];
	let mut hash = [s.u8(); 32];
	match s.u8() % 4 {
		0 => hash[..4].copy_from_slice(&POLKADOT),
		1 => hash[..4].copy_from_slice(&KUSAMA),
		_ => (),
	}
	match s.u8() % 16 {
		0..=2 => NetworkId::Polkadot,
		3..=5 => NetworkId::Kusama,
		6 => NetworkId::Westend,
		7 => NetworkId::ByGenesis(hash),
		8 => NetworkId::ByFork { block_number: s.interesting(64) as u64, block_hash: hash },
		9 => NetworkId::Rococo,
		10 => s.pick(&[NetworkId::BitcoinCore, NetworkId::BitcoinCash]),
		11 => s.pick(&[NetworkId::Wococo, NetworkId::PolkadotBulletin]),
		_ => NetworkId::Ethereum { chain_id: s.interesting(64) as u64 },
	}
}
fn any_junction(s: &mut Src) -> Junction {
	use Junction::*;
	match s.u8() % 16 {
		0..=2 => Parachain(match s.u8() % 3 {
			0 => s.interesting(32) as u32,
			_ => s.interesting(16) as u32,
		}),
		3 | 4 => PalletInstance(s.interesting(8) as u8),
		5 | 6 => PalletInstance(13),
		7 | 8 => GeneralIndex(match s.u8() % 3 {
			0 => s.interesting(128),
			1 => s.interesting(33),
			_ => s.interesting(32),
		}),
		9 | 10 => GlobalConsensus(any_network(s)),
		11 => AccountId32 { network: None, id: [s.u8(); 32] },
		12 => AccountIndex64 { network: s.bool().then(|| any_network(s)), index: s.interesting(64) as u64 },
		13 => AccountKey20 { network: s.bool().then(|| any_network(s)), key: [s.u8(); 20] },
		14 => {
			let mut data = [0; 32];
			data[..4].copy_from_slice(&(s.interesting(32) as u32).to_le_bytes());
			GeneralKey { length: s.below(33) as u8, data }
		}
		_ => s.pick(&[OnlyChild, Plurality { id: BodyId::Unit, part: BodyPart::Voice }]),
	}
}
/// How far up: few, mostly, but any number is allowed.
fn any_parents(s: &mut Src) -> u8 {
	match s.u8() % 4 {
		0 => s.u8(),
		_ => s.below(4) as u8,
	}
}

pub fn c05(s: &mut Src, r: &mut Report) {
	const P: &str = "C05";
	for _ in 0..6 {
		if s.done() {
			break;
		}
		// asset -> location -> asset
		let l = Loc::any(s);
		asset_at(l, r);
		// one component through a run of consecutive values
		if !cfg!(miri) && s.chance(40) {
			let (kind, net) = (s.u8(), any_net(s));
			let (para, pallet, index) = any_para(s);
			let from = s.interesting(32) as u32;
			r.count("run of neighbours");
			for k in 0..256u32 {
				let v = from.wrapping_add(k);
				asset_at(
					match kind % 8 {
						0 => Loc::Here(v),
						1 => Loc::Sibling(v as u16, pallet, index),
						2 => Loc::Sibling(para, v as u8, index),
						3 => Loc::Sibling(para, pallet, v),
						4 => Loc::External(Net::Ethereum(v as u64), s.bool().then_some((para, pallet, index))),
						5 => Loc::External(net, Some((v as u16, pallet, index))),
						6 => Loc::External(net, Some((para, v as u8, index))),
						_ => Loc::External(net, Some((para, pallet, v))),
					},
					r,
				);
				let base = Loc::any(s).location();
				let up = if k % 2 == 0 { base.parents } else { v as u8 };
				location_of(&at(up, base.unpack().1.to_vec()), r);
			}
		}
		// location -> asset -> location
		let loc = match s.u8() % 4 {
			0 => {
				let n = if s.chance(6) { 5 + s.below(4) } else { s.below(5) } as usize;
				let js: Vec<Junction> = (0..n).map(|_| any_junction(s)).collect();
				at(any_parents(s), js)
			}
			1 => {
				// a supported shape with out-of-range or odd components
				use Junction::*;
				let para = s.interesting(32) as u32;
				let pallet = s.interesting(8) as u8;
				let index = s.interesting(128);
				let net = GlobalConsensus(any_network(s));
				match s.u8() % 4 {
					0 => at(0, vec![PalletInstance(13), GeneralIndex(index)]),
					1 => at(any_parents(s), vec![Parachain(para), PalletInstance(pallet), GeneralIndex(index)]),
					2 => at(2, vec![net]),
					_ => at(2, vec![net, Parachain(para), PalletInstance(pallet), GeneralIndex(index)]),
				}
			}
			2 => {
				// a supported location with one junction changed, dropped or added
				let base = Loc::any(s).location();
				let mut js: Vec<Junction> = base.unpack().1.to_vec();
				let mut parents = base.parents;
				match s.u8() % 4 {
					0 => {
						let i = s.below(js.len() as u64) as usize;
						js[i] = any_junction(s);
					}
					1 => {
						js.pop();
					}
					2 => js.push(any_junction(s)),
					_ => parents = any_parents(s),
				}
				at(parents, js)
			}
			_ => Loc::any(s).location(),
		};
		location_of(&loc, r);
	}
}

/// asset -> location -> asset
fn asset_at(l: Loc, r: &mut Report) {
	const P: &str = "C05";
	let a = match FungibleAssetLocation::decode(&mut &l.scale()[..]) {
		Ok(a) => a,
		Err(_) => {
			// the SCALE form is another property's business; without it nothing was observed here
			r.count("unbuildable");
			return;
		}
	};
	r.log(|| format!("asset {l:?}"));
	match no_panic(|| {
		let to = AsFungibleAssetLocation::convert_back(&a);
		let back = to.as_ref().and_then(AsFungibleAssetLocation::convert);
		(to, back)
	}) {
		Err(p) => r.fail(P, format!("asset {l:?}: panicked: {p}")),
		Ok((to, back)) => {
			r.check(P, to == Some(l.location()), || format!("asset {l:?} is at {to:?}, want {:?}", l.location()));
			r.check(P, back == Some(a), || format!("asset {l:?} at {to:?} reads back as {back:?}"));
			r.saw(P, shape(&l.location()));
		}
	}
}
/// location -> asset -> location
fn location_of(loc: &Location, r: &mut Report) {
	const P: &str = "C05";
	r.log(|| format!("location {loc:?}"));
	match no_panic(|| {
		let a = AsFungibleAssetLocation::convert(loc);
		let back = a.as_ref().and_then(AsFungibleAssetLocation::convert_back);
		(a, back)
	}) {
		Err(p) => r.fail(P, format!("location {loc:?}: panicked: {p}")),
		Ok((a, back)) => {
			r.count(if a.is_some() { "has-asset" } else { "no-asset" });
			if let Some(a) = a {
				r.check(P, back.as_ref() == Some(loc), || format!("location {loc:?} became asset {a:?}, which is at {back:?}"));
				let want = Loc::from_scale(&a.encode()).map(|w| w.0.location());
				r.check(P, want.as_ref() == Some(loc), || format!("location {loc:?} became asset {a:?}"));
			} else {
				r.check(P, true, String::new);
			}
		}
	}
	r.saw(P, shape(loc));
}
