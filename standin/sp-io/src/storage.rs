//! A thread-local ordered key-value store with nested transactions (undo log per layer).
use std::{cell::RefCell, collections::BTreeMap};

pub type Kv = BTreeMap<Vec<u8>, Vec<u8>>;

#[derive(Default, Clone)]
pub struct Overlay {
	kv: Kv,
	undo: Vec<Vec<(Vec<u8>, Option<Vec<u8>>)>>,
	pub writes: u64,
	/// digest of what was noted, and what it was when the open transactions began
	notes: u64,
	noted: Vec<u64>,
}
thread_local!(static STORE: RefCell<Overlay> = RefCell::new(Overlay::default()));

pub fn swap(o: &mut Overlay) {
	STORE.with(|s| std::mem::swap(&mut *s.borrow_mut(), o))
}
pub fn get(k: &[u8]) -> Option<Vec<u8>> {
	STORE.with(|s| s.borrow().kv.get(k).cloned())
}
pub fn exists(k: &[u8]) -> bool {
	STORE.with(|s| s.borrow().kv.contains_key(k))
}
pub fn set(k: &[u8], v: &[u8]) {
	put(k, Some(v.to_vec()))
}
pub fn clear(k: &[u8]) {
	put(k, None)
}
fn put(k: &[u8], v: Option<Vec<u8>>) {
	STORE.with(|s| {
		let mut s = s.borrow_mut();
		s.writes += 1;
		let old = match v {
			Some(v) => s.kv.insert(k.to_vec(), v),
			None => s.kv.remove(k),
		};
		if let Some(l) = s.undo.last_mut() {
			l.push((k.to_vec(), old));
		}
	})
}
pub fn next_key(k: &[u8]) -> Option<Vec<u8>> {
	use std::ops::Bound::*;
	STORE.with(|s| s.borrow().kv.range::<[u8], _>((Excluded(k), Unbounded)).next().map(|(k, _)| k.clone()))
}
pub fn keys_with_prefix(p: &[u8]) -> Vec<Vec<u8>> {
	STORE.with(|s| {
		s.borrow()
			.kv
			.range::<[u8], _>((std::ops::Bound::Included(p), std::ops::Bound::Unbounded))
			.take_while(|(k, _)| k.starts_with(p))
			.map(|(k, _)| k.clone())
			.collect()
	})
}
pub fn clear_prefix(p: &[u8]) -> u32 {
	let ks = keys_with_prefix(p);
	ks.iter().for_each(|k| clear(k));
	ks.len() as u32
}
pub fn start_transaction() {
	STORE.with(|s| {
		let mut s = s.borrow_mut();
		let notes = s.notes;
		s.noted.push(notes);
		s.undo.push(Vec::new())
	})
}
pub fn commit_transaction() {
	STORE.with(|s| {
		let mut s = s.borrow_mut();
		let l = s.undo.pop().expect("a transaction is open");
		s.noted.pop();
		if let Some(p) = s.undo.last_mut() {
			p.extend(l);
		}
	})
}
pub fn rollback_transaction() {
	STORE.with(|s| {
		let mut s = s.borrow_mut();
		let l = s.undo.pop().expect("a transaction is open");
		s.notes = s.noted.pop().unwrap_or_default();
		for (k, old) in l.into_iter().rev() {
			match old {
				Some(v) => s.kv.insert(k, v),
				None => s.kv.remove(&k),
			};
		}
	})
}
/// Takes down the order of things that the real pallets tell of in events and these do not.
pub fn note(x: &[u8]) {
	STORE.with(|s| {
		let mut s = s.borrow_mut();
		s.notes = x.iter().fold(s.notes.rotate_left(7) ^ x.len() as u64, |n, b| (n ^ *b as u64).wrapping_mul(0x0100_0000_01b3));
	})
}
pub fn notes() -> u64 {
	STORE.with(|s| s.borrow().notes)
}
pub fn transaction_depth() -> usize {
	STORE.with(|s| s.borrow().undo.len())
}
/// Unwinds any layers a panic left open.
pub fn rollback_to_depth(d: usize) {
	while transaction_depth() > d {
		rollback_transaction()
	}
}
/// A copy of the whole state, for monitors.
pub fn snapshot() -> Kv {
	STORE.with(|s| s.borrow().kv.clone())
}
pub fn reset() {
	STORE.with(|s| *s.borrow_mut() = Overlay::default())
}
