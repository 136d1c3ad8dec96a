//! Stand-in for `sp-io`: hashing host functions and a transactional key-value store.
pub mod hashing {
	pub use sp_core::hashing::*;
}
pub mod storage;

/// The real crate runs closures inside externalities; here the store is thread-local.
pub struct TestExternalities(storage::Overlay);
impl TestExternalities {
	pub fn new_empty() -> Self {
		Self(storage::Overlay::default())
	}
	pub fn execute_with<R>(&mut self, f: impl FnOnce() -> R) -> R {
		storage::swap(&mut self.0);
		let r = f();
		storage::swap(&mut self.0);
		r
	}
}
