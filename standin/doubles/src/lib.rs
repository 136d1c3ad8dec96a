//! Doubles of the pallets the code under test talks to through traits: a multi-asset ledger, a
//! named-task scheduler and a preimage store. All state lives in the (transactional) store, so a
//! failed call rolls it back. They are permissive where the real ones differ between versions and
//! strict about what every version guarantees: nothing is created or destroyed silently, holds and
//! freezes restrict what can be moved, a minimum balance is kept where asked for.
pub mod ledger;
pub mod scheduler;
pub use ledger::{Account, Ledger, LedgerConfig};
