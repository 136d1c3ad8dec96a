//! Stand-ins for the pallets and crates around the Kreivo runtime.
//!
//! Where the runtime only names a pallet, its calls are written down and nothing more. Where what the runtime
//! decides takes effect through a pallet (balances, assets, memberships, tracks, polls, the XCM executor), the
//! stand-in does what upstream documents.
pub mod accounts;
pub mod crates;
pub mod pallet_xcm;
pub mod pallets;
pub mod primitives;
pub mod transactions;
pub mod xcm_builder;
pub mod xcm_executor;

pub use accounts::*;
pub use crates::*;
pub use pallets::*;
