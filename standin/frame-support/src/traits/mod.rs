//! The trait vocabulary.
mod misc;
pub use misc::*;
pub mod tokens;
pub use tokens::{
	currency::{self, Currency, ExistenceRequirement, LockableCurrency, ReservableCurrency, WithdrawReasons},
	fungible, fungibles, nonfungible_v2, nonfungibles_v2, BalanceStatus,
};
pub mod schedule;
mod origin;
pub use origin::*;
mod preimages;
pub use preimages::*;
mod voting;
pub use voting::*;
