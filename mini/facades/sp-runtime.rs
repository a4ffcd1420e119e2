pub use mf::runtime::*;

pub use mf::support::storage::TransactionOutcome;
