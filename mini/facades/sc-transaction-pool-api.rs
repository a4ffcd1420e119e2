//deps: sp-runtime
//! the part of the pool's interface by which it is read
use sp_runtime::traits::Block as BlockT;
use std::{hash::Hash, sync::Arc};
pub type TransactionPriority = u64;
pub type TransactionLongevity = u64;
pub type TransactionTag = Vec<u8>;
pub type TransactionFor<P> = <<P as TransactionPool>::Block as BlockT>::Extrinsic;
pub type TxHash<P> = <P as TransactionPool>::Hash;
pub trait InPoolTransaction {
	type Transaction;
	type Hash;
	fn data(&self) -> &Self::Transaction;
	fn hash(&self) -> &Self::Hash;
	fn priority(&self) -> &TransactionPriority;
	fn longevity(&self) -> &TransactionLongevity;
	fn requires(&self) -> &[TransactionTag];
	fn provides(&self) -> &[TransactionTag];
	fn is_propagable(&self) -> bool;
}
pub trait ReadyTransactions: Iterator {
	fn report_invalid(&mut self, tx: &Self::Item);
}
impl<T> ReadyTransactions for std::iter::Empty<T> {
	fn report_invalid(&mut self, _: &T) {}
}
#[derive(Debug, Clone, Default)]
pub struct PoolStatus {
	pub ready: usize,
	pub ready_bytes: usize,
	pub future: usize,
	pub future_bytes: usize,
}
pub trait TransactionPool: Send + Sync {
	type Block: BlockT;
	type Hash: Hash + Eq + Clone;
	type InPoolTransaction: InPoolTransaction<Hash = Self::Hash>;
	type Error;
	fn ready(&self) -> Box<dyn ReadyTransactions<Item = Arc<Self::InPoolTransaction>> + Send>;
	fn futures(&self) -> Vec<Self::InPoolTransaction>;
	fn status(&self) -> PoolStatus;
	fn hash_of(&self, xt: &<Self::Block as BlockT>::Extrinsic) -> Self::Hash;
	fn ready_transaction(&self, hash: &Self::Hash) -> Option<Arc<Self::InPoolTransaction>>;
}
