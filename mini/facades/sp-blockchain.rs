//deps: sp-runtime
use sp_runtime::traits::{Block as BlockT, NumberFor};
#[derive(Debug, Clone)]
pub struct Info<Block: BlockT> {
	pub best_hash: Block::Hash,
	pub best_number: NumberFor<Block>,
	pub genesis_hash: Block::Hash,
	pub finalized_hash: Block::Hash,
	pub finalized_number: NumberFor<Block>,
}
pub trait HeaderBackend<Block: BlockT>: Send + Sync {
	fn info(&self) -> Info<Block>;
}
#[derive(Debug, Clone)]
pub enum Error {
	UnknownBlock(String),
}
impl std::fmt::Display for Error {
	fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
		write!(f, "{self:?}")
	}
}
impl std::error::Error for Error {}
pub trait HeaderMetadata<Block: BlockT> {
	type Error: std::error::Error;
}
