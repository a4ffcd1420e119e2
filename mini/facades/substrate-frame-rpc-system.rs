//deps: frame-system-rpc-runtime-api jsonrpsee sc-rpc sp-api sp-blockchain sp-runtime
pub use frame_system_rpc_runtime_api::AccountNonceApi;
use jsonrpsee::{core::RpcResult, proc_macros::rpc};
use std::{marker::PhantomData, sync::Arc};
#[rpc(client, server)]
pub trait SystemApi<AccountId, Nonce> {
	#[method(name = "system_accountNextIndex", aliases = ["account_nextIndex"])]
	fn nonce(&self, account: AccountId) -> RpcResult<Nonce>;
}
pub struct System<P, C, Block>(Arc<C>, PhantomData<(P, Block)>);
impl<P, C, Block> System<P, C, Block> {
	pub fn new(client: Arc<C>, _: Arc<P>, _: sc_rpc::DenyUnsafe) -> Self {
		System(client, PhantomData)
	}
}
impl<P, C, Block, AccountId, Nonce> SystemApiServer<AccountId, Nonce> for System<P, C, Block>
where
	Block: sp_runtime::traits::Block,
	C: sp_api::ProvideRuntimeApi<Block> + sp_blockchain::HeaderBackend<Block>,
	C::Api: AccountNonceApi<Block, AccountId, Nonce>,
	AccountId: parity_scale_codec::Codec,
	Nonce: parity_scale_codec::Codec,
{
	fn nonce(&self, account: AccountId) -> RpcResult<Nonce> {
		self.0.runtime_api().account_nonce(self.0.info().best_hash, account).map_err(|e| jsonrpsee::core::Error::Custom(e.to_string()))
	}
}
