//deps: jsonrpsee sp-api sp-core
use jsonrpsee::{core::RpcResult, proc_macros::rpc};
use sp_core::Bytes;
use std::{marker::PhantomData, sync::Arc};
/// what it asks of the runtime is none of this chain's own
pub trait TransactionPaymentRuntimeApi<Block, Balance> {}
impl<T, Block, Balance> TransactionPaymentRuntimeApi<Block, Balance> for T {}
#[rpc(client, server)]
pub trait TransactionPaymentApi {
	#[method(name = "payment_queryInfo")]
	fn query_info(&self, encoded_xt: Bytes) -> RpcResult<bool>;
	#[method(name = "payment_queryFeeDetails")]
	fn query_fee_details(&self, encoded_xt: Bytes) -> RpcResult<bool>;
}
pub struct TransactionPayment<C>(PhantomData<C>);
impl<C> TransactionPayment<C> {
	pub fn new(_: Arc<C>) -> Self {
		TransactionPayment(PhantomData)
	}
}
impl<C> TransactionPaymentApiServer for TransactionPayment<C> {
	fn query_info(&self, _: Bytes) -> RpcResult<bool> {
		Err(jsonrpsee::core::Error::Custom("a stand-in".into()))
	}
	fn query_fee_details(&self, _: Bytes) -> RpcResult<bool> {
		Err(jsonrpsee::core::Error::Custom("a stand-in".into()))
	}
}
