//deps: futures jsonrpsee
pub mod rpc {
	use jsonrpsee::{core::RpcResult, proc_macros::rpc};
	pub struct EngineCommand<Hash>(std::marker::PhantomData<Hash>);
	#[rpc(client, server)]
	pub trait ManualSealApi {
		#[method(name = "engine_createBlock")]
		fn create_block(&self, create_empty: bool, finalize: bool) -> RpcResult<bool>;
		#[method(name = "engine_finalizeBlock")]
		fn finalize_block(&self) -> RpcResult<bool>;
	}
	pub struct ManualSeal;
	impl ManualSeal {
		pub fn new<Hash>(_: futures::channel::mpsc::Sender<EngineCommand<Hash>>) -> Self {
			ManualSeal
		}
	}
	impl ManualSealApiServer for ManualSeal {
		fn create_block(&self, _: bool, _: bool) -> RpcResult<bool> {
			Err(jsonrpsee::core::Error::Custom("a stand-in".into()))
		}
		fn finalize_block(&self) -> RpcResult<bool> {
			Err(jsonrpsee::core::Error::Custom("a stand-in".into()))
		}
	}
}
