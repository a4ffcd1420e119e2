//deps: sp-runtime
pub use mf::mf_macros::{decl_runtime_apis, impl_runtime_apis};
pub use sp_runtime::traits::Block as BlockT;
#[derive(Debug, Clone, PartialEq)]
pub enum ApiError {
	FailedToDecodeReturnValue { function: &'static str, error: String },
	StateBackendIsNotTrie,
	UnknownBlock(String),
	Application(String),
}
impl std::fmt::Display for ApiError {
	fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
		write!(f, "{self:?}")
	}
}
impl std::error::Error for ApiError {}
thread_local! {
	/// no state can be read
	pub static DOWN: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
	/// the blocks whose state was asked for
	pub static ASKED: std::cell::RefCell<Vec<Vec<u8>>> = const { std::cell::RefCell::new(vec![]) };
}
pub fn asked<H: parity_scale_codec::Encode>(at: &H) {
	let n = ASKED.with(|a| {
		let mut a = a.borrow_mut();
		a.push(at.encode());
		a.len()
	});
	assert!(n < 200_000, "no end of questions")
}
/// what crosses the border between the node and the runtime
pub fn carried<A: parity_scale_codec::Encode, B: parity_scale_codec::Decode>(a: &A) -> Result<B, ApiError> {
	use parity_scale_codec::DecodeAll;
	if DOWN.with(|d| d.get()) {
		return Err(ApiError::UnknownBlock("the state of the block is gone".into()))
	}
	B::decode_all(&mut &a.encode()[..]).map_err(|e| ApiError::Application(format!("Bad input data provided: {e:?}")))
}
pub type ApiRef<'a, T> = &'a T;
pub trait ProvideRuntimeApi<Block: BlockT> {
	type Api;
	fn runtime_api(&self) -> ApiRef<'_, Self::Api>;
}
