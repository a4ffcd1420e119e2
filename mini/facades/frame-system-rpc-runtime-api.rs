//deps: sp-api
sp_api::decl_runtime_apis! {
	pub trait AccountNonceApi<AccountId, Nonce>
	where
		AccountId: parity_scale_codec::Codec,
		Nonce: parity_scale_codec::Codec,
	{
		fn account_nonce(account: AccountId) -> Nonce;
	}
}
