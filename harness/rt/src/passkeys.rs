// what exists on the test network only
use rt::{pallet_passkey, Runtime, RuntimeCall, RuntimeEvent, UncheckedExtrinsic};
pub fn transaction(passkey_public_key: [u8; 33], account_id: AccountId, account_nonce: u32, account_ownership_proof: sp_runtime::MultiSignature, call: RuntimeCall) -> Option<UncheckedExtrinsic> {
	let payload = pallet_passkey::PasskeyPayload::<Runtime> {
		passkey_public_key,
		verifiable_passkey_signature: pallet_passkey::VerifiablePasskeySignature { signature: Default::default(), authenticator_data: Default::default(), client_data_json: Default::default() },
		passkey_call: pallet_passkey::PasskeyCall { account_id, account_nonce, account_ownership_proof, call: Box::new(call) },
	};
	Some(UncheckedExtrinsic::new_unsigned(pallet_passkey::Call::proxy { payload }.into()))
}
pub fn inside(c: &RuntimeCall) -> Option<(AccountId, RuntimeCall)> {
	match c {
		RuntimeCall::Passkey(pallet_passkey::Call::proxy { payload }) => Some((payload.passkey_call.account_id.clone(), (*payload.passkey_call.call).clone())),
		_ => None,
	}
}
pub fn told(e: &RuntimeEvent) -> Option<AccountId> {
	match e {
		RuntimeEvent::Passkey(pallet_passkey::Event::TransactionExecutionSuccess { account_id }) => Some(account_id.clone()),
		_ => None,
	}
}
pub fn errors() -> Vec<(&'static str, &'static str, sp_runtime::DispatchError)> {
	vec![("Passkey", "InvalidAccountSignature", pallet_passkey::Error::<Runtime>::InvalidAccountSignature.into())]
}
/// the call, the event and what is signed, each with the bytes published for it
pub fn forms(w: AccountId, n: u32, proof: sp_runtime::MultiSignature, inner: RuntimeCall, d: (Vec<u8>, Vec<u8>, Vec<u8>), public: [u8; 33]) -> Option<(RuntimeCall, RuntimeEvent)> {
	let payload = pallet_passkey::PasskeyPayload::<Runtime> {
		passkey_public_key: public,
		verifiable_passkey_signature: pallet_passkey::VerifiablePasskeySignature { signature: d.0.try_into().unwrap(), authenticator_data: d.1.try_into().unwrap(), client_data_json: d.2.try_into().unwrap() },
		passkey_call: pallet_passkey::PasskeyCall { account_id: w.clone(), account_nonce: n, account_ownership_proof: proof, call: Box::new(inner) },
	};
	Some((pallet_passkey::Call::proxy { payload }.into(), pallet_passkey::Event::TransactionExecutionSuccess { account_id: w }.into()))
}
