//deps: frame-support frame-system sp-runtime sp-core sp-std sp-io
//! What the executive does with a transaction: signature, signed extensions, dispatch, fees. A
//! transaction that is not valid leaves no trace.
use frame_support::dispatch::{extract_actual_weight, DispatchInfo, GetDispatchInfo, PostDispatchInfo};
use frame_support::traits::{OnFinalize, OnInitialize};
use frame_system::pallet_prelude::BlockNumberFor;
use parity_scale_codec::{Codec, Encode};
use scale_info::TypeInfo;
use sp_runtime::generic::{Block, UncheckedExtrinsic};
use sp_runtime::traits::{Dispatchable, Header, IdentifyAccount, One, SignedExtension, StaticLookup, ValidateUnsigned, Verify};
use sp_runtime::transaction_validity::{InvalidTransaction, TransactionSource, TransactionValidity, TransactionValidityError, UnknownTransaction};
use sp_runtime::{ApplyExtrinsicResult, TransactionOutcome};
use std::marker::PhantomData;

pub struct Executive<System, Block, Context, Unsigned, AllPallets, Upgrade = ()>(PhantomData<(System, Block, Context, Unsigned, AllPallets, Upgrade)>);

impl<Rt, H, Sig, Extra, Call, Ctx, UV, All, Up> Executive<Rt, Block<H, UncheckedExtrinsic<<Rt::Lookup as StaticLookup>::Source, Call, Sig, Extra>>, Ctx, UV, All, Up>
where
	Rt: frame_system::Config<RuntimeCall = Call>,
	H: Header<Number = BlockNumberFor<Rt>, Hash = Rt::Hash>,
	Call: Dispatchable<Info = DispatchInfo, PostInfo = PostDispatchInfo, RuntimeOrigin = Rt::RuntimeOrigin> + GetDispatchInfo + Codec + Clone + TypeInfo,
	Extra: SignedExtension<AccountId = Rt::AccountId, Call = Call>,
	Sig: Verify + Codec + Clone + TypeInfo,
	Sig::Signer: IdentifyAccount<AccountId = Rt::AccountId>,
	<Rt::Lookup as StaticLookup>::Source: Codec + Clone,
	UV: ValidateUnsigned<Call = Call>,
	All: OnInitialize<BlockNumberFor<Rt>> + OnFinalize<BlockNumberFor<Rt>>,
{
	/// the bytes the sender signs
	pub fn payload(call: &Call, extra: &Extra) -> Result<Vec<u8>, TransactionValidityError> {
		let b = (call, extra, extra.additional_signed()?).encode();
		Ok(if b.len() > 256 { sp_io::hashing::blake2_256(&b).to_vec() } else { b })
	}
	fn check(xt: &UncheckedExtrinsic<<Rt::Lookup as StaticLookup>::Source, Call, Sig, Extra>) -> Result<Option<(Rt::AccountId, Extra)>, TransactionValidityError> {
		let Some((address, sig, extra)) = xt.signature.clone() else { return Ok(None) };
		let who = Rt::Lookup::lookup(address).map_err(|_| UnknownTransaction::CannotLookup)?;
		let bytes = Self::payload(&xt.function, &extra)?;
		if !sig.verify(&bytes[..], &who) {
			return Err(InvalidTransaction::BadProof.into())
		}
		Ok(Some((who, extra)))
	}
	pub fn initialize_block(header: &H) {
		frame_system::Pallet::<Rt>::initialize(header.number(), header.parent_hash(), &Default::default());
		All::on_initialize(*header.number());
	}
	pub fn initialize_at(n: BlockNumberFor<Rt>) {
		let parent = frame_system::Pallet::<Rt>::block_hash(n - One::one());
		frame_system::Pallet::<Rt>::initialize(&n, &parent, &Default::default());
		All::on_initialize(n);
	}
	/// the migrations of the runtime
	pub fn execute_on_runtime_upgrade() -> frame_support::weights::Weight
	where
		Up: frame_support::traits::OnRuntimeUpgrade,
	{
		Up::on_runtime_upgrade()
	}
	pub fn conclude(n: BlockNumberFor<Rt>) {
		All::on_finalize(n);
	}
	pub fn validate_transaction(source: TransactionSource, xt: UncheckedExtrinsic<<Rt::Lookup as StaticLookup>::Source, Call, Sig, Extra>, _: Rt::Hash) -> TransactionValidity {
		let len = xt.encode().len();
		let info = xt.function.get_dispatch_info();
		let mut r = Err(InvalidTransaction::Call.into());
		let _ = frame_support::storage::with_transaction(|| -> TransactionOutcome<Result<(), sp_runtime::DispatchError>> {
			r = (|| match Self::check(&xt)? {
				Some((who, extra)) => extra.validate(&who, &xt.function, &info, len),
				None => Ok(UV::validate_unsigned(source, &xt.function)?.combine_with(Extra::validate_unsigned(&xt.function, &info, len)?)),
			})();
			TransactionOutcome::Rollback(Ok(()))
		});
		r
	}
	pub fn apply_extrinsic(xt: UncheckedExtrinsic<<Rt::Lookup as StaticLookup>::Source, Call, Sig, Extra>) -> ApplyExtrinsicResult {
		let mut r = Ok(Ok(()));
		let _ = frame_support::storage::with_transaction(|| -> TransactionOutcome<Result<(), sp_runtime::DispatchError>> {
			r = Self::apply(xt);
			if r.is_err() { TransactionOutcome::Rollback(Ok(())) } else { TransactionOutcome::Commit(Ok(())) }
		});
		r
	}
	fn apply(xt: UncheckedExtrinsic<<Rt::Lookup as StaticLookup>::Source, Call, Sig, Extra>) -> ApplyExtrinsicResult {
		let len = xt.encode().len();
		let info = xt.function.get_dispatch_info();
		let signed = Self::check(&xt)?;
		let (who, pre) = match signed {
			Some((who, extra)) => {
				let pre = extra.pre_dispatch(&who, &xt.function, &info, len)?;
				(Some(who), Some(pre))
			},
			None => {
				Extra::pre_dispatch_unsigned(&xt.function, &info, len)?;
				UV::pre_dispatch(&xt.function)?;
				(None, None)
			},
		};
		let origin: Rt::RuntimeOrigin = frame_system::RawOrigin::from(who).into();
		let res = xt.function.dispatch(origin);
		let post = match res {
			Ok(i) => i,
			Err(e) => e.post_info,
		};
		let outcome = res.map(|_| ()).map_err(|e| e.error);
		Extra::post_dispatch(pre, &info, &post, len, &outcome)?;
		let mut shown = info;
		shown.weight = extract_actual_weight(&res, &info);
		frame_system::Pallet::<Rt>::deposit_event(match outcome {
			Ok(()) => frame_system::Event::ExtrinsicSuccess { dispatch_info: shown },
			Err(dispatch_error) => frame_system::Event::ExtrinsicFailed { dispatch_error, dispatch_info: shown },
		});
		Ok(outcome)
	}
}
