//! The runtime as a whole, as built for the main network and for the test network.
#![recursion_limit = "256"]
use common_primitives::node::AccountId;
use frame_support::{
	dispatch::{GetCallMetadata, GetDispatchInfo, Pays},
	traits::BuildGenesisConfig,
};
use kit::*;
use parity_scale_codec::{Decode, Encode};
use sp_core::{sr25519, Pair};
use sp_runtime::MultiAddress;

macro_rules! rt_blob {
	() => {
		common::constants::MaxItemizedBlobSizeBytes
	};
}
mod mainnet {
	use super::*;
	use common_runtime as common;
	use rt_mainnet as rt;
	const MAINNET: bool = true;
	const NETWORK: &str = "mainnet";
	/// there are none
	mod passkeys {
		use super::*;
		use rt::{RuntimeCall, RuntimeEvent, UncheckedExtrinsic};
		pub fn transaction(_: [u8; 33], _: AccountId, _: u32, _: sp_runtime::MultiSignature, _: RuntimeCall) -> Option<UncheckedExtrinsic> {
			None
		}
		pub fn inside(_: &RuntimeCall) -> Option<(AccountId, RuntimeCall)> {
			None
		}
		pub fn told(_: &RuntimeEvent) -> Option<AccountId> {
			None
		}
		pub fn errors() -> Vec<(&'static str, &'static str, sp_runtime::DispatchError)> {
			vec![]
		}
		pub fn forms(_: AccountId, _: u32, _: sp_runtime::MultiSignature, _: RuntimeCall, _: (Vec<u8>, Vec<u8>, Vec<u8>), _: [u8; 33]) -> Option<(RuntimeCall, RuntimeEvent)> {
			None
		}
	}
	pub mod bytes {
		use super::*;
		include!("bytes.rs");
	}
	pub mod filters {
		use super::*;
		include!("filters.rs");
	}
	pub mod council {
		use super::*;
		include!("council.rs");
	}
	pub mod whole {
		use super::*;
		include!("whole.rs");
		include!("limits.rs");
		include!("weights.rs");
	}
	pub mod query {
		use super::*;
		include!("query.rs");
	}
	pub mod power {
		use super::*;
		include!("power.rs");
	}
	pub mod upgrade {
		use super::*;
		include!("upgrade.rs");
	}
}
mod testnet {
	use super::*;
	use common_runtime_testnet as common;
	use rt_testnet as rt;
	const MAINNET: bool = false;
	const NETWORK: &str = "testnet";
	mod passkeys {
		use super::*;
		include!("passkeys.rs");
	}
	pub mod bytes {
		use super::*;
		include!("bytes.rs");
	}
	pub mod filters {
		use super::*;
		include!("filters.rs");
	}
	pub mod council {
		use super::*;
		include!("council.rs");
	}
	pub mod whole {
		use super::*;
		include!("whole.rs");
		include!("limits.rs");
		include!("weights.rs");
	}
	pub mod query {
		use super::*;
		include!("query.rs");
	}
	pub mod power {
		use super::*;
		include!("power.rs");
	}
	pub mod upgrade {
		use super::*;
		include!("upgrade.rs");
	}
}

fn main() {
	let mut r = Run::from_env(25, 600);
	r.assume("polkadot-sdk is replaced by stand-ins written after polkadot v1.6.0 (DESIGN.md); the runtime and every pallet of the repository are compiled unmodified from the tree, once with the feature of the main network and once with that of the test network");
	let need: &[(&str, u64)] = match r.prop.as_str() {
		"C33" => &[
			("messages_compared", 300),
			("old_messages", 10000),
			("release_compared", 100),
			("release_claimed_compared", 100),
			("vesting:partly_claimed", 200),
			("vesting:whole", 1000),
			("schemas_named", 300),
			("schemas_elsewhere", 30),
			("messages_again_compared", 600),
			("release_again_compared", 600),
			("schemas_again_compared", 300),
			("schemas_done_already_compared", 80),
		],
		"C35" => &[
			("included", 4000),
			("not_included", 400),
			("replays_refused", 100),
			("free", 300),
			("seen:key_added", 200),
			("seen:key_removed", 100),
			("seen:msa_retired", 60),
			("seen:granted", 100),
			("seen:revoked", 100),
			("seen:provider", 20),
			("seen:schema", 20),
			("seen:capacity_used", 100),
			("seen:message", 80),
			("seen:state", 80),
			("passkey:done", 60),
			("executed:Msa.retire_msa:wrapped", 50),
			("executed:Msa.delete_msa_public_key:wrapped", 30),
			("executed:Handles.retire_handle:wrapped", 40),
			("executed:Capacity.stake:wrapped", 50),
			("executed:TimeRelease.transfer:wrapped", 50),
		],
		"C39" => &[
			("compared", 10000),
			("included", 4000),
			("event:CapacityWithdrawn", 150),
			("event:Claimed", 150),
			("event:DelegationGranted", 100),
			("event:DelegationRevoked", 60),
			("event:DelegationUpdated", 20),
			("event:EpochLengthUpdated", 80),
			("event:HandleClaimed", 100),
			("event:HandleRetired", 40),
			("event:ItemizedPageDeleted", 12),
			("event:ItemizedPageUpdated", 25),
			("event:MessagesInBlock", 80),
			("event:MsaCreated", 200),
			("event:MsaRetired", 50),
			("event:PaginatedPageDeleted", 12),
			("event:PaginatedPageUpdated", 25),
			("event:ProviderCreated", 100),
			("event:PublicKeyAdded", 40),
			("event:PublicKeyDeleted", 60),
			("event:ReleaseScheduleAdded", 80),
			("event:ReleaseSchedulesUpdated", 80),
			("event:SchemaCreated", 300),
			("event:SchemaMaxSizeChanged", 100),
			("event:SchemaNameCreated", 60),
			("event:StakeWithdrawn", 5),
			("event:Staked", 150),
			("event:TransactionExecutionSuccess", 80),
			("event:UnStaked", 100),
		],
		"C41" => &[
			("actions_of_a_transaction:within", 2),
			("actions_of_a_transaction:beyond", 2),
			("bytes_of_a_page:within", 2),
			("bytes_of_a_page:beyond", 2),
			("bytes_of_an_itemized_page:within", 2),
			("bytes_of_an_itemized_page:beyond", 2),
			("calls_of_a_capacity_batch:within", 2),
			("calls_of_a_capacity_batch:beyond", 2),
			("chunks_thawing:within", 2),
			("chunks_thawing:beyond", 2),
			("claims_of_a_handle:within", 2),
			("claims_of_a_handle:beyond", 2),
			("epoch_length:within", 2),
			("epoch_length:beyond", 2),
			("epochs_of_thawing:within", 2),
			("epochs_of_thawing:beyond", 2),
			("handle_signature_window:within", 2),
			("handle_signature_window:beyond", 2),
			("item_bytes:within", 2),
			("item_bytes:beyond", 2),
			("keys_of_an_msa:within", 2),
			("keys_of_an_msa:beyond", 2),
			("largest_model_limit:within", 2),
			("largest_model_limit:beyond", 2),
			("message_bytes:within", 2),
			("message_bytes:beyond", 2),
			("model_bytes:within", 2),
			("model_bytes:beyond", 2),
			("msa_signature_window:within", 2),
			("msa_signature_window:beyond", 2),
			("page_id:within", 2),
			("page_id:beyond", 2),
			("provider_name_bytes:within", 2),
			("provider_name_bytes:beyond", 2),
			("release_schedules:within", 2),
			("release_schedules:beyond", 2),
			("schemas_of_a_delegation:within", 2),
			("schemas_of_a_delegation:beyond", 2),
			("schemas_there_are:within", 2),
			("schemas_there_are:beyond", 2),
			("settings_of_a_schema:within", 2),
			("settings_of_a_schema:beyond", 2),
			("signatures_kept:within", 2),
			("signatures_kept:beyond", 2),
			("smallest_model_bytes:within", 2),
			("smallest_model_bytes:beyond", 2),
			("storage_signature_window:within", 2),
			("storage_signature_window:beyond", 2),
			("tokens_of_a_new_account:within", 2),
			("tokens_of_a_new_account:beyond", 2),
			("tokens_staked:within", 2),
			("tokens_staked:beyond", 2),
			("price:capacity:Handles.change_handle", 20),
			("price:capacity:Handles.claim_handle", 20),
			("price:capacity:Messages.add_ipfs_message", 20),
			("price:capacity:Messages.add_onchain_message", 20),
			("price:capacity:Msa.add_public_key_to_msa", 20),
			("price:capacity:Msa.create_sponsored_account_with_delegation", 20),
			("price:capacity:Msa.grant_delegation", 20),
			("price:capacity:StatefulStorage.apply_item_actions", 20),
			("price:capacity:StatefulStorage.apply_item_actions_with_signature", 20),
			("price:capacity:StatefulStorage.apply_item_actions_with_signature_v2", 20),
			("price:capacity:StatefulStorage.delete_page", 20),
			("price:capacity:StatefulStorage.delete_page_with_signature", 20),
			("price:capacity:StatefulStorage.delete_page_with_signature_v2", 20),
			("price:capacity:StatefulStorage.upsert_page", 20),
			("price:capacity:StatefulStorage.upsert_page_with_signature", 20),
			("price:capacity:StatefulStorage.upsert_page_with_signature_v2", 20),
			("price:tokens", 1000),
			("price:other", 100),
			("price:free", 50),
			("pallet_democracy.LaunchPeriod:exact", 2),
		],
		"C40" => &[
			("form:error", 1000),
			("by_hand:valid", 3000),
			("by_hand:passkey", 200),
			("signed:long", 200),
			("signed:mortal", 200),
			("form:Msa.create", 500),
			("form:UnStaked", 500),
			("form:MessageResponse", 500),
			("form:PaginatedUpsertSignaturePayloadV2", 500),
			("kept:Capacity.CapacityLedger", 1000),
			("kept:Capacity.StakingTargetLedger", 1000),
			("kept:Capacity.UnstakeUnlocks", 400),
			("kept:Handles.CanonicalBaseHandleAndSuffixToMSAId", 400),
			("kept:Handles.CanonicalBaseHandleToSuffixIndex", 400),
			("kept:Messages.MessagesV2", 400),
			("kept:Msa.DelegatorAndProviderToDelegation", 400),
			("kept:Msa.PayloadSignatureRegistryList", 400),
			("kept:Msa.PublicKeyToMsaId", 2000),
			("kept:Schemas.SchemaInfos", 3000),
			("kept:Schemas.SchemaNameToIds", 200),
			("kept:TimeRelease.ReleaseSchedules", 200),
			("kept:items", 80),
			("kept:page", 50),
		],
		"C36" => &[
			("approved_by:half_or_less", 200),
			("approved_by:more_than_half", 300),
			("rejected", 1000),
			("by_motion:Msa.create_provider_via_governance:done", 100),
			("by_motion:Msa.create_provider_via_governance:refused", 100),
			("by_motion:Schemas.create_schema_via_governance:done", 80),
			("by_motion:Schemas.create_schema_via_governance:refused", 100),
			("by_motion:Schemas.create_schema_via_governance_v2:done", 80),
			("by_motion:Schemas.create_schema_via_governance_v2:refused", 150),
			("by_motion:Schemas.create_schema_name_via_governance:done", 20),
			("by_motion:Schemas.create_schema_name_via_governance:refused", 50),
			("by_motion:Schemas.set_max_schema_model_bytes:refused", 40),
			("by_motion:Capacity.set_epoch_length:refused", 40),
			("by_root:done", 100),
			("by_anyone:done", 30),
			("by_anyone:refused", 300),
			("proposal:done", 2000),
			("proposal:refused", 2500),
			("vote:done", 5000),
			("closing:refused", 2000),
			("refused:TooManyProposals", 400),
			("refused:DuplicateProposal", 50),
		],
		"C38" => &[
			("create_provider:may", 5000),
			("create_schema:may", 5000),
			("create_schema:may_not", 5000),
			("schedule:may", 5000),
			("preimage:may", 500),
			("veto:may", 500),
			("external_default:may", 1000),
			("external_majority:may", 5000),
			("fast_track:may", 5000),
			("instant:may", 1000),
			("cancellation:may", 5000),
			("treasury_approve:may", 5000),
			("treasury_reject:may", 5000),
			("treasury_spend:may_not", 5000),
			("collators:may", 5000),
			("submit:may", 500),
		],
		"C42" => &[
			("asked_in_vain", 5000),
			("malformed", 15000),
			("at:best", 10000),
			("at:given", 1000),
			("frequencyTxPayment_computeCapacityFeeDetails:answered", 1000),
			("frequencyTxPayment_computeCapacityFeeDetails:refused", 200),
			("frequency_getEvents:answered", 1000),
			("frequency_getMissingNonceValues:answered", 120),
			("handles_getHandleForMsa:answered", 500),
			("handles_getMsaForHandle:answered", 500),
			("handles_getNextSuffixes:answered", 1000),
			("messages_getBySchemaId:answered", 90),
			("messages_getBySchemaId:answered_in_part", 30),
			("messages_getBySchemaId:refused", 400),
			("msa_checkDelegations:answered", 1000),
			("msa_getAllGrantedDelegationsByMsaId:answered", 600),
			("msa_getKeysByMsaId:answered", 600),
			("msa_grantedSchemaIdsByMsaId:answered", 400),
			("schemas_checkSchemaValidity:answered", 600),
			("schemas_checkSchemaValidity:refused", 600),
			("schemas_getBySchemaId:answered", 600),
			("schemas_getBySchemaId:nothing", 200),
			("schemas_getVersions:answered", 300),
			("statefulStorage_getItemizedStorage:answered", 200),
			("statefulStorage_getItemizedStorage:refused", 70),
			("statefulStorage_getPaginatedStorage:answered", 200),
			("statefulStorage_getPaginatedStorage:refused", 70),
		],
		"C37" => &[
			("delegation:true", 700),
			("delegation:false", 4000),
			("granted:true", 1000),
			("granted:false", 800),
			("handle:true", 500),
			("msa_of_handle:true", 300),
			("suffix_compared", 300),
			("keys:found", 800),
			("messages:1", 300),
			("events:4", 1000),
			("nonces:one_twice", 300),
			("nonces:some_wait", 500),
			("nonces:very_many_missing", 20),
			("fee_compared", 400),
			("readable:true", 300),
			("readable:false", 800),
			("versions:true", 500),
		],
		"C43" => &[
			("actual_weight_given", 10),
			("carrier:batch_of_4", 500),
			("carrier:passkey", 1000),
			("carrier:pay_with_capacity", 2000),
			("class:free", 3000),
			("class:paid", 10000),
			("start_of_block:Capacity:3:2", 80),
			("sized:Schemas.create_schema_v3", 100),
			("sized:Messages.add_onchain_message", 40),
			("weighed:Capacity.stake:done", 800),
			("weighed:Capacity.unstake:done", 300),
			("weighed:Capacity.withdraw_unstaked:done", 8),
			("weighed:Handles.change_handle:done", 15),
			("weighed:Handles.claim_handle:done", 800),
			("weighed:Handles.retire_handle:done", 8),
			("weighed:Messages.add_ipfs_message:done", 80),
			("weighed:Messages.add_onchain_message:done", 80),
			("weighed:Msa.add_public_key_to_msa:done", 300),
			("weighed:Msa.create_provider:done", 25),
			("weighed:Msa.create_sponsored_account_with_delegation:done", 80),
			("weighed:Msa.delete_msa_public_key:done", 25),
			("weighed:Msa.grant_delegation:done", 100),
			("weighed:Msa.retire_msa:done", 100),
			("weighed:Msa.revoke_delegation_by_delegator:done", 50),
			("weighed:Msa.revoke_delegation_by_provider:done", 50),
			("weighed:Msa.revoke_schema_permissions:done", 25),
			("weighed:Schemas.create_schema_name_via_governance:done", 100),
			("weighed:Schemas.create_schema_v3:done", 30),
			("weighed:StatefulStorage.apply_item_actions:done", 90),
			("weighed:StatefulStorage.apply_item_actions_with_signature_v2:done", 15),
			("weighed:StatefulStorage.delete_page:done", 25),
			("weighed:StatefulStorage.upsert_page:done", 40),
			("weighed:StatefulStorage.upsert_page_with_signature_v2:done", 20),
			("weighed:TimeRelease.claim_for:done", 150),
			("weighed:TimeRelease.transfer:done", 700),
			("weighed:TimeRelease.update_release_schedules:done", 200),
		],
		_ => &[
			("admitted_batch", 5000),
			("refused_batch", 5000),
			("refused_call", 500),
			("refused_on_dispatch", 2000),
			("passkey:true", 1000),
			("proxied_allowed:Any", 500),
			("proxied_allowed:NonTransfer", 500),
			("proxied_allowed:Staking", 40),
			("proxied_refused:Any", 200),
			("proxied_refused:NonTransfer", 500),
			("proxied_refused:Staking", 500),
			("proxied_refused:Governance", 500),
			("proxied_refused:CancelProxy", 500),
			("capacity:Msa.add_public_key_to_msa", 50),
			("capacity:Messages.add_ipfs_message", 50),
			("capacity:Handles.claim_handle", 50),
			("capacity:StatefulStorage.upsert_page", 50),
		],
	};
	for (k, n) in need {
		r.require(k, *n);
	}
	let mut n = 0;
	while r.time_left() && !r.too_many() {
		n += 1;
		match r.prop.as_str() {
			"C33" if n % 2 == 0 => mainnet::upgrade::run(&mut r, n),
			"C33" => testnet::upgrade::run(&mut r, n),
			"C40" if n % 2 == 0 => mainnet::bytes::bytes_run(&mut r, n),
			"C40" => testnet::bytes::bytes_run(&mut r, n),
			"C36" if n % 2 == 0 => mainnet::council::run(&mut r, n),
			"C36" => testnet::council::run(&mut r, n),
			"C38" if n % 2 == 0 => mainnet::power::run(&mut r, n),
			"C38" => testnet::power::run(&mut r, n),
			"C37" if n % 2 == 0 => mainnet::query::ask(&mut r, n),
			"C37" => testnet::query::ask(&mut r, n),
			"C42" if n % 2 == 0 => mainnet::query::published(&mut r, n),
			"C42" => testnet::query::published(&mut r, n),
			"C41" if n % 2 == 0 => mainnet::whole::limits_run(&mut r, n),
			"C41" => testnet::whole::limits_run(&mut r, n),
			"C43" if n % 2 == 0 => mainnet::whole::weights_run(&mut r, n),
			"C43" => testnet::whole::weights_run(&mut r, n),
			"C35" | "C39" if n % 2 == 0 => mainnet::whole::run(&mut r, n),
			"C35" | "C39" => testnet::whole::run(&mut r, n),
			_ if n % 2 == 0 => mainnet::filters::run(&mut r, n),
			_ => testnet::filters::run(&mut r, n),
		}
	}
	r.add("histories", n);
	r.finish("a call is distinct if its encoding differs from every other on the same network")
}
