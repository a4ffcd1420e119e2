#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run it after editing; the .jsonl is what counts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": mechanism, "where": ", ".join(files)}]}
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

CAP="pallets/capacity/src/"; MSA="pallets/msa/src/"; HAN="pallets/handles/src/"; HU="pallets/handles/src/handles-utils/"
SCH="pallets/schemas/src/"; MSG="pallets/messages/src/"; SS="pallets/stateful-storage/src/"; TR="pallets/time-release/src/"
FTP="pallets/frequency-tx-payment/src/"; PK="pallets/passkey/src/"; PRIM="common/primitives/src/"; RC="runtime/common/src/"

prop("C01","Capacity staking conserves tokens and capacity totals",
 "After any sequence of stake, unstake and withdraw operations, what a staker has actively staked equals the sum of what it stakes to each provider, each provider's recorded total equals the sum over its stakers, and the staker's frozen balance equals its active stake plus everything still thawing and never exceeds the tokens it owns. No operation lets a staker take back from one provider more than it staked there, a stake that leaves the staker below the minimum stake is refused and an unstake that would takes back all that is staked there, and an operation that fails changes nothing.",
 ["inputs","histories"],"every interleaving of staking calls by any set of stakers on any set of providers, any amounts, balances and epochs",
 "Tests stake and unstake one or two fixed amounts on one or two targets; the invariant couples three ledgers and the balances freeze over an arbitrary history.",
 [CAP+"lib.rs",CAP+"types.rs"],"StakingAccountLedger/StakingTargetLedger/CapacityLedger/UnstakeUnlocks are updated separately by increase_stake_and_issue_capacity, decrease_active_staking_balance, reduce_capacity, set_staking_account*")
prop("C02","Unstaked tokens thaw only after the full thaw period, and exactly once",
 "Tokens a staker unstakes stay frozen until the full configured number of epochs has passed, become withdrawable from that epoch on, and are released exactly once; a withdrawal before that releases nothing. The number of pending unlocks never exceeds the configured maximum.",
 ["inputs","histories"],"every sequence of unstake/withdraw calls and epoch transitions, including epoch-length changes",
 "Unit tests sample a couple of chunks at fixed epochs; thaw order, merging and the chunk limit depend on whole histories.",
 [CAP+"lib.rs",CAP+"types.rs"],"UnlockChunk.thaw_at compared with current epoch; unlock_chunks_reap_thawed, add_unlock_chunk, unlock_chunks_total")
prop("C03","Capacity epochs advance once per epoch length and never go backward",
 "The current epoch number increases by exactly one each time the epoch length has elapsed since the epoch began, never otherwise, and never decreases, whatever the epoch length is changed to by governance.",
 ["histories","configurations"],"every block sequence and any schedule of epoch length changes",
 "Tests step a few blocks with one epoch length.",[CAP+"lib.rs"],"start_new_epoch_if_needed in on_initialize compares block - epoch_start with EpochLength")
prop("C04","Provider capacity spending is bounded by issuance and refills once per epoch",
 "A provider's remaining capacity never exceeds its issued total; a successful spend lowers it by exactly the amount asked and a spend above what remains is refused without change. A refill happens only when the epoch has advanced since the last refill, sets remaining to the issued total, and so total spending within one epoch never exceeds the largest amount issued plus what was newly staked in it.",
 ["inputs","histories"],"every interleaving of stakes, unstakes, spends, refills and epoch changes for any providers",
 "Tests exercise deduct/replenish separately with fixed numbers.",[CAP+"lib.rs",CAP+"types.rs",FTP+"lib.rs"],"Nontransferable::deduct/deposit/replenish_all_for/can_replenish over CapacityLedger")
prop("C05","Every key controls at most one account id and ids are never reused",
 "Every public key is associated with at most one message source account (MSA) at any time, an MSA's recorded number of keys equals the number of keys that resolve to it and never exceeds the configured maximum or drops to zero while the MSA lives. MSA ids are issued in increasing order and an id that was retired is never issued or resolved again.",
 ["inputs","histories"],"every sequence of create, sponsored create, add-key, delete-key and retire operations by any accounts",
 "Tests cover each extrinsic on fresh state with one or two keys.",[MSA+"lib.rs"],"PublicKeyToMsaId, PublicKeyCountForMsaId, CurrentMsaIdentifierMaximum maintained by add_key/delete_key_for_msa/create_account/retire_msa")
prop("C06","Delegations are honoured exactly for the blocks and schemas granted",
 "A provider is authorised for a delegator and schema at the current block exactly when a delegation between them is in force, or was revoked no earlier than in this block, and the same holds for the schema's grant within it; a delegation or grant that has ended is honoured for past blocks exactly up to the block in which it last ended; queries about future blocks are refused. Granting, revoking, re-granting and schema-permission changes affect only the delegator/provider pair named, and only when authorised by the right party.",
 ["inputs","histories"],"every history of delegation grants, revocations, schema permission updates and queries at any past, present or future block",
 "Tests check a few fixed block numbers after one grant or revocation.",[MSA+"lib.rs",MSA+"types.rs"],"DelegatorAndProviderToDelegation.revoked_at and schema_permissions; ensure_valid_delegation, ensure_valid_schema_grant, upsert_schema_permissions")
prop("C07","A signed MSA payload takes effect at most once and only while it is valid",
 "A payload signature authorising an MSA operation is accepted only if it was made by the stated key over exactly that payload, only before its expiration block and only if the expiration is within the mortality window. Once accepted, the same signature is refused until it has expired, however many other signatures are registered in between; when the registry is full of unexpired signatures new ones are refused rather than unexpired ones forgotten.",
 ["inputs","histories"],"every history of signed payloads by any keys, expirations, replays and registry occupancy levels",
 "Tests replay immediately or fill the registry once; eviction order and expiry interact across long histories.",[MSA+"lib.rs"],"register_signature/enqueue_signature linked list over PayloadSignatureRegistryList and PayloadSignatureRegistryPointer")
prop("C08","An MSA operation succeeds only for the key holder entitled to it",
 "Keys are added or deleted, delegations granted or revoked, providers registered and accounts retired only when the caller's key, or a valid signature by it, currently belongs to the MSA concerned. The fee-free operations are admitted to the pool only in the situations in which they would succeed, and an MSA that is a provider, holds a handle, has delegations or several keys cannot be retired.",
 ["inputs","histories"],"every caller, key, target MSA and preceding history",
 "Tests check hand-picked wrong callers.",[MSA+"lib.rs"],"ensure_valid_msa_key, ensure_msa_owner, CheckFreeExtrinsicUse::validate_*, retire_msa")
prop("C09","The off-chain key index reflects the finalized on-chain keys",
 "After the off-chain worker has processed the finalized blocks, the indexed list of keys for every MSA equals the set of keys that resolve to it on chain, without duplicates or stale entries, whatever the order of key events, including blocks with several events for the same MSA and keys that were added and removed again, and whatever worker runs overlap, fail or are cut off by the node going down.",
 ["inputs","histories","schedules","crash_points"],"every history of key additions and removals, every delay or batching of off-chain worker runs, every overlap of runs within the validity of their locks and every point at which the node may stop",
 "The tests inspect one event per block and a fixed order.",[MSA+"offchain_storage.rs",PRIM+"offchain.rs",MSA+"rpc/src/lib.rs"],"offchain_index_event writes indexed events; do_offchain_worker/reverse_map_msa_keys/process_offchain_events apply them")
prop("C10","Handles are unique and each MSA has at most one",
 "At any time each MSA owns at most one handle and each combination of canonical base handle and numeric suffix is owned by at most one MSA; looking an MSA up by its display handle and a handle up by its MSA are exact inverses. Claiming, changing and retiring touch only the caller's own handle.",
 ["inputs","histories"],"every sequence of claim, change and retire by any accounts with any base handles, including homoglyph and case variants of each other",
 "Tests use a handful of ASCII handles in fresh state.",[HAN+"lib.rs",HU+"src/converter.rs"],"MSAIdToDisplayName and CanonicalBaseHandleAndSuffixToMSAId maintained together by do_claim_handle/do_retire_handle")
prop("C11","Handle suffixes follow the published per-handle sequence and are not reissued",
 "For one configured suffix range, the suffixes issued for a canonical base handle are exactly the successive elements of its published pseudo-random sequence, a suffix once issued is never issued again even after retirement, and once the range is used up claims fail. The predicted next suffixes reported to clients are exactly those that claims then receive.",
 ["inputs","histories"],"every base handle and every history of claims, changes and retirements up to exhaustion of the range",
 "Tests claim one or a few handles; exhaustion and interleaving of variants are not reached.",[HAN+"lib.rs",HU+"src/suffix.rs"],"CanonicalBaseHandleToSuffixIndex and generate_unique_suffixes")
prop("C12","The suffix generator yields a permutation of any range, stable for a handle",
 "For every base handle and every inclusive range of 16-bit suffixes the generator yields each number of the range exactly once, in an order that depends only on the handle and the range and never changes between calls or releases, without failing for any range including those ending at 65535.",
 ["inputs"],"all strings and all ranges min..=max of 16-bit numbers",
 "One range and a couple of handles are sampled by the tests.",[HU+"src/suffix.rs"],"lazy Fisher-Yates shuffle seeded from XxHash64")
prop("C13","Look-alike spellings of a handle share one canonical form",
 "Two base handles that differ only by letter case, whitespace, diacritical marks, compatibility variants or listed look-alike characters have the same canonical form. The canonical form contains no whitespace or combining marks, is lower case in ASCII, depends on nothing but the base handle, and is defined for every string.",
 ["inputs"],"all Unicode strings",
 "Tests use a dozen example strings.",[HU+"src/converter.rs",HU+"build.rs",HU+"src/data/confusable_characters.txt"],"convert_to_canonical: strip whitespace, NFKD minus combining marks, CONFUSABLES map, ASCII lower-casing")
prop("C14","Only documented characters and words are admitted in handles",
 "A base handle is accepted only if every character lies in the documented supported Unicode ranges and none is a blocked character, and it is not a reserved word; every string of supported, unblocked characters that is not reserved passes the character checks.",
 ["inputs"],"all Unicode strings, including characters outside the basic multilingual plane",
 "Tests sample a few characters from each range and none beyond 16 bits.",[HU+"src/validator.rs",HU+"constants.rs"],"consists_of_supported_unicode_character_sets, contains_blocked_characters, is_reserved_handle")
prop("C15","Display handles split back into exactly the base handle and suffix",
 "A display handle built from an accepted base handle and any suffix splits back into exactly that base handle and suffix; any string that is not one base handle, one delimiter and one decimal 16-bit number is rejected, without panicking.",
 ["inputs"],"all strings and suffixes","Tests sample two strings.",[HU+"src/converter.rs",HAN+"lib.rs",PRIM+"handles.rs"],"split_display_name and build_full_display_handle")
prop("C16","Handle payload signatures are owner-made and time-limited; checks agree",
 "A handle is claimed or changed only with an unexpired signature, within the mortality window, by the caller over exactly the submitted payload. The read-only validity check accepts a base handle exactly when its claim would not be refused for its content, and a handle cannot be retired before the time its claim's expiration set.",
 ["inputs","histories"],"every payload, signer, expiration, block and base handle","Tests check single examples of each rejection.",[HAN+"lib.rs",HAN+"handles_signed_extension.rs"],"verify_signed_payload, verify_signature_mortality, verify_handle validations, HandlesSignedExtension::validate_retire_handle")
prop("C17","Messages are stored completely, once, and in arrival order",
 "Every accepted message can be read back for its schema and block with exactly the submitted payload or content id and length, publisher and effective sender, at an index that is unique in the block and increases in arrival order; no message is lost, duplicated, altered or visible under another schema or block, and a block with messages announces them exactly once. A rejected message leaves no trace.",
 ["inputs","histories"],"every sequence of message submissions across schemas and blocks","Tests add a few messages to one block.",[MSG+"lib.rs",MSG+"types.rs"],"MessagesV2 keyed (block, schema, index), BlockMessageIndex, map_to_response")
prop("C18","Messages are accepted only from registered senders with valid authority",
 "A message is accepted only if its sender's key belongs to an MSA registered on chain, its payload fits the limit, its schema exists with the matching payload location and not the other kind, its content id is a well-formed supported one, and, when posted on behalf of another MSA, an active delegation for that schema exists.",
 ["inputs","histories"],"every origin, schema, payload, content id and delegation history","Tests check single examples.",[MSG+"lib.rs"],"add_ipfs_message/add_onchain_message checks; validate_cid; ensure_valid_schema_grant")
prop("C19","Paginated message queries return every message once and then stop",
 "Following the pagination cursor from any valid request returns every message in the block range exactly once and in order, each page holds at most the requested number, the cursor always advances, and the end is never reported while a message remains. Requests outside the documented bounds are refused.",
 ["inputs"],"all distributions of messages over blocks and all page sizes and ranges","Tests check a few fixed pages.",[PRIM+"messages.rs",MSG+"rpc/src/lib.rs"],"BlockPaginationRequest::validate, BlockPaginationResponse::check_end_condition_and_set_next_pagination")
prop("C20","Schemas are immutable, sequentially numbered and bounded",
 "Schema ids are issued sequentially from one and never reused, a stored schema reads back exactly as submitted forever after, models outside the configured size (set at genesis or by governance) or not well-formed for their type and settings outside the allowed combinations are refused, as are schemas beyond the configured number of registrations, and a refused creation consumes no id.",
 ["inputs","histories"],"every sequence of creation attempts by any route and any model bytes, settings and names","Tests create a few schemas.",[SCH+"lib.rs",SCH+"types.rs",PRIM+"schema.rs",PRIM+"parquet/types.rs",PRIM+"parquet/column_compression_codec.rs"],"CurrentSchemaIdentifierMaximum, SchemaInfos, SchemaPayloads; do_create_schema_v3; ensure_valid_model; settings checks")
prop("C21","Schema names identify one schema per version and are append-only",
 "The versions listed under a schema name only ever grow by appending, each schema belongs to at most one name, version numbers are consecutive from one, and names are matched regardless of ASCII letter case while malformed names are refused. Looking versions up by name or namespace returns exactly the registered ones.",
 ["inputs","histories"],"every sequence of named creations and governance namings, and every byte string as a name","Tests use a few names.",[SCH+"lib.rs",SCH+"types.rs"],"SchemaNameToIds, SchemaVersionId::add, SchemaName::try_parse, has_name")
prop("C22","Stateful storage rejects writes based on stale page state",
 "A write to a page succeeds only if the caller supplies the hash of the page's current content, and every successful write that leaves a page with content changes the hash a later writer must supply, so that of two writers that read the same state at most one succeeds unless the first leaves the page empty. A refused write changes nothing.",
 ["inputs","histories","schedules"],"every interleaving of readers and writers on any pages with any contents, including writes that restore earlier content","Tests check one correct and one wrong hash.",[SS+"lib.rs",SS+"types.rs",SS+"stateful_child_tree.rs"],"target_hash vs Page::get_hash over data and nonce")
prop("C23","Itemized and paginated contents equal the applied operations",
 "A page always reads back exactly the result of applying the accepted operations in order: itemized pages list exactly the items added and not deleted, in order, and paginated pages exactly the last content written, for that MSA and schema only. Item, page, and index limits are enforced, and any page that was accepted can be read back.",
 ["inputs","histories"],"every sequence of item actions, page upserts and deletions on any MSAs, schemas and page ids","Tests apply a handful of actions.",[SS+"lib.rs",SS+"types.rs",SS+"stateful_child_tree.rs"],"ItemizedOperations::apply_item_actions/try_parse, StatefulChildTree read/write/kill")
prop("C24","Stateful storage writes require ownership, delegation or a fresh owner signature",
 "A page of an MSA changes only by an operation of its own key holder, of a provider holding an active delegation for that schema, or carrying an unexpired signature of one of its keys over exactly that change; append-only and signature-required schemas refuse the operations their settings forbid, and schemas with another payload location are refused.",
 ["inputs","histories"],"every caller, schema, setting, signature, expiration and delegation history","Tests check single examples of each rule.",[SS+"lib.rs"],"check_msa_and_grants, check_schema_for_write, check_signature, check_payload_expiration")
prop("C25","Different accounts, schemas and pages never share stored state",
 "Storage keys of distinct MSAs, pallets, schemas, payload types or page ids never coincide, one list's entries are exactly those whose key starts with its prefix, and any stored key decodes back to the components it was built from.",
 ["inputs"],"all MSA ids, schema ids, page ids and prefixes","Tests check fixed keys.",[SS+"stateful_child_tree.rs"],"MultipartKey encoding with Twox128/child trie roots, prefix_iterator")
prop("C26","Released tokens are exactly those whose release time has passed",
 "At any time the tokens an account has frozen through release schedules, once claimed up to date, are exactly those whose schedule periods have not yet ended, tokens never become spendable early, and after the final period everything is claimable and the lock disappears. Creating, claiming and governance updates conserve total balances.",
 ["inputs","histories"],"every set of schedules, claim timing, transfers and updates","Tests use two or three schedules at fixed blocks.",[TR+"lib.rs",TR+"types.rs"],"ReleaseSchedules, frozen_amount, prune_and_get_frozen_balance, update_freeze")
prop("C27","Release schedules are bounded and arithmetic never misbehaves",
 "A schedule with zero period, zero count, an end or total that overflows, or less than the minimum transfer is refused, the number of schedules per account never exceeds the maximum, and no accepted schedule can make a later operation panic or wrap.",
 ["inputs"],"all schedule parameters, including extremes of every integer","Tests check a few overflow values.",[TR+"lib.rs",TR+"types.rs"],"ensure_sufficient_free_balance, ensure_valid_release_schedule, ReleaseSchedule::end/total_amount/frozen_amount")
prop("C28","Capacity-paid transactions charge exactly the fee in capacity and no tokens",
 "A transaction paid with capacity lowers the calling provider's remaining capacity by exactly the computed fee and leaves token balances unchanged by fees, is refused for ineligible calls, for callers without an MSA, without enough capacity or below the required balance, and a token-paid transaction never touches capacity.",
 ["inputs","histories"],"every call, fee setting, balance, remaining capacity and epoch","Tests check one balance per case.",[FTP+"lib.rs",FTP+"payment.rs",FTP+"capacity_stable_weights.rs","runtime/frequency/src/lib.rs"],"ChargeFrqTransactionPayment::withdraw_fee/withdraw_capacity_fee, CapacityAdapter, compute_capacity_fee")
prop("C29","Transaction nonces give each account's transactions one strict order",
 "A signed transaction is executed only if its nonce equals the account's current nonce, and it then advances the nonce by one if the sender has an account or pays a fee; lower nonces are refused as stale, higher ones wait on exactly the nonces before them, and no account record is created for a sender that neither exists nor pays.",
 ["inputs","histories"],"every sequence of transactions, nonces and paying or free calls","Few or no tests cover the extension.",[RC+"extensions/check_nonce.rs"],"CheckNonce pre_dispatch/validate over frame_system::Account")
prop("C30","Passkey calls need a valid account binding, a fresh nonce and an allowed call",
 "A passkey transaction executes a call as an account only if that account signed the passkey's public key, the nonce is the account's current one, the fee is paid by that account and the call is one of the permitted kinds; each accepted transaction consumes its nonce, so it cannot be replayed.",
 ["inputs","histories"],"every account, key, signature, nonce, call and balance","Tests check single examples.",[PK+"lib.rs",PK+"types.rs"],"ValidateUnsigned::validate_unsigned/pre_dispatch, PasskeySignatureCheck, PasskeyNonceCheck, ChargeTransactionPayment")
prop("C31","Avro helpers round trip records and refuse what does not fit",
 "Any record valid for an Avro schema, serialized and read back with the same schema, yields the same field values; canonicalised schemas parse back to an equivalent schema; a schema is reported valid exactly when it parses, records that do not fit their schema are refused, and arbitrary bytes never cause a panic.",
 ["inputs"],"all Avro record schemas, records and byte strings","Tests round-trip a handful of records.",["common/helpers/src/avro.rs","common/helpers/src/types.rs"],"fingerprint_raw_schema, translate_schema, populate_schema_and_serialize, get_schema_data_map, validate_raw_avro_schema")
prop("C32","Wire and JSON encodings of public types round trip",
 "Public identifiers, settings bit sets, delegation and pagination types decode from their SCALE encoding to the same value, setting bit sets refuse undefined bits, hexadecimal and string JSON forms parse back to the same bytes, and the wrapping of signed payloads adds exactly the documented prefix and suffix.",
 ["inputs"],"all values and all byte strings","Tests check a few literals.",[PRIM+"utils.rs",PRIM+"msa.rs",PRIM+"schema.rs",PRIM+"macros.rs",PRIM+"rpc.rs",PRIM+"node.rs"],"impl_codec_bitflags, DelegatorId/ProviderId codecs, as_hex/as_hex_option/as_string serde helpers, wrap_binary_data")
prop("C33","Runtime upgrades carry stored data over without loss and only once",
 "Running a storage migration of the messages, schemas or time-release pallet on any state an earlier version can have stored keeps every record: each message under its block, schema and index with the same content, each release schedule with the funds it held still held (as a freeze instead of a lock, other locks and freezes untouched), each schema with only the documented names added and only on the main network. The new version is recorded, nothing else in the chain state changes, and running the migration again, or on a state that is already migrated, changes nothing.",
 ["inputs","histories"],"every pre-upgrade state and every history leading to it","Tests migrate a few hand-written records or none.",["pallets/time-release/src/migration/v2.rs",MSG+"migration/v2.rs",SCH+"migration/v4.rs","runtime/frequency/src/lib.rs"],"OnRuntimeUpgrade implementations guarded by storage version, Migrations of the runtime's Executive")
prop("C34","Call filters admit only the calls documented for each origin",
 "A batch is admitted only if every call in it is permitted: nested batches, capacity-payment calls, fee-free calls and restricted creation calls are refused wherever they appear in the batch. Passkey and proxy filters and the list of capacity-eligible calls admit exactly the documented calls.",
 ["inputs","programs"],"every call and every batch of calls in any order","Tests only cover a few end-to-end scenarios outside Rust.",["runtime/frequency/src/lib.rs"],"BaseCallFilter::contains, PasskeyCallFilter, ProxyType::filter, CapacityEligibleCalls")
prop("C35","Authority and safeguards hold however a call is wrapped",
 "Whether a call is submitted directly or inside proxies, multisigs, batches or a capacity payment, an included transaction changes keys, handles, delegations, stored state, messages, stakes, capacity and balances only of accounts and MSAs whose holders sent or signed for it (with a passkey: signed for the passkey), within the safeguards of each call (key ownership, handle lifetime, MSA retirement conditions, council approval on the main network), and a refused or replayed transaction changes nothing.",
 ["inputs","histories"],"every history of signed and passkey transactions with any nesting of wrappers","Unit tests call pallets directly and never through the runtime's wrappers.",["runtime/frequency/src/lib.rs","pallets/msa/src/lib.rs","pallets/handles/src/lib.rs","pallets/stateful-storage/src/lib.rs","pallets/messages/src/lib.rs","pallets/capacity/src/lib.rs"],"signed extensions (CheckFreeExtrinsicUse, HandlesSignedExtension), BaseCallFilter, dispatchables of all pallets under construct_runtime")
prop("C36","Governance creates what was proposed, and only when approved",
 "Providers, schemas, schema names, the schema size limit and the epoch length come about through governance exactly as proposed and only with the approval each needs: on the main network a provider needs a council member's approval and a schema or schema name more than half of the seats, the limits need root, and nobody can create them directly; on the test network accounts may also create providers and schemas for themselves. A proposal call opens one motion whose content and threshold follow from the proposer and its arguments, and a rejected or failing motion changes nothing.",
 ["inputs","histories"],"every history of proposals, motions, votes, changes of members, closings and direct calls","Tests vote once on one proposal in a mock runtime with its own origins.",["runtime/frequency/src/lib.rs",MSA+"lib.rs",SCH+"lib.rs"],"CouncilProposalProvider, CreateProviderViaGovernanceOrigin, CreateSchemaViaGovernanceOrigin, propose_to_*")
prop("C37","Query interfaces answer exactly what the chain state says",
 "Through the runtime API and the RPC handlers, the delegations that hold at a block, granted schemas with the block of their revocation, an MSA's indexed keys, handles and the MSA behind a handle, the next suffixes, stored items and pages, schemas and their versions, messages of a block range, a block's events, capacity fees and the nonces missing from the transaction pool are answered exactly as the current state determines, asking changes no state, and no question makes the node panic.",
 ["inputs","histories"],"every reachable state, every question and every content of the transaction pool","RPC tests use mocked runtime APIs and a handful of questions; the runtime's API is not tested in Rust.",["runtime/frequency/src/lib.rs","node/service/src/rpc/frequency_rpc.rs",MSA+"rpc/src/lib.rs","pallets/handles/src/rpc/src/lib.rs",MSG+"rpc/src/lib.rs",SCH+"rpc/src/lib.rs","pallets/stateful-storage/src/rpc/src/lib.rs",FTP+"rpc/src/lib.rs"],"RPC handlers, impl_runtime_apis!, get_missing_nonces, has_delegation")
prop("C38","Each governance power needs exactly the documented approval",
 "On both networks every power the runtime hands to governance is open exactly to the origins documented for it: the stated share of the right body's seats (council or technical committee), a single committee member, root, or a plain account, and to nobody else, however many seats there are. A vote of one body never stands in for the other's, one seat's own origin never for a vote, and the treasury cannot be spent from outside of its proposals.",
 ["inputs"],"every origin: every number of approvals out of every number of seats, in either body","No test exercises the runtime's configured origins; pallet tests use mock origins.",["runtime/frequency/src/lib.rs"],"pallet_*::Config origins of the runtime")
prop("C39","Events tell exactly what changed",
 "A reader who follows only the events, block by block, knows the state: keys and their MSAs, retired MSAs, providers, active delegations, handles, schemas and their names and versions, the model size limit and epoch length, stakes, issued and thawing and spent capacity amounts, content hashes of stored items and pages, release schedules and which blocks hold messages. Every such change is announced by its event with the right subject and amount, no event announces something that did not happen, and failed transactions announce nothing of the kind.",
 ["inputs","histories"],"every history of transactions, however wrapped, and of governance decisions","Tests check single events after single calls.",["pallets/msa/src/lib.rs","pallets/handles/src/lib.rs",SCH+"lib.rs",SS+"lib.rs",MSG+"lib.rs","pallets/capacity/src/lib.rs",TR+"lib.rs",PK+"lib.rs"],"deposit_event in every dispatchable of the pallets")
prop("C40","Published byte forms of calls, state, events and errors keep their meaning",
 "A client that knows only the published interface is understood and understands: transactions, calls, the payloads users sign, events, errors and answers have the pallet, call, event and error numbers, field order and encoding that were published; a transaction put together and signed from these bytes is taken as the one meant; and every item of the state is found under the published key in the published layout, with content hashes computed as published.",
 ["inputs","histories"],"every value of every field of every call, event, signed payload and stored item, after every history","Rust tests build calls through the same types they test, so any change of form is invisible to them; a handful of encodings is checked end to end only.",["runtime/frequency/src/lib.rs","pallets/stateful-storage/src/types.rs","pallets/stateful-storage/src/stateful_child_tree.rs","pallets/msa/src/types.rs","common/primitives/src/msa.rs","common/primitives/src/schema.rs","common/primitives/src/handles.rs"],"construct_runtime!, call_index, derives of Encode and Decode, storage declarations, SignedExtra")
prop("C41","Published limits, signature windows and prices are the ones in force",
 "On each network every published limit holds exactly: what is within it is accepted and what is beyond it is refused without a trace (keys of an MSA, sizes of names, models, messages, items and pages, numbers of schemas, grants, settings, actions, chunks, schedules, batched calls, handle suffixes, signature windows, epoch lengths, thawing, minimum stakes and balances), a transaction costs in tokens or in capacity what its weight, length and tip make it cost by the published tariff, and periods, deposits and block limits are those published for that network.",
 ["inputs","configurations","histories"],"every limit from both sides, every size of every call, main network and test network","Pallet tests run with a mock's constants, so the values and wiring of the real runtime's are seen by no test; prices are asserted for a sample call or two.",["runtime/common/src/constants.rs","runtime/common/src/fee.rs","runtime/frequency/src/lib.rs","pallets/frequency-tx-payment/src/capacity_stable_weights.rs","pallets/frequency-tx-payment/src/lib.rs"],"constants.rs, WeightToFee, CapacityEligibleCalls, compute_capacity_fee, impl Config for Runtime, parameter_types!")
prop("C42","The JSON-RPC interface answers by its published names and JSON forms",
 "A client that knows only the published JSON-RPC interface is served: every documented method is there under its published name with the parameters in their published order, those documented as optional may be left out, and the answer carries the content of the chain state at the asked (otherwise the best) block in the published JSON form: field names, bytes as hexadecimal, text as text, addresses, fees as hexadecimal numbers, absent fields left out. Malformed requests are refused, never answered and never fatal, nothing is made up when the state cannot be read, and the methods that order blocks exist only on a node that seals by hand.",
 ["inputs","histories"],"every reachable state, every question, every malformed parameter","RPC tests call the Rust handlers directly with mocked clients; names, parameter forms, JSON forms and the assembled module are exercised by no Rust test.",["node/service/src/rpc/mod.rs","node/service/src/rpc/frequency_rpc.rs",MSA+"rpc/src/lib.rs","pallets/handles/src/rpc/src/lib.rs",MSG+"rpc/src/lib.rs",SCH+"rpc/src/lib.rs","pallets/stateful-storage/src/rpc/src/lib.rs",FTP+"rpc/src/lib.rs","common/primitives/src/messages.rs","common/primitives/src/utils.rs"],"create_full, #[method(name)], #[rpc] traits, serde attributes of the responses")
prop("C43","Declared weights cover the state touched and the data and calls carried",
 "On both networks the weight a call of Frequency declares before it runs covers, at the database prices and proof sizes assumed, all the state it reads and writes when it runs (beyond its signer's account and the block's own bookkeeping), and so does the weight returned at the start of a block; calls that carry more data declare more, checking somebody's signature is weighed, a call that carries other calls declares theirs and its own, no call uses more than it declared, and exactly the documented calls are free of charge and of another class.",
 ["inputs","histories"],"every call with any data, in every reachable state, alone or carried by others","Weights are generated once from benchmarks that no test compares with what the calls do; mocks declare none.",["pallets/msa/src/weights.rs","pallets/msa/src/lib.rs",SCH+"weights.rs",SCH+"lib.rs",SS+"lib.rs",MSG+"lib.rs","pallets/capacity/src/lib.rs",TR+"lib.rs",FTP+"lib.rs",PK+"lib.rs"],"#[pallet::weight(..)] of every dispatchable, WeightInfo, on_initialize")
prop("C44","A development node seals blocks exactly as its sealing mode says",
 "A node started for development runs in the sealing mode named on its command line: it seals a block at once for every transaction that enters its pool (instant), at every tick of its interval if there is a transaction or empty blocks are wanted (interval), and otherwise only when told to over the RPC; blocks it seals by itself are finalized and each carries a timestamp. In every mode the commands given over the RPC are carried out one at a time, in order, exactly as given, and each is answered once with what became of it (one that asks for no empty block may be declined while the pool is empty); blocks that take long or fail do not stop it. A node without authority seals nothing and offers no commands; off-chain workers run, and the RPC sees their storage, exactly if enabled; a start that fails is reported and starts no network.",
 ["schedules","histories","configurations","fault_sequences"],"every mode, interval and role, every timing of transactions, ticks and commands, every block that fails or takes long","No test starts the node; its timing depends on two merged streams and on when authoring is busy.",["node/service/src/block_sealing.rs","node/cli-opt/src/lib.rs"],"frequency_dev_sealing, run_seal_command: command stream, import notifications or ticks merged into one authoring task")
here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
