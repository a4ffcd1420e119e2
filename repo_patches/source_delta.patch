From d550b22f05f94bdbe7d73ff514bd2665eef223f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:41 +0000
Subject: [PATCH 01/25] fix: do not admit characters beyond 16 bits in handles
 by truncating them

---
 pallets/handles/src/handles-utils/build.rs         | 4 +++-
 pallets/handles/src/handles-utils/src/validator.rs | 6 +++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/pallets/handles/src/handles-utils/build.rs b/pallets/handles/src/handles-utils/build.rs
index 637081c..a940ebf 100644
--- a/pallets/handles/src/handles-utils/build.rs
+++ b/pallets/handles/src/handles-utils/build.rs
@@ -9,7 +9,9 @@ mod constants;
 use constants::ALLOWED_UNICODE_CHARACTER_RANGES;
 
 fn allowed_char(c: char) -> bool {
-	ALLOWED_UNICODE_CHARACTER_RANGES.iter().any(|range| range.contains(&(c as u16)))
+	// Characters beyond the 16-bit plane must not be truncated into it
+	u16::try_from(c as u32)
+		.map_or(false, |c| ALLOWED_UNICODE_CHARACTER_RANGES.iter().any(|range| range.contains(&c)))
 }
 
 #[allow(clippy::unwrap_used)]
diff --git a/pallets/handles/src/handles-utils/src/validator.rs b/pallets/handles/src/handles-utils/src/validator.rs
index 7e371d6..f2efd09 100644
--- a/pallets/handles/src/handles-utils/src/validator.rs
+++ b/pallets/handles/src/handles-utils/src/validator.rs
@@ -64,5 +64,9 @@ pub fn contains_blocked_characters(input_str: &str) -> bool {
 pub fn consists_of_supported_unicode_character_sets(input_str: &str) -> bool {
 	input_str
 		.chars()
-		.all(|c| ALLOWED_UNICODE_CHARACTER_RANGES.iter().any(|range| range.contains(&(c as u16))))
+		// Characters beyond the 16-bit plane must not be truncated into it
+		.all(|c| {
+			u16::try_from(c as u32)
+				.map_or(false, |c| ALLOWED_UNICODE_CHARACTER_RANGES.iter().any(|r| r.contains(&c)))
+		})
 }
-- 
2.43.0


From 1e9317c062421a21190b43b58a9eb6c5f960a279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:41 +0000
Subject: [PATCH 02/25] fix: suffix generator overflowed for ranges ending at
 65535

---
 pallets/handles/src/handles-utils/src/suffix.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pallets/handles/src/handles-utils/src/suffix.rs b/pallets/handles/src/handles-utils/src/suffix.rs
index 2a1f674..765fbd1 100644
--- a/pallets/handles/src/handles-utils/src/suffix.rs
+++ b/pallets/handles/src/handles-utils/src/suffix.rs
@@ -37,7 +37,7 @@ pub fn generate_unique_suffixes(
 
 	let mut indices: Vec<u16> = (min..=max).collect();
 	(min..=max).rev().map(move |i| {
-		let j = rng.rand_range((min as u32)..(i + 1) as u32) as u16;
+		let j = rng.rand_range((min as u32)..(i as u32 + 1)) as u16;
 		indices.swap((i - min) as usize, (j - min) as usize);
 		indices[(i - min) as usize]
 	})
-- 
2.43.0


From 985cf376c797cd31cd4ce95e0f1c458244fa2b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:50 +0000
Subject: [PATCH 03/25] fix: capacity: unstake no more from a provider than is
 staked to it

---
 pallets/capacity/src/lib.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/pallets/capacity/src/lib.rs b/pallets/capacity/src/lib.rs
index 5b6b696..94883be 100644
--- a/pallets/capacity/src/lib.rs
+++ b/pallets/capacity/src/lib.rs
@@ -382,7 +382,8 @@ pub mod pallet {
 
 			ensure!(requested_amount > Zero::zero(), Error::<T>::UnstakedAmountIsZero);
 
-			let actual_amount = Self::decrease_active_staking_balance(&unstaker, requested_amount)?;
+			let actual_amount =
+				Self::decrease_active_staking_balance(&unstaker, target, requested_amount)?;
 			Self::add_unlock_chunk(&unstaker, actual_amount)?;
 
 			let capacity_reduction = Self::reduce_capacity(&unstaker, target, actual_amount)?;
@@ -524,13 +525,24 @@ impl<T: Config> Pallet<T> {
 	/// Decrease a staking account's active token.
 	fn decrease_active_staking_balance(
 		unstaker: &T::AccountId,
+		target: MessageSourceId,
 		amount: BalanceOf<T>,
 	) -> Result<BalanceOf<T>, DispatchError> {
 		let mut staking_account =
 			Self::get_staking_account_for(unstaker).ok_or(Error::<T>::NotAStakingAccount)?;
 		ensure!(amount <= staking_account.active, Error::<T>::AmountToUnstakeExceedsAmountStaked);
 
-		let actual_unstaked_amount = staking_account.withdraw(amount)?;
+		let staked_to_target = Self::get_target_for(unstaker, target)
+			.ok_or(Error::<T>::StakerTargetRelationshipNotFound)?
+			.amount;
+		ensure!(amount <= staked_to_target, Error::<T>::AmountToUnstakeExceedsAmountStaked);
+
+		// withdraw() may take everything that is active, but no more than what is staked to
+		// this target can be unstaked from it.
+		let previously_active = staking_account.active;
+		let actual_unstaked_amount = staking_account.withdraw(amount)?.min(staked_to_target);
+		staking_account.active = previously_active.saturating_sub(actual_unstaked_amount);
+
 		Self::set_staking_account(unstaker, &staking_account);
 		Ok(actual_unstaked_amount)
 	}
-- 
2.43.0


From 5a29766a66ef7969d72ce52b5247bc838b4c989d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:58 +0000
Subject: [PATCH 04/25] fix: capacity: tokens already staked or thawing cannot
 be staked again

---
 pallets/capacity/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pallets/capacity/src/lib.rs b/pallets/capacity/src/lib.rs
index 94883be..4fcff2a 100644
--- a/pallets/capacity/src/lib.rs
+++ b/pallets/capacity/src/lib.rs
@@ -572,7 +572,11 @@ impl<T: Config> Pallet<T> {
 		proposed_amount: BalanceOf<T>,
 	) -> BalanceOf<T> {
 		let account_balance = T::Currency::balance(&staker);
+		// Tokens that are already staked, or are thawing, cannot be staked again.
+		let already_frozen =
+			T::Currency::balance_frozen(&FreezeReason::CapacityStaking.into(), staker);
 		account_balance
+			.saturating_sub(already_frozen)
 			.saturating_sub(T::MinimumTokenBalance::get())
 			.min(proposed_amount)
 	}
-- 
2.43.0


From 6ee64c28f23c0f675f1ce0d20e75a898a1833339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:48 +0000
Subject: [PATCH 05/25] fix: msa: revoking a revoked schema permission again
 does not extend it

---
 pallets/msa/src/types.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pallets/msa/src/types.rs b/pallets/msa/src/types.rs
index 70fa7fb..0546a56 100644
--- a/pallets/msa/src/types.rs
+++ b/pallets/msa/src/types.rs
@@ -113,7 +113,10 @@ impl<T: Config> PermittedDelegationSchemas<T>
 			.get_mut(&schema_id)
 			.ok_or(Error::<T>::SchemaNotGranted)?;
 
-		*schema = block_number;
+		// A schema that is already revoked keeps the block at which it was revoked.
+		if block_number.is_zero() || schema.is_zero() {
+			*schema = block_number;
+		}
 
 		Ok(())
 	}
-- 
2.43.0


From 21edfe9d25ba666cdfcc82e4fe06c80a083dfe93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:51 +0000
Subject: [PATCH 06/25] fix: msa: re-granting a revoked delegation does not
 revive schemas left out of it

---
 pallets/msa/src/lib.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/pallets/msa/src/lib.rs b/pallets/msa/src/lib.rs
index 4e91298..7c574ba 100644
--- a/pallets/msa/src/lib.rs
+++ b/pallets/msa/src/lib.rs
@@ -988,18 +988,30 @@ impl<T: Config> Pallet<T> {
 			ensure!(!is_new_delegation, Error::<T>::DelegationNotFound);
 			Self::ensure_all_schema_ids_are_valid(&schema_ids)?;
 
-			let current_block = frame_system::Pallet::<T>::block_number();
+			let revoked_at = Self::schema_revocation_block(delegation);
 
 			PermittedDelegationSchemas::<T>::try_get_mut_schemas(
 				delegation,
 				schema_ids,
-				current_block,
+				revoked_at,
 			)?;
 
 			Ok(())
 		})
 	}
 
+	/// The block as of which a schema of this delegation is revoked when it is revoked now: a
+	/// revoked delegation has had none of its schemas in force since it was revoked.
+	fn schema_revocation_block(
+		delegation: &Delegation<SchemaId, BlockNumberFor<T>, T::MaxSchemaGrantsPerDelegation>,
+	) -> BlockNumberFor<T> {
+		if delegation.revoked_at.is_zero() {
+			frame_system::Pallet::<T>::block_number()
+		} else {
+			delegation.revoked_at
+		}
+	}
+
 	/// Add a new key to the MSA
 	///
 	/// # Errors
@@ -1170,13 +1182,13 @@ impl<T: Config> Pallet<T> {
 				}
 			}
 
-			let current_block = frame_system::Pallet::<T>::block_number();
+			let revoked_at = Self::schema_revocation_block(delegation);
 
 			// Revoke any that are not in the new list that are not already revoked
 			PermittedDelegationSchemas::<T>::try_get_mut_schemas(
 				delegation,
 				revoke_ids,
-				current_block,
+				revoked_at,
 			)?;
 
 			// Update any that are in the list but are not new
-- 
2.43.0


From 68eaf89a7e4aefe98da5b8376ff13f7215e02650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:42 +0000
Subject: [PATCH 07/25] fix: msa: a delegation revoked in this block is not
 admitted for free revocation again

---
 pallets/msa/src/lib.rs | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/pallets/msa/src/lib.rs b/pallets/msa/src/lib.rs
index 7c574ba..f5cd930 100644
--- a/pallets/msa/src/lib.rs
+++ b/pallets/msa/src/lib.rs
@@ -1655,8 +1655,15 @@ impl<T: Config + Send + Sync> CheckFreeExtrinsicUse<T> {
 			.into();
 		let provider_msa_id = ProviderId(*provider_msa_id);
 
-		Pallet::<T>::ensure_valid_delegation(provider_msa_id, delegator_msa_id, None)
-			.map_err(|_| InvalidTransaction::Custom(ValidityError::InvalidDelegation as u8))?;
+		let delegation =
+			Pallet::<T>::ensure_valid_delegation(provider_msa_id, delegator_msa_id, None)
+				.map_err(|_| InvalidTransaction::Custom(ValidityError::InvalidDelegation as u8))?;
+		// A delegation stays valid for the rest of the block in which it is revoked, but it
+		// cannot be revoked again.
+		ensure!(
+			delegation.revoked_at.is_zero(),
+			InvalidTransaction::Custom(ValidityError::InvalidDelegation as u8)
+		);
 		ValidTransaction::with_tag_prefix(TAG_PREFIX).and_provides(account_id).build()
 	}
 
@@ -1682,8 +1689,15 @@ impl<T: Config + Send + Sync> CheckFreeExtrinsicUse<T> {
 		let delegator_msa_id = DelegatorId(*delegator_msa_id);
 
 		// Verify the delegation exists and is active
-		Pallet::<T>::ensure_valid_delegation(provider_msa_id, delegator_msa_id, None)
-			.map_err(|_| InvalidTransaction::Custom(ValidityError::InvalidDelegation as u8))?;
+		let delegation =
+			Pallet::<T>::ensure_valid_delegation(provider_msa_id, delegator_msa_id, None)
+				.map_err(|_| InvalidTransaction::Custom(ValidityError::InvalidDelegation as u8))?;
+		// A delegation stays valid for the rest of the block in which it is revoked, but it
+		// cannot be revoked again.
+		ensure!(
+			delegation.revoked_at.is_zero(),
+			InvalidTransaction::Custom(ValidityError::InvalidDelegation as u8)
+		);
 		ValidTransaction::with_tag_prefix(TAG_PREFIX).and_provides(account_id).build()
 	}
 
-- 
2.43.0


From 911d773afa26b8b267ad33e990a9c2bc0f330409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:45 +0000
Subject: [PATCH 08/25] fix: handles: a canonical form that does not fit its
 storage key is refused

It was stored under the empty key, shared by all such handles, so that one
claim could take over another account's handle.
---
 pallets/handles/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pallets/handles/src/lib.rs b/pallets/handles/src/lib.rs
index 9542b23..f6fe0f4 100644
--- a/pallets/handles/src/lib.rs
+++ b/pallets/handles/src/lib.rs
@@ -696,7 +696,10 @@ pub mod pallet {
 				len >= HANDLE_CHARS_MIN && len <= HANDLE_CHARS_MAX,
 				Error::<T>::InvalidHandleCharacterLength
 			);
-			Ok(())
+
+			// Validation: the canonical form can be longer than the base handle, and must fit `CanonicalBase`
+			// or different handles would share the same (empty) storage key
+			Self::verify_max_handle_byte_length(canonical_handle_str.as_bytes().to_vec())
 		}
 
 		/// Creates a full display handle by combining a base handle string with supplied suffix
-- 
2.43.0


From 6346834ebf1f01a07273995fb339ad9bba29f14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:45 +0000
Subject: [PATCH 09/25] fix: handles: validate_handle applies the length rules
 of a claim

---
 pallets/handles/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pallets/handles/src/lib.rs b/pallets/handles/src/lib.rs
index f6fe0f4..8221193 100644
--- a/pallets/handles/src/lib.rs
+++ b/pallets/handles/src/lib.rs
@@ -762,6 +762,9 @@ pub mod pallet {
 		/// # Returns
 		/// * true if it is valid or false if invalid
 		pub fn validate_handle(handle: Vec<u8>) -> bool {
+			if Self::verify_max_handle_byte_length(handle.clone()).is_err() {
+				return false
+			}
 			return match Self::validate_base_handle(handle) {
 				Ok(base_handle_str) => {
 					// Convert base handle into a canonical base
@@ -771,7 +774,7 @@ pub mod pallet {
 					return Self::validate_canonical_handle_contains_characters_in_supported_ranges(
 						&canonical_handle_str,
 					)
-					.is_ok()
+					.is_ok() && Self::validate_canonical_handle_length(&canonical_handle_str).is_ok()
 				},
 				_ => false,
 			}
-- 
2.43.0


From b01d2a5d23ae2fb0605f1c6e323024244a51b278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:45 +0000
Subject: [PATCH 10/25] fix: handles: no next suffixes are predicted once the
 suffixes are exhausted

---
 pallets/handles/src/lib.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/pallets/handles/src/lib.rs b/pallets/handles/src/lib.rs
index 8221193..e1c5d1f 100644
--- a/pallets/handles/src/lib.rs
+++ b/pallets/handles/src/lib.rs
@@ -547,9 +547,17 @@ pub mod pallet {
 			let (canonical_handle_str, canonical_base) =
 				Self::get_canonical_string_vec_from_base_handle(&base_handle_str);
 
-			let suffix_index =
-				Self::get_next_suffix_index_for_canonical_handle(canonical_base.clone())
-					.unwrap_or_default();
+			let suffix_index = match Self::get_next_suffix_index_for_canonical_handle(
+				canonical_base.clone(),
+			) {
+				Ok(index) => index,
+				// No suffixes are left
+				Err(_) =>
+					return PresumptiveSuffixesResponse {
+						base_handle: base_handle.into(),
+						suffixes: vec![],
+					},
+			};
 
 			let lazy_suffix_sequence = generate_unique_suffixes(
 				T::HandleSuffixMin::get(),
-- 
2.43.0


From 6e750a7ce35c9cd3aa537c187e5ba0224903c5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:09 +0000
Subject: [PATCH 11/25] fix: messages: a message beyond the last index of a
 block is refused

The index saturated, so that each further message overwrote the one before it.
---
 pallets/messages/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pallets/messages/src/lib.rs b/pallets/messages/src/lib.rs
index b8ee6b6..019112a 100644
--- a/pallets/messages/src/lib.rs
+++ b/pallets/messages/src/lib.rs
@@ -324,8 +324,9 @@ impl<T: Config> Pallet<T> {
 			msa_id,
 		};
 
+		let next_index = index.checked_add(1).ok_or(Error::<T>::TooManyMessagesInBlock)?;
 		<MessagesV2<T>>::insert((current_block, schema_id, index), msg);
-		BlockMessageIndex::<T>::set(index.saturating_add(1));
+		BlockMessageIndex::<T>::set(next_index);
 		Ok(first)
 	}
 
-- 
2.43.0


From f51badea3a480ab4f349382ef13c8f4c3998d683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:06 +0000
Subject: [PATCH 12/25] fix: schemas: a schema named through governance is
 marked as named

create_schema_name_via_governance left has_name unset, so a schema could
be given a second name.
---
 pallets/schemas/src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pallets/schemas/src/lib.rs b/pallets/schemas/src/lib.rs
index a6d7b51..23be52f 100644
--- a/pallets/schemas/src/lib.rs
+++ b/pallets/schemas/src/lib.rs
@@ -641,6 +641,11 @@ pub mod pallet {
 				&parsed_name.descriptor,
 				|schema_version_id| -> DispatchResult {
 					schema_version_id.add::<T>(schema_id)?;
+					SchemaInfos::<T>::mutate(schema_id, |info| {
+						if let Some(info) = info {
+							info.has_name = true;
+						}
+					});
 
 					Self::deposit_event(Event::SchemaNameCreated {
 						schema_id,
-- 
2.43.0


From c031319a697ce2dcfd970852c41a3d51a0e5d662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:48 +0000
Subject: [PATCH 13/25] fix: schemas: no more than MaxSchemaRegistrations
 schemas are registered

---
 pallets/schemas/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pallets/schemas/src/lib.rs b/pallets/schemas/src/lib.rs
index 23be52f..20f9d8d 100644
--- a/pallets/schemas/src/lib.rs
+++ b/pallets/schemas/src/lib.rs
@@ -772,6 +772,7 @@ pub mod pallet {
 			let next = Self::get_current_schema_identifier_maximum()
 				.checked_add(1)
 				.ok_or(Error::<T>::SchemaCountOverflow)?;
+			ensure!(next <= T::MaxSchemaRegistrations::get(), Error::<T>::SchemaCountOverflow);
 
 			Ok(next)
 		}
-- 
2.43.0


From 24e256f420adb0aa340fdf980b32f9a911ccfbdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:08 +0000
Subject: [PATCH 14/25] hook: stateful-storage: child tree module visible to
 monitors (cfg vp_monitor)

---
 pallets/stateful-storage/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pallets/stateful-storage/src/lib.rs b/pallets/stateful-storage/src/lib.rs
index 488a9fc..259ac13 100644
--- a/pallets/stateful-storage/src/lib.rs
+++ b/pallets/stateful-storage/src/lib.rs
@@ -37,7 +37,10 @@ mod tests;
 use common_primitives::benchmarks::{MsaBenchmarkHelper, SchemaBenchmarkHelper};
 use sp_std::prelude::*;
 
+#[cfg(not(vp_monitor))]
 mod stateful_child_tree;
+#[cfg(vp_monitor)]
+pub mod stateful_child_tree;
 pub mod types;
 
 pub mod weights;
-- 
2.43.0


From ccca7a2350dd15cbb8d2007b43bad9bf5c31bff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:50 +0000
Subject: [PATCH 15/25] fix: runtime: a batch is filtered unless every call in
 it is allowed

---
 runtime/frequency/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtime/frequency/src/lib.rs b/runtime/frequency/src/lib.rs
index 7f77095..f4e837e 100644
--- a/runtime/frequency/src/lib.rs
+++ b/runtime/frequency/src/lib.rs
@@ -168,7 +168,7 @@ impl BaseCallFilter {
 		match call {
 			pallet_utility::Call::batch { calls, .. } |
 			pallet_utility::Call::batch_all { calls, .. } |
-			pallet_utility::Call::force_batch { calls, .. } => calls.iter().any(Self::is_batch_call_allowed),
+			pallet_utility::Call::force_batch { calls, .. } => calls.iter().all(Self::is_batch_call_allowed),
 			_ => true,
 		}
 	}
-- 
2.43.0


From 556d4bd579120ec6abf041a0d53fe084ba2248a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:17 +0000
Subject: [PATCH 16/25] fix: msa: a wrapped delete_msa_public_key only deletes
 other keys of the caller's MSA

---
 pallets/msa/src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pallets/msa/src/lib.rs b/pallets/msa/src/lib.rs
index f5cd930..ecce51b 100644
--- a/pallets/msa/src/lib.rs
+++ b/pallets/msa/src/lib.rs
@@ -717,6 +717,11 @@ pub mod pallet {
 
 			match Self::get_msa_by_public_key(&who) {
 				Some(who_msa_id) => {
+					// The signed extension only sees the outermost call, so a wrapped call is checked here
+					ensure!(who != public_key_to_delete, Error::<T>::InvalidSelfRemoval);
+					let key_msa_id = Self::ensure_valid_msa_key(&public_key_to_delete)?;
+					ensure!(who_msa_id == key_msa_id, Error::<T>::NotKeyOwner);
+
 					Self::delete_key_for_msa(who_msa_id, &public_key_to_delete)?;
 
 					// Deposit the event
-- 
2.43.0


From 7c8bc428b0bd7ad4c6c4d0763fd62efcd73ce941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:04 +0000
Subject: [PATCH 17/25] fix: msa: a wrapped retire_msa does not retire an MSA
 that is a provider, has a handle or further keys

---
 pallets/msa/src/lib.rs | 50 +++++++++++++++++++++++++++---------------
 1 file changed, 32 insertions(+), 18 deletions(-)

diff --git a/pallets/msa/src/lib.rs b/pallets/msa/src/lib.rs
index ecce51b..4515cb0 100644
--- a/pallets/msa/src/lib.rs
+++ b/pallets/msa/src/lib.rs
@@ -387,6 +387,9 @@ pub mod pallet {
 
 		/// Attempted to add a new signature to a corrupt signature registry
 		SignatureRegistryCorrupted,
+
+		/// Attempted to retire an MSA that is a registered provider, has a handle or has more than one key
+		MsaCannotBeRetired,
 	}
 
 	impl<T: Config> BlockNumberProvider for Pallet<T> {
@@ -831,6 +834,7 @@ pub mod pallet {
 		///
 		/// # Errors
 		/// * [`Error::NoKeyExists`] - `delegator` does not have an MSA key.
+		/// * [`Error::MsaCannotBeRetired`] - the MSA is a registered provider, has a handle or has more than one key.
 		///
 		#[pallet::call_index(10)]
 		#[pallet::weight((T::WeightInfo::retire_msa(), DispatchClass::Normal, Pays::No))]
@@ -842,6 +846,10 @@ pub mod pallet {
 			// check for valid MSA is in SignedExtension.
 			match Self::get_msa_by_public_key(&who) {
 				Some(msa_id) => {
+					// The signed extension only sees the outermost call, so a wrapped call is checked here
+					Self::check_msa_can_retire(msa_id)
+						.map_err(|_| Error::<T>::MsaCannotBeRetired)?;
+
 					Self::delete_key_for_msa(msa_id, &who)?;
 					let event = Event::PublicKeyDeleted { key: who };
 					offchain_index_event::<T>(&event, msa_id);
@@ -1292,6 +1300,28 @@ impl<T: Config> Pallet<T> {
 		})
 	}
 
+	/// Check that an MSA is no provider, has no handle and has a single key left, as it must to be retired
+	///
+	/// # Errors
+	/// * [`ValidityError::InvalidRegisteredProviderCannotBeRetired`]
+	/// * [`ValidityError::HandleNotRetired`]
+	/// * [`ValidityError::InvalidMoreThanOneKeyExists`]
+	///
+	fn check_msa_can_retire(msa_id: MessageSourceId) -> Result<(), ValidityError> {
+		ensure!(
+			!Self::is_registered_provider(msa_id),
+			ValidityError::InvalidRegisteredProviderCannotBeRetired
+		);
+
+		let msa_handle = T::HandleProvider::get_handle_for_msa(msa_id);
+		ensure!(msa_handle.is_none(), ValidityError::HandleNotRetired);
+
+		let key_count = Self::get_public_key_count_by_msa_id(msa_id);
+		ensure!(key_count == 1, ValidityError::InvalidMoreThanOneKeyExists);
+
+		Ok(())
+	}
+
 	/// Revoke the grant for permissions from the delegator to the provider
 	///
 	/// # Errors
@@ -1766,24 +1796,8 @@ impl<T: Config + Send + Sync> CheckFreeExtrinsicUse<T> {
 			.map_err(|_| InvalidTransaction::Custom(ValidityError::InvalidMsaKey as u8))?
 			.into();
 
-		ensure!(
-			!Pallet::<T>::is_registered_provider(msa_id),
-			InvalidTransaction::Custom(
-				ValidityError::InvalidRegisteredProviderCannotBeRetired as u8
-			)
-		);
-
-		let msa_handle = T::HandleProvider::get_handle_for_msa(msa_id);
-		ensure!(
-			msa_handle.is_none(),
-			InvalidTransaction::Custom(ValidityError::HandleNotRetired as u8)
-		);
-
-		let key_count = Pallet::<T>::get_public_key_count_by_msa_id(msa_id);
-		ensure!(
-			key_count == 1,
-			InvalidTransaction::Custom(ValidityError::InvalidMoreThanOneKeyExists as u8)
-		);
+		Pallet::<T>::check_msa_can_retire(msa_id)
+			.map_err(|e| InvalidTransaction::Custom(e as u8))?;
 
 		let delegator_id = DelegatorId(msa_id);
 		let has_active_delegations: bool = DelegatorAndProviderToDelegation::<T>::iter_key_prefix(
-- 
2.43.0


From 8769cb173565a8817ec6833c325a8dc0540fedf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:23 +0000
Subject: [PATCH 18/25] fix: handles: a wrapped retire_handle does not retire a
 handle within its minimum lifetime

---
 pallets/handles/src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pallets/handles/src/lib.rs b/pallets/handles/src/lib.rs
index e1c5d1f..d75c41a 100644
--- a/pallets/handles/src/lib.rs
+++ b/pallets/handles/src/lib.rs
@@ -423,6 +423,12 @@ pub mod pallet {
 			let msa_id = T::MsaInfoProvider::ensure_valid_msa_key(&msa_owner_key)
 				.map_err(|_| Error::<T>::InvalidMessageSourceAccount)?;
 
+			// The signed extension only sees the outermost call, so a wrapped call is checked here
+			if let Some((_, expiration)) = MSAIdToDisplayName::<T>::get(msa_id) {
+				let current_block = frame_system::Pallet::<T>::block_number();
+				ensure!(current_block >= expiration, Error::<T>::HandleWithinMortalityPeriod);
+			}
+
 			let display_handle: Vec<u8> = Self::do_retire_handle(msa_id)?;
 
 			Self::deposit_event(Event::HandleRetired { msa_id, handle: display_handle });
-- 
2.43.0


From d6843cf6f8050ff55bd6b260a056bc56767473b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:05 +0000
Subject: [PATCH 19/25] fix: missing nonces were skipped when the future pool
 repeats a nonce or lags behind

frequency_getMissingNonceValues advanced past one nonce for every future transaction, even one
whose nonce had already been passed, and so left out nonces that are missing.
---
 node/service/src/rpc/frequency_rpc.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/node/service/src/rpc/frequency_rpc.rs b/node/service/src/rpc/frequency_rpc.rs
index 1734f27..bc67cd7 100644
--- a/node/service/src/rpc/frequency_rpc.rs
+++ b/node/service/src/rpc/frequency_rpc.rs
@@ -132,8 +132,11 @@ where
 			}
 		}
 
-		// progress the current_nonce
-		current_nonce += One::one();
+		// progress the current_nonce, unless this one has been passed already: the future pool may
+		// hold several transactions with the same nonce or lag behind the account's nonce
+		if current_nonce == future_nonce {
+			current_nonce += One::one();
+		}
 	}
 
 	result
-- 
2.43.0


From 1aff4215a1b7d5d9c4a6cc7d0da07becd26c2fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:58 +0000
Subject: [PATCH 20/25] fix: optional hex and string fields could not be read
 back from null

---
 common/primitives/src/utils.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/common/primitives/src/utils.rs b/common/primitives/src/utils.rs
index f28d515..87657c7 100644
--- a/common/primitives/src/utils.rs
+++ b/common/primitives/src/utils.rs
@@ -53,7 +53,7 @@ pub mod as_hex {
 /// Handle serializing and deserializing from `Option<Vec<u8>>` to hexadecimal
 #[cfg(feature = "std")]
 pub mod as_hex_option {
-	use serde::{Deserializer, Serializer};
+	use serde::{Deserialize, Deserializer, Serializer};
 
 	/// Serializes a `Vec<u8>` into a hexadecimal string
 	pub fn serialize<S>(bytes: &Option<Vec<u8>>, serializer: S) -> Result<S::Ok, S::Error>
@@ -73,7 +73,11 @@ pub mod as_hex_option {
 	where
 		D: Deserializer<'de>,
 	{
-		impl_serde::serialize::deserialize(deserializer).map(|r| Some(r))
+		/// The bytes of a hexadecimal string
+		#[derive(Deserialize)]
+		struct HexBytes(#[serde(deserialize_with = "super::as_hex::deserialize")] Vec<u8>);
+
+		Ok(Option::<HexBytes>::deserialize(deserializer)?.map(|hex| hex.0))
 	}
 }
 /// Handle serializing and deserializing from `Vec<u8>` to a UTF-8 string
@@ -120,11 +124,8 @@ pub mod as_string_option {
 	pub fn deserialize<'de, D: Deserializer<'de>>(
 		deserializer: D,
 	) -> Result<Option<Vec<u8>>, D::Error> {
-		let bytes = String::deserialize(deserializer)?.into_bytes();
-		Ok(match bytes.len() {
-			0 => None,
-			_ => Some(bytes),
-		})
+		let bytes = Option::<String>::deserialize(deserializer)?.map(String::into_bytes);
+		Ok(bytes.filter(|b| !b.is_empty()))
 	}
 }
 
-- 
2.43.0


From 9f5850ca558ef80f1afa3326a83de6954906f28f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:13 +0000
Subject: [PATCH 21/25] fix: keep the starting block of an interrupted initial
 off-chain key index

If the node went down while the off-chain worker was building its first index of
MSA keys, the next attempt moved the last processed block forward without clearing
the entries already written, so keys deleted in between stayed listed forever.
---
 pallets/msa/src/offchain_storage.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pallets/msa/src/offchain_storage.rs b/pallets/msa/src/offchain_storage.rs
index 612c0a5..89891e4 100644
--- a/pallets/msa/src/offchain_storage.rs
+++ b/pallets/msa/src/offchain_storage.rs
@@ -260,6 +260,12 @@ fn init_last_processed_block<T: Config>(current_block_number: BlockNumberFor<T>)
 	let last_processed_block_storage =
 		StorageValueRef::persistent(LAST_PROCESSED_BLOCK_STORAGE_NAME);
 
+	// An earlier attempt at the initial index that did not finish has left entries behind: the events
+	// since its start still have to be applied to those, so keep its starting point.
+	if let Ok(Some(_)) = last_processed_block_storage.get::<BlockNumberFor<T>>() {
+		return
+	}
+
 	// setting current_block-1 as the last processed so that we start indexing from current_block
 	let target_block: BlockNumberFor<T> =
 		current_block_number.saturating_sub(BlockNumberFor::<T>::one());
-- 
2.43.0


From 2f99f3b3ee6caba248fbe3b6e5f4ed343a2bdded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:26 +0000
Subject: [PATCH 22/25] fix: accept the ZSTD compression codec in Parquet
 schemas by its name

---
 common/primitives/src/parquet/column_compression_codec.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/common/primitives/src/parquet/column_compression_codec.rs b/common/primitives/src/parquet/column_compression_codec.rs
index 05fb7a7..ec2ef23 100644
--- a/common/primitives/src/parquet/column_compression_codec.rs
+++ b/common/primitives/src/parquet/column_compression_codec.rs
@@ -20,6 +20,7 @@ pub enum ColumnCompressionCodec {
 	/// Brotli compression
 	Brotli,
 	/// Zstandard compression: <https://en.wikipedia.org/wiki/Zstd>
+	#[serde(rename = "ZSTD", alias = "Z_S_T_D")]
 	ZSTD,
 	/// Lz4 compression without block headers
 	Lz4Raw,
-- 
2.43.0


From cee9697e288e391d0b6835863c2c8a0f6655e351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:20 +0000
Subject: [PATCH 23/25] fix: msa: the weight of retire_msa counts the reads of
 the handle and the provider entry

retire_msa looks up whether the MSA has a handle or is a provider; the two
reads were not part of its weight.
---
 pallets/msa/src/weights.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pallets/msa/src/weights.rs b/pallets/msa/src/weights.rs
index b243005..eb0e1e2 100644
--- a/pallets/msa/src/weights.rs
+++ b/pallets/msa/src/weights.rs
@@ -140,13 +140,17 @@ impl<T: frame_system::Config> WeightInfo for SubstrateWeight<T> {
 	/// Proof: `Msa::PublicKeyToMsaId` (`max_values`: None, `max_size`: Some(48), added: 2523, mode: `MaxEncodedLen`)
 	/// Storage: `Msa::PublicKeyCountForMsaId` (r:1 w:1)
 	/// Proof: `Msa::PublicKeyCountForMsaId` (`max_values`: None, `max_size`: Some(17), added: 2492, mode: `MaxEncodedLen`)
+	/// Storage: `Handles::MSAIdToDisplayName` (r:1 w:0)
+	/// Proof: `Handles::MSAIdToDisplayName` (`max_values`: None, `max_size`: Some(59), added: 2534, mode: `MaxEncodedLen`)
+	/// Storage: `Msa::ProviderToRegistryEntry` (r:1 w:0)
+	/// Proof: `Msa::ProviderToRegistryEntry` (`max_values`: None, `max_size`: Some(33), added: 2508, mode: `MaxEncodedLen`)
 	fn retire_msa() -> Weight {
 		// Proof Size summary in bytes:
 		//  Measured:  `71`
 		//  Estimated: `4998`
 		// Minimum execution time: 17_850_000 picoseconds.
 		Weight::from_parts(19_128_000, 4998)
-			.saturating_add(T::DbWeight::get().reads(2_u64))
+			.saturating_add(T::DbWeight::get().reads(4_u64))
 			.saturating_add(T::DbWeight::get().writes(2_u64))
 	}
 	/// Storage: `Msa::PayloadSignatureRegistryList` (r:2 w:2)
@@ -343,13 +347,17 @@ impl WeightInfo for () {
 	/// Proof: `Msa::PublicKeyToMsaId` (`max_values`: None, `max_size`: Some(48), added: 2523, mode: `MaxEncodedLen`)
 	/// Storage: `Msa::PublicKeyCountForMsaId` (r:1 w:1)
 	/// Proof: `Msa::PublicKeyCountForMsaId` (`max_values`: None, `max_size`: Some(17), added: 2492, mode: `MaxEncodedLen`)
+	/// Storage: `Handles::MSAIdToDisplayName` (r:1 w:0)
+	/// Proof: `Handles::MSAIdToDisplayName` (`max_values`: None, `max_size`: Some(59), added: 2534, mode: `MaxEncodedLen`)
+	/// Storage: `Msa::ProviderToRegistryEntry` (r:1 w:0)
+	/// Proof: `Msa::ProviderToRegistryEntry` (`max_values`: None, `max_size`: Some(33), added: 2508, mode: `MaxEncodedLen`)
 	fn retire_msa() -> Weight {
 		// Proof Size summary in bytes:
 		//  Measured:  `71`
 		//  Estimated: `4998`
 		// Minimum execution time: 17_850_000 picoseconds.
 		Weight::from_parts(19_128_000, 4998)
-			.saturating_add(RocksDbWeight::get().reads(2_u64))
+			.saturating_add(RocksDbWeight::get().reads(4_u64))
 			.saturating_add(RocksDbWeight::get().writes(2_u64))
 	}
 	/// Storage: `Msa::PayloadSignatureRegistryList` (r:2 w:2)
-- 
2.43.0


From 36a5adbc1db0181e5414d15b4082296d27db1474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:21 +0000
Subject: [PATCH 24/25] fix: schemas: the weight of
 create_schema_name_via_governance counts the write of the schema

Naming a schema marks it as named; that write was not part of the weight.
---
 pallets/schemas/src/weights.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pallets/schemas/src/weights.rs b/pallets/schemas/src/weights.rs
index 5adfa04..873b85d 100644
--- a/pallets/schemas/src/weights.rs
+++ b/pallets/schemas/src/weights.rs
@@ -227,7 +227,7 @@ impl<T: frame_system::Config> WeightInfo for SubstrateWeight<T> {
 			.saturating_add(T::DbWeight::get().reads(5_u64))
 			.saturating_add(T::DbWeight::get().writes(4_u64))
 	}
-	/// Storage: `Schemas::SchemaInfos` (r:1 w:0)
+	/// Storage: `Schemas::SchemaInfos` (r:1 w:1)
 	/// Proof: `Schemas::SchemaInfos` (`max_values`: None, `max_size`: Some(15), added: 2490, mode: `MaxEncodedLen`)
 	/// Storage: `Schemas::SchemaNameToIds` (r:1 w:1)
 	/// Proof: `Schemas::SchemaNameToIds` (`max_values`: None, `max_size`: Some(602), added: 3077, mode: `MaxEncodedLen`)
@@ -238,7 +238,7 @@ impl<T: frame_system::Config> WeightInfo for SubstrateWeight<T> {
 		// Minimum execution time: 14_536_000 picoseconds.
 		Weight::from_parts(15_117_000, 5552)
 			.saturating_add(T::DbWeight::get().reads(2_u64))
-			.saturating_add(T::DbWeight::get().writes(1_u64))
+			.saturating_add(T::DbWeight::get().writes(2_u64))
 	}
 }
 
@@ -423,7 +423,7 @@ impl WeightInfo for () {
 			.saturating_add(RocksDbWeight::get().reads(5_u64))
 			.saturating_add(RocksDbWeight::get().writes(4_u64))
 	}
-	/// Storage: `Schemas::SchemaInfos` (r:1 w:0)
+	/// Storage: `Schemas::SchemaInfos` (r:1 w:1)
 	/// Proof: `Schemas::SchemaInfos` (`max_values`: None, `max_size`: Some(15), added: 2490, mode: `MaxEncodedLen`)
 	/// Storage: `Schemas::SchemaNameToIds` (r:1 w:1)
 	/// Proof: `Schemas::SchemaNameToIds` (`max_values`: None, `max_size`: Some(602), added: 3077, mode: `MaxEncodedLen`)
@@ -434,7 +434,7 @@ impl WeightInfo for () {
 		// Minimum execution time: 14_536_000 picoseconds.
 		Weight::from_parts(15_117_000, 5552)
 			.saturating_add(RocksDbWeight::get().reads(2_u64))
-			.saturating_add(RocksDbWeight::get().writes(1_u64))
+			.saturating_add(RocksDbWeight::get().writes(2_u64))
 	}
 }
 
-- 
2.43.0


From a2fdff04c290dc2cb9918a772f65f947189c04e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:21 +0000
Subject: [PATCH 25/25] fix: time-release: the weight of claim_for counts the
 account that is claimed for

The weight is that of claim, where the account is the one that signs and is
covered by the base weight of the transaction; claim_for reads and writes the
account of somebody else as well.
---
 pallets/time-release/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pallets/time-release/src/lib.rs b/pallets/time-release/src/lib.rs
index 5c41752..66f47d2 100644
--- a/pallets/time-release/src/lib.rs
+++ b/pallets/time-release/src/lib.rs
@@ -323,7 +323,8 @@ pub mod module {
 		/// * [`Event::Claimed`]
 		///
 		#[pallet::call_index(3)]
-		#[pallet::weight(T::WeightInfo::claim(<T as Config>::MaxReleaseSchedules::get() / 2))]
+		#[pallet::weight(T::WeightInfo::claim(<T as Config>::MaxReleaseSchedules::get() / 2)
+			.saturating_add(T::DbWeight::get().reads_writes(1, 1)))]
 		pub fn claim_for(
 			origin: OriginFor<T>,
 			dest: <T::Lookup as StaticLookup>::Source,
-- 
2.43.0

