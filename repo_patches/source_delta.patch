From 1349d2fee79f2193233066956ca2f6f83790ec39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:32 +0000
Subject: [PATCH 01/20] fix: a utility batch is allowed only when every call in
 it is

---
 runtime/frequency/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtime/frequency/src/lib.rs b/runtime/frequency/src/lib.rs
index 7f77095..f4e837e 100644
--- a/runtime/frequency/src/lib.rs
+++ b/runtime/frequency/src/lib.rs
@@ -168,7 +168,7 @@ impl BaseCallFilter {
 		match call {
 			pallet_utility::Call::batch { calls, .. } |
 			pallet_utility::Call::batch_all { calls, .. } |
-			pallet_utility::Call::force_batch { calls, .. } => calls.iter().any(Self::is_batch_call_allowed),
+			pallet_utility::Call::force_batch { calls, .. } => calls.iter().all(Self::is_batch_call_allowed),
 			_ => true,
 		}
 	}
-- 
2.43.0


From e6126514bf5a1fb84f38b0be55924d367d7db5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:32 +0000
Subject: [PATCH 02/20] fix: unstaking more from a target than is staked to it
 is refused

---
 pallets/capacity/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pallets/capacity/src/lib.rs b/pallets/capacity/src/lib.rs
index 5b6b696..2659c00 100644
--- a/pallets/capacity/src/lib.rs
+++ b/pallets/capacity/src/lib.rs
@@ -603,6 +603,10 @@ impl<T: Config> Pallet<T> {
 			.ok_or(Error::<T>::StakerTargetRelationshipNotFound)?;
 		let mut capacity_details =
 			Self::get_capacity_for(target).ok_or(Error::<T>::TargetCapacityNotFound)?;
+		ensure!(
+			amount <= staking_target_details.amount,
+			Error::<T>::AmountToUnstakeExceedsAmountStaked
+		);
 
 		let capacity_to_withdraw = if staking_target_details.amount.eq(&amount) {
 			staking_target_details.capacity
-- 
2.43.0


From 2eb2c8272d035bc1b18dfea2fbb5e1676ae8a463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:32 +0000
Subject: [PATCH 03/20] fix: naming a schema through governance marks it as
 named

---
 pallets/schemas/src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pallets/schemas/src/lib.rs b/pallets/schemas/src/lib.rs
index a6d7b51..f4413fa 100644
--- a/pallets/schemas/src/lib.rs
+++ b/pallets/schemas/src/lib.rs
@@ -641,6 +641,11 @@ pub mod pallet {
 				&parsed_name.descriptor,
 				|schema_version_id| -> DispatchResult {
 					schema_version_id.add::<T>(schema_id)?;
+					<SchemaInfos<T>>::mutate(schema_id, |maybe_info| {
+						if let Some(info) = maybe_info {
+							info.has_name = true;
+						}
+					});
 
 					Self::deposit_event(Event::SchemaNameCreated {
 						schema_id,
-- 
2.43.0


From e875a1d553dc09547066e9ea708ed800e067751b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:32 +0000
Subject: [PATCH 04/20] fix: delete_msa_public_key removes only other keys of
 the caller's own MSA

---
 pallets/msa/src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pallets/msa/src/lib.rs b/pallets/msa/src/lib.rs
index 4e91298..d50ba6e 100644
--- a/pallets/msa/src/lib.rs
+++ b/pallets/msa/src/lib.rs
@@ -717,6 +717,11 @@ pub mod pallet {
 
 			match Self::get_msa_by_public_key(&who) {
 				Some(who_msa_id) => {
+					ensure!(who != public_key_to_delete, Error::<T>::InvalidSelfRemoval);
+					ensure!(
+						Self::ensure_valid_msa_key(&public_key_to_delete)? == who_msa_id,
+						Error::<T>::NotKeyOwner
+					);
 					Self::delete_key_for_msa(who_msa_id, &public_key_to_delete)?;
 
 					// Deposit the event
-- 
2.43.0


From 5abc0276ad049eb808f3518dc3ec6ed24835622c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:32 +0000
Subject: [PATCH 05/20] fix: retire_msa checks the MSA when it is not the
 outermost call

---
 pallets/msa/src/lib.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pallets/msa/src/lib.rs b/pallets/msa/src/lib.rs
index d50ba6e..45fa6a8 100644
--- a/pallets/msa/src/lib.rs
+++ b/pallets/msa/src/lib.rs
@@ -387,6 +387,9 @@ pub mod pallet {
 
 		/// Attempted to add a new signature to a corrupt signature registry
 		SignatureRegistryCorrupted,
+
+		/// The MSA is a registered provider, still has a handle or has more than one key
+		MsaCannotBeRetired,
 	}
 
 	impl<T: Config> BlockNumberProvider for Pallet<T> {
@@ -831,6 +834,7 @@ pub mod pallet {
 		///
 		/// # Errors
 		/// * [`Error::NoKeyExists`] - `delegator` does not have an MSA key.
+		/// * [`Error::MsaCannotBeRetired`] - the MSA is a provider, or has a handle or other keys.
 		///
 		#[pallet::call_index(10)]
 		#[pallet::weight((T::WeightInfo::retire_msa(), DispatchClass::Normal, Pays::No))]
@@ -842,6 +846,12 @@ pub mod pallet {
 			// check for valid MSA is in SignedExtension.
 			match Self::get_msa_by_public_key(&who) {
 				Some(msa_id) => {
+					ensure!(
+						!Self::is_registered_provider(msa_id) &&
+							T::HandleProvider::get_handle_for_msa(msa_id).is_none() &&
+							Self::get_public_key_count_by_msa_id(msa_id) == 1,
+						Error::<T>::MsaCannotBeRetired
+					);
 					Self::delete_key_for_msa(msa_id, &who)?;
 					let event = Event::PublicKeyDeleted { key: who };
 					offchain_index_event::<T>(&event, msa_id);
-- 
2.43.0


From 29f970d628362109b3fe33b48f9e4c37dfbbd773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:37 +0000
Subject: [PATCH 06/20] fix: retire_handle checks the mortality period when it
 is not the outermost call

---
 pallets/handles/src/lib.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pallets/handles/src/lib.rs b/pallets/handles/src/lib.rs
index 9542b23..eb09afc 100644
--- a/pallets/handles/src/lib.rs
+++ b/pallets/handles/src/lib.rs
@@ -423,6 +423,14 @@ pub mod pallet {
 			let msa_id = T::MsaInfoProvider::ensure_valid_msa_key(&msa_owner_key)
 				.map_err(|_| Error::<T>::InvalidMessageSourceAccount)?;
 
+			// Validation: The handle must be past its mortality period
+			let (_, expiration) = Self::get_display_name_for_msa_id(msa_id)
+				.ok_or(Error::<T>::MSAHandleDoesNotExist)?;
+			ensure!(
+				frame_system::Pallet::<T>::block_number() >= expiration,
+				Error::<T>::HandleWithinMortalityPeriod
+			);
+
 			let display_handle: Vec<u8> = Self::do_retire_handle(msa_id)?;
 
 			Self::deposit_event(Event::HandleRetired { msa_id, handle: display_handle });
-- 
2.43.0


From 60c331c09c101429dc2dfd8043851b1739d0b3ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:38 +0000
Subject: [PATCH 07/20] fix: a handle whose canonical form is too long for
 storage is refused

---
 pallets/handles/src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pallets/handles/src/lib.rs b/pallets/handles/src/lib.rs
index eb09afc..80ed7c9 100644
--- a/pallets/handles/src/lib.rs
+++ b/pallets/handles/src/lib.rs
@@ -704,6 +704,12 @@ pub mod pallet {
 				len >= HANDLE_CHARS_MIN && len <= HANDLE_CHARS_MAX,
 				Error::<T>::InvalidHandleCharacterLength
 			);
+
+			// Validation: the canonical form must fit in `CanonicalBase`
+			ensure!(
+				canonical_handle_str.len() as u32 <= HANDLE_BYTES_MAX,
+				Error::<T>::InvalidHandleByteLength
+			);
 			Ok(())
 		}
 
-- 
2.43.0


From d6fb2c0bd0f1c652df5769d5a8bca4eec60d9d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:38 +0000
Subject: [PATCH 08/20] fix: validate_handle makes the length checks that
 claim_handle makes

---
 pallets/handles/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pallets/handles/src/lib.rs b/pallets/handles/src/lib.rs
index 80ed7c9..127534c 100644
--- a/pallets/handles/src/lib.rs
+++ b/pallets/handles/src/lib.rs
@@ -773,6 +773,9 @@ pub mod pallet {
 		/// # Returns
 		/// * true if it is valid or false if invalid
 		pub fn validate_handle(handle: Vec<u8>) -> bool {
+			if Self::verify_max_handle_byte_length(handle.clone()).is_err() {
+				return false
+			}
 			return match Self::validate_base_handle(handle) {
 				Ok(base_handle_str) => {
 					// Convert base handle into a canonical base
@@ -782,7 +785,7 @@ pub mod pallet {
 					return Self::validate_canonical_handle_contains_characters_in_supported_ranges(
 						&canonical_handle_str,
 					)
-					.is_ok()
+					.is_ok() && Self::validate_canonical_handle_length(&canonical_handle_str).is_ok()
 				},
 				_ => false,
 			}
-- 
2.43.0


From 6ae659a856870245ac41e2b5e36a5044576a6cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:38 +0000
Subject: [PATCH 09/20] fix: look-alikes of reserved words are reserved too

---
 pallets/handles/src/handles-utils/src/validator.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pallets/handles/src/handles-utils/src/validator.rs b/pallets/handles/src/handles-utils/src/validator.rs
index 7e371d6..2ba9081 100644
--- a/pallets/handles/src/handles-utils/src/validator.rs
+++ b/pallets/handles/src/handles-utils/src/validator.rs
@@ -8,6 +8,8 @@
 mod constants;
 use constants::ALLOWED_UNICODE_CHARACTER_RANGES;
 
+use crate::converter::convert_to_canonical;
+
 /// Reserved words that cannot be used as the handle.
 const RESERVED_WORDS: [&str; 8] =
 	["admin", "everyone", "all", "administrator", "mod", "moderator", "here", "channel"];
@@ -25,7 +27,8 @@ fn ensure_sorted_blocked_characters() {
 	assert_eq!(BLOCKED_CHARACTERS, sorted);
 }
 
-/// Determines whether a given string is a reserved handle in the current context.
+/// Determines whether a given string is a reserved handle in the current context, or has the same
+/// canonical form as one.
 ///
 /// # Arguments
 ///
@@ -35,7 +38,10 @@ fn ensure_sorted_blocked_characters() {
 ///
 /// A boolean value indicating whether the string is a reserved handle (`true`) or not (`false`).
 pub fn is_reserved_handle(input_str: &str) -> bool {
-	RESERVED_WORDS.contains(&input_str)
+	let canonical = convert_to_canonical(input_str);
+	RESERVED_WORDS
+		.iter()
+		.any(|word| *word == input_str || convert_to_canonical(word) == canonical)
 }
 
 /// Checks if the given string contains any blocked characters.
-- 
2.43.0


From 4045c48f9b3fda437ab5cf5ceee1f1689739a2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:17 +0000
Subject: [PATCH 10/20] fix: tokens that are staked or unlocking already cannot
 be staked again

---
 pallets/capacity/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pallets/capacity/src/lib.rs b/pallets/capacity/src/lib.rs
index 2659c00..51b8d35 100644
--- a/pallets/capacity/src/lib.rs
+++ b/pallets/capacity/src/lib.rs
@@ -560,7 +560,11 @@ impl<T: Config> Pallet<T> {
 		proposed_amount: BalanceOf<T>,
 	) -> BalanceOf<T> {
 		let account_balance = T::Currency::balance(&staker);
+		// Tokens that are staked or unlocking already cannot be staked again.
+		let already_frozen =
+			T::Currency::balance_frozen(&FreezeReason::CapacityStaking.into(), &staker);
 		account_balance
+			.saturating_sub(already_frozen)
 			.saturating_sub(T::MinimumTokenBalance::get())
 			.min(proposed_amount)
 	}
-- 
2.43.0


From 345571f195ef0d9cf35763b023d94e6a055d2bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:17 +0000
Subject: [PATCH 11/20] fix: a delegation revoked earlier in the same block
 cannot be revoked again for free

---
 pallets/msa/src/lib.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/pallets/msa/src/lib.rs b/pallets/msa/src/lib.rs
index 45fa6a8..409a13c 100644
--- a/pallets/msa/src/lib.rs
+++ b/pallets/msa/src/lib.rs
@@ -1658,8 +1658,14 @@ impl<T: Config + Send + Sync> CheckFreeExtrinsicUse<T> {
 			.into();
 		let provider_msa_id = ProviderId(*provider_msa_id);
 
-		Pallet::<T>::ensure_valid_delegation(provider_msa_id, delegator_msa_id, None)
-			.map_err(|_| InvalidTransaction::Custom(ValidityError::InvalidDelegation as u8))?;
+		let delegation =
+			Pallet::<T>::ensure_valid_delegation(provider_msa_id, delegator_msa_id, None)
+				.map_err(|_| InvalidTransaction::Custom(ValidityError::InvalidDelegation as u8))?;
+		// A delegation stays valid for the rest of the block that it is revoked in.
+		ensure!(
+			delegation.revoked_at.is_zero(),
+			InvalidTransaction::Custom(ValidityError::InvalidDelegation as u8)
+		);
 		ValidTransaction::with_tag_prefix(TAG_PREFIX).and_provides(account_id).build()
 	}
 
@@ -1685,8 +1691,14 @@ impl<T: Config + Send + Sync> CheckFreeExtrinsicUse<T> {
 		let delegator_msa_id = DelegatorId(*delegator_msa_id);
 
 		// Verify the delegation exists and is active
-		Pallet::<T>::ensure_valid_delegation(provider_msa_id, delegator_msa_id, None)
-			.map_err(|_| InvalidTransaction::Custom(ValidityError::InvalidDelegation as u8))?;
+		let delegation =
+			Pallet::<T>::ensure_valid_delegation(provider_msa_id, delegator_msa_id, None)
+				.map_err(|_| InvalidTransaction::Custom(ValidityError::InvalidDelegation as u8))?;
+		// A delegation stays valid for the rest of the block that it is revoked in.
+		ensure!(
+			delegation.revoked_at.is_zero(),
+			InvalidTransaction::Custom(ValidityError::InvalidDelegation as u8)
+		);
 		ValidTransaction::with_tag_prefix(TAG_PREFIX).and_provides(account_id).build()
 	}
 
-- 
2.43.0


From 296e78b502a79a598f8d7e881ddd0c4485ea3411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:13 +0000
Subject: [PATCH 12/20] fix: revoking a schema permission again does not extend
 it to the present

---
 pallets/msa/src/lib.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pallets/msa/src/lib.rs b/pallets/msa/src/lib.rs
index 409a13c..37b7b5e 100644
--- a/pallets/msa/src/lib.rs
+++ b/pallets/msa/src/lib.rs
@@ -1005,9 +1005,17 @@ impl<T: Config> Pallet<T> {
 
 			let current_block = frame_system::Pallet::<T>::block_number();
 
+			// Permissions that are revoked already keep the block that they were revoked at.
+			let to_revoke = schema_ids
+				.into_iter()
+				.filter(|id| {
+					delegation.schema_permissions.get(id).map_or(true, |at| at.is_zero())
+				})
+				.collect();
+
 			PermittedDelegationSchemas::<T>::try_get_mut_schemas(
 				delegation,
-				schema_ids,
+				to_revoke,
 				current_block,
 			)?;
 
-- 
2.43.0


From 45fe07626f9551a55d92ee3802664ac501bee3e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:55 +0000
Subject: [PATCH 13/20] fix: an interrupted initial MSA indexing resumes from
 the block it started at

---
 pallets/msa/src/offchain_storage.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pallets/msa/src/offchain_storage.rs b/pallets/msa/src/offchain_storage.rs
index 612c0a5..ce34857 100644
--- a/pallets/msa/src/offchain_storage.rs
+++ b/pallets/msa/src/offchain_storage.rs
@@ -260,6 +260,12 @@ fn init_last_processed_block<T: Config>(current_block_number: BlockNumberFor<T>)
 	let last_processed_block_storage =
 		StorageValueRef::persistent(LAST_PROCESSED_BLOCK_STORAGE_NAME);
 
+	// An earlier initial indexing was cut short: the keys which it already stored are only removed
+	// again by the deletion events since the block it started from, so none of them may be skipped.
+	if let Ok(Some(_)) = last_processed_block_storage.get::<BlockNumberFor<T>>() {
+		return
+	}
+
 	// setting current_block-1 as the last processed so that we start indexing from current_block
 	let target_block: BlockNumberFor<T> =
 		current_block_number.saturating_sub(BlockNumberFor::<T>::one());
-- 
2.43.0


From 5dd85d62ca54a10bceabfa8fd6ec4838e897f1f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:49 +0000
Subject: [PATCH 14/20] fix: check_delegations reports an API error instead of
 answering that there is no delegation

---
 pallets/msa/src/rpc/src/lib.rs | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/pallets/msa/src/rpc/src/lib.rs b/pallets/msa/src/rpc/src/lib.rs
index 39fc62d..5cd3209 100644
--- a/pallets/msa/src/rpc/src/lib.rs
+++ b/pallets/msa/src/rpc/src/lib.rs
@@ -131,25 +131,22 @@ where
 			.par_iter()
 			.map(|delegator_msa_id| {
 				let api = self.client.runtime_api();
-				// api.has_delegation returns  Result<bool, ApiError>), so _or(false) should not happen,
-				// but just in case, protect against panic
-				let has_delegation: bool = match api.has_delegation(
+				// an ApiError (the state of the block is gone, say) is no answer: report it
+				api.has_delegation(
 					at,
 					*delegator_msa_id,
 					provider_msa_id,
 					block_number,
 					schema_id,
-				) {
-					Ok(result) => result,
-					Err(e) => {
-						warn!("ApiError from has_delegation! {:?}", e);
-						false
-					},
-				};
-				(*delegator_msa_id, has_delegation)
+				)
+				.map(|has_delegation| (*delegator_msa_id, has_delegation))
+				.map_err(|e| {
+					warn!("ApiError from has_delegation! {:?}", e);
+					e
+				})
 			})
 			.collect();
-		Ok(results)
+		map_rpc_result(results)
 	}
 
 	fn get_granted_schemas_by_msa_id(
-- 
2.43.0


From b893ae0ab42b28c4152497dd25cfd90908661518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:49 +0000
Subject: [PATCH 15/20] fix: get_messages_by_schema_id reports an API error
 instead of leaving out the messages of a block

---
 pallets/messages/src/rpc/src/lib.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pallets/messages/src/rpc/src/lib.rs b/pallets/messages/src/rpc/src/lib.rs
index 65ed4c1..1b4659c 100644
--- a/pallets/messages/src/rpc/src/lib.rs
+++ b/pallets/messages/src/rpc/src/lib.rs
@@ -98,14 +98,14 @@ where
 		let mut from_index = pagination.from_index;
 
 		'loops: for block_number in from..to {
-			let list: Vec<MessageResponse> = api
-				.get_messages_by_schema_and_block(
+			// an ApiError (the state of the block is gone, say) must not read as no messages
+			let list: Vec<MessageResponse> =
+				map_rpc_result(api.get_messages_by_schema_and_block(
 					at,
 					schema.schema_id,
 					schema.payload_location,
 					block_number,
-				)
-				.unwrap_or_default();
+				))?;
 
 			let list_size: u32 =
 				list.len().try_into().map_err(|_| MessageRpcError::TypeConversionOverflow)?;
-- 
2.43.0


From 7785b5767808cfbec1fc707c64095ca9cc8a6a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:01 +0000
Subject: [PATCH 16/20] fix: missing nonces are complete when several waiting
 transactions have the same nonce

---
 node/service/src/rpc/frequency_rpc.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/node/service/src/rpc/frequency_rpc.rs b/node/service/src/rpc/frequency_rpc.rs
index 1734f27..75653b3 100644
--- a/node/service/src/rpc/frequency_rpc.rs
+++ b/node/service/src/rpc/frequency_rpc.rs
@@ -132,8 +132,10 @@ where
 			}
 		}
 
-		// progress the current_nonce
-		current_nonce += One::one();
+		// progress the current_nonce, once only if several transactions have the same nonce
+		if current_nonce == future_nonce {
+			current_nonce += One::one();
+		}
 	}
 
 	result
-- 
2.43.0


From 9f317904aaf9e65ee83a686ec590594a5446ea47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:11 +0000
Subject: [PATCH 17/20] fix: TimeRelease::Claimed reports the amount that was
 released

---
 pallets/time-release/src/lib.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/pallets/time-release/src/lib.rs b/pallets/time-release/src/lib.rs
index 5c41752..4be87ea 100644
--- a/pallets/time-release/src/lib.rs
+++ b/pallets/time-release/src/lib.rs
@@ -23,7 +23,7 @@ use frame_support::{
 	pallet_prelude::*,
 	traits::{
 		tokens::{
-			fungible::{Inspect as InspectFungible, Mutate, MutateFreeze},
+			fungible::{Inspect as InspectFungible, InspectFreeze, Mutate, MutateFreeze},
 			Balance, Preservation,
 		},
 		BuildGenesisConfig, EnsureOrigin, Get,
@@ -33,7 +33,7 @@ use frame_support::{
 use frame_system::{ensure_root, ensure_signed, pallet_prelude::*};
 use sp_runtime::{
 	traits::{BlockNumberProvider, CheckedAdd, StaticLookup, Zero},
-	ArithmeticError,
+	ArithmeticError, Saturating,
 };
 use sp_std::vec::Vec;
 
@@ -245,9 +245,9 @@ pub mod module {
 		#[pallet::weight(T::WeightInfo::claim(<T as Config>::MaxReleaseSchedules::get() / 2))]
 		pub fn claim(origin: OriginFor<T>) -> DispatchResult {
 			let who = ensure_signed(origin)?;
-			let frozen_amount = Self::do_claim(&who)?;
+			let claimed_amount = Self::do_claim(&who)?;
 
-			Self::deposit_event(Event::Claimed { who, amount: frozen_amount });
+			Self::deposit_event(Event::Claimed { who, amount: claimed_amount });
 			Ok(())
 		}
 
@@ -330,16 +330,19 @@ pub mod module {
 		) -> DispatchResult {
 			ensure_signed(origin)?;
 			let who = T::Lookup::lookup(dest)?;
-			let frozen_amount = Self::do_claim(&who)?;
+			let claimed_amount = Self::do_claim(&who)?;
 
-			Self::deposit_event(Event::Claimed { who, amount: frozen_amount });
+			Self::deposit_event(Event::Claimed { who, amount: claimed_amount });
 			Ok(())
 		}
 	}
 }
 
 impl<T: Config> Pallet<T> {
+	/// Releases what is due and returns the amount that was released.
 	fn do_claim(who: &T::AccountId) -> Result<BalanceOf<T>, DispatchError> {
+		let previously_frozen =
+			T::Currency::balance_frozen(&FreezeReason::TimeReleaseVesting.into(), who);
 		let frozen = Self::prune_and_get_frozen_balance(who);
 		if frozen.is_zero() {
 			Self::delete_freeze(who)?;
@@ -347,7 +350,7 @@ impl<T: Config> Pallet<T> {
 			Self::update_freeze(who, frozen)?;
 		}
 
-		Ok(frozen)
+		Ok(previously_frozen.saturating_sub(frozen))
 	}
 
 	/// Deletes schedules that have released all funds up to a block-number.
-- 
2.43.0


From 9fcc434d4c4b06f7355a682514b057ad0552426a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:33 +0000
Subject: [PATCH 18/20] fix: passkey transactions pay for the length of their
 call, not of the account id

---
 pallets/passkey/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pallets/passkey/src/lib.rs b/pallets/passkey/src/lib.rs
index 911ec3f..00fadce 100644
--- a/pallets/passkey/src/lib.rs
+++ b/pallets/passkey/src/lib.rs
@@ -279,7 +279,7 @@ where
 	/// Validates the transaction fee paid with tokens.
 	pub fn pre_dispatch(&self) -> Result<(), TransactionValidityError> {
 		let info = &self.1.get_dispatch_info();
-		let len = self.0.using_encoded(|c| c.len());
+		let len = self.1.using_encoded(|c| c.len());
 		let runtime_call: <T as frame_system::Config>::RuntimeCall =
 			<T as frame_system::Config>::RuntimeCall::from(self.1.clone());
 		let who = self.0.clone();
@@ -290,7 +290,7 @@ where
 	/// Validates the transaction fee paid with tokens.
 	pub fn validate(&self) -> TransactionValidity {
 		let info = &self.1.get_dispatch_info();
-		let len = self.0.using_encoded(|c| c.len());
+		let len = self.1.using_encoded(|c| c.len());
 		let runtime_call: <T as frame_system::Config>::RuntimeCall =
 			<T as frame_system::Config>::RuntimeCall::from(self.1.clone());
 		let who = self.0.clone();
-- 
2.43.0


From 496295d32ea3d0d9296b3d2b21b2469354caf6b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:36 +0000
Subject: [PATCH 19/20] fix: an unstake takes no more Capacity from a target
 than its staker brought

---
 pallets/capacity/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pallets/capacity/src/lib.rs b/pallets/capacity/src/lib.rs
index 51b8d35..71b1128 100644
--- a/pallets/capacity/src/lib.rs
+++ b/pallets/capacity/src/lib.rs
@@ -615,11 +615,13 @@ impl<T: Config> Pallet<T> {
 		let capacity_to_withdraw = if staking_target_details.amount.eq(&amount) {
 			staking_target_details.capacity
 		} else {
+			// The rounding must not take more from the target than this staker has brought.
 			Self::calculate_capacity_reduction(
 				amount,
 				capacity_details.total_tokens_staked,
 				capacity_details.total_capacity_issued,
 			)
+			.min(staking_target_details.capacity)
 		};
 
 		staking_target_details.withdraw(amount, capacity_to_withdraw);
-- 
2.43.0


From c43a721844ac238fb95f3c505cf6a6049105505d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:51:04 +0000
Subject: [PATCH 20/20] fix: suffixes of a range that ends at the largest
 number can be generated

---
 pallets/handles/src/handles-utils/src/suffix.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pallets/handles/src/handles-utils/src/suffix.rs b/pallets/handles/src/handles-utils/src/suffix.rs
index 2a1f674..deaf6a4 100644
--- a/pallets/handles/src/handles-utils/src/suffix.rs
+++ b/pallets/handles/src/handles-utils/src/suffix.rs
@@ -37,7 +37,7 @@ pub fn generate_unique_suffixes(
 
 	let mut indices: Vec<u16> = (min..=max).collect();
 	(min..=max).rev().map(move |i| {
-		let j = rng.rand_range((min as u32)..(i + 1) as u32) as u16;
+		let j = rng.rand_range((min as u32)..i as u32 + 1) as u16;
 		indices.swap((i - min) as usize, (j - min) as usize);
 		indices[(i - min) as usize]
 	})
-- 
2.43.0

