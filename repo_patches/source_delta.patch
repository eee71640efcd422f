From b5c127957f0013a91638dd802ade0e1e09ba878c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:48 +0000
Subject: [PATCH 01/39] fix: read the time once per slot stream step

A slot that began between two readings was yielded twice.
---
 ethereum-consensus/src/clock.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/ethereum-consensus/src/clock.rs b/ethereum-consensus/src/clock.rs
index 0f0ebb7..fbe2d76 100644
--- a/ethereum-consensus/src/clock.rs
+++ b/ethereum-consensus/src/clock.rs
@@ -200,7 +200,10 @@ impl<T: TimeProvider + Send + Sync> Clock<T> {
     /// Return a `Duration` until the next `slot` relative to the
     /// current time as determined by the clock.
     pub fn duration_until_next_slot(&self) -> Duration {
-        let current_time = self.get_current_time();
+        self.duration_until_next_slot_at(self.get_current_time())
+    }
+
+    fn duration_until_next_slot_at(&self, current_time: u128) -> Duration {
         if self.before_genesis_at(current_time) {
             Duration::from_nanos(u128_to_u64(self.genesis_time - current_time))
         } else {
@@ -240,8 +243,10 @@ pub struct SlotStream<T: TimeProvider + Send + Sync> {
 #[cfg(feature = "async")]
 impl<T: TimeProvider + Send + Sync> Clock<T> {
     pub fn into_stream(self) -> SlotStream<T> {
-        let delay = Box::pin(sleep(self.duration_until_next_slot()));
-        let current_slot = self.current_slot();
+        // NOTE: use one reading of the time, so that the delay leads to the slot after this one
+        let current_time = self.get_current_time();
+        let delay = Box::pin(sleep(self.duration_until_next_slot_at(current_time)));
+        let current_slot = self.slot_at_time(current_time);
         SlotStream { delay, clock: self, first_slot: current_slot }
     }
 }
@@ -257,8 +262,12 @@ impl<T: TimeProvider + Send + Sync> Stream for SlotStream<T> {
         } else {
             match Pin::new(&mut self.delay).poll(cx) {
                 Poll::Ready(_) => {
-                    self.delay = Box::pin(sleep(self.clock.duration_until_next_slot()));
-                    Poll::Ready(self.clock.current_slot())
+                    // NOTE: use one reading of the time, otherwise a slot that begins between two
+                    // readings is yielded twice
+                    let current_time = self.clock.get_current_time();
+                    let delay = self.clock.duration_until_next_slot_at(current_time);
+                    self.delay = Box::pin(sleep(delay));
+                    Poll::Ready(self.clock.slot_at_time(current_time))
                 }
                 Poll::Pending => Poll::Pending,
             }
-- 
2.43.0


From d2c9bd357c2cd77a9b407d36b4add32510fff66a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:20 +0000
Subject: [PATCH 02/39] fix: deserialize lists of decimal strings from any kind
 of document

Elements were read as borrowed strings, which a reader, a parsed tree or a text with escapes
cannot provide.
---
 ethereum-consensus/src/serde.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ethereum-consensus/src/serde.rs b/ethereum-consensus/src/serde.rs
index 26f5e46..b15f45d 100644
--- a/ethereum-consensus/src/serde.rs
+++ b/ethereum-consensus/src/serde.rs
@@ -127,8 +127,8 @@ pub mod seq_of_str {
         {
             let mut coll = Vec::with_capacity(access.size_hint().unwrap_or(0));
 
-            while let Some(elem) = access.next_element()? {
-                let recovered_elem = T::from_str(elem).map_err(|_| {
+            while let Some(elem) = access.next_element::<String>()? {
+                let recovered_elem = T::from_str(&elem).map_err(|_| {
                     Error::custom("failure to parse element of sequence from string")
                 })?;
                 coll.push(recovered_elem);
-- 
2.43.0


From e43daab2049eb556bea7f3786b38955ec4311fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:23 +0000
Subject: [PATCH 03/39] fix: offer a constant that a later fork redefines once

The symbol index of a fork's own items left out its constants, so a constant
defined again by a later fork was re-exported from both forks under one name.
---
 spec-gen/src/generator.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/spec-gen/src/generator.rs b/spec-gen/src/generator.rs
index f31fe4e..ffca20d 100644
--- a/spec-gen/src/generator.rs
+++ b/spec-gen/src/generator.rs
@@ -625,6 +625,7 @@ fn parse_fork_diff_with_symbol_index(fork: &Fork) -> (ForkDiff, HashMap<String,
                 Item::Const(item) => {
                     let item = Constant::new(item, *fork);
                     if item.is_pub() {
+                        index.insert(item.item.ident.to_string(), module_name.to_string());
                         module.constants.push(item);
                     }
                 }
-- 
2.43.0


From 7fd6beaa0d64604ecd98c5fc8df4fc1191e70372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:56 +0000
Subject: [PATCH 04/39] fix: import functions a fork wrote out from its spec
 module

A function that a fork wrote out for its own types lives in that fork's spec
module. When a later fork kept it as it is, the generated import named the
module of the original definition, which has no such function in that fork.
---
 spec-gen/src/generator.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/spec-gen/src/generator.rs b/spec-gen/src/generator.rs
index ffca20d..4098e65 100644
--- a/spec-gen/src/generator.rs
+++ b/spec-gen/src/generator.rs
@@ -241,13 +241,15 @@ struct Fn {
     item: syn::ItemFn,
     fork: Fork,
     can_import: bool,
+    // set once a fork has written this function out in its `spec` module
+    is_expanded: bool,
 }
 
 impl Fn {
     fn new(value: syn::ItemFn, fork: Fork) -> Self {
         let sig = &value.sig;
         let name = &sig.ident;
-        Self { name: name.to_string(), item: value, fork, can_import: true }
+        Self { name: name.to_string(), item: value, fork, can_import: true, is_expanded: false }
     }
 
     fn is_pub(&self) -> bool {
@@ -496,6 +498,7 @@ impl Spec {
 
                 f.item = fragment;
                 f.can_import = false;
+                f.is_expanded = true;
 
                 module.fns.push(f);
                 index.insert(fn_name, module_name.to_string());
@@ -581,6 +584,8 @@ impl Spec {
             let item: Item = if f.can_import {
                 let ident = &f.item.sig.ident;
                 let fork_name = as_syn_ident(f.fork.name());
+                let module_name =
+                    if f.is_expanded { as_syn_ident("spec".to_string()) } else { module_name };
                 parse_quote! {
                     pub use crate::#fork_name::#module_name::#ident;
                 }
-- 
2.43.0


From 98d38dfd3b4b0a4ae0dc31149daa4c0163c17c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:34 +0000
Subject: [PATCH 05/39] fix: keep the double colon when editing generic
 arguments in expressions

---
 spec-gen/src/visitors.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/spec-gen/src/visitors.rs b/spec-gen/src/visitors.rs
index 819beca..e1768f3 100644
--- a/spec-gen/src/visitors.rs
+++ b/spec-gen/src/visitors.rs
@@ -234,7 +234,10 @@ impl VisitMut for ArgumentsEditor<'_> {
         i: &mut syn::AngleBracketedGenericArguments,
     ) {
         if self.in_context {
+            // an expression keeps its `::` before the arguments
+            let colon2_token = i.colon2_token;
             *i = self.edit.clone();
+            i.colon2_token = colon2_token;
         }
         visit_mut::visit_angle_bracketed_generic_arguments_mut(self, i);
     }
-- 
2.43.0


From 63692c0005df4432918dba20ac1b7ffc36365404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:12 +0000
Subject: [PATCH 06/39] fix: measure the age of an exiting validator from its
 activation

---
 ethereum-consensus/src/deneb/block_processing.rs   | 3 +--
 ethereum-consensus/src/electra/block_processing.rs | 3 +--
 ethereum-consensus/src/phase0/block_processing.rs  | 3 +--
 3 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/ethereum-consensus/src/deneb/block_processing.rs b/ethereum-consensus/src/deneb/block_processing.rs
index 2e57c71..3afdb73 100644
--- a/ethereum-consensus/src/deneb/block_processing.rs
+++ b/ethereum-consensus/src/deneb/block_processing.rs
@@ -320,8 +320,7 @@ pub fn process_voluntary_exit<
             InvalidVoluntaryExit::EarlyExit { current_epoch, exit_epoch: voluntary_exit.epoch },
         )))
     }
-    let minimum_time_active =
-        validator.activation_eligibility_epoch + context.shard_committee_period;
+    let minimum_time_active = validator.activation_epoch + context.shard_committee_period;
     if current_epoch < minimum_time_active {
         return Err(invalid_operation_error(InvalidOperation::VoluntaryExit(
             InvalidVoluntaryExit::ValidatorIsNotActiveForLongEnough {
diff --git a/ethereum-consensus/src/electra/block_processing.rs b/ethereum-consensus/src/electra/block_processing.rs
index 302b6eb..8210b9b 100644
--- a/ethereum-consensus/src/electra/block_processing.rs
+++ b/ethereum-consensus/src/electra/block_processing.rs
@@ -819,8 +819,7 @@ pub fn process_voluntary_exit<
         )));
     }
 
-    let minimum_time_active =
-        validator.activation_eligibility_epoch + context.shard_committee_period;
+    let minimum_time_active = validator.activation_epoch + context.shard_committee_period;
     if current_epoch < minimum_time_active {
         return Err(invalid_operation_error(InvalidOperation::VoluntaryExit(
             InvalidVoluntaryExit::ValidatorIsNotActiveForLongEnough {
diff --git a/ethereum-consensus/src/phase0/block_processing.rs b/ethereum-consensus/src/phase0/block_processing.rs
index 3570de0..cc0c4a2 100644
--- a/ethereum-consensus/src/phase0/block_processing.rs
+++ b/ethereum-consensus/src/phase0/block_processing.rs
@@ -497,8 +497,7 @@ pub fn process_voluntary_exit<
         )))
     }
 
-    let minimum_time_active =
-        validator.activation_eligibility_epoch + context.shard_committee_period;
+    let minimum_time_active = validator.activation_epoch + context.shard_committee_period;
     if current_epoch < minimum_time_active {
         return Err(invalid_operation_error(InvalidOperation::VoluntaryExit(
             InvalidVoluntaryExit::ValidatorIsNotActiveForLongEnough {
-- 
2.43.0


From d5447f0a7bb98d0dc56c18f14bac1365727ab28b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:15 +0000
Subject: [PATCH 07/39] fix: give the proposer its share of the whistleblower
 reward

---
 ethereum-consensus/src/altair/helpers.rs    | 3 +--
 ethereum-consensus/src/bellatrix/helpers.rs | 3 +--
 ethereum-consensus/src/electra/helpers.rs   | 3 +--
 3 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/ethereum-consensus/src/altair/helpers.rs b/ethereum-consensus/src/altair/helpers.rs
index 9c7f9b4..69338b8 100644
--- a/ethereum-consensus/src/altair/helpers.rs
+++ b/ethereum-consensus/src/altair/helpers.rs
@@ -403,8 +403,7 @@ pub fn slash_validator<
 
     let whistleblower_reward =
         state.validators[slashed_index].effective_balance / context.whistleblower_reward_quotient;
-    let proposer_reward_scaling_factor = PROPOSER_WEIGHT / WEIGHT_DENOMINATOR;
-    let proposer_reward = whistleblower_reward * proposer_reward_scaling_factor;
+    let proposer_reward = whistleblower_reward * PROPOSER_WEIGHT / WEIGHT_DENOMINATOR;
     increase_balance(state, proposer_index, proposer_reward);
     increase_balance(state, whistleblower_index, whistleblower_reward - proposer_reward);
     Ok(())
diff --git a/ethereum-consensus/src/bellatrix/helpers.rs b/ethereum-consensus/src/bellatrix/helpers.rs
index dcf7e47..3de78f8 100644
--- a/ethereum-consensus/src/bellatrix/helpers.rs
+++ b/ethereum-consensus/src/bellatrix/helpers.rs
@@ -105,8 +105,7 @@ pub fn slash_validator<
     let whistleblower_index = whistleblower_index.unwrap_or(proposer_index);
     let whistleblower_reward =
         state.validators[slashed_index].effective_balance / context.whistleblower_reward_quotient;
-    let proposer_reward_scaling_factor = PROPOSER_WEIGHT / WEIGHT_DENOMINATOR;
-    let proposer_reward = whistleblower_reward * proposer_reward_scaling_factor;
+    let proposer_reward = whistleblower_reward * PROPOSER_WEIGHT / WEIGHT_DENOMINATOR;
     increase_balance(state, proposer_index, proposer_reward);
     increase_balance(state, whistleblower_index, whistleblower_reward - proposer_reward);
     Ok(())
diff --git a/ethereum-consensus/src/electra/helpers.rs b/ethereum-consensus/src/electra/helpers.rs
index 2495cdb..8ad7dba 100644
--- a/ethereum-consensus/src/electra/helpers.rs
+++ b/ethereum-consensus/src/electra/helpers.rs
@@ -701,8 +701,7 @@ pub fn slash_validator<
     let whistleblower_index = whistleblower_index.unwrap_or(proposer_index);
     let whistleblower_reward = state.validators[slashed_index].effective_balance /
         context.whistleblower_reward_quotient_electra;
-    let proposer_reward_scaling_factor = PROPOSER_WEIGHT / WEIGHT_DENOMINATOR;
-    let proposer_reward = whistleblower_reward * proposer_reward_scaling_factor;
+    let proposer_reward = whistleblower_reward * PROPOSER_WEIGHT / WEIGHT_DENOMINATOR;
     increase_balance(state, proposer_index, proposer_reward);
     increase_balance(state, whistleblower_index, whistleblower_reward - proposer_reward);
     Ok(())
-- 
2.43.0


From 63ec66c14e35366180ccdaeb1330b1bd84c37314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:17 +0000
Subject: [PATCH 08/39] fix: report a block root requested at slot zero as out
 of range

---
 ethereum-consensus/src/phase0/helpers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ethereum-consensus/src/phase0/helpers.rs b/ethereum-consensus/src/phase0/helpers.rs
index d1de4c6..c7b6ea0 100644
--- a/ethereum-consensus/src/phase0/helpers.rs
+++ b/ethereum-consensus/src/phase0/helpers.rs
@@ -610,7 +610,7 @@ pub fn get_block_root_at_slot<
     if slot >= state.slot || state.slot > (slot + SLOTS_PER_HISTORICAL_ROOT as Slot) {
         return Err(Error::SlotOutOfRange {
             requested: slot,
-            lower_bound: state.slot - 1,
+            lower_bound: state.slot.saturating_sub(1),
             upper_bound: state.slot + SLOTS_PER_HISTORICAL_ROOT as Slot,
         })
     }
-- 
2.43.0


From 07ed1183e2e340c8e573aa62be75ba9be20414a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:20 +0000
Subject: [PATCH 09/39] fix: refuse to sample a sync committee from no active
 validators

---
 ethereum-consensus/src/altair/helpers.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ethereum-consensus/src/altair/helpers.rs b/ethereum-consensus/src/altair/helpers.rs
index 69338b8..721c206 100644
--- a/ethereum-consensus/src/altair/helpers.rs
+++ b/ethereum-consensus/src/altair/helpers.rs
@@ -62,6 +62,9 @@ pub fn get_next_sync_committee_indices<
     let max_random_byte = u8::MAX as u64;
     let active_validator_indices = get_active_validator_indices(state, epoch);
     let active_validator_count = active_validator_indices.len();
+    if active_validator_count == 0 {
+        return Err(Error::CollectionCannotBeEmpty)
+    }
     let seed = get_seed(state, epoch, DomainType::SyncCommittee, context);
     let mut i: usize = 0;
     let mut sync_committee_indices = vec![];
-- 
2.43.0


From 2a88e7f466230eb07be9921d81529b96a2d91790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:04 +0000
Subject: [PATCH 10/39] fix: read the bits of each committee of an attestation
 after those of the committees before it

---
 ethereum-consensus/src/electra/helpers.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ethereum-consensus/src/electra/helpers.rs b/ethereum-consensus/src/electra/helpers.rs
index 8ad7dba..0574a5f 100644
--- a/ethereum-consensus/src/electra/helpers.rs
+++ b/ethereum-consensus/src/electra/helpers.rs
@@ -299,13 +299,15 @@ pub fn get_attesting_indices<
 
     let mut indices = HashSet::with_capacity(MAX_VALIDATORS_PER_SLOT);
 
-    for (committee_offset, index) in committee_indices.into_iter().enumerate() {
+    let mut committee_offset = 0;
+    for index in committee_indices {
         let committee = get_beacon_committee(state, attestation.data.slot, index, context)?;
         for (i, validator_index) in committee.iter().enumerate() {
             if attestation.aggregation_bits[committee_offset + i] {
                 indices.insert(*validator_index);
             }
         }
+        committee_offset += committee.len();
     }
 
     Ok(indices)
-- 
2.43.0


From b4132ce6264cd9fa3c10e1b6c27e70b53f84ba5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:08 +0000
Subject: [PATCH 11/39] fix: meter consolidations by the consolidation churn
 limit

---
 ethereum-consensus/src/electra/helpers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ethereum-consensus/src/electra/helpers.rs b/ethereum-consensus/src/electra/helpers.rs
index 0574a5f..456a9d5 100644
--- a/ethereum-consensus/src/electra/helpers.rs
+++ b/ethereum-consensus/src/electra/helpers.rs
@@ -628,7 +628,7 @@ pub fn compute_consolidation_epoch_and_update_churn<
     let activation_exit_epoch = compute_activation_exit_epoch(current_epoch, context);
     let mut earliest_consolidation_epoch =
         state.earliest_consolidation_epoch.max(activation_exit_epoch);
-    let per_epoch_churn = get_activation_exit_churn_limit(state, context)?;
+    let per_epoch_churn = get_consolidation_churn_limit(state, context)?;
     let mut consolidation_balance_to_consume =
         if state.earliest_consolidation_epoch < earliest_consolidation_epoch {
             per_epoch_churn
-- 
2.43.0


From 4067abbc2094376ff0422a93c8bb9fedebed693f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:12 +0000
Subject: [PATCH 12/39] fix: derive the withdrawable epoch of a consolidated
 validator from its new exit epoch

---
 ethereum-consensus/src/electra/block_processing.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/ethereum-consensus/src/electra/block_processing.rs b/ethereum-consensus/src/electra/block_processing.rs
index 8210b9b..412f9bf 100644
--- a/ethereum-consensus/src/electra/block_processing.rs
+++ b/ethereum-consensus/src/electra/block_processing.rs
@@ -1134,14 +1134,14 @@ pub fn process_consolidation<
     let public_keys = [&source_validator.public_key, &target_validator.public_key];
     fast_aggregate_verify(&public_keys[..], &signing_root[..], &signed_consolidation.signature)?;
 
-    state.validators[consolidation.source_index].exit_epoch =
-        compute_consolidation_epoch_and_update_churn(
-            state,
-            source_validator.effective_balance,
-            context,
-        )?;
+    let exit_epoch = compute_consolidation_epoch_and_update_churn(
+        state,
+        source_validator.effective_balance,
+        context,
+    )?;
+    state.validators[consolidation.source_index].exit_epoch = exit_epoch;
     state.validators[consolidation.source_index].withdrawable_epoch =
-        source_validator.exit_epoch + context.min_validator_withdrawability_delay;
+        exit_epoch + context.min_validator_withdrawability_delay;
     state.pending_consolidations.push(PendingConsolidation {
         source_index: consolidation.source_index,
         target_index: consolidation.target_index,
-- 
2.43.0


From 36feeba5ab3753e2f41388b3fcfa91b1b7035704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:15 +0000
Subject: [PATCH 13/39] fix: pay pending partial withdrawals to the validators
 that asked for them

---
 ethereum-consensus/src/electra/block_processing.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ethereum-consensus/src/electra/block_processing.rs b/ethereum-consensus/src/electra/block_processing.rs
index 412f9bf..8d62e26 100644
--- a/ethereum-consensus/src/electra/block_processing.rs
+++ b/ethereum-consensus/src/electra/block_processing.rs
@@ -79,7 +79,7 @@ pub fn get_expected_withdrawals<
         let balance = state.balances[withdrawal.index];
 
         let has_sufficient_effective_balance =
-            validator.effective_balance > context.min_activation_balance;
+            validator.effective_balance >= context.min_activation_balance;
         let has_excess_balance = balance > context.min_activation_balance;
         if validator.exit_epoch == FAR_FUTURE_EPOCH &&
             has_sufficient_effective_balance &&
@@ -91,7 +91,7 @@ pub fn get_expected_withdrawals<
             withdrawal_address.copy_from_slice(&validator.withdrawal_credentials[12..]);
             let withdrawal = Withdrawal {
                 index: withdrawal_index,
-                validator_index,
+                validator_index: withdrawal.index,
                 address: withdrawal_address,
                 amount: withdrawable_balance,
             };
-- 
2.43.0


From 41f0ad8dd7362c847155fe58a35105c127a503fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:18 +0000
Subject: [PATCH 14/39] fix: resume the withdrawal sweep after the last
 validator paid

---
 ethereum-consensus/src/electra/block_processing.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ethereum-consensus/src/electra/block_processing.rs b/ethereum-consensus/src/electra/block_processing.rs
index 8d62e26..10c0783 100644
--- a/ethereum-consensus/src/electra/block_processing.rs
+++ b/ethereum-consensus/src/electra/block_processing.rs
@@ -206,8 +206,9 @@ pub fn process_withdrawals<
     }
 
     if expected_withdrawals.len() == context.max_withdrawals_per_payload {
-        let next_validator_index =
-            expected_withdrawals.last().map(|latest| (latest.index + 1) % state.validators.len());
+        let next_validator_index = expected_withdrawals
+            .last()
+            .map(|latest| (latest.validator_index + 1) % state.validators.len());
         state.next_withdrawal_validator_index =
             next_validator_index.unwrap_or(state.next_withdrawal_validator_index);
     } else {
-- 
2.43.0


From 6e8638c4d5711061f3498473360a56f898f7498b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:20 +0000
Subject: [PATCH 15/39] fix: require deposits in a block only while some are
 outstanding

---
 ethereum-consensus/src/electra/block_processing.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ethereum-consensus/src/electra/block_processing.rs b/ethereum-consensus/src/electra/block_processing.rs
index 10c0783..e74acef 100644
--- a/ethereum-consensus/src/electra/block_processing.rs
+++ b/ethereum-consensus/src/electra/block_processing.rs
@@ -449,11 +449,11 @@ pub fn process_operations<
             return Err(invalid_operation_error(InvalidOperation::Deposit(
                 InvalidDeposit::IncorrectCount { expected, count: body.deposits.len() },
             )));
-        } else if !body.deposits.is_empty() {
-            return Err(invalid_operation_error(InvalidOperation::Deposit(
-                InvalidDeposit::IncorrectCount { expected: 0, count: body.deposits.len() },
-            )));
         }
+    } else if !body.deposits.is_empty() {
+        return Err(invalid_operation_error(InvalidOperation::Deposit(
+            InvalidDeposit::IncorrectCount { expected: 0, count: body.deposits.len() },
+        )));
     }
 
     body.proposer_slashings
-- 
2.43.0


From 0c2c7f4a39bcfd49054a261359617dab73b31094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:24 +0000
Subject: [PATCH 16/39] fix: ignore deposits with an invalid signature rather
 than refuse their block

---
 .../src/electra/block_processing.rs           | 33 +++++++++++--------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/ethereum-consensus/src/electra/block_processing.rs b/ethereum-consensus/src/electra/block_processing.rs
index e74acef..7ac93ea 100644
--- a/ethereum-consensus/src/electra/block_processing.rs
+++ b/ethereum-consensus/src/electra/block_processing.rs
@@ -658,31 +658,38 @@ pub fn apply_deposit<
     if let Some((index, validator)) = validator {
         state.pending_balance_deposits.push(PendingBalanceDeposit { index, amount });
 
-        is_valid_deposit_signature(
-            public_key,
-            withdrawal_credentials.clone(),
-            amount,
-            signature,
-            context,
-        )?;
-
-        // NOTE: if we did not return from signature check, then we know the signature is valid
         if is_compounding_withdrawal_credential(withdrawal_credentials) &&
-            has_eth1_withdrawal_credential(validator)
+            has_eth1_withdrawal_credential(validator) &&
+            is_valid_deposit_signature(
+                public_key,
+                withdrawal_credentials.clone(),
+                amount,
+                signature,
+                context,
+            )
+            .is_ok()
         {
             switch_to_compounding_validator(state, index, context)?;
         }
         return Ok(());
     }
 
-    is_valid_deposit_signature(
+    if is_valid_deposit_signature(
         public_key,
         withdrawal_credentials.clone(),
         amount,
         signature,
         context,
-    )?;
-    add_validator_to_registry(state, public_key.clone(), withdrawal_credentials.clone(), amount);
+    )
+    .is_ok()
+    {
+        add_validator_to_registry(
+            state,
+            public_key.clone(),
+            withdrawal_credentials.clone(),
+            amount,
+        );
+    }
     Ok(())
 }
 
-- 
2.43.0


From 8b1cf1a544d764442123e567e65f36f738289911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:11 +0000
Subject: [PATCH 17/39] fix: refuse a block when fewer deposits are agreed on
 than were processed

---
 ethereum-consensus/src/capella/block_processing.rs | 12 ++++++++----
 ethereum-consensus/src/phase0/block_processing.rs  | 12 ++++++++----
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/ethereum-consensus/src/capella/block_processing.rs b/ethereum-consensus/src/capella/block_processing.rs
index 0165344..d192049 100644
--- a/ethereum-consensus/src/capella/block_processing.rs
+++ b/ethereum-consensus/src/capella/block_processing.rs
@@ -18,6 +18,7 @@ use crate::{
     signing::verify_signed_data,
     ssz::prelude::*,
     state_transition::{Context, Result},
+    Error,
 };
 
 pub fn process_bls_to_execution_change<
@@ -136,10 +137,13 @@ pub fn process_operations<
     >,
     context: &Context,
 ) -> Result<()> {
-    let expected_deposit_count = usize::min(
-        context.max_deposits,
-        (state.eth1_data.deposit_count - state.eth1_deposit_index) as usize,
-    );
+    let outstanding_deposit_count = state
+        .eth1_data
+        .deposit_count
+        .checked_sub(state.eth1_deposit_index)
+        .ok_or(Error::Underflow)?;
+    let expected_deposit_count =
+        usize::min(context.max_deposits, outstanding_deposit_count as usize);
     if body.deposits.len() != expected_deposit_count {
         return Err(invalid_operation_error(InvalidOperation::Deposit(
             InvalidDeposit::IncorrectCount {
diff --git a/ethereum-consensus/src/phase0/block_processing.rs b/ethereum-consensus/src/phase0/block_processing.rs
index cc0c4a2..13a3f22 100644
--- a/ethereum-consensus/src/phase0/block_processing.rs
+++ b/ethereum-consensus/src/phase0/block_processing.rs
@@ -28,6 +28,7 @@ use crate::{
     signing::verify_signed_data,
     ssz::prelude::*,
     state_transition::{Context, Result},
+    Error,
 };
 use std::collections::HashSet;
 
@@ -735,10 +736,13 @@ pub fn process_operations<
     >,
     context: &Context,
 ) -> Result<()> {
-    let expected_deposit_count = usize::min(
-        context.max_deposits,
-        (state.eth1_data.deposit_count - state.eth1_deposit_index) as usize,
-    );
+    let outstanding_deposit_count = state
+        .eth1_data
+        .deposit_count
+        .checked_sub(state.eth1_deposit_index)
+        .ok_or(Error::Underflow)?;
+    let expected_deposit_count =
+        usize::min(context.max_deposits, outstanding_deposit_count as usize);
 
     if body.deposits.len() != expected_deposit_count {
         return Err(invalid_operation_error(InvalidOperation::Deposit(
-- 
2.43.0


From 6db2293031bec238f07866d3ea4e513af7ce628e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:27 +0000
Subject: [PATCH 18/39] fix: let the executor cross a fork whose slot the state
 has already reached

A schedule may put several forks at one epoch, and a state may already stand
at the first slot of a fork when the first block of that fork arrives.
---
 .../src/state_transition/executor.rs          | 80 ++++++++++++++-----
 1 file changed, 60 insertions(+), 20 deletions(-)

diff --git a/ethereum-consensus/src/state_transition/executor.rs b/ethereum-consensus/src/state_transition/executor.rs
index d23c385..62ee791 100644
--- a/ethereum-consensus/src/state_transition/executor.rs
+++ b/ethereum-consensus/src/state_transition/executor.rs
@@ -210,7 +210,9 @@ impl<
         match &mut self.state {
             BeaconState::Phase0(state) => {
                 let fork_slot = self.context.altair_fork_epoch * self.context.slots_per_epoch;
-                phase0::process_slots(state, fork_slot, &self.context)?;
+                if state.slot != fork_slot {
+                    phase0::process_slots(state, fork_slot, &self.context)?;
+                }
                 let mut state = altair::upgrade_to_altair(state, &self.context)?;
                 if signed_block.message.slot == state.slot {
                     altair::state_transition_block_in_slot(
@@ -255,11 +257,15 @@ impl<
         match &mut self.state {
             BeaconState::Phase0(state) => {
                 let fork_slot = self.context.altair_fork_epoch * self.context.slots_per_epoch;
-                phase0::process_slots(state, fork_slot, &self.context)?;
+                if state.slot != fork_slot {
+                    phase0::process_slots(state, fork_slot, &self.context)?;
+                }
                 let mut state = altair::upgrade_to_altair(state, &self.context)?;
 
                 let fork_slot = self.context.bellatrix_fork_epoch * self.context.slots_per_epoch;
-                altair::process_slots(&mut state, fork_slot, &self.context)?;
+                if state.slot != fork_slot {
+                    altair::process_slots(&mut state, fork_slot, &self.context)?;
+                }
                 let mut state = bellatrix::upgrade_to_bellatrix(&state, &self.context);
                 if signed_block.message.slot == state.slot {
                     bellatrix::state_transition_block_in_slot(
@@ -281,7 +287,9 @@ impl<
             }
             BeaconState::Altair(state) => {
                 let fork_slot = self.context.bellatrix_fork_epoch * self.context.slots_per_epoch;
-                altair::process_slots(state, fork_slot, &self.context)?;
+                if state.slot != fork_slot {
+                    altair::process_slots(state, fork_slot, &self.context)?;
+                }
                 let mut state = bellatrix::upgrade_to_bellatrix(state, &self.context);
                 if signed_block.message.slot == state.slot {
                     bellatrix::state_transition_block_in_slot(
@@ -333,15 +341,21 @@ impl<
         match &mut self.state {
             BeaconState::Phase0(state) => {
                 let fork_slot = self.context.altair_fork_epoch * self.context.slots_per_epoch;
-                phase0::process_slots(state, fork_slot, &self.context)?;
+                if state.slot != fork_slot {
+                    phase0::process_slots(state, fork_slot, &self.context)?;
+                }
                 let mut state = altair::upgrade_to_altair(state, &self.context)?;
 
                 let fork_slot = self.context.bellatrix_fork_epoch * self.context.slots_per_epoch;
-                altair::process_slots(&mut state, fork_slot, &self.context)?;
+                if state.slot != fork_slot {
+                    altair::process_slots(&mut state, fork_slot, &self.context)?;
+                }
                 let mut state = bellatrix::upgrade_to_bellatrix(&state, &self.context);
 
                 let fork_slot = self.context.capella_fork_epoch * self.context.slots_per_epoch;
-                bellatrix::process_slots(&mut state, fork_slot, &self.context)?;
+                if state.slot != fork_slot {
+                    bellatrix::process_slots(&mut state, fork_slot, &self.context)?;
+                }
                 let mut state = capella::upgrade_to_capella(&state, &self.context);
 
                 if signed_block.message.slot == state.slot {
@@ -359,11 +373,15 @@ impl<
             }
             BeaconState::Altair(state) => {
                 let fork_slot = self.context.bellatrix_fork_epoch * self.context.slots_per_epoch;
-                altair::process_slots(state, fork_slot, &self.context)?;
+                if state.slot != fork_slot {
+                    altair::process_slots(state, fork_slot, &self.context)?;
+                }
                 let mut state = bellatrix::upgrade_to_bellatrix(state, &self.context);
 
                 let fork_slot = self.context.capella_fork_epoch * self.context.slots_per_epoch;
-                bellatrix::process_slots(&mut state, fork_slot, &self.context)?;
+                if state.slot != fork_slot {
+                    bellatrix::process_slots(&mut state, fork_slot, &self.context)?;
+                }
                 let mut state = capella::upgrade_to_capella(&state, &self.context);
 
                 if signed_block.message.slot == state.slot {
@@ -381,7 +399,9 @@ impl<
             }
             BeaconState::Bellatrix(state) => {
                 let fork_slot = self.context.capella_fork_epoch * self.context.slots_per_epoch;
-                bellatrix::process_slots(state, fork_slot, &self.context)?;
+                if state.slot != fork_slot {
+                    bellatrix::process_slots(state, fork_slot, &self.context)?;
+                }
                 let mut state = capella::upgrade_to_capella(state, &self.context);
 
                 if signed_block.message.slot == state.slot {
@@ -430,19 +450,27 @@ impl<
         match &mut self.state {
             BeaconState::Phase0(state) => {
                 let fork_slot = self.context.altair_fork_epoch * self.context.slots_per_epoch;
-                phase0::process_slots(state, fork_slot, &self.context)?;
+                if state.slot != fork_slot {
+                    phase0::process_slots(state, fork_slot, &self.context)?;
+                }
                 let mut state = altair::upgrade_to_altair(state, &self.context)?;
 
                 let fork_slot = self.context.bellatrix_fork_epoch * self.context.slots_per_epoch;
-                altair::process_slots(&mut state, fork_slot, &self.context)?;
+                if state.slot != fork_slot {
+                    altair::process_slots(&mut state, fork_slot, &self.context)?;
+                }
                 let mut state = bellatrix::upgrade_to_bellatrix(&state, &self.context);
 
                 let fork_slot = self.context.capella_fork_epoch * self.context.slots_per_epoch;
-                bellatrix::process_slots(&mut state, fork_slot, &self.context)?;
+                if state.slot != fork_slot {
+                    bellatrix::process_slots(&mut state, fork_slot, &self.context)?;
+                }
                 let mut state = capella::upgrade_to_capella(&state, &self.context);
 
                 let fork_slot = self.context.deneb_fork_epoch * self.context.slots_per_epoch;
-                capella::process_slots(&mut state, fork_slot, &self.context)?;
+                if state.slot != fork_slot {
+                    capella::process_slots(&mut state, fork_slot, &self.context)?;
+                }
                 let mut state = deneb::upgrade_to_deneb(&state, &self.context);
 
                 if signed_block.message.slot == state.slot {
@@ -460,15 +488,21 @@ impl<
             }
             BeaconState::Altair(state) => {
                 let fork_slot = self.context.bellatrix_fork_epoch * self.context.slots_per_epoch;
-                altair::process_slots(state, fork_slot, &self.context)?;
+                if state.slot != fork_slot {
+                    altair::process_slots(state, fork_slot, &self.context)?;
+                }
                 let mut state = bellatrix::upgrade_to_bellatrix(state, &self.context);
 
                 let fork_slot = self.context.capella_fork_epoch * self.context.slots_per_epoch;
-                bellatrix::process_slots(&mut state, fork_slot, &self.context)?;
+                if state.slot != fork_slot {
+                    bellatrix::process_slots(&mut state, fork_slot, &self.context)?;
+                }
                 let mut state = capella::upgrade_to_capella(&state, &self.context);
 
                 let fork_slot = self.context.deneb_fork_epoch * self.context.slots_per_epoch;
-                capella::process_slots(&mut state, fork_slot, &self.context)?;
+                if state.slot != fork_slot {
+                    capella::process_slots(&mut state, fork_slot, &self.context)?;
+                }
                 let mut state = deneb::upgrade_to_deneb(&state, &self.context);
 
                 if signed_block.message.slot == state.slot {
@@ -486,11 +520,15 @@ impl<
             }
             BeaconState::Bellatrix(state) => {
                 let fork_slot = self.context.capella_fork_epoch * self.context.slots_per_epoch;
-                bellatrix::process_slots(state, fork_slot, &self.context)?;
+                if state.slot != fork_slot {
+                    bellatrix::process_slots(state, fork_slot, &self.context)?;
+                }
                 let mut state = capella::upgrade_to_capella(state, &self.context);
 
                 let fork_slot = self.context.deneb_fork_epoch * self.context.slots_per_epoch;
-                capella::process_slots(&mut state, fork_slot, &self.context)?;
+                if state.slot != fork_slot {
+                    capella::process_slots(&mut state, fork_slot, &self.context)?;
+                }
                 let mut state = deneb::upgrade_to_deneb(&state, &self.context);
 
                 if signed_block.message.slot == state.slot {
@@ -508,7 +546,9 @@ impl<
             }
             BeaconState::Capella(state) => {
                 let fork_slot = self.context.deneb_fork_epoch * self.context.slots_per_epoch;
-                capella::process_slots(state, fork_slot, &self.context)?;
+                if state.slot != fork_slot {
+                    capella::process_slots(state, fork_slot, &self.context)?;
+                }
                 let mut state = deneb::upgrade_to_deneb(state, &self.context);
 
                 if signed_block.message.slot == state.slot {
-- 
2.43.0


From eee473ce7c3569a5713e0ea6173da7b37101b3b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:41 +0000
Subject: [PATCH 19/39] fix: accept only blocks of the fork their slot belongs
 to in the executor

A block of an earlier fork at a slot of a later one was applied by the rules
of the earlier fork.
---
 ethereum-consensus/src/fork.rs                |  2 +-
 .../src/state_transition/executor.rs          | 19 +++++++++++++++++++
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/ethereum-consensus/src/fork.rs b/ethereum-consensus/src/fork.rs
index 12571fc..f886d1e 100644
--- a/ethereum-consensus/src/fork.rs
+++ b/ethereum-consensus/src/fork.rs
@@ -1,7 +1,7 @@
 use std::fmt;
 
 // Identifies the fork of the protocol the associated object belongs to.
-#[derive(Debug, Clone, Copy, serde::Serialize, serde::Deserialize)]
+#[derive(Debug, Clone, Copy, PartialEq, Eq, serde::Serialize, serde::Deserialize)]
 #[serde(rename_all = "lowercase")]
 pub enum Fork {
     Phase0,
diff --git a/ethereum-consensus/src/state_transition/executor.rs b/ethereum-consensus/src/state_transition/executor.rs
index 62ee791..7d6d156 100644
--- a/ethereum-consensus/src/state_transition/executor.rs
+++ b/ethereum-consensus/src/state_transition/executor.rs
@@ -1,5 +1,6 @@
 use crate::{
     altair, bellatrix, capella, deneb, phase0,
+    primitives::Slot,
     state_transition::{Context, Result, Validation},
     types::{BeaconState, SignedBeaconBlock},
     Error, Fork,
@@ -110,6 +111,19 @@ impl<
         Self { state, context }
     }
 
+    // Each slot accepts the blocks of one fork only, whichever fork the current state belongs to.
+    fn verify_block_fork(&self, slot: Slot, block_fork: Fork) -> Result<()> {
+        let expected = self.context.fork_for(slot);
+        if expected == block_fork {
+            Ok(())
+        } else {
+            Err(Error::InvalidForkTransition {
+                source_fork: expected,
+                destination_fork: block_fork,
+            })
+        }
+    }
+
     pub fn apply_block(
         &mut self,
         signed_block: &SignedBeaconBlock<
@@ -183,6 +197,7 @@ impl<
         >,
         validation: Validation,
     ) -> Result<()> {
+        self.verify_block_fork(signed_block.message.slot, Fork::Phase0)?;
         match &mut self.state {
             BeaconState::Phase0(state) => {
                 phase0::state_transition(state, signed_block, validation, &self.context)
@@ -207,6 +222,7 @@ impl<
         >,
         validation: Validation,
     ) -> Result<()> {
+        self.verify_block_fork(signed_block.message.slot, Fork::Altair)?;
         match &mut self.state {
             BeaconState::Phase0(state) => {
                 let fork_slot = self.context.altair_fork_epoch * self.context.slots_per_epoch;
@@ -254,6 +270,7 @@ impl<
         >,
         validation: Validation,
     ) -> Result<()> {
+        self.verify_block_fork(signed_block.message.slot, Fork::Bellatrix)?;
         match &mut self.state {
             BeaconState::Phase0(state) => {
                 let fork_slot = self.context.altair_fork_epoch * self.context.slots_per_epoch;
@@ -338,6 +355,7 @@ impl<
         >,
         validation: Validation,
     ) -> Result<()> {
+        self.verify_block_fork(signed_block.message.slot, Fork::Capella)?;
         match &mut self.state {
             BeaconState::Phase0(state) => {
                 let fork_slot = self.context.altair_fork_epoch * self.context.slots_per_epoch;
@@ -447,6 +465,7 @@ impl<
         >,
         validation: Validation,
     ) -> Result<()> {
+        self.verify_block_fork(signed_block.message.slot, Fork::Deneb)?;
         match &mut self.state {
             BeaconState::Phase0(state) => {
                 let fork_slot = self.context.altair_fork_epoch * self.context.slots_per_epoch;
-- 
2.43.0


From 7f84d43be20e2f44f2c2e33662be09e57ed577f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:32 +0000
Subject: [PATCH 20/39] fix: start an electra genesis with the receipts index
 unset

---
 ethereum-consensus/src/electra/genesis.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ethereum-consensus/src/electra/genesis.rs b/ethereum-consensus/src/electra/genesis.rs
index 4a07578..4897795 100644
--- a/ethereum-consensus/src/electra/genesis.rs
+++ b/ethereum-consensus/src/electra/genesis.rs
@@ -1,5 +1,6 @@
 use crate::{
     electra::{
+        constants::UNSET_DEPOSIT_RECEIPTS_START_INDEX,
         get_next_sync_committee, increase_balance, process_deposit, BeaconBlockBody,
         BeaconBlockHeader, BeaconState, Deposit, DepositData, Eth1Data, ExecutionPayloadHeader,
         Fork, DEPOSIT_DATA_LIST_BOUND,
@@ -108,6 +109,7 @@ pub fn initialize_beacon_state_from_eth1<
         latest_block_header,
         randao_mixes,
         latest_execution_payload_header: execution_payload_header,
+        deposit_receipts_start_index: UNSET_DEPOSIT_RECEIPTS_START_INDEX,
         ..Default::default()
     };
 
-- 
2.43.0


From aa35f7b480bd403acb2c7266afdae899227c62c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:17 +0000
Subject: [PATCH 21/39] fix: give the hoodi network its genesis time and clock

---
 ethereum-consensus/src/clock.rs                    | 8 ++++++++
 ethereum-consensus/src/state_transition/context.rs | 2 ++
 2 files changed, 10 insertions(+)

diff --git a/ethereum-consensus/src/clock.rs b/ethereum-consensus/src/clock.rs
index fbe2d76..b110ff5 100644
--- a/ethereum-consensus/src/clock.rs
+++ b/ethereum-consensus/src/clock.rs
@@ -13,6 +13,7 @@ pub const MAINNET_GENESIS_TIME: u64 = 1606824023;
 pub const SEPOLIA_GENESIS_TIME: u64 = 1655733600;
 pub const GOERLI_GENESIS_TIME: u64 = 1616508000;
 pub const HOLESKY_GENESIS_TIME: u64 = 1695902400;
+pub const HOODI_GENESIS_TIME: u64 = 1742213400;
 
 pub fn duration_since_unix_epoch() -> Duration {
     SystemTime::now().duration_since(UNIX_EPOCH).unwrap_or_default()
@@ -134,6 +135,13 @@ pub fn for_holesky() -> Clock<SystemTimeProvider> {
     from_system_time(genesis_time, seconds_per_slot, slots_per_epoch)
 }
 
+pub fn for_hoodi() -> Clock<SystemTimeProvider> {
+    let genesis_time = HOODI_GENESIS_TIME;
+    let seconds_per_slot = configs::hoodi::SECONDS_PER_SLOT;
+    let slots_per_epoch = presets::mainnet::SLOTS_PER_EPOCH;
+    from_system_time(genesis_time, seconds_per_slot, slots_per_epoch)
+}
+
 impl<T: TimeProvider + Send + Sync> Clock<T> {
     pub fn new(
         genesis_time: u64,
diff --git a/ethereum-consensus/src/state_transition/context.rs b/ethereum-consensus/src/state_transition/context.rs
index f3b2e9b..bb35756 100644
--- a/ethereum-consensus/src/state_transition/context.rs
+++ b/ethereum-consensus/src/state_transition/context.rs
@@ -475,6 +475,7 @@ impl Context {
             Network::Sepolia => Ok(crate::clock::SEPOLIA_GENESIS_TIME),
             Network::Goerli => Ok(crate::clock::GOERLI_GENESIS_TIME),
             Network::Holesky => Ok(crate::clock::HOLESKY_GENESIS_TIME),
+            Network::Hoodi => Ok(crate::clock::HOODI_GENESIS_TIME),
             name => Err(Error::UnknownGenesisTime(name.to_string())),
         }
     }
@@ -485,6 +486,7 @@ impl Context {
             Network::Sepolia => Some(clock::for_sepolia()),
             Network::Goerli => Some(clock::for_goerli()),
             Network::Holesky => Some(clock::for_holesky()),
+            Network::Hoodi => Some(clock::for_hoodi()),
             _ => None,
         }
     }
-- 
2.43.0


From 449d066c430062793ac4691e832b64115ca89716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:17 +0000
Subject: [PATCH 22/39] fix: parse the text form of a custom network back to it

---
 ethereum-consensus/src/networks.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ethereum-consensus/src/networks.rs b/ethereum-consensus/src/networks.rs
index 73e0fe9..e73a6d1 100644
--- a/ethereum-consensus/src/networks.rs
+++ b/ethereum-consensus/src/networks.rs
@@ -46,7 +46,11 @@ impl From<String> for Network {
             "goerli" => Self::Goerli,
             "holesky" => Self::Holesky,
             "hoodi" => Self::Hoodi,
-            _ => Self::Custom(value),
+            // the text form of a custom network wraps its configuration directory
+            text => match text.strip_prefix("custom (").and_then(|t| t.strip_suffix("/config.yaml)")) {
+                Some(config_dir) => Self::Custom(config_dir.to_string()),
+                None => Self::Custom(value),
+            },
         }
     }
 }
-- 
2.43.0


From e2c22c6886277ebbaf3c5e70bcfab88f80bc9715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:51 +0000
Subject: [PATCH 23/39] fix: reject a sized frame that claims more bytes than
 follow its header

---
 ethereum-consensus/src/bin/ec/blobs/framing.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ethereum-consensus/src/bin/ec/blobs/framing.rs b/ethereum-consensus/src/bin/ec/blobs/framing.rs
index a5813ad..d45717b 100644
--- a/ethereum-consensus/src/bin/ec/blobs/framing.rs
+++ b/ethereum-consensus/src/bin/ec/blobs/framing.rs
@@ -37,7 +37,7 @@ pub fn payload_from_sized(stream: &[u8]) -> Result<&[u8], Error> {
         return Err(Error::UnsupportedSizedFramingVersion)
     }
     let size = u32::from_be_bytes(header[1..5].try_into().expect("correct size bytes")) as usize;
-    if size >= stream.len() {
+    if size > payload.len() {
         return Err(Error::InvalidPayloadSize)
     }
 
-- 
2.43.0


From aa7d74a6ef29c4b968783396a356fa8585df0ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:51 +0000
Subject: [PATCH 24/39] fix: start another blob for the bits that remain after
 a full one

---
 ethereum-consensus/src/bin/ec/blobs/encode.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ethereum-consensus/src/bin/ec/blobs/encode.rs b/ethereum-consensus/src/bin/ec/blobs/encode.rs
index b56ca21..c9b0ace 100644
--- a/ethereum-consensus/src/bin/ec/blobs/encode.rs
+++ b/ethereum-consensus/src/bin/ec/blobs/encode.rs
@@ -47,6 +47,11 @@ pub fn pack_into_blobs(buffer: &[u8]) -> Result<Vec<Blob>, Error> {
 
     let remainder = chunks.remainder();
     if !remainder.is_empty() {
+        if blob_buffer.len() == BYTES_PER_BLOB {
+            let blob = Blob::try_from(blob_buffer.as_ref()).expect("is the right size");
+            blobs.push(blob);
+            blob_buffer.clear();
+        }
         let mut field_element = field_element_from_bits(remainder)?;
         blob_buffer.append(&mut field_element);
     }
-- 
2.43.0


From a346e40ff1b2159097157af8bde8fe8d2568fba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:51 +0000
Subject: [PATCH 25/39] fix: unpack from blobs only the bytes their field
 elements hold

---
 ethereum-consensus/src/bin/ec/blobs/decode.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ethereum-consensus/src/bin/ec/blobs/decode.rs b/ethereum-consensus/src/bin/ec/blobs/decode.rs
index 1514808..4a3c8e8 100644
--- a/ethereum-consensus/src/bin/ec/blobs/decode.rs
+++ b/ethereum-consensus/src/bin/ec/blobs/decode.rs
@@ -6,9 +6,12 @@ use bitvec::prelude::*;
 use std::io::{Read, Write};
 
 const BITS_PER_SERIALIZED_FIELD_ELEMENT: usize = 8 * BYTES_PER_FIELD_ELEMENT;
+// Number of bytes of data a blob holds
+const DATA_BYTES_PER_BLOB: usize =
+    BYTES_PER_BLOB / BYTES_PER_FIELD_ELEMENT * BITS_PER_FIELD_ELEMENT / 8;
 
 pub fn unpack_from_blobs(blobs: &[Blob]) -> Result<Vec<u8>, Error> {
-    let mut stream = vec![0u8; blobs.len() * BYTES_PER_BLOB];
+    let mut stream = vec![0u8; blobs.len() * DATA_BYTES_PER_BLOB];
     let stream_bits = stream.view_bits_mut::<Msb0>();
 
     let mut i = 0;
-- 
2.43.0


From 0ba1a3a8753fec7d5d3636d811c2e91b3e2fdee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:23 +0000
Subject: [PATCH 26/39] fix: write the public key of a keystore without a
 prefix, as EIP-2335 does

---
 ethereum-consensus/src/bin/ec/validator/keystores.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/ethereum-consensus/src/bin/ec/validator/keystores.rs b/ethereum-consensus/src/bin/ec/validator/keystores.rs
index 20a7f95..6a77887 100644
--- a/ethereum-consensus/src/bin/ec/validator/keystores.rs
+++ b/ethereum-consensus/src/bin/ec/validator/keystores.rs
@@ -21,6 +21,15 @@ where
     s.collect_str(&encoding)
 }
 
+// NOTE: EIP-2335 has no prefix on hex-encoded data
+fn public_key_as_hex<S>(public_key: &BlsPublicKey, s: S) -> Result<S::Ok, S::Error>
+where
+    S: Serializer,
+{
+    let data: &[u8] = public_key.as_ref();
+    as_hex(data, s)
+}
+
 fn empty_string<S, D: AsRef<[u8]>>(_data: D, s: S) -> Result<S::Ok, S::Error>
 where
     S: Serializer,
@@ -182,6 +191,7 @@ impl Crypto {
 pub struct Keystore {
     crypto: Crypto,
     #[serde(rename = "pubkey")]
+    #[serde(serialize_with = "public_key_as_hex")]
     public_key: BlsPublicKey,
     path: Path,
     uuid: Uuid,
-- 
2.43.0


From ae474b95bea3fca11c461d4e7c3fba8f657f06a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:12 +0000
Subject: [PATCH 27/39] fix: count the whole block in the cipher of keystores,
 as AES-128-CTR does

---
 ethereum-consensus/src/bin/ec/validator/keystores.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ethereum-consensus/src/bin/ec/validator/keystores.rs b/ethereum-consensus/src/bin/ec/validator/keystores.rs
index 6a77887..752ca74 100644
--- a/ethereum-consensus/src/bin/ec/validator/keystores.rs
+++ b/ethereum-consensus/src/bin/ec/validator/keystores.rs
@@ -54,7 +54,7 @@ const KDF_FN: &str = "scrypt";
 const SCRYPT_DKLEN: usize = 32;
 
 const CIPHER_FN: &str = "aes-128-ctr";
-type CtrCipher = ctr::Ctr64BE<aes::Aes128>;
+type CtrCipher = ctr::Ctr128BE<aes::Aes128>;
 const AES_SIZE: usize = 16;
 
 const CHECKSUM_FN: &str = "sha256";
-- 
2.43.0


From 77a1d30b9daeb4e44c3009bc875635d595e6545d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:41 +0000
Subject: [PATCH 28/39] fix: keep the whole base path of an endpoint given
 without a trailing slash

---
 beacon-api-client/src/api_client.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/beacon-api-client/src/api_client.rs b/beacon-api-client/src/api_client.rs
index c0ed9d5..3c18027 100644
--- a/beacon-api-client/src/api_client.rs
+++ b/beacon-api-client/src/api_client.rs
@@ -83,7 +83,13 @@ pub struct Client<C> {
 
 impl<C: ClientTypes> Client<C> {
     pub fn new_with_client<U: Into<Url>>(client: reqwest::Client, endpoint: U) -> Self {
-        Self { http: client, endpoint: endpoint.into(), _phantom: std::marker::PhantomData }
+        let mut endpoint = endpoint.into();
+        // NOTE: `Url::join` replaces the last segment of a path without a trailing slash
+        if !endpoint.path().ends_with('/') {
+            let path = format!("{}/", endpoint.path());
+            endpoint.set_path(&path);
+        }
+        Self { http: client, endpoint, _phantom: std::marker::PhantomData }
     }
 
     pub fn new<U: Into<Url>>(endpoint: U) -> Self {
-- 
2.43.0


From 9dbfdb86252fcf981eba06b0867b213200e92388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:41 +0000
Subject: [PATCH 29/39] fix: resolve the events and peer endpoints against the
 base path, like the others

---
 beacon-api-client/src/api_client.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beacon-api-client/src/api_client.rs b/beacon-api-client/src/api_client.rs
index 3c18027..d950238 100644
--- a/beacon-api-client/src/api_client.rs
+++ b/beacon-api-client/src/api_client.rs
@@ -615,7 +615,7 @@ impl<C: ClientTypes> Client<C> {
     /* events namespace */
     pub async fn get_events<T: Topic>(&self) -> Result<EventStream<T::Data>, Error> {
         let name = T::NAME;
-        let path = format!("/eth/v1/events?topics={name}");
+        let path = format!("eth/v1/events?topics={name}");
         let target = self.endpoint.join(&path)?.to_string();
 
         let client = EventClient::default();
@@ -652,7 +652,7 @@ impl<C: ClientTypes> Client<C> {
 
     pub async fn get_peer(&self, peer_id: PeerId) -> Result<PeerDescription, Error> {
         let result: Value<PeerDescription> =
-            self.get(&format!("/eth/v1/node/peers/{peer_id}")).await?;
+            self.get(&format!("eth/v1/node/peers/{peer_id}")).await?;
         Ok(result.data)
     }
 
-- 
2.43.0


From 325e0b9c2939c69590b6dee69c27731614a8598c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:41 +0000
Subject: [PATCH 30/39] fix: pass the indices of blob sidecars as a query list

---
 beacon-api-client/src/api_client.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/beacon-api-client/src/api_client.rs b/beacon-api-client/src/api_client.rs
index d950238..9feb6f9 100644
--- a/beacon-api-client/src/api_client.rs
+++ b/beacon-api-client/src/api_client.rs
@@ -407,6 +407,7 @@ impl<C: ClientTypes> Client<C> {
         let target = self.endpoint.join(&path)?;
         let mut request = self.http.get(target);
         if !indices.is_empty() {
+            let indices = indices.iter().join(",");
             request = request.query(&[("indices", indices)]);
         }
         let response = request.send().await?;
-- 
2.43.0


From 707f0a6e0e91155b3d6cf805b27a3cd3138f3c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:41 +0000
Subject: [PATCH 31/39] fix: write the indices of a liveness request as
 strings, as the beacon APIs do

---
 beacon-api-client/src/api_client.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/beacon-api-client/src/api_client.rs b/beacon-api-client/src/api_client.rs
index 9feb6f9..6d47f48 100644
--- a/beacon-api-client/src/api_client.rs
+++ b/beacon-api-client/src/api_client.rs
@@ -873,8 +873,9 @@ impl<C: ClientTypes> Client<C> {
         epoch: Epoch,
         indices: &[ValidatorIndex],
     ) -> Result<Vec<ValidatorLiveness>, Error> {
-        let response =
-            self.http_post(&format!("eth/v1/validator/liveness/{epoch}"), indices).await?;
+        let endpoint = format!("eth/v1/validator/liveness/{epoch}");
+        let indices = indices.iter().map(|index| index.to_string()).collect::<Vec<_>>();
+        let response = self.http_post(&endpoint, &indices).await?;
         let result: ApiResult<Value<_>> = response.json().await?;
         match result {
             ApiResult::Ok(result) => Ok(result.data),
-- 
2.43.0


From 9daedb54f36c10af77f4ed9625c28f3b402042ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:41 +0000
Subject: [PATCH 32/39] fix: read the list of headers the headers endpoint
 replies with

---
 beacon-api-client/src/api_client.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/beacon-api-client/src/api_client.rs b/beacon-api-client/src/api_client.rs
index 6d47f48..d915c7f 100644
--- a/beacon-api-client/src/api_client.rs
+++ b/beacon-api-client/src/api_client.rs
@@ -282,20 +282,20 @@ impl<C: ClientTypes> Client<C> {
         }
     }
 
-    pub async fn get_beacon_header_at_head(&self) -> Result<BeaconHeaderSummary, Error> {
-        let result: Value<BeaconHeaderSummary> = self.get("eth/v1/beacon/headers").await?;
+    pub async fn get_beacon_header_at_head(&self) -> Result<Vec<BeaconHeaderSummary>, Error> {
+        let result: Value<Vec<BeaconHeaderSummary>> = self.get("eth/v1/beacon/headers").await?;
         Ok(result.data)
     }
 
     pub async fn get_beacon_header_for_slot(
         &self,
         slot: Slot,
-    ) -> Result<BeaconHeaderSummary, Error> {
+    ) -> Result<Vec<BeaconHeaderSummary>, Error> {
         let target = self.endpoint.join("eth/v1/beacon/headers")?;
         let mut request = self.http.get(target);
         request = request.query(&[("slot", slot)]);
         let response = request.send().await?;
-        let result: ApiResult<Value<BeaconHeaderSummary>> = response.json().await?;
+        let result: ApiResult<Value<Vec<BeaconHeaderSummary>>> = response.json().await?;
         match result {
             ApiResult::Ok(result) => Ok(result.data),
             ApiResult::Err(err) => Err(err.into()),
@@ -305,12 +305,12 @@ impl<C: ClientTypes> Client<C> {
     pub async fn get_beacon_header_for_parent_root(
         &self,
         parent_root: Root,
-    ) -> Result<BeaconHeaderSummary, Error> {
+    ) -> Result<Vec<BeaconHeaderSummary>, Error> {
         let target = self.endpoint.join("eth/v1/beacon/headers")?;
         let mut request = self.http.get(target);
         request = request.query(&[("parent_root", format!("{parent_root:?}"))]);
         let response = request.send().await?;
-        let result: ApiResult<Value<BeaconHeaderSummary>> = response.json().await?;
+        let result: ApiResult<Value<Vec<BeaconHeaderSummary>>> = response.json().await?;
         match result {
             ApiResult::Ok(result) => Ok(result.data),
             ApiResult::Err(err) => Err(err.into()),
-- 
2.43.0


From 4957171e2c27a8c4a8f926567d5549a2b03ab3d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:05 +0000
Subject: [PATCH 33/39] fix: read the randao mix out of the object the endpoint
 replies with

---
 beacon-api-client/src/api_client.rs | 10 +++++-----
 beacon-api-client/src/types.rs      |  9 +++++++--
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/beacon-api-client/src/api_client.rs b/beacon-api-client/src/api_client.rs
index d915c7f..4cc6032 100644
--- a/beacon-api-client/src/api_client.rs
+++ b/beacon-api-client/src/api_client.rs
@@ -5,9 +5,9 @@ use crate::{
         CommitteeFilter, CommitteeSummary, ConnectionOrientation, CoordinateWithMetadata,
         DepositContract, DepositSnapshot, FinalityCheckpoints, GenesisDetails, HealthStatus,
         NetworkIdentity, PeerDescription, PeerState, PeerSummary, ProposerDuty, PublicKeyOrIndex,
-        RootData, StateId, SubmitSignedBeaconBlock, SyncCommitteeDescriptor, SyncCommitteeDuty,
-        SyncCommitteeSummary, SyncStatus, Topic, ValidatorLiveness, ValidatorStatus,
-        ValidatorSummary, Value, VersionData, VersionedValue,
+        RandaoData, RootData, StateId, SubmitSignedBeaconBlock, SyncCommitteeDescriptor,
+        SyncCommitteeDuty, SyncCommitteeSummary, SyncStatus, Topic, ValidatorLiveness,
+        ValidatorStatus, ValidatorSummary, Value, VersionData, VersionedValue,
     },
     ApiError, Error,
 };
@@ -275,9 +275,9 @@ impl<C: ClientTypes> Client<C> {
         }
         let response = request.send().await?;
 
-        let result: ApiResult<Value<Bytes32>> = response.json().await?;
+        let result: ApiResult<Value<RandaoData>> = response.json().await?;
         match result {
-            ApiResult::Ok(result) => Ok(result.data),
+            ApiResult::Ok(result) => Ok(result.data.randao),
             ApiResult::Err(err) => Err(err.into()),
         }
     }
diff --git a/beacon-api-client/src/types.rs b/beacon-api-client/src/types.rs
index ee59120..f7b988c 100644
--- a/beacon-api-client/src/types.rs
+++ b/beacon-api-client/src/types.rs
@@ -6,8 +6,8 @@ use ethereum_consensus::{
     networking::{Enr, Multiaddr, PeerId},
     phase0::{Checkpoint, SignedBeaconBlockHeader, Validator},
     primitives::{
-        BlsPublicKey, ChainId, CommitteeIndex, Coordinate, Epoch, ExecutionAddress, Gwei, Hash32,
-        Root, Slot, ValidatorIndex, Version,
+        BlsPublicKey, Bytes32, ChainId, CommitteeIndex, Coordinate, Epoch, ExecutionAddress, Gwei,
+        Hash32, Root, Slot, ValidatorIndex, Version,
     },
     serde::try_bytes_from_hex_str,
     Fork,
@@ -105,6 +105,11 @@ impl FromStr for StateId {
     }
 }
 
+#[derive(Serialize, Deserialize)]
+pub struct RandaoData {
+    pub randao: Bytes32,
+}
+
 #[derive(Serialize, Deserialize)]
 pub struct RootData {
     pub root: Root,
-- 
2.43.0


From 2215665e8d05b0da8a487546e2648917d2b29c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:05 +0000
Subject: [PATCH 34/39] fix: read light client updates as the list of versioned
 updates the endpoint replies with

---
 beacon-api-client/src/api_client.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beacon-api-client/src/api_client.rs b/beacon-api-client/src/api_client.rs
index 4cc6032..838eb0d 100644
--- a/beacon-api-client/src/api_client.rs
+++ b/beacon-api-client/src/api_client.rs
@@ -451,9 +451,9 @@ impl<C: ClientTypes> Client<C> {
         request = request.query(&[("start_period", start), ("count", count)]);
 
         let response = request.send().await?;
-        let result: ApiResult<Value<_>> = response.json().await?;
+        let result: ApiResult<Vec<VersionedValue<_>>> = response.json().await?;
         match result {
-            ApiResult::Ok(result) => Ok(result.data),
+            ApiResult::Ok(result) => Ok(result.into_iter().map(|update| update.data).collect()),
             ApiResult::Err(err) => Err(err.into()),
         }
     }
-- 
2.43.0


From 3a01eebc414b8ffb640ee3c0f39e517bc21f3b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:32 +0000
Subject: [PATCH 35/39] fix: report replies with an error status as errors,
 whatever their body

---
 beacon-api-client/src/api_client.rs | 137 ++++++++--------------------
 1 file changed, 40 insertions(+), 97 deletions(-)

diff --git a/beacon-api-client/src/api_client.rs b/beacon-api-client/src/api_client.rs
index 838eb0d..a6b9559 100644
--- a/beacon-api-client/src/api_client.rs
+++ b/beacon-api-client/src/api_client.rs
@@ -1,7 +1,7 @@
 use crate::{
     types::{
-        ApiResult, AttestationDuty, BalanceSummary, BeaconHeaderSummary,
-        BeaconProposerRegistration, BlockId, BroadcastValidation, CommitteeDescriptor,
+        AttestationDuty, BalanceSummary, BeaconHeaderSummary, BeaconProposerRegistration, BlockId,
+        BroadcastValidation, CommitteeDescriptor,
         CommitteeFilter, CommitteeSummary, ConnectionOrientation, CoordinateWithMetadata,
         DepositContract, DepositSnapshot, FinalityCheckpoints, GenesisDetails, HealthStatus,
         NetworkIdentity, PeerDescription, PeerState, PeerSummary, ProposerDuty, PublicKeyOrIndex,
@@ -101,11 +101,8 @@ impl<C: ClientTypes> Client<C> {
         &self,
         path: &str,
     ) -> Result<T, Error> {
-        let result: ApiResult<T> = self.http_get(path).await?.json().await?;
-        match result {
-            ApiResult::Ok(result) => Ok(result),
-            ApiResult::Err(err) => Err(err.into()),
-        }
+        let response = self.http_get(path).await?;
+        api_error_or_value(response).await
     }
 
     pub async fn http_get(&self, path: &str) -> Result<reqwest::Response, Error> {
@@ -179,11 +176,8 @@ impl<C: ClientTypes> Client<C> {
         }
         let response = request.send().await?;
 
-        let result: ApiResult<Value<Vec<ValidatorSummary>>> = response.json().await?;
-        match result {
-            ApiResult::Ok(result) => Ok(result.data),
-            ApiResult::Err(err) => Err(err.into()),
-        }
+        let result: Value<Vec<ValidatorSummary>> = api_error_or_value(response).await?;
+        Ok(result.data)
     }
 
     pub async fn get_validator(
@@ -211,11 +205,8 @@ impl<C: ClientTypes> Client<C> {
         }
         let response = request.send().await?;
 
-        let result: ApiResult<Value<Vec<BalanceSummary>>> = response.json().await?;
-        match result {
-            ApiResult::Ok(result) => Ok(result.data),
-            ApiResult::Err(err) => Err(err.into()),
-        }
+        let result: Value<Vec<BalanceSummary>> = api_error_or_value(response).await?;
+        Ok(result.data)
     }
 
     pub async fn get_all_committees(&self, id: StateId) -> Result<Vec<CommitteeSummary>, Error> {
@@ -240,11 +231,8 @@ impl<C: ClientTypes> Client<C> {
             request = request.query(&[("slot", slot)]);
         }
         let response = request.send().await?;
-        let result: ApiResult<Value<Vec<CommitteeSummary>>> = response.json().await?;
-        match result {
-            ApiResult::Ok(result) => Ok(result.data),
-            ApiResult::Err(err) => Err(err.into()),
-        }
+        let result: Value<Vec<CommitteeSummary>> = api_error_or_value(response).await?;
+        Ok(result.data)
     }
 
     pub async fn get_sync_committees(
@@ -259,11 +247,8 @@ impl<C: ClientTypes> Client<C> {
             request = request.query(&[("epoch", epoch)]);
         }
         let response = request.send().await?;
-        let result: ApiResult<Value<SyncCommitteeSummary>> = response.json().await?;
-        match result {
-            ApiResult::Ok(result) => Ok(result.data),
-            ApiResult::Err(err) => Err(err.into()),
-        }
+        let result: Value<SyncCommitteeSummary> = api_error_or_value(response).await?;
+        Ok(result.data)
     }
 
     pub async fn get_randao(&self, id: StateId, epoch: Option<Epoch>) -> Result<Bytes32, Error> {
@@ -275,11 +260,8 @@ impl<C: ClientTypes> Client<C> {
         }
         let response = request.send().await?;
 
-        let result: ApiResult<Value<RandaoData>> = response.json().await?;
-        match result {
-            ApiResult::Ok(result) => Ok(result.data.randao),
-            ApiResult::Err(err) => Err(err.into()),
-        }
+        let result: Value<RandaoData> = api_error_or_value(response).await?;
+        Ok(result.data.randao)
     }
 
     pub async fn get_beacon_header_at_head(&self) -> Result<Vec<BeaconHeaderSummary>, Error> {
@@ -295,11 +277,8 @@ impl<C: ClientTypes> Client<C> {
         let mut request = self.http.get(target);
         request = request.query(&[("slot", slot)]);
         let response = request.send().await?;
-        let result: ApiResult<Value<Vec<BeaconHeaderSummary>>> = response.json().await?;
-        match result {
-            ApiResult::Ok(result) => Ok(result.data),
-            ApiResult::Err(err) => Err(err.into()),
-        }
+        let result: Value<Vec<BeaconHeaderSummary>> = api_error_or_value(response).await?;
+        Ok(result.data)
     }
 
     pub async fn get_beacon_header_for_parent_root(
@@ -310,11 +289,8 @@ impl<C: ClientTypes> Client<C> {
         let mut request = self.http.get(target);
         request = request.query(&[("parent_root", format!("{parent_root:?}"))]);
         let response = request.send().await?;
-        let result: ApiResult<Value<Vec<BeaconHeaderSummary>>> = response.json().await?;
-        match result {
-            ApiResult::Ok(result) => Ok(result.data),
-            ApiResult::Err(err) => Err(err.into()),
-        }
+        let result: Value<Vec<BeaconHeaderSummary>> = api_error_or_value(response).await?;
+        Ok(result.data)
     }
 
     pub async fn get_beacon_header(&self, id: BlockId) -> Result<BeaconHeaderSummary, Error> {
@@ -411,11 +387,8 @@ impl<C: ClientTypes> Client<C> {
             request = request.query(&[("indices", indices)]);
         }
         let response = request.send().await?;
-        let result: ApiResult<Value<_>> = response.json().await?;
-        match result {
-            ApiResult::Ok(result) => Ok(result.data),
-            ApiResult::Err(err) => Err(err.into()),
-        }
+        let result: Value<_> = api_error_or_value(response).await?;
+        Ok(result.data)
     }
 
     pub async fn get_deposit_snapshot(&self) -> Result<DepositSnapshot, Error> {
@@ -451,11 +424,8 @@ impl<C: ClientTypes> Client<C> {
         request = request.query(&[("start_period", start), ("count", count)]);
 
         let response = request.send().await?;
-        let result: ApiResult<Vec<VersionedValue<_>>> = response.json().await?;
-        match result {
-            ApiResult::Ok(result) => Ok(result.into_iter().map(|update| update.data).collect()),
-            ApiResult::Err(err) => Err(err.into()),
-        }
+        let result: Vec<VersionedValue<_>> = api_error_or_value(response).await?;
+        Ok(result.into_iter().map(|update| update.data).collect())
     }
 
     pub async fn get_light_client_finality_update(
@@ -487,11 +457,8 @@ impl<C: ClientTypes> Client<C> {
             request = request.query(&[("committee_index", committee_index)]);
         }
         let response = request.send().await?;
-        let result: ApiResult<Value<Vec<C::Attestation>>> = response.json().await?;
-        match result {
-            ApiResult::Ok(result) => Ok(result.data),
-            ApiResult::Err(err) => Err(err.into()),
-        }
+        let result: Value<Vec<C::Attestation>> = api_error_or_value(response).await?;
+        Ok(result.data)
     }
 
     pub async fn post_attestations(&self, attestations: &[C::Attestation]) -> Result<(), Error> {
@@ -575,11 +542,8 @@ impl<C: ClientTypes> Client<C> {
         }
 
         let response = request.send().await?;
-        let result: ApiResult<Value<_>> = response.json().await?;
-        match result {
-            ApiResult::Ok(result) => Ok(result.data),
-            ApiResult::Err(err) => Err(err.into()),
-        }
+        let result: Value<_> = api_error_or_value(response).await?;
+        Ok(result.data)
     }
 
     /* config namespace */
@@ -644,11 +608,8 @@ impl<C: ClientTypes> Client<C> {
             request = request.query(&[("direction", connection_orientations.iter().join(","))]);
         }
         let response = request.send().await?;
-        let result: ApiResult<Value<Vec<PeerDescription>>> = response.json().await?;
-        match result {
-            ApiResult::Ok(result) => Ok(result.data),
-            ApiResult::Err(err) => Err(err.into()),
-        }
+        let result: Value<Vec<PeerDescription>> = api_error_or_value(response).await?;
+        Ok(result.data)
     }
 
     pub async fn get_peer(&self, peer_id: PeerId) -> Result<PeerDescription, Error> {
@@ -744,11 +705,8 @@ impl<C: ClientTypes> Client<C> {
             request = request.query(&[("graffiti", format!("{graffiti:?}"))]);
         }
         let response = request.send().await?;
-        let result: ApiResult<VersionedValue<C::BeaconBlock>> = response.json().await?;
-        match result {
-            ApiResult::Ok(result) => Ok(result.data),
-            ApiResult::Err(err) => Err(err.into()),
-        }
+        let result: VersionedValue<C::BeaconBlock> = api_error_or_value(response).await?;
+        Ok(result.data)
     }
 
     pub async fn get_blinded_block_proposal(
@@ -765,11 +723,8 @@ impl<C: ClientTypes> Client<C> {
             request = request.query(&[("graffiti", format!("{graffiti:?}"))]);
         }
         let response = request.send().await?;
-        let result: ApiResult<VersionedValue<C::BlindedBeaconBlock>> = response.json().await?;
-        match result {
-            ApiResult::Ok(result) => Ok(result.data),
-            ApiResult::Err(err) => Err(err.into()),
-        }
+        let result: VersionedValue<C::BlindedBeaconBlock> = api_error_or_value(response).await?;
+        Ok(result.data)
     }
 
     pub async fn get_attestation_data(
@@ -782,11 +737,8 @@ impl<C: ClientTypes> Client<C> {
         request = request.query(&[("slot", slot)]);
         request = request.query(&[("committee_index", committee_index)]);
         let response = request.send().await?;
-        let result: ApiResult<Value<AttestationData>> = response.json().await?;
-        match result {
-            ApiResult::Ok(result) => Ok(result.data),
-            ApiResult::Err(err) => Err(err.into()),
-        }
+        let result: Value<AttestationData> = api_error_or_value(response).await?;
+        Ok(result.data)
     }
 
     pub async fn get_attestation_aggregate(
@@ -799,11 +751,8 @@ impl<C: ClientTypes> Client<C> {
         request = request.query(&[("attestation_data_root", format!("{attestation_data_root:?}"))]);
         request = request.query(&[("slot", slot)]);
         let response = request.send().await?;
-        let result: ApiResult<Value<C::Attestation>> = response.json().await?;
-        match result {
-            ApiResult::Ok(result) => Ok(result.data),
-            ApiResult::Err(err) => Err(err.into()),
-        }
+        let result: Value<C::Attestation> = api_error_or_value(response).await?;
+        Ok(result.data)
     }
 
     pub async fn post_aggregates_with_proofs(
@@ -839,11 +788,8 @@ impl<C: ClientTypes> Client<C> {
         request = request.query(&[("subcommittee_index", subcommittee_index)]);
         request = request.query(&[("beacon_block_root", format!("{beacon_block_root:?}"))]);
         let response = request.send().await?;
-        let result: ApiResult<Value<C::SyncCommitteeContribution>> = response.json().await?;
-        match result {
-            ApiResult::Ok(result) => Ok(result.data),
-            ApiResult::Err(err) => Err(err.into()),
-        }
+        let result: Value<C::SyncCommitteeContribution> = api_error_or_value(response).await?;
+        Ok(result.data)
     }
 
     pub async fn post_sync_committee_contributions_with_proofs(
@@ -876,10 +822,7 @@ impl<C: ClientTypes> Client<C> {
         let endpoint = format!("eth/v1/validator/liveness/{epoch}");
         let indices = indices.iter().map(|index| index.to_string()).collect::<Vec<_>>();
         let response = self.http_post(&endpoint, &indices).await?;
-        let result: ApiResult<Value<_>> = response.json().await?;
-        match result {
-            ApiResult::Ok(result) => Ok(result.data),
-            ApiResult::Err(err) => Err(err.into()),
-        }
+        let result: Value<_> = api_error_or_value(response).await?;
+        Ok(result.data)
     }
 }
-- 
2.43.0


From 7a0e959a38d78bcdf056e94afce5b885570b5cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:57 +0000
Subject: [PATCH 36/39] fix: write the signature slot of light client updates
 as a string, as the beacon APIs do

---
 ethereum-consensus/src/altair/light_client.rs  | 3 +++
 ethereum-consensus/src/capella/light_client.rs | 3 +++
 ethereum-consensus/src/deneb/light_client.rs   | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/ethereum-consensus/src/altair/light_client.rs b/ethereum-consensus/src/altair/light_client.rs
index 628e6b7..bdf5cb3 100644
--- a/ethereum-consensus/src/altair/light_client.rs
+++ b/ethereum-consensus/src/altair/light_client.rs
@@ -36,6 +36,7 @@ pub struct LightClientUpdate<const SYNC_COMMITTEE_SIZE: usize> {
     pub finalized_header: LightClientHeader,
     pub finality_branch: Vector<Bytes32, FINALIZED_ROOT_INDEX_FLOOR_LOG_2>,
     pub sync_aggregate: SyncAggregate<SYNC_COMMITTEE_SIZE>,
+    #[serde(with = "crate::serde::as_str")]
     pub signature_slot: Slot,
 }
 
@@ -45,6 +46,7 @@ pub struct LightClientFinalityUpdate<const SYNC_COMMITTEE_SIZE: usize> {
     pub finalized_header: LightClientHeader,
     pub finality_branch: Vector<Bytes32, FINALIZED_ROOT_INDEX_FLOOR_LOG_2>,
     pub sync_aggregate: SyncAggregate<SYNC_COMMITTEE_SIZE>,
+    #[serde(with = "crate::serde::as_str")]
     pub signature_slot: Slot,
 }
 
@@ -52,5 +54,6 @@ pub struct LightClientFinalityUpdate<const SYNC_COMMITTEE_SIZE: usize> {
 pub struct LightClientOptimisticUpdate<const SYNC_COMMITTEE_SIZE: usize> {
     pub attested_header: LightClientHeader,
     pub sync_aggregate: SyncAggregate<SYNC_COMMITTEE_SIZE>,
+    #[serde(with = "crate::serde::as_str")]
     pub signature_slot: Slot,
 }
diff --git a/ethereum-consensus/src/capella/light_client.rs b/ethereum-consensus/src/capella/light_client.rs
index 5596c7d..78fabc2 100644
--- a/ethereum-consensus/src/capella/light_client.rs
+++ b/ethereum-consensus/src/capella/light_client.rs
@@ -43,6 +43,7 @@ pub struct LightClientUpdate<
     pub finalized_header: LightClientHeader<BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES>,
     pub finality_branch: Vector<Bytes32, FINALIZED_ROOT_INDEX_FLOOR_LOG_2>,
     pub sync_aggregate: SyncAggregate<SYNC_COMMITTEE_SIZE>,
+    #[serde(with = "crate::serde::as_str")]
     pub signature_slot: Slot,
 }
 
@@ -56,6 +57,7 @@ pub struct LightClientFinalityUpdate<
     pub finalized_header: LightClientHeader<BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES>,
     pub finality_branch: Vector<Bytes32, FINALIZED_ROOT_INDEX_FLOOR_LOG_2>,
     pub sync_aggregate: SyncAggregate<SYNC_COMMITTEE_SIZE>,
+    #[serde(with = "crate::serde::as_str")]
     pub signature_slot: Slot,
 }
 
@@ -67,5 +69,6 @@ pub struct LightClientOptimisticUpdate<
 > {
     pub attested_header: LightClientHeader<BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES>,
     pub sync_aggregate: SyncAggregate<SYNC_COMMITTEE_SIZE>,
+    #[serde(with = "crate::serde::as_str")]
     pub signature_slot: Slot,
 }
diff --git a/ethereum-consensus/src/deneb/light_client.rs b/ethereum-consensus/src/deneb/light_client.rs
index b189a46..b598f85 100644
--- a/ethereum-consensus/src/deneb/light_client.rs
+++ b/ethereum-consensus/src/deneb/light_client.rs
@@ -41,6 +41,7 @@ pub struct LightClientUpdate<
     pub finalized_header: LightClientHeader<BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES>,
     pub finality_branch: Vector<Bytes32, FINALIZED_ROOT_INDEX_FLOOR_LOG_2>,
     pub sync_aggregate: SyncAggregate<SYNC_COMMITTEE_SIZE>,
+    #[serde(with = "crate::serde::as_str")]
     pub signature_slot: Slot,
 }
 
@@ -54,6 +55,7 @@ pub struct LightClientFinalityUpdate<
     pub finalized_header: LightClientHeader<BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES>,
     pub finality_branch: Vector<Bytes32, FINALIZED_ROOT_INDEX_FLOOR_LOG_2>,
     pub sync_aggregate: SyncAggregate<SYNC_COMMITTEE_SIZE>,
+    #[serde(with = "crate::serde::as_str")]
     pub signature_slot: Slot,
 }
 
@@ -65,5 +67,6 @@ pub struct LightClientOptimisticUpdate<
 > {
     pub attested_header: LightClientHeader<BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES>,
     pub sync_aggregate: SyncAggregate<SYNC_COMMITTEE_SIZE>,
+    #[serde(with = "crate::serde::as_str")]
     pub signature_slot: Slot,
 }
-- 
2.43.0


From fd629b541f213e8267c7784120d4e798c0c51900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:49 +0000
Subject: [PATCH 37/39] fix: name the key of an execution layer withdrawal
 request as the specification does

---
 ethereum-consensus/src/electra/beacon_state.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ethereum-consensus/src/electra/beacon_state.rs b/ethereum-consensus/src/electra/beacon_state.rs
index 94e104d..0fe791d 100644
--- a/ethereum-consensus/src/electra/beacon_state.rs
+++ b/ethereum-consensus/src/electra/beacon_state.rs
@@ -61,7 +61,7 @@ pub struct PendingConsolidation {
 )]
 pub struct ExecutionLayerWithdrawalRequest {
     pub source_address: ExecutionAddress,
-    #[serde(rename = "pubkey")]
+    #[serde(rename = "validator_pubkey")]
     pub validator_public_key: BlsPublicKey,
     #[serde(with = "crate::serde::as_str")]
     pub amount: Gwei,
-- 
2.43.0


From 1f7f3ce26d6271c169c5fed7838c5f9b319a4c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:18 +0000
Subject: [PATCH 38/39] fix: check the length of aggregation bits in electra
 get_attesting_indices

---
 ethereum-consensus/src/electra/helpers.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/ethereum-consensus/src/electra/helpers.rs b/ethereum-consensus/src/electra/helpers.rs
index 456a9d5..1082d20 100644
--- a/ethereum-consensus/src/electra/helpers.rs
+++ b/ethereum-consensus/src/electra/helpers.rs
@@ -7,6 +7,7 @@ use crate::{
         get_total_active_balance, increase_balance,
         operations::{Attestation, IndexedAttestation},
     },
+    error::{invalid_operation_error, InvalidAttestation, InvalidOperation},
     phase0::{compute_activation_exit_epoch, Validator},
     primitives::{
         Bytes32, CommitteeIndex, Epoch, Gwei, ValidatorIndex, COMPOUNDING_WITHDRAWAL_PREFIX,
@@ -302,6 +303,15 @@ pub fn get_attesting_indices<
     let mut committee_offset = 0;
     for index in committee_indices {
         let committee = get_beacon_committee(state, attestation.data.slot, index, context)?;
+        let expected_length = committee_offset + committee.len();
+        if attestation.aggregation_bits.len() < expected_length {
+            return Err(invalid_operation_error(InvalidOperation::Attestation(
+                InvalidAttestation::Bitfield {
+                    expected_length,
+                    length: attestation.aggregation_bits.len(),
+                },
+            )))
+        }
         for (i, validator_index) in committee.iter().enumerate() {
             if attestation.aggregation_bits[committee_offset + i] {
                 indices.insert(*validator_index);
-- 
2.43.0


From 0db54f398a191a385ebb14fc486460103fe0ede3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:18 +0000
Subject: [PATCH 39/39] fix: return an error for committee indices out of range
 instead of overflowing

---
 ethereum-consensus/src/phase0/helpers.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/ethereum-consensus/src/phase0/helpers.rs b/ethereum-consensus/src/phase0/helpers.rs
index c7b6ea0..1741d1c 100644
--- a/ethereum-consensus/src/phase0/helpers.rs
+++ b/ethereum-consensus/src/phase0/helpers.rs
@@ -463,16 +463,22 @@ pub fn compute_committee(
     count: usize,
     context: &Context,
 ) -> Result<Vec<ValidatorIndex>> {
+    // NOTE: `index` may come from an attestation that is yet to be validated
+    let bound = |i: usize| {
+        indices
+            .len()
+            .checked_mul(i)
+            .map(|product| product / count)
+            .filter(|bound| *bound <= indices.len())
+            .ok_or(Error::InvalidShufflingIndex { index, total: count })
+    };
+    let start = bound(index)?;
+    let end = bound(index.saturating_add(1))?;
     if cfg!(feature = "shuffling") {
         let shuffled_indices = compute_shuffled_indices(indices, seed, context);
-        let index_count = indices.len();
-        let start = index_count * index / count;
-        let end = index_count * (index + 1) / count;
         let committee = shuffled_indices[start..end].to_vec();
         Ok(committee)
     } else {
-        let start = indices.len() * index / count;
-        let end = indices.len() * (index + 1) / count;
         let mut committee = vec![0usize; end - start];
         for i in start..end {
             let index = compute_shuffled_index(i, indices.len(), seed, context)?;
@@ -800,8 +806,10 @@ pub fn get_beacon_committee<
     let committees_per_slot = get_committee_count_per_slot(state, epoch, context);
     let indices = get_active_validator_indices(state, epoch);
     let seed = get_seed(state, epoch, DomainType::BeaconAttester, context);
-    let index = (slot % context.slots_per_epoch) * committees_per_slot as u64 + index as u64;
     let count = committees_per_slot as u64 * context.slots_per_epoch;
+    let index = ((slot % context.slots_per_epoch) * committees_per_slot as u64)
+        .checked_add(index as u64)
+        .ok_or(Error::InvalidShufflingIndex { index, total: count as usize })?;
     compute_committee(&indices, &seed, index as usize, count as usize, context)
 }
 
-- 
2.43.0

