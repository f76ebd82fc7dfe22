From d0fa58ebadb8a1dc0c4c9c15d5a8f77f7d751a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:36 +0000
Subject: [PATCH 01/12] fix: reject multiproofs that are deeper than a gindex
 can express

The gindices of a proof are computed modulo 2^64 when overflow checks are off,
as they are in the guest. A node below depth 63 was then reported under the
gindex of another node, although it is not the node committed to at that gindex.
---
 ssz-multiproofs/src/multiproof.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/ssz-multiproofs/src/multiproof.rs b/ssz-multiproofs/src/multiproof.rs
index c4dbac6..f6514e8 100644
--- a/ssz-multiproofs/src/multiproof.rs
+++ b/ssz-multiproofs/src/multiproof.rs
@@ -21,6 +21,7 @@ use crate::Descriptor;
 use crate::error::{Error, Result};
 
 const CHUNK_SIZE: usize = 32; // Size of each chunk in bytes, used for SSZ serialization
+const MAX_DEPTH: usize = u64::BITS as usize - 1; // Deeper nodes have no gindex that fits into an u64
 
 /// An abstraction around a SSZ merkle multi-proof
 ///
@@ -163,7 +164,7 @@ impl Iterator for GIndexIterator<'_> {
             self.descriptor_index += 1;
             if !bit {
                 self.stack.push(self.current_gindex);
-                self.current_gindex *= 2;
+                self.current_gindex = self.current_gindex.checked_mul(2)?;
             } else {
                 let result = self.current_gindex;
                 self.current_gindex = self.stack.pop()? * 2 + 1;
@@ -199,6 +200,7 @@ fn calculate_compact_multi_merkle_root(
 ) -> Result<[u8; CHUNK_SIZE]> {
     let mut stack = Vec::with_capacity(stack_depth_hint);
     let mut node_index = 0;
+    let mut depth = 0;
     let mut hasher = Sha256::new();
     for bit in descriptor.iter() {
         if *bit {
@@ -216,6 +218,7 @@ fn calculate_compact_multi_merkle_root(
                 let right = stack.pop().unwrap();
                 let left = stack.pop().unwrap();
                 stack.pop(); // pop the internal node and replace with the hashed children
+                depth -= 1;
 
                 match left {
                     TreeNode::Leaf(node) => hasher.update(node),
@@ -231,6 +234,10 @@ fn calculate_compact_multi_merkle_root(
                 stack.push(TreeNode::Computed(hasher.finalize_fixed_reset().into()));
             }
         } else {
+            if depth == MAX_DEPTH {
+                return Err(Error::InvalidProof);
+            }
+            depth += 1;
             stack.push(TreeNode::Internal);
         }
     }
-- 
2.43.0


From 7d145a4fe3225f4395e037d5e0f82b76edcfab38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:38 +0000
Subject: [PATCH 02/12] fix: report malformed multiproofs as errors

Proofs are deserialized from untrusted data. Verifying one whose descriptor is
not a single tree, whose data is too short, or whose stack depth hint is absurd
panicked instead of returning Error::InvalidProof.
---
 ssz-multiproofs/src/multiproof.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/ssz-multiproofs/src/multiproof.rs b/ssz-multiproofs/src/multiproof.rs
index f6514e8..6d16a62 100644
--- a/ssz-multiproofs/src/multiproof.rs
+++ b/ssz-multiproofs/src/multiproof.rs
@@ -198,14 +198,16 @@ fn calculate_compact_multi_merkle_root(
     descriptor: &Descriptor,
     stack_depth_hint: usize,
 ) -> Result<[u8; CHUNK_SIZE]> {
-    let mut stack = Vec::with_capacity(stack_depth_hint);
+    // the hint is part of the untrusted proof, but the stack never outgrows the descriptor
+    let mut stack = Vec::with_capacity(stack_depth_hint.min(descriptor.len()));
     let mut node_index = 0;
     let mut depth = 0;
     let mut hasher = Sha256::new();
     for bit in descriptor.iter() {
         if *bit {
             stack.push(TreeNode::Leaf(
-                &data[node_index * CHUNK_SIZE..(node_index + 1) * CHUNK_SIZE],
+                data.get(node_index * CHUNK_SIZE..(node_index + 1) * CHUNK_SIZE)
+                    .ok_or(Error::InvalidProof)?,
             ));
             node_index += 1;
 
@@ -241,7 +243,9 @@ fn calculate_compact_multi_merkle_root(
             stack.push(TreeNode::Internal);
         }
     }
-    assert_eq!(stack.len(), 1);
+    if stack.len() != 1 {
+        return Err(Error::InvalidProof);
+    }
     Ok(match stack.pop().unwrap() {
         TreeNode::Leaf(_) => return Err(Error::UnusedLeaves),
         TreeNode::Computed(node) => node,
-- 
2.43.0


From e4eb258e1f81a2c1854f8573f87e754bc6441d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:28 +0000
Subject: [PATCH 03/12] fix: report an invalid ABI-encoded consensus state as
 an error

TryFrom<State> went through ConsensusState::new(), which asserts the validity that
the following check was meant to report, so abi_decode() of untrusted bytes panicked.
---
 core/src/abi.rs             |  6 ++----
 core/src/consensus_state.rs | 18 ++++++++++++++++++
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/core/src/abi.rs b/core/src/abi.rs
index 2c86824..4aed8f0 100644
--- a/core/src/abi.rs
+++ b/core/src/abi.rs
@@ -14,7 +14,7 @@
 
 use alloy_sol_types::SolValue;
 
-use crate::{ConsensusError, ConsensusState, ensure};
+use crate::{ConsensusError, ConsensusState};
 
 // Defines the Solidity struct layouts for public types
 alloy_sol_types::sol! {
@@ -68,9 +68,7 @@ impl TryFrom<State> for crate::ConsensusState {
     type Error = ConsensusError;
 
     fn try_from(state: State) -> Result<Self, Self::Error> {
-        let state = ConsensusState::new(state.current_justified.into(), state.finalized.into());
-        ensure!(state.is_valid(), ConsensusError::InvalidState);
-        Ok(state)
+        ConsensusState::try_new(state.current_justified.into(), state.finalized.into())
     }
 }
 
diff --git a/core/src/consensus_state.rs b/core/src/consensus_state.rs
index 057eb41..8a11d28 100644
--- a/core/src/consensus_state.rs
+++ b/core/src/consensus_state.rs
@@ -64,6 +64,24 @@ impl ConsensusState {
         state
     }
 
+    /// Constructs a new `ConsensusState` from untrusted checkpoints.
+    ///
+    /// # Errors
+    ///
+    /// Returns [`ConsensusError::InvalidState`] if the provided checkpoints form an invalid state.
+    #[inline]
+    pub fn try_new(
+        current_justified_checkpoint: Checkpoint,
+        finalized_checkpoint: Checkpoint,
+    ) -> Result<Self, ConsensusError> {
+        let state = Self {
+            current_justified_checkpoint,
+            finalized_checkpoint,
+        };
+        ensure!(state.is_valid(), ConsensusError::InvalidState);
+        Ok(state)
+    }
+
     /// Returns the finalized checkpoint of the consensus state.
     #[inline]
     pub fn finalized_checkpoint(&self) -> Checkpoint {
-- 
2.43.0


From b14ae8a17df113f1ddc3345b8a20e37e615a36ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:18 +0000
Subject: [PATCH 04/12] fix: check the exits of a state patch at epoch 0

---
 core/src/input_reader/guest_input_reader.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/core/src/input_reader/guest_input_reader.rs b/core/src/input_reader/guest_input_reader.rs
index c018b3b..59defec 100644
--- a/core/src/input_reader/guest_input_reader.rs
+++ b/core/src/input_reader/guest_input_reader.rs
@@ -285,9 +285,11 @@ impl<E: EthSpec> GuestInput<'_, E> {
                 let validator = validators
                     .get(idx)
                     .expect("patched exit_epoch for missing validator");
-                let &prev_exit_epoch = self
-                    .patches
-                    .get(&(patch_epoch - 1))
+                // there is no patch before epoch 0, and Epoch saturates
+                let &prev_exit_epoch = patch_epoch
+                    .as_u64()
+                    .checked_sub(1)
+                    .and_then(|prev_epoch| self.patches.get(&Epoch::new(prev_epoch)))
                     .and_then(|p| p.validator_exits.get(idx))
                     .unwrap_or(&validator.exit_epoch);
 
-- 
2.43.0


From 3e2fd0ed06464d873a1e101098ca7cd3bd31274b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:04 +0000
Subject: [PATCH 05/12] fix: refuse requests that no multiproof can answer
 instead of panicking or building an unverifiable proof

---
 ssz-multiproofs/src/builder.rs | 25 ++++++++++++++++++++++++-
 ssz-multiproofs/src/error.rs   |  2 +-
 2 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/ssz-multiproofs/src/builder.rs b/ssz-multiproofs/src/builder.rs
index 9847ecc..d011e73 100644
--- a/ssz-multiproofs/src/builder.rs
+++ b/ssz-multiproofs/src/builder.rs
@@ -13,7 +13,7 @@
 // limitations under the License.
 
 use crate::multiproof::{Multiproof, calculate_max_stack_depth};
-use crate::{Descriptor, Result};
+use crate::{Descriptor, Error, Result};
 #[cfg(feature = "progress-bar")]
 use indicatif::{ParallelProgressIterator, ProgressBar, ProgressStyle};
 use itertools::Itertools;
@@ -74,9 +74,13 @@ impl MultiproofBuilder {
     }
 
     /// Build the multi-proof for a given container
+    ///
+    /// This will error if there is nothing to prove, or if any of the gindices is not below the root or is
+    /// nested below another one, as no multiproof can contain both a node and one of its ancestors.
     #[tracing::instrument(skip(self, container))]
     pub fn build<T: Prove + Sync>(self, container: &T) -> Result<Multiproof<'static>> {
         let gindices = self.gindices.into_iter().collect::<Vec<_>>();
+        validate_gindices(&gindices)?;
 
         tracing::debug!("Computing proof indices and value mask");
         let (proof_indices, value_mask) = compute_proof_indices_and_value_mask(&gindices);
@@ -121,6 +125,25 @@ impl MultiproofBuilder {
     }
 }
 
+fn validate_gindices(gindices: &[GeneralizedIndex]) -> Result<()> {
+    if gindices.is_empty() {
+        return Err(Error::EmptyProof);
+    }
+    if gindices.iter().any(|&index| index < 2) {
+        return Err(Error::InvalidGeneralizedIndex);
+    }
+    // in this order, a node that has others below it is directly followed by one of them
+    let nested = gindices
+        .iter()
+        .sorted_by(|a, b| cmp_binary_lexicographically(**a, **b))
+        .tuple_windows()
+        .any(|(a, b)| b.checked_shr(a.leading_zeros().wrapping_sub(b.leading_zeros())) == Some(*a));
+    if nested {
+        return Err(Error::InvalidGeneralizedIndex);
+    }
+    Ok(())
+}
+
 fn compute_proof_indices_and_value_mask(
     indices: &[GeneralizedIndex],
 ) -> (Vec<GeneralizedIndex>, Vec<bool>) {
diff --git a/ssz-multiproofs/src/error.rs b/ssz-multiproofs/src/error.rs
index d993e0d..c315e12 100644
--- a/ssz-multiproofs/src/error.rs
+++ b/ssz-multiproofs/src/error.rs
@@ -21,7 +21,7 @@ pub enum Error {
     #[error("No gindices provided to multiproof builder")]
     EmptyProof,
 
-    #[error("Attempted to use an invalid gindex. Cannot be zero")]
+    #[error("Attempted to use an invalid gindex. Must be below the root and not nested below another")]
     InvalidGeneralizedIndex,
 
     #[error("Attempted to verify an invalid merkle multiproof")]
-- 
2.43.0


From f7edbc32f4e303d76be64834456034236d2bb0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:19 +0000
Subject: [PATCH 06/12] fix: collect attestations included up to the end of the
 epoch after their target

EIP-7045 (Deneb) dropped the limit of SLOTS_PER_EPOCH slots, so votes that
justified a checkpoint can be in any block of the following epoch.
---
 host/src/input_reader/host_input_reader.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/host/src/input_reader/host_input_reader.rs b/host/src/input_reader/host_input_reader.rs
index 059bcde..00b7038 100644
--- a/host/src/input_reader/host_input_reader.rs
+++ b/host/src/input_reader/host_input_reader.rs
@@ -299,12 +299,12 @@ async fn collect_attestations_for_links<E: EthSpec, CR: ChainReader>(
     // The attestation must be no newer than MIN_ATTESTATION_INCLUSION_DELAY slots.
     // It is safe to ignore this and assume MIN_ATTESTATION_INCLUSION_DELAY = 0
     let start_slot = min_epoch * E::slots_per_epoch();
-    // The attestation must be no older than SLOTS_PER_EPOCH slots.
-    let end_slot = (max_epoch + 1) * E::slots_per_epoch();
+    // Since EIP-7045, an attestation can be included until the end of the epoch after its target.
+    let end_slot = (max_epoch + 2) * E::slots_per_epoch();
 
     // 1. Fetch all blocks concurrently
     let block_futs =
-        (start_slot.as_u64()..=end_slot.as_u64()).map(|slot| chain_reader.get_block(slot));
+        (start_slot.as_u64()..end_slot.as_u64()).map(|slot| chain_reader.get_block(slot));
     let blocks = futures::future::try_join_all(block_futs).await?;
 
     // 2. Group attestations by link in a HashMap for efficient lookup
-- 
2.43.0


From d3b580e2703ae991b1d5c732cb33073d74730019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:28 +0000
Subject: [PATCH 07/12] fix: let PreflightInputReader::to_input be called more
 than once

It took the recorded reads out of the reader, so that the input of a second
call had no state patches.
---
 host/src/input_reader/preflight_input_reader.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/host/src/input_reader/preflight_input_reader.rs b/host/src/input_reader/preflight_input_reader.rs
index c4b600b..439e4e4 100644
--- a/host/src/input_reader/preflight_input_reader.rs
+++ b/host/src/input_reader/preflight_input_reader.rs
@@ -134,15 +134,15 @@ where
 
         info!("Building state patches");
         let mut patch_builder: BTreeMap<Epoch, StatePatchBuilder> = BTreeMap::new();
-        for (epoch, indices) in self.mix_epochs.take() {
+        for (&epoch, indices) in self.mix_epochs.borrow().iter() {
             let patch = patch_builder
                 .entry(epoch)
                 .or_insert(self.patch_builder(epoch)?);
-            for idx in indices {
+            for &idx in indices {
                 patch.randao_mix(idx)?;
             }
         }
-        for epoch in self.validator_epochs.take() {
+        for &epoch in self.validator_epochs.borrow().iter() {
             if epoch != self.trusted_checkpoint.epoch() {
                 let patch = patch_builder
                     .entry(epoch)
-- 
2.43.0


From 3a776c50b959528bcec27678039396d03a639bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:58 +0000
Subject: [PATCH 08/12] fix: accept ejections from the epochs that the trusted
 state is behind

If the first slots of the trusted epoch have no block, the trusted state is
from an earlier epoch, and the validators ejected at the end of that epoch
exit before compute_activation_exit_epoch(trusted epoch): the guest panicked
on the patch of an honest host.
---
 core/src/input_reader/guest_input_reader.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/core/src/input_reader/guest_input_reader.rs b/core/src/input_reader/guest_input_reader.rs
index 59defec..bef7f9b 100644
--- a/core/src/input_reader/guest_input_reader.rs
+++ b/core/src/input_reader/guest_input_reader.rs
@@ -254,11 +254,12 @@ impl<E: EthSpec> GuestInput<'_, E> {
             state.earliest_consolidation_epoch,
         );
 
-        // New exits (consolidations) can only occur with a new block. The earliest this can happen
-        // is during the trusted epoch after the boundary block of the epoch.
+        // New exits can occur with a new block or as ejections at the end of an epoch. If there is no
+        // block in the first slot of the trusted epoch, the trusted state is from an earlier epoch and
+        // the earliest this can happen is at the end of that epoch.
         let mut earliest_exit_epoch = std::cmp::max(
             earliest_exit_epoch,
-            spec.compute_activation_exit_epoch(trusted_checkpoint.epoch())?,
+            spec.compute_activation_exit_epoch(state.slot.epoch(E::slots_per_epoch()))?,
         );
 
         // validate the state patched
-- 
2.43.0


From 8b431c165e1d698145763f8dc10c8275d28c9e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:41 +0000
Subject: [PATCH 09/12] fix: check the exits of all state patches together

The exits of a patch had to be after those of the previous one. As voluntary
exits and consolidations have separate queues, a later patch can add an exit
before those of an earlier patch, and the guest panicked on the input of an
honest host. Sharing one churn budget also no longer grants a patch the
churn of its first epoch on top of what the patches before used.
---
 core/src/input_reader/guest_input_reader.rs | 44 +++++++++++----------
 1 file changed, 23 insertions(+), 21 deletions(-)

diff --git a/core/src/input_reader/guest_input_reader.rs b/core/src/input_reader/guest_input_reader.rs
index bef7f9b..f5a3b99 100644
--- a/core/src/input_reader/guest_input_reader.rs
+++ b/core/src/input_reader/guest_input_reader.rs
@@ -29,7 +29,6 @@ use crate::{
 };
 use alloy_primitives::B256;
 use beacon_types::{Attestation, ChainSpec, EthSpec, Fork};
-use itertools::Itertools;
 use safe_arith::{ArithError, SafeArith};
 use serde::{Deserialize, Serialize};
 use serde_with::serde_as;
@@ -262,7 +261,8 @@ impl<E: EthSpec> GuestInput<'_, E> {
             spec.compute_activation_exit_epoch(state.slot.epoch(E::slots_per_epoch()))?,
         );
 
-        // validate the state patched
+        // collect the exits that are new in any of the state patches
+        let mut new_exits = Vec::new();
         for (&patch_epoch, patch) in &self.patches {
             debug!("Validating state patch: {}", patch_epoch);
 
@@ -270,17 +270,7 @@ impl<E: EthSpec> GuestInput<'_, E> {
             // Therefore, no new epochs from earlier times must be patched.
             assert!(patch_epoch >= trusted_checkpoint.epoch());
 
-            // even at the earliest_exit_epoch additional exits can happen
-            // we could subtract state.exit_balance_to_consume and
-            // state.consolidation_balance_to_consume to make this more exact
-            let mut exit_balance_to_consume = churn;
-
-            // validate the patched exit epochs, this needs to be sorted by epoch
-            for (idx, &exit_epoch) in patch
-                .validator_exits
-                .iter()
-                .sorted_unstable_by_key(|v| v.1.as_u64())
-            {
+            for (idx, &exit_epoch) in &patch.validator_exits {
                 trace!("Validator {idx} exiting at: {exit_epoch}");
 
                 let validator = validators
@@ -302,17 +292,29 @@ impl<E: EthSpec> GuestInput<'_, E> {
                 // exit_epoch must only change once
                 assert_eq!(prev_exit_epoch, spec.far_future_epoch);
 
-                // exit epoch must be in the future
-                assert!(exit_epoch >= earliest_exit_epoch);
-                exit_balance_to_consume += (exit_epoch - earliest_exit_epoch).as_u64() * churn;
-                earliest_exit_epoch = exit_epoch;
-
-                // churn limit must be respected
-                assert!(exit_balance_to_consume >= validator.effective_balance);
-                exit_balance_to_consume -= validator.effective_balance;
+                new_exits.push((exit_epoch, validator.effective_balance));
             }
         }
 
+        // even at the earliest_exit_epoch additional exits can happen
+        // we could subtract state.exit_balance_to_consume and
+        // state.consolidation_balance_to_consume to make this more exact
+        let mut exit_balance_to_consume = churn;
+
+        // Validate the patched exit epochs, this needs to be sorted by epoch. Exits and consolidations
+        // have separate queues, so a later patch can add an exit that is before those of an earlier one.
+        new_exits.sort_unstable_by_key(|(exit_epoch, _)| exit_epoch.as_u64());
+        for (exit_epoch, effective_balance) in new_exits {
+            // exit epoch must be in the future
+            assert!(exit_epoch >= earliest_exit_epoch);
+            exit_balance_to_consume += (exit_epoch - earliest_exit_epoch).as_u64() * churn;
+            earliest_exit_epoch = exit_epoch;
+
+            // churn limit must be respected
+            assert!(exit_balance_to_consume >= effective_balance);
+            exit_balance_to_consume -= effective_balance;
+        }
+
         Ok(())
     }
 }
-- 
2.43.0


From ebad450db9f99a1c833565b29b0b7505652f52e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:01 +0000
Subject: [PATCH 10/12] fix: never leave a partially written state behind

When the process died or the disk filled up while a state was being written,
the truncated file was taken for the state from then on: reading it failed
forever (or gave another state), and it could not be saved again.
---
 host/src/state_provider/file_provider.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/host/src/state_provider/file_provider.rs b/host/src/state_provider/file_provider.rs
index aa96b27..ecae2db 100644
--- a/host/src/state_provider/file_provider.rs
+++ b/host/src/state_provider/file_provider.rs
@@ -48,7 +48,10 @@ impl<E: EthSpec> FileProvider<E> {
             file.display()
         );
         debug!("Saving beacon state at slot {slot} in epoch: {epoch}");
-        fs::write(&file, ssz_rs::serialize(state)?)?;
+        // only a completely written file gets the final name
+        let tmp_file = file.with_extension("ssz.tmp");
+        fs::write(&tmp_file, ssz_rs::serialize(state)?)?;
+        fs::rename(&tmp_file, &file)?;
         Ok(())
     }
 
-- 
2.43.0


From c2594dc53d4d2e23b427edbfcd246912f5fd1a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:21 +0000
Subject: [PATCH 11/12] fix: do not wait forever for a header when the calling
 task has used up its budget

---
 host/src/input_reader/host_input_reader.rs      |  8 +++++---
 host/src/input_reader/preflight_input_reader.rs | 10 ++++++----
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/host/src/input_reader/host_input_reader.rs b/host/src/input_reader/host_input_reader.rs
index 00b7038..a377251 100644
--- a/host/src/input_reader/host_input_reader.rs
+++ b/host/src/input_reader/host_input_reader.rs
@@ -216,9 +216,11 @@ impl<E: EthSpec, P: StateProvider, CR: ChainReader> InputReader for HostInputRea
     }
 
     fn slot_for_block(&self, block_root: &Root) -> Result<u64, Self::Error> {
-        let block_header =
-            futures::executor::block_on(self.chain_reader.get_block_header(*block_root))?
-                .ok_or(HostReaderError::BlockMissing)?;
+        // without `unconstrained`, this never ends if the calling task has used up its budget
+        let block_header = futures::executor::block_on(tokio::task::unconstrained(
+            self.chain_reader.get_block_header(*block_root),
+        ))?
+        .ok_or(HostReaderError::BlockMissing)?;
         Ok(block_header.message.slot)
     }
 }
diff --git a/host/src/input_reader/preflight_input_reader.rs b/host/src/input_reader/preflight_input_reader.rs
index 439e4e4..febf87d 100644
--- a/host/src/input_reader/preflight_input_reader.rs
+++ b/host/src/input_reader/preflight_input_reader.rs
@@ -160,10 +160,12 @@ where
             .borrow()
             .iter()
             .map(|root| {
-                let block_header =
-                    futures::executor::block_on(self.chain_reader.get_block_header(*root))?
-                        .ok_or(anyhow::anyhow!("Block not found for root {}", root))?
-                        .message;
+                // without `unconstrained`, this never ends if the calling task has used up its budget
+                let block_header = futures::executor::block_on(tokio::task::unconstrained(
+                    self.chain_reader.get_block_header(*root),
+                ))?
+                .ok_or(anyhow::anyhow!("Block not found for root {}", root))?
+                .message;
 
                 let proof = MultiproofBuilder::new()
                     .with_path::<BeaconBlockHeader>(&["slot".into()])
-- 
2.43.0


From 475704fc30ac2ba5efd3c756d0b69ee42e1fb8f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:15 +0000
Subject: [PATCH 12/12] fix: do not report success if the generated positions
 were only written in part

---
 host/src/bin/gen_gindices.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/host/src/bin/gen_gindices.rs b/host/src/bin/gen_gindices.rs
index 03d6280..d0d440a 100644
--- a/host/src/bin/gen_gindices.rs
+++ b/host/src/bin/gen_gindices.rs
@@ -66,7 +66,7 @@ fn main() {
     let formatted = prettyplease::unparse(&syntax_tree);
     let formatted = format!("{PREAMBLE}\n{formatted}");
 
-    let _ = f.write(&formatted.into_bytes()).unwrap();
+    f.write_all(&formatted.into_bytes()).unwrap();
 }
 
 fn gen_guest_gindices_impl(
-- 
2.43.0

