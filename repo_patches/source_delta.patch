From 3a6c9bf19f245ebb8bbecfcf277182ebc8cf65ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:33 +0000
Subject: [PATCH 01/61] fix: checking or assembling a block no longer changes
 the previous header

pre_check() and process_upgrade_params() applied the vote to the previous
header's upgrade state in place, so a second check of the same block, or a
second block on the same parent, saw a different state.
---
 src/data/bookkeeping/block.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/data/bookkeeping/block.rs b/src/data/bookkeeping/block.rs
index 692859d..dd67679 100644
--- a/src/data/bookkeeping/block.rs
+++ b/src/data/bookkeeping/block.rs
@@ -232,7 +232,7 @@ impl Block {
 
     /// Constructs a new valid block with an empty payset and an unset seed.
     // TODO document panics or work around unwraps
-    pub fn new(prev: &mut BlockHeader) -> Block {
+    pub fn new(prev: &BlockHeader) -> Block {
         let (upgrade_vote, upgrade_state) = process_upgrade_params(prev).unwrap();
 
         let params = &config::CONSENSUS.0[&upgrade_state.current_protocol];
@@ -353,7 +353,7 @@ impl BlockHeader {
     ///
     /// # Errors
     // TODO document possible errors
-    pub fn pre_check(&self, prev: &mut BlockHeader) -> Result<(), InvalidBlock> {
+    pub fn pre_check(&self, prev: &BlockHeader) -> Result<(), InvalidBlock> {
         // check protocol
         let params = &config::CONSENSUS.0[&self.upgrade_state.current_protocol];
 
@@ -374,6 +374,7 @@ impl BlockHeader {
         // check upgrade state
         let next_upgrade_state = prev
             .upgrade_state
+            .clone()
             .apply_upgrade_vote(round, &self.upgrade_vote)?;
         if next_upgrade_state != self.upgrade_state {
             return Err(InvalidBlock::WrongUpgradeState);
@@ -702,9 +703,8 @@ impl UpgradeState {
 }
 
 /// Determines our upgrade vote, applies it, and returns the generated `UpgradeVote` and the new `UpgradeState`.
-// TODO should `prev` be mut, ref, or mut ref
 pub fn process_upgrade_params(
-    prev: &mut BlockHeader,
+    prev: &BlockHeader,
 ) -> Result<(UpgradeVote, UpgradeState), InvalidBlock> {
     // Find parameters for current protocol; panic if not supported
     let prev_params = &config::CONSENSUS.0[&prev.upgrade_state.current_protocol];
@@ -731,6 +731,7 @@ pub fn process_upgrade_params(
 
     let upgrade_state = prev
         .upgrade_state
+        .clone()
         .apply_upgrade_vote(round, &upgrade_vote)?;
     /*if err != nil {
         err = fmt.Errorf("constructed invalid upgrade vote %v for round %v in state %v: %v", upgradeVote, round, prev.UpgradeState, err)
-- 
2.43.0


From 8776c5ddc94e7d51b405d24827cadb66892c3760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:33 +0000
Subject: [PATCH 02/61] fix: upgrade proposals are accepted when none is
 pending, and only then

The absence of a pending proposal is None, not the current protocol; and a
node with nothing to propose must not vote for the default version.
---
 src/data/bookkeeping/block.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/data/bookkeeping/block.rs b/src/data/bookkeeping/block.rs
index dd67679..a2794cc 100644
--- a/src/data/bookkeeping/block.rs
+++ b/src/data/bookkeeping/block.rs
@@ -631,7 +631,7 @@ impl UpgradeState {
 
         // Apply proposal of upgrade to new protocol
         if vote.upgrade_propose != self.current_protocol {
-            if self.next_protocol != Some(self.current_protocol) {
+            if self.next_protocol.is_some() {
                 return Err(InvalidBlock::CompetingProposal);
             }
 
@@ -665,7 +665,7 @@ impl UpgradeState {
 
         // Apply approval of existing protocol upgrade
         if vote.upgrade_approve {
-            if self.next_protocol == Some(self.current_protocol) {
+            if self.next_protocol.is_none() {
                 return Err(InvalidBlock::ApprovalNoneActive);
             }
 
@@ -710,7 +710,11 @@ pub fn process_upgrade_params(
     let prev_params = &config::CONSENSUS.0[&prev.upgrade_state.current_protocol];
 
     // Decide on the votes for protocol upgrades
-    let mut upgrade_vote = UpgradeVote::default();
+    // (proposing the protocol already in force means not proposing anything)
+    let mut upgrade_vote = UpgradeVote {
+        upgrade_propose: prev.upgrade_state.current_protocol,
+        ..UpgradeVote::default()
+    };
 
     // If there is no upgrade proposal, see if we can make one
     if prev.upgrade_state.next_protocol.is_none() {
-- 
2.43.0


From 62c6b04b4f89cedf37ac9854aa629eb15799d5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:53 +0000
Subject: [PATCH 03/61] fix: headers of an unsupported protocol are refused
 instead of panicking

---
 src/data/bookkeeping/block.rs  | 20 +++++++++++++++-----
 src/data/bookkeeping/errors.rs |  3 +++
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/data/bookkeeping/block.rs b/src/data/bookkeeping/block.rs
index a2794cc..bc91929 100644
--- a/src/data/bookkeeping/block.rs
+++ b/src/data/bookkeeping/block.rs
@@ -355,7 +355,11 @@ impl BlockHeader {
     // TODO document possible errors
     pub fn pre_check(&self, prev: &BlockHeader) -> Result<(), InvalidBlock> {
         // check protocol
-        let params = &config::CONSENSUS.0[&self.upgrade_state.current_protocol];
+        let version = self.upgrade_state.current_protocol;
+        let params = match config::CONSENSUS.0.get(&version) {
+            Some(params) => params,
+            None => return Err(InvalidBlock::UnsupportedProtocol(version)),
+        };
 
         // check round
         let round = basics::Round(prev.round.0 + 1);
@@ -432,20 +436,23 @@ impl BlockHeader {
     /// If no upgrade is scheduled, return the current protocol.
     pub fn next_version_info(&self) -> (Option<protocol::ConsensusVersion>, basics::Round, bool) {
         // TODO handle supported check with enum (maybe introduce `Unsupported` enum variant
-        //_, supported = config.Consensus[ver]
         if self.round >= self.upgrade_state.next_protocol_vote_before
             && self.round < self.upgrade_state.next_protocol_switch_on
         {
             (
                 self.upgrade_state.next_protocol,
                 self.upgrade_state.next_protocol_switch_on,
-                true,
+                self.upgrade_state
+                    .next_protocol
+                    .map_or(false, |version| config::CONSENSUS.0.contains_key(&version)),
             )
         } else {
             (
                 Some(self.upgrade_state.current_protocol),
                 basics::Round(self.round.0 + 1),
-                true,
+                config::CONSENSUS
+                    .0
+                    .contains_key(&self.upgrade_state.current_protocol),
             )
         }
     }
@@ -627,7 +634,10 @@ impl UpgradeState {
         vote: &UpgradeVote,
     ) -> Result<UpgradeState, InvalidBlock> {
         // Locate the config parameters for current protocol
-        let params = &config::CONSENSUS.0[&self.current_protocol];
+        let params = match config::CONSENSUS.0.get(&self.current_protocol) {
+            Some(params) => params,
+            None => return Err(InvalidBlock::UnsupportedProtocol(self.current_protocol)),
+        };
 
         // Apply proposal of upgrade to new protocol
         if vote.upgrade_propose != self.current_protocol {
diff --git a/src/data/bookkeeping/errors.rs b/src/data/bookkeeping/errors.rs
index 7fc2aef..75ef6a7 100644
--- a/src/data/bookkeeping/errors.rs
+++ b/src/data/bookkeeping/errors.rs
@@ -5,6 +5,7 @@ use thiserror::Error;
 
 use crate::crypto::CryptoHash;
 use crate::data::basics;
+use crate::protocol::ConsensusVersion;
 
 #[derive(Debug, PartialEq, Eq, Error)]
 pub enum InvalidBlock {
@@ -16,6 +17,8 @@ pub enum InvalidBlock {
         last_valid: basics::Round,
     },
 
+    #[error("protocol {0} is not supported")]
+    UnsupportedProtocol(ConsensusVersion),
     #[error("block is for round {0}, expected round {1}")]
     WrongRound(basics::Round, basics::Round),
     #[error("block is following block with hash {0}, expected prev to be {1}")]
-- 
2.43.0


From 5458043235ef01a51df03cff23f3b3324da44f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:06 +0000
Subject: [PATCH 04/61] fix: timestamps near the end of the range no longer
 overflow the successor check

---
 src/data/bookkeeping/block.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/data/bookkeeping/block.rs b/src/data/bookkeeping/block.rs
index bc91929..f2f7b2a 100644
--- a/src/data/bookkeeping/block.rs
+++ b/src/data/bookkeeping/block.rs
@@ -244,7 +244,7 @@ impl Block {
         if prev.timestamp > 0 {
             if timestamp < prev.timestamp {
                 timestamp = prev.timestamp;
-            } else if timestamp > prev.timestamp + params.max_timestamp_increment {
+            } else if timestamp - prev.timestamp > params.max_timestamp_increment {
                 timestamp = prev.timestamp + params.max_timestamp_increment;
             }
         }
@@ -394,7 +394,7 @@ impl BlockHeader {
                     self.timestamp,
                     prev.timestamp,
                 ));
-            } else if self.timestamp > prev.timestamp + params.max_timestamp_increment {
+            } else if self.timestamp - prev.timestamp > params.max_timestamp_increment {
                 return Err(InvalidBlock::BadLateTimestamp(
                     self.timestamp,
                     prev.timestamp,
-- 
2.43.0


From ac001c019dada20e22a4da4dc38219f8c1ea40cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:06 +0000
Subject: [PATCH 05/61] fix: a block's digest covers its upgrade state

Two headers that differ only in the protocol in force, or in the pending
upgrade, had the same digest.
---
 src/data/bookkeeping/block.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/data/bookkeeping/block.rs b/src/data/bookkeeping/block.rs
index f2f7b2a..e4b5adc 100644
--- a/src/data/bookkeeping/block.rs
+++ b/src/data/bookkeeping/block.rs
@@ -96,7 +96,6 @@ pub struct BlockHeader {
     /// Once a block proposer determines its UpgradeVote, then UpdateState
     /// is updated deterministically based on the previous UpdateState and
     /// the new block's UpgradeVote.
-    #[serde(skip)]
     pub upgrade_state: UpgradeState,
     pub upgrade_vote: UpgradeVote,
 
@@ -155,7 +154,7 @@ pub struct UpgradeVote {
 /// strictly speaking, computable from the history of all UpgradeVotes
 /// but we keep it in the block for explicitness and convenience
 /// (instead of materializing it separately, like balances).
-#[derive(Clone, Default, PartialEq, Eq)]
+#[derive(Clone, Default, PartialEq, Eq, Serialize, Deserialize)]
 pub struct UpgradeState {
     pub current_protocol: protocol::ConsensusVersion,
     pub next_protocol: Option<protocol::ConsensusVersion>,
-- 
2.43.0


From 86e3651c9bac835ba8c2d7f8bfd6cb7786539d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:17 +0000
Subject: [PATCH 06/61] fix: the reward rate spends what the pool holds beyond
 its reserve, not the sum of both

---
 src/data/bookkeeping/block.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data/bookkeeping/block.rs b/src/data/bookkeeping/block.rs
index e4b5adc..cf150fb 100644
--- a/src/data/bookkeeping/block.rs
+++ b/src/data/bookkeeping/block.rs
@@ -574,7 +574,7 @@ impl RewardsState {
             }
 
             // it is time to refresh the rewards rate
-            let new_rate = match incentive_pool_balance.0.checked_add(max_spent_over) {
+            let new_rate = match incentive_pool_balance.0.checked_sub(max_spent_over) {
                 Some(n) => n,
                 None => {
                     error!(
-- 
2.43.0


From 544408f07c3a57e10c5622cbb4077fe3a9af82a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:17 +0000
Subject: [PATCH 07/61] fix: large online balances no longer overflow their
 normalized balance

---
 src/data/basics/user_balance.rs | 36 ++++-----------------------------
 1 file changed, 4 insertions(+), 32 deletions(-)

diff --git a/src/data/basics/user_balance.rs b/src/data/basics/user_balance.rs
index 26ae790..71cd681 100644
--- a/src/data/basics/user_balance.rs
+++ b/src/data/basics/user_balance.rs
@@ -497,42 +497,14 @@ impl AccountData {
 
         // If this account had one RewardUnit of microAlgos in round 0,
         // it would have per_reward_unit microAlgos at the account's current rewards level.
-        let per_reward_unit = self.rewards_base + proto.reward_unit;
+        let per_reward_unit = self.rewards_base as u128 + proto.reward_unit as u128;
 
         // To normalize, we compute, mathematically,
         // `u.MicroAlgos / perRewardUnit * proto.RewardUnit`, as
         // `(u.MicroAlgos * proto.RewardUnit) / perRewardUnit`.
-        //norm, overflowed = Muldiv(self.micro_algos.to_u64(), proto.reward_unit, per_reward_unit)?
-        let norm = self.micro_algos.to_u64().checked_mul(proto.reward_unit);
-
-        // Mathematically should be impossible to overflow because `per_reward_unit >= proto.reward_unit`,
-        // as long as `self.reward_base` isn't huge enough to cause overflow.
-        if norm.is_none() {
-            // TODO use logger
-            panic!(
-                "overflow computing normalized balance {} * {} / ({} + {})",
-                self.micro_algos.to_u64(),
-                proto.reward_unit,
-                self.rewards_base,
-                proto.reward_unit
-            );
-        }
-
-        match norm.unwrap().checked_div(per_reward_unit) {
-            // Mathematically should be impossible to overflow because `per_reward_unit >= proto.reward_unit`,
-            // as long as `self.reward_base` isn't huge enough to cause overflow.
-            None => {
-                // TODO use logger
-                panic!(
-                    "overflow computing normalized balance {} * {} / ({} + {})",
-                    self.micro_algos.to_u64(),
-                    proto.reward_unit,
-                    self.rewards_base,
-                    proto.reward_unit
-                );
-            }
-            Some(n) => n,
-        }
+        // The product may exceed 64 bits, the result does not because `per_reward_unit >= proto.reward_unit`.
+        let norm = self.micro_algos.to_u64() as u128 * proto.reward_unit as u128;
+        (norm / per_reward_unit) as u64
     }
 }
 
-- 
2.43.0


From 1a093c1518dbf85a8924d7a63371678ae65b34bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:47 +0000
Subject: [PATCH 08/61] fix: a transaction paying exactly the minimum fee is
 well-formed

---
 src/data/transactions/transaction.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data/transactions/transaction.rs b/src/data/transactions/transaction.rs
index abdcaea..ecec9fb 100644
--- a/src/data/transactions/transaction.rs
+++ b/src/data/transactions/transaction.rs
@@ -448,7 +448,7 @@ impl Transaction {
         }
         */
 
-        if !proto.enable_fee_pooling && self.header.fee <= basics::MicroAlgos(proto.min_tx_fee) {
+        if !proto.enable_fee_pooling && self.header.fee < basics::MicroAlgos(proto.min_tx_fee) {
             if let TxFields::CompactCert(_) = &self.fields {
                 // Zero fee allowed for compact cert txn.
             } else {
-- 
2.43.0


From b418842061cc42a25e1313f4edd2d42e9b6030b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:47 +0000
Subject: [PATCH 09/61] fix: a key registration valid up to the last possible
 round no longer overflows

---
 src/data/transactions/keyreg.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data/transactions/keyreg.rs b/src/data/transactions/keyreg.rs
index ec6c419..149d7a2 100644
--- a/src/data/transactions/keyreg.rs
+++ b/src/data/transactions/keyreg.rs
@@ -45,7 +45,7 @@ impl KeyregFields {
             // going online
             if self.vote_last == basics::Round(0) {
                 return Err(InvalidTx::KeyregGoingOnlineWithZeroVoteLast);
-            } else if self.vote_first.0 > header.last_valid.0 + 1 {
+            } else if self.vote_first.0 > header.last_valid.0.saturating_add(1) {
                 return Err(InvalidTx::KeyregGoingOnlineWithFirstVoteAfterLastValid);
             }
         }
-- 
2.43.0


From c768124a219322e8241cb75e1be92ba2aaf936d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:58 +0000
Subject: [PATCH 10/61] fix: a transaction sent from the rewards pool is
 refused instead of panicking

---
 src/data/transactions/errors.rs      | 2 ++
 src/data/transactions/transaction.rs | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/data/transactions/errors.rs b/src/data/transactions/errors.rs
index e7c4234..573b266 100644
--- a/src/data/transactions/errors.rs
+++ b/src/data/transactions/errors.rs
@@ -44,6 +44,8 @@ pub enum InvalidTx {
     FeeLessThanMin(basics::MicroAlgos, basics::MicroAlgos),
     #[error("transaction sender not set (set to zero)")]
     ZeroSender,
+    #[error("transaction from incentive pool")]
+    FromRewardsPool,
 
     #[error("bad validty range of {0}-{1}")]
     BadValidityRange(basics::Round, basics::Round),
diff --git a/src/data/transactions/transaction.rs b/src/data/transactions/transaction.rs
index ecec9fb..71cbc90 100644
--- a/src/data/transactions/transaction.rs
+++ b/src/data/transactions/transaction.rs
@@ -502,7 +502,7 @@ impl Transaction {
 
         if self.header.sender == spec.rewards_pool {
             // this check is just to be safe, but reaching here seems impossible, since it requires computing a preimage of rwpool
-            unreachable!("transaction from incentive pool");
+            Err(InvalidTx::FromRewardsPool)
         } else if self.header.sender.is_zero() {
             Err(InvalidTx::ZeroSender)
         } else if !proto.support_transaction_leases && (self.header.lease != [0; 32]) {
-- 
2.43.0


From 5b82bd546b09d70ff974d3bc06b22ecd6b10c683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:59 +0000
Subject: [PATCH 11/61] fix: the fee requirement of a group counts its
 transactions, except compact certificates

---
 src/data/transactions/signed_tx.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data/transactions/signed_tx.rs b/src/data/transactions/signed_tx.rs
index 9186ff9..d0e743d 100644
--- a/src/data/transactions/signed_tx.rs
+++ b/src/data/transactions/signed_tx.rs
@@ -109,7 +109,7 @@ pub fn fee_credit(tx_group: &[SignedTx], min_fee: u64) -> Result<u64, ()> {
     let mut min_fee_count = 0;
     let mut fees_paid = 0_u64;
     for stxn in tx_group {
-        if let TxFields::CompactCert(_) = stxn.tx.fields {
+        if !matches!(stxn.tx.fields, TxFields::CompactCert(_)) {
             min_fee_count += 1;
         }
         fees_paid = fees_paid.saturating_add(stxn.tx.header.fee.0);
-- 
2.43.0


From 02d24c8a35e950af2aee9bdd5905717993f62da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:47 +0000
Subject: [PATCH 12/61] fix: transactions of a block of an unsupported protocol
 are refused instead of panicking

---
 src/data/bookkeeping/block.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/data/bookkeeping/block.rs b/src/data/bookkeeping/block.rs
index cf150fb..6f2ad0e 100644
--- a/src/data/bookkeeping/block.rs
+++ b/src/data/bookkeeping/block.rs
@@ -275,14 +275,13 @@ impl Block {
     /// Computes the commitment to the payset,
     /// using the appropriate commitment plan based on the block's protocol.
     pub fn payset_commit(&self) -> Result<CryptoHash, ()> {
-        let params = &config::CONSENSUS.0[&self.header.upgrade_state.current_protocol];
+        let version = self.header.upgrade_state.current_protocol;
+        let params = config::CONSENSUS.0.get(&version).ok_or(())?;
 
         match params.payset_commit {
             config::PaysetCommitType::Flat => Ok(self.payset.commit_flat()),
             config::PaysetCommitType::Merkle => Ok(self.tx_merkle_tree()?.root()),
-            config::PaysetCommitType::Unsupported => {
-                panic!("encountered unsuppported payset commit type")
-            }
+            config::PaysetCommitType::Unsupported => Err(()),
         }
     }
 
@@ -463,7 +462,11 @@ impl BlockHeader {
     ) -> Result<transactions::SignedTxWithAD, InvalidBlock> {
         let mut stad = stb.tx.clone();
 
-        let proto = &config::CONSENSUS.0[&self.upgrade_state.current_protocol];
+        let version = self.upgrade_state.current_protocol;
+        let proto = match config::CONSENSUS.0.get(&version) {
+            Some(params) => params,
+            None => return Err(InvalidBlock::UnsupportedProtocol(version)),
+        };
         if !proto.support_signed_tx_in_block {
             return Ok(stad);
         }
@@ -501,7 +504,11 @@ impl BlockHeader {
         let mut has_genesis_id = false;
         let mut has_genesis_hash = false;
 
-        let proto = &config::CONSENSUS.0[&self.upgrade_state.current_protocol];
+        let version = self.upgrade_state.current_protocol;
+        let proto = match config::CONSENSUS.0.get(&version) {
+            Some(params) => params,
+            None => return Err(InvalidBlock::UnsupportedProtocol(version)),
+        };
         if !proto.support_signed_tx_in_block {
             let stad = transactions::SignedTxWithAD { tx: st, ad };
             return Ok(transactions::SignedTxInBlock {
-- 
2.43.0


From 12de196ba597ea1ac54b66d17a7f881c6aaf3180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:47 +0000
Subject: [PATCH 13/61] fix: a genesis block for an unsupported protocol or
 without a rewards pool account no longer panics

---
 src/data/bookkeeping/genesis.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/data/bookkeeping/genesis.rs b/src/data/bookkeeping/genesis.rs
index 12b0b70..3e1767a 100644
--- a/src/data/bookkeeping/genesis.rs
+++ b/src/data/bookkeeping/genesis.rs
@@ -73,7 +73,7 @@ impl Genesis {
         id: &str,
         hash: crypto::CryptoHash,
     ) -> Result<Block, ()> {
-        let params = &config::CONSENSUS.0[&proto];
+        let params = config::CONSENSUS.0.get(&proto).ok_or(())?;
 
         let mut genesis_rewards_state = RewardsState {
             fee_sink: gen_bal.fee_sink,
@@ -84,7 +84,10 @@ impl Genesis {
             rewards_recalculation_round: basics::Round(params.rewards_rate_refresh_interval),
         };
 
-        let initial_rewards = gen_bal.balances[&gen_bal.rewards_pool].micro_algos.0;
+        let initial_rewards = match gen_bal.balances.get(&gen_bal.rewards_pool) {
+            Some(pool) => pool.micro_algos.0,
+            None => 0,
+        };
         if params.initial_rewards_rate_calculation {
             genesis_rewards_state.rewards_rate = initial_rewards.saturating_sub(params.min_balance)
                 / params.rewards_rate_refresh_interval;
-- 
2.43.0


From 65fa75e0ea8fe364c3945c9c2011806a247cf5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:19 +0000
Subject: [PATCH 14/61] hook: expose private ledger computations to the
 verification harness

---
 src/data/basics/teal.rs              |  9 +++++
 src/data/basics/user_balance.rs      | 39 +++++++++++++++++++++
 src/data/bookkeeping/block.rs        |  9 +++++
 src/data/bookkeeping/genesis.rs      | 52 ++++++++++++++++++++++++++++
 src/data/transactions/application.rs |  9 +++++
 src/data/transactions/transaction.rs | 41 ++++++++++++++++++++++
 6 files changed, 159 insertions(+)

diff --git a/src/data/basics/teal.rs b/src/data/basics/teal.rs
index 542a050..90b770c 100644
--- a/src/data/basics/teal.rs
+++ b/src/data/basics/teal.rs
@@ -250,3 +250,12 @@ impl TealKeyValue {
         schema
     }
 }
+
+#[cfg(verif_hooks)]
+pub mod verif_hooks {
+    use super::*;
+
+    pub fn to_teal_value(d: &ValueDelta) -> Option<TealValue> {
+        d.to_teal_value()
+    }
+}
diff --git a/src/data/basics/user_balance.rs b/src/data/basics/user_balance.rs
index 71cd681..f475a3d 100644
--- a/src/data/basics/user_balance.rs
+++ b/src/data/basics/user_balance.rs
@@ -646,3 +646,42 @@ mod tests {
         );
     }
 }
+
+#[cfg(verif_hooks)]
+pub mod verif_hooks {
+    use super::*;
+
+    pub fn new(status: Status, algos: MicroAlgos) -> AccountData {
+        AccountData::new(status, algos)
+    }
+
+    pub fn money(a: &AccountData, p: &config::ConsensusParams, level: u64) -> (MicroAlgos, MicroAlgos) {
+        a.money(p, level)
+    }
+
+    pub fn with_updated_rewards(a: &AccountData, p: &config::ConsensusParams, level: u64) -> AccountData {
+        a.with_updated_rewards(p, level)
+    }
+
+    pub fn pending_rewards(
+        a: &AccountData,
+        p: config::ConsensusParams,
+        algos: MicroAlgos,
+        base: u64,
+        level: u64,
+    ) -> MicroAlgos {
+        a.pending_rewards(p, algos, base, level)
+    }
+
+    pub fn min_balance(a: &AccountData, p: &config::ConsensusParams) -> MicroAlgos {
+        a.min_balance(p)
+    }
+
+    pub fn key_dilution(a: &AccountData, p: config::ConsensusParams) -> u64 {
+        a.key_dilution(p)
+    }
+
+    pub fn normalized_online_balance(a: &AccountData, p: config::ConsensusParams) -> u64 {
+        a.normalized_online_balance(p)
+    }
+}
diff --git a/src/data/bookkeeping/block.rs b/src/data/bookkeeping/block.rs
index 6f2ad0e..5feeb91 100644
--- a/src/data/bookkeeping/block.rs
+++ b/src/data/bookkeeping/block.rs
@@ -794,3 +794,12 @@ impl Hashable for BlockHeader {
         (protocol::BLOCK_HEADER, protocol::encode(&self))
     }
 }
+
+#[cfg(verif_hooks)]
+pub mod verif_hooks {
+    use super::*;
+
+    pub fn contents_match_header(b: &Block) -> bool {
+        b.contents_match_header()
+    }
+}
diff --git a/src/data/bookkeeping/genesis.rs b/src/data/bookkeeping/genesis.rs
index 3e1767a..28b9784 100644
--- a/src/data/bookkeeping/genesis.rs
+++ b/src/data/bookkeeping/genesis.rs
@@ -196,3 +196,55 @@ impl GenesisBalances {
         }
     }
 }
+
+#[cfg(verif_hooks)]
+pub mod verif_hooks {
+    use super::*;
+
+    pub fn create_block(
+        proto: protocol::ConsensusVersion,
+        balances: HashMap<basics::Address, basics::AccountData>,
+        fee_sink: basics::Address,
+        rewards_pool: basics::Address,
+        timestamp: u64,
+        id: &str,
+        hash: crypto::CryptoHash,
+    ) -> Result<Block, ()> {
+        let gen_bal = GenesisBalances::with_timestamp(balances, fee_sink, rewards_pool, timestamp);
+        Genesis::create_block(proto, gen_bal, id, hash)
+    }
+
+    /// The genesis configuration read from its encoding, its encoding, effective identifier and hash.
+    pub fn recode(bytes: &[u8]) -> Result<(Vec<u8>, String, crypto::CryptoHash), String> {
+        let g: Genesis = rmp_serde::from_slice(bytes).map_err(|e| e.to_string())?;
+        Ok((protocol::encode(&g), g.id(), crypto::hash_obj(&g)))
+    }
+
+    #[allow(clippy::too_many_arguments)]
+    pub fn encode_genesis(
+        schema_id: &str,
+        network: protocol::NetworkID,
+        proto: protocol::ConsensusVersion,
+        allocation: Vec<(String, String, basics::AccountData)>,
+        rewards_pool: &str,
+        fee_sink: &str,
+        timestamp: u64,
+        comment: &str,
+        dev_mode: bool,
+    ) -> Vec<u8> {
+        protocol::encode(&Genesis {
+            schema_id: schema_id.to_owned(),
+            network,
+            proto,
+            allocation: allocation
+                .into_iter()
+                .map(|(address, comment, state)| GenesisAllocation { address, comment, state })
+                .collect(),
+            rewards_pool: rewards_pool.to_owned(),
+            fee_sink: fee_sink.to_owned(),
+            timestamp,
+            comment: comment.to_owned(),
+            dev_mode,
+        })
+    }
+}
diff --git a/src/data/transactions/application.rs b/src/data/transactions/application.rs
index edd80a6..28d3fd9 100644
--- a/src/data/transactions/application.rs
+++ b/src/data/transactions/application.rs
@@ -236,3 +236,12 @@ impl AppCallFields {
         }
     }
 }
+
+#[cfg(verif_hooks)]
+pub mod verif_hooks {
+    use super::*;
+
+    pub fn address_by_index(f: &AppCallFields, i: u64, sender: basics::Address) -> Result<basics::Address, ()> {
+        f.address_by_index(i, sender)
+    }
+}
diff --git a/src/data/transactions/transaction.rs b/src/data/transactions/transaction.rs
index 71cbc90..f1aa1e9 100644
--- a/src/data/transactions/transaction.rs
+++ b/src/data/transactions/transaction.rs
@@ -612,3 +612,44 @@ impl TxContext for ExplicitTxContext {
         self.gen_hash.clone()
     }
 }
+
+#[cfg(verif_hooks)]
+pub mod verif_hooks {
+    use super::*;
+
+    pub fn alive(
+        header: &Header,
+        round: basics::Round,
+        proto: config::ConsensusParams,
+        gen_id: &str,
+        gen_hash: CryptoHash,
+    ) -> Result<(), InvalidTx> {
+        header.alive(&ExplicitTxContext {
+            explicit_round: round,
+            proto,
+            gen_id: gen_id.to_owned(),
+            gen_hash,
+        })
+    }
+
+    pub fn relevant_addrs(tx: &Transaction, spec: &SpecialAddresses) -> Vec<basics::Address> {
+        tx.relevant_addrs(spec)
+    }
+
+    pub fn match_address(tx: &Transaction, addr: &basics::Address, spec: &SpecialAddresses) -> bool {
+        tx.match_address(addr, spec)
+    }
+
+    pub fn tx_amount(tx: &Transaction) -> basics::MicroAlgos {
+        tx.tx_amount()
+    }
+
+    pub fn get_receiver_address(tx: &Transaction) -> Option<basics::Address> {
+        tx.get_receiver_address()
+    }
+
+    /// The identifier of a group of the transactions with these hashes.
+    pub fn group_id(tx_group_hashes: Vec<CryptoHash>) -> CryptoHash {
+        hash_obj(&TxGroup { tx_group_hashes })
+    }
+}
-- 
2.43.0


From 3dc70f4fe6106b474f9a2b5d8619d48781092ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:49 +0000
Subject: [PATCH 15/61] fix: addresses decode from their own encoding

---
 src/data/basics/address.rs | 40 ++++++++++++++++++++++++++++++++++++--
 1 file changed, 38 insertions(+), 2 deletions(-)

diff --git a/src/data/basics/address.rs b/src/data/basics/address.rs
index 563888c..d88d629 100644
--- a/src/data/basics/address.rs
+++ b/src/data/basics/address.rs
@@ -1,11 +1,13 @@
 // Copyright (C) 2021 Quentin M. Kniep <hello@quentinkniep.com>
 // Distributed under terms of the MIT license.
 
+use std::convert::TryInto;
 use std::fmt;
 use std::str::FromStr;
 
 use data_encoding::BASE32_NOPAD;
-use serde::{Deserialize, Serialize, Serializer};
+use serde::de::{self, SeqAccess, Visitor};
+use serde::{Deserialize, Deserializer, Serialize, Serializer};
 use sha2::{Digest, Sha512Trunc256};
 use thiserror::Error;
 
@@ -23,7 +25,7 @@ pub enum AddressError {
     InvalidChecksum,
 }
 
-#[derive(Clone, Copy, Debug, Default, Hash, PartialEq, Eq, Deserialize)]
+#[derive(Clone, Copy, Debug, Default, Hash, PartialEq, Eq)]
 pub struct Address(pub [u8; 32]);
 
 impl Serialize for Address {
@@ -32,6 +34,40 @@ impl Serialize for Address {
     }
 }
 
+impl<'de> Deserialize<'de> for Address {
+    fn deserialize<D: Deserializer<'de>>(deserializer: D) -> Result<Self, D::Error> {
+        struct AddressVisitor;
+
+        impl<'de> Visitor<'de> for AddressVisitor {
+            type Value = Address;
+
+            fn expecting(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+                f.write_str("an address of 32 bytes")
+            }
+
+            fn visit_bytes<E: de::Error>(self, v: &[u8]) -> Result<Address, E> {
+                let bytes = v
+                    .try_into()
+                    .map_err(|_| de::Error::invalid_length(v.len(), &self))?;
+                Ok(Address(bytes))
+            }
+
+            // formats without byte strings
+            fn visit_seq<A: SeqAccess<'de>>(self, mut seq: A) -> Result<Address, A::Error> {
+                let mut bytes = [0; 32];
+                for (i, b) in bytes.iter_mut().enumerate() {
+                    *b = seq
+                        .next_element()?
+                        .ok_or_else(|| de::Error::invalid_length(i, &self))?;
+                }
+                Ok(Address(bytes))
+            }
+        }
+
+        deserializer.deserialize_bytes(AddressVisitor)
+    }
+}
+
 impl Address {
     pub fn new(hash: crypto::CryptoHash) -> Self {
         Self(hash.0)
-- 
2.43.0


From 72a7c18cd8914f8f34fde51c4da0db86cdafafde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:11 +0000
Subject: [PATCH 16/61] fix: objects encode with their field names, so omitted
 fields cannot be confused and signed transactions decode

---
 src/data/transactions/signed_tx.rs | 6 +++++-
 src/protocol/codec.rs              | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/data/transactions/signed_tx.rs b/src/data/transactions/signed_tx.rs
index d0e743d..14e31ee 100644
--- a/src/data/transactions/signed_tx.rs
+++ b/src/data/transactions/signed_tx.rs
@@ -12,6 +12,10 @@ fn is_default<T: Default + PartialEq>(t: &T) -> bool {
     t == &T::default()
 }
 
+fn empty() -> crypto::Signature {
+    crypto::Signature::from([0; crypto::SIGNATURE_LENGTH])
+}
+
 fn is_empty(s: &crypto::Signature) -> bool {
     s.to_bytes() == [0; crypto::SIGNATURE_LENGTH]
 }
@@ -22,7 +26,7 @@ fn is_empty(s: &crypto::Signature) -> bool {
 // TODO: update this documentation now that there's multisig
 #[derive(Clone, PartialEq, Eq, Serialize, Deserialize)]
 pub struct SignedTx {
-    #[serde(skip_serializing_if = "is_empty")]
+    #[serde(default = "empty", skip_serializing_if = "is_empty")]
     pub sig: crypto::Signature,
     #[serde(default, skip_serializing_if = "is_default")]
     pub msig: Option<crypto::MultisigSignature>,
diff --git a/src/protocol/codec.rs b/src/protocol/codec.rs
index c8cabef..4c21f79 100644
--- a/src/protocol/codec.rs
+++ b/src/protocol/codec.rs
@@ -4,7 +4,7 @@
 use serde::{Deserialize, Serialize};
 
 pub fn encode(x: &impl Serialize) -> Vec<u8> {
-    rmp_serde::to_vec(x).unwrap()
+    rmp_serde::to_vec_named(x).unwrap()
 }
 
 pub fn decode<'a, T: Deserialize<'a>>(bytes: &'a [u8]) -> Result<T, rmp_serde::decode::Error> {
-- 
2.43.0


From a6bfcadee62cda873e3e6bd1665d9b67f6cdbe3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:52 +0000
Subject: [PATCH 17/61] fix: maps encode in the order of their keys, so equal
 objects have equal encodings

---
 src/data/basics/teal.rs         |  5 +++--
 src/data/basics/user_balance.rs |  8 +++++++-
 src/data/transactions/teal.rs   |  2 ++
 src/protocol/codec.rs           | 14 +++++++++++++-
 4 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/src/data/basics/teal.rs b/src/data/basics/teal.rs
index 90b770c..0f8f3d7 100644
--- a/src/data/basics/teal.rs
+++ b/src/data/basics/teal.rs
@@ -9,6 +9,7 @@ use serde::{Deserialize, Serialize};
 
 use crate::config;
 use crate::data::basics::MicroAlgos;
+use crate::protocol;
 
 /// Actions that may be performed when applying a delta to a TEAL key/value store.
 #[derive(Clone, Copy, PartialEq, Eq, Serialize, Deserialize)]
@@ -45,7 +46,7 @@ impl ValueDelta {
 /// Map from key/value store keys to `ValueDelta`s, indicating what should happen for that key.
 //msgp:allocbound StateDelta config.MaxStateDeltaKeys
 #[derive(Clone, Default, PartialEq, Eq, Serialize, Deserialize)]
-pub struct StateDelta(HashMap<String, ValueDelta>);
+pub struct StateDelta(#[serde(serialize_with = "protocol::ordered")] HashMap<String, ValueDelta>);
 
 /*
 /// Equal checks whether two StateDeltas are equal. We don't check for nilness
@@ -235,7 +236,7 @@ impl fmt::Display for TealValue {
 /// Represents a key/value store for use in an application's local or global state.
 //msgp:allocbound TealKeyValue EncodedMaxKeyValueEntries
 #[derive(Clone, Serialize, Deserialize)]
-pub struct TealKeyValue(HashMap<String, TealValue>);
+pub struct TealKeyValue(#[serde(serialize_with = "protocol::ordered")] HashMap<String, TealValue>);
 
 impl TealKeyValue {
     /// Calculates the number of each value type in a `TealKeyValue` and represents the result as a `StateSchema`.
diff --git a/src/data/basics/user_balance.rs b/src/data/basics/user_balance.rs
index f475a3d..1ecb646 100644
--- a/src/data/basics/user_balance.rs
+++ b/src/data/basics/user_balance.rs
@@ -151,6 +151,7 @@ pub struct AccountData {
     /// NOTE: do not modify this value in-place in existing AccountData
     /// structs; allocate a copy and modify that instead. AccountData
     /// is expected to have copy-by-value semantics.
+    #[serde(serialize_with = "protocol::ordered")]
     pub asset_params: HashMap<AssetIndex, AssetParams>,
 
     /// Set of assets that can be held by this account.
@@ -168,6 +169,7 @@ pub struct AccountData {
     /// NOTE: do not modify this value in-place in existing AccountData
     /// structs; allocate a copy and modify that instead.  AccountData
     /// is expected to have copy-by-value semantics.
+    #[serde(serialize_with = "protocol::ordered")]
     pub assets: HashMap<AssetIndex, AssetHolding>,
 
     /// Address against which signatures/multisigs/logicsigs should be checked.
@@ -177,9 +179,11 @@ pub struct AccountData {
     pub auth_addr: Address,
 
     /// Stores the local states associated with any applications that this account has opted in to.
+    #[serde(serialize_with = "protocol::ordered")]
     pub app_local_states: HashMap<AppIndex, AppLocalState>,
 
     /// Stores the global parameters and state associated with any applications that this account has created.
+    #[serde(serialize_with = "protocol::ordered")]
     pub app_params: HashMap<AppIndex, AppParams>,
 
     /// Stores the sum of all of the local `StateSchema`s and global `StateSchema`s in this account
@@ -268,7 +272,9 @@ pub type AssetIndex = u64;
 
 /// Unique integer index of an application that can be used to look up the creator of the application,
 /// whose balance record contains the `AppParams`.
-#[derive(Clone, Copy, Debug, Default, Hash, PartialEq, Eq, Serialize, Deserialize)]
+#[derive(
+    Clone, Copy, Debug, Default, Hash, PartialEq, Eq, PartialOrd, Ord, Serialize, Deserialize,
+)]
 pub struct AppIndex(pub u64);
 
 /// Represents either an `AssetIndex` or `AppIndex`, which come from the same namespace of indices as each other
diff --git a/src/data/transactions/teal.rs b/src/data/transactions/teal.rs
index 3444e8c..fbefa2b 100644
--- a/src/data/transactions/teal.rs
+++ b/src/data/transactions/teal.rs
@@ -7,6 +7,7 @@ use serde::{Deserialize, Serialize};
 
 use super::SignedTxWithAD;
 use crate::data::basics;
+use crate::protocol;
 
 /// Stores `StateDelta`s for an application's global key/value store, as well as
 /// `StateDelta`s for some number of accounts holding local state for that application
@@ -16,6 +17,7 @@ pub struct EvalDelta {
 
     /// When decoding EvalDeltas, the integer key represents an offset into
     /// `[txn.Sender, txn.Accounts[0], txn.Accounts[1], ...]`.
+    #[serde(serialize_with = "protocol::ordered")]
     pub local_deltas: HashMap<u64, basics::StateDelta>,
 
     pub logs: Vec<String>,
diff --git a/src/protocol/codec.rs b/src/protocol/codec.rs
index 4c21f79..030ce70 100644
--- a/src/protocol/codec.rs
+++ b/src/protocol/codec.rs
@@ -1,7 +1,9 @@
 // Copyright (C) 2021 Quentin M. Kniep <hello@quentinkniep.com>
 // Distributed under terms of the MIT license.
 
-use serde::{Deserialize, Serialize};
+use std::collections::{BTreeMap, HashMap};
+
+use serde::{Deserialize, Serialize, Serializer};
 
 pub fn encode(x: &impl Serialize) -> Vec<u8> {
     rmp_serde::to_vec_named(x).unwrap()
@@ -11,6 +13,16 @@ pub fn decode<'a, T: Deserialize<'a>>(bytes: &'a [u8]) -> Result<T, rmp_serde::d
     rmp_serde::decode::from_slice::<T>(bytes)
 }
 
+/// Serializes a map in the order of its keys, so that equal maps have equal encodings.
+pub fn ordered<K, V, S>(map: &HashMap<K, V>, serializer: S) -> Result<S::Ok, S::Error>
+where
+    K: Ord + Serialize,
+    V: Serialize,
+    S: Serializer,
+{
+    map.iter().collect::<BTreeMap<_, _>>().serialize(serializer)
+}
+
 fn is_default<T: Default + PartialEq>(t: &T) -> bool {
     t == &T::default()
 }
-- 
2.43.0


From 9818105cc23924a6cf15cf2de43ee852c5632048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:10 +0000
Subject: [PATCH 18/61] fix: a block with an illegally stored transaction is
 refused instead of panicking

---
 src/crypto/merklearray/merkle.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/crypto/merklearray/merkle.rs b/src/crypto/merklearray/merkle.rs
index ca72f2c..5bc536f 100644
--- a/src/crypto/merklearray/merkle.rs
+++ b/src/crypto/merklearray/merkle.rs
@@ -42,7 +42,7 @@ impl Tree {
             .0
             .par_iter()
             .map(|stib| {
-                let stad = block.header.decode_signed_tx(stib).unwrap();
+                let stad = block.header.decode_signed_tx(stib).map_err(|_| ())?;
                 let txid = stad.tx.tx.id();
                 let stib = hash_obj(stib);
 
@@ -50,9 +50,9 @@ impl Tree {
                 buf[..HASH_LEN].copy_from_slice(&txid.0 .0);
                 buf[HASH_LEN..].copy_from_slice(&stib.0);
 
-                hash(&[protocol::TX_MERKLE_LEAF.as_bytes(), &buf].concat())
+                Ok(hash(&[protocol::TX_MERKLE_LEAF.as_bytes(), &buf].concat()))
             })
-            .collect();
+            .collect::<Result<_, ()>>()?;
 
         let mut tree = Self {
             levels: vec![Layer(leaves)],
-- 
2.43.0


From 205a98973b8a2b643f61d5986ce8087cd6750bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:34 +0000
Subject: [PATCH 19/61] fix: the trie refuses elements of another length
 instead of panicking or mixing them

---
 src/crypto/merkletrie/trie.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/crypto/merkletrie/trie.rs b/src/crypto/merkletrie/trie.rs
index ff0e65e..8604cef 100644
--- a/src/crypto/merkletrie/trie.rs
+++ b/src/crypto/merkletrie/trie.rs
@@ -84,6 +84,8 @@ impl Trie {
             self.cache.set_node(id, pnode).unwrap();
             self.element_length = d.len() as u32;
             return Ok(true);
+        } else if d.len() != self.element_length as usize {
+            return Err(TrieError::ElementLengthMismatch);
         }
 
         let pnode = self.cache.get_node(self.root.unwrap())?;
-- 
2.43.0


From 8d10e9007e65b7ef399f3e632d26e62ce5f0f820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:21 +0000
Subject: [PATCH 20/61] fix: identifiers of the last batch number no longer
 overflow in signing and deletion

---
 src/crypto/ots.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/crypto/ots.rs b/src/crypto/ots.rs
index ce4002b..3045264 100644
--- a/src/crypto/ots.rs
+++ b/src/crypto/ots.rs
@@ -150,7 +150,7 @@ impl OTSSecrets {
         let _guard = self.lock.read();
 
         // Check if we already have a partial batch of subkeys.
-        if id.batch + 1 == self.first_batch
+        if id.batch.checked_add(1) == Some(self.first_batch)
             && id.offset >= self.first_offset
             && id.offset - self.first_offset < self.offsets.len() as u64
         {
@@ -201,7 +201,9 @@ impl OTSSecrets {
         // This might still trigger a false warning if we're out-of-range by just one
         // and it happens to be a batch boundary, but we don't have the batch
         // size (key dilution) parameter accessible here easily.
-        if self.first_batch == id.batch + 1 && self.first_offset == id.offset + 1 {
+        if id.batch.checked_add(1) == Some(self.first_batch)
+            && id.offset.checked_add(1) == Some(self.first_offset)
+        {
             info!("{}", msg);
         } else {
             warn!("{}", msg);
@@ -224,7 +226,7 @@ impl OTSSecrets {
         let _guard = self.lock.write().unwrap();
 
         // If we are just advancing in the same batch, simply delete some offset subkeys.
-        if current.batch + 1 == self.first_batch {
+        if current.batch.checked_add(1) == Some(self.first_batch) {
             if current.offset > self.first_offset {
                 let mut jump = current.offset - self.first_offset;
                 if jump > self.offsets.len() as u64 {
@@ -239,7 +241,7 @@ impl OTSSecrets {
         }
 
         // If we are trying to forget something earlier, there's nothing to do.
-        if current.batch + 1 < self.first_batch {
+        if current.batch < self.first_batch {
             return;
         }
 
-- 
2.43.0


From a4c1971f043104d8bae27e0c7bbdc50cf424cbdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:31 +0000
Subject: [PATCH 21/61] fix: a root key can be made from a seed

---
 src/data/account.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/data/account.rs b/src/data/account.rs
index 5d145b2..3b38b19 100644
--- a/src/data/account.rs
+++ b/src/data/account.rs
@@ -74,7 +74,11 @@ impl Root {
 
     /// Instantiate a key based on the given seed.
     fn import(seed: [u8; 32]) -> Result<Root, Error> {
-        let kp = crypto::Keypair::from_bytes(&seed).unwrap();
+        let secret = ed25519_dalek::SecretKey::from_bytes(&seed).unwrap();
+        let kp = crypto::Keypair {
+            public: (&secret).into(),
+            secret,
+        };
         let raw = protocol::encode(&kp);
 
         KEY_STORE.insert("root", raw)?;
-- 
2.43.0


From e21b488c5784b6b59f45af10d8a099595da3b05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:33 +0000
Subject: [PATCH 22/61] fix: restoring a participation key that was never saved
 is an error instead of a panic

---
 src/data/account.rs | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/src/data/account.rs b/src/data/account.rs
index 3b38b19..4c30d48 100644
--- a/src/data/account.rs
+++ b/src/data/account.rs
@@ -180,20 +180,21 @@ impl Participation {
     }
 
     pub fn restore() -> Result<Self, Error> {
-        let raw_parent = KEY_STORE.get("part-parent")?;
-        let raw_vrf = KEY_STORE.get("part-vrf")?;
-        let raw_voting = KEY_STORE.get("part-voting")?;
-        let raw_first_valid = KEY_STORE.get("part-first_valid")?;
-        let raw_last_valid = KEY_STORE.get("part-last_valid")?;
-        let raw_key_dilution = KEY_STORE.get("part-key_dilution")?;
-
-        let parent = raw_parent.unwrap().as_ref().try_into().unwrap();
-        let vrf = protocol::decode(&raw_vrf.unwrap())?;
-        let voting = protocol::decode(&raw_voting.unwrap())?;
-        let first_valid = u64::from_be_bytes(raw_first_valid.unwrap().as_ref().try_into().unwrap());
-        let last_valid = u64::from_be_bytes(raw_last_valid.unwrap().as_ref().try_into().unwrap());
-        let key_dilution =
-            u64::from_be_bytes(raw_key_dilution.unwrap().as_ref().try_into().unwrap());
+        let raw_parent = KEY_STORE.get("part-parent")?.ok_or(Error::NotFound)?;
+        let raw_vrf = KEY_STORE.get("part-vrf")?.ok_or(Error::NotFound)?;
+        let raw_voting = KEY_STORE.get("part-voting")?.ok_or(Error::NotFound)?;
+        let raw_first_valid = KEY_STORE.get("part-first_valid")?.ok_or(Error::NotFound)?;
+        let raw_last_valid = KEY_STORE.get("part-last_valid")?.ok_or(Error::NotFound)?;
+        let raw_key_dilution = KEY_STORE
+            .get("part-key_dilution")?
+            .ok_or(Error::NotFound)?;
+
+        let parent = raw_parent.as_ref().try_into().unwrap();
+        let vrf = protocol::decode(&raw_vrf)?;
+        let voting = protocol::decode(&raw_voting)?;
+        let first_valid = u64::from_be_bytes(raw_first_valid.as_ref().try_into().unwrap());
+        let last_valid = u64::from_be_bytes(raw_last_valid.as_ref().try_into().unwrap());
+        let key_dilution = u64::from_be_bytes(raw_key_dilution.as_ref().try_into().unwrap());
 
         Ok(Self {
             parent: basics::Address(parent),
-- 
2.43.0


From 41d625c777162932fdc5bd7b2160ef0c69e0fee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:36 +0000
Subject: [PATCH 23/61] fix: updating a key that is no longer the stored one
 does not mix it into the stored key

---
 src/data/account.rs | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/data/account.rs b/src/data/account.rs
index 4c30d48..e18b035 100644
--- a/src/data/account.rs
+++ b/src/data/account.rs
@@ -185,9 +185,7 @@ impl Participation {
         let raw_voting = KEY_STORE.get("part-voting")?.ok_or(Error::NotFound)?;
         let raw_first_valid = KEY_STORE.get("part-first_valid")?.ok_or(Error::NotFound)?;
         let raw_last_valid = KEY_STORE.get("part-last_valid")?.ok_or(Error::NotFound)?;
-        let raw_key_dilution = KEY_STORE
-            .get("part-key_dilution")?
-            .ok_or(Error::NotFound)?;
+        let raw_key_dilution = KEY_STORE.get("part-key_dilution")?.ok_or(Error::NotFound)?;
 
         let parent = raw_parent.as_ref().try_into().unwrap();
         let vrf = protocol::decode(&raw_vrf)?;
@@ -219,20 +217,32 @@ impl Participation {
 
         self.voting
             .delete_before(current.ots_id(key_dilution), key_dilution);
-        let voting = self.voting.snapshot();
-        let voting_enc = protocol::encode(&voting);
-        KEY_STORE.insert("part-voting", voting_enc)?;
-        KEY_STORE.flush()?;
+        if self.is_stored()? {
+            let voting = self.voting.snapshot();
+            let voting_enc = protocol::encode(&voting);
+            KEY_STORE.insert("part-voting", voting_enc)?;
+            KEY_STORE.flush()?;
+        }
         Ok(())
     }
 
     /// Writes a new parent address to the partkey database.
     pub fn persist_new_parent(&self) -> Result<(), Error> {
-        KEY_STORE.insert("part-parent", &self.parent.0[..])?;
-        KEY_STORE.flush()?;
+        if self.is_stored()? {
+            KEY_STORE.insert("part-parent", &self.parent.0[..])?;
+            KEY_STORE.flush()?;
+        }
         Ok(())
     }
 
+    /// Returns true iff the store holds this key, rather than another one saved in its place.
+    fn is_stored(&self) -> Result<bool, Error> {
+        let stored = KEY_STORE.get("part-vrf")?;
+        Ok(stored.map_or(false, |raw| {
+            raw.as_ref() == &protocol::encode(&self.vrf)[..]
+        }))
+    }
+
     /// Initializes the passed database with participation keys.
     pub fn fill_db_with_participation_keys(
         parent: basics::Address,
-- 
2.43.0


From ec4d6051a3b70a3dd0a5cf88f727ff9815cd5f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:53 +0000
Subject: [PATCH 24/61] fix: old keys are deleted also when no compact
 certificate state or signature exists

---
 src/data/account_manager.rs | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/data/account_manager.rs b/src/data/account_manager.rs
index 2bcdbe2..d010207 100644
--- a/src/data/account_manager.rs
+++ b/src/data/account_manager.rs
@@ -110,20 +110,26 @@ impl AccountManager {
             // We need a key for round r+1 for agreement.
             let mut next_round = latest_header.round + basics::Round(1);
 
-            if latest_header.compact_certs[&protocol::CompactCertType::Basic].compactcert_next_round
-                > basics::Round(0)
-            {
+            // A header without compact certificate state and an account without signatures are
+            // both at round zero.
+            let cc_next_round = latest_header
+                .compact_certs
+                .get(&protocol::CompactCertType::Basic)
+                .map_or(basics::Round(0), |cc| cc.compactcert_next_round);
+            let cc_signed = cc_sigs
+                .get(&part.parent)
+                .copied()
+                .unwrap_or(basics::Round(0));
+
+            if cc_next_round > basics::Round(0) {
                 // We need a key for the next compact cert round.
                 // This would be CompactCertNextRound+1 (+1 because compact
                 // cert code uses the next round's ephemeral key), except
                 // if we already used that key to produce a signature (as
                 // reported in ccSigs).
-                let mut next_cc = latest_header.compact_certs[&protocol::CompactCertType::Basic]
-                    .compactcert_next_round
-                    + basics::Round(1);
-                if cc_sigs.get(&part.parent).unwrap() >= &next_cc {
-                    next_cc = *cc_sigs.get(&part.parent).unwrap()
-                        + basics::Round(latest_proto.compact_cert_rounds + 1);
+                let mut next_cc = cc_next_round + basics::Round(1);
+                if cc_signed >= next_cc {
+                    next_cc = cc_signed + basics::Round(latest_proto.compact_cert_rounds + 1);
                 }
 
                 if next_cc < next_round {
-- 
2.43.0


From e9ab8707713c9c919e2991d10ea5e10c730edc2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:56 +0000
Subject: [PATCH 25/61] hook: account manager

---
 src/data/account_manager.rs | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/src/data/account_manager.rs b/src/data/account_manager.rs
index d010207..285a420 100644
--- a/src/data/account_manager.rs
+++ b/src/data/account_manager.rs
@@ -175,3 +175,35 @@ impl PartialEq for ParticipationKeyIdentity {
 }
 
 impl Eq for ParticipationKeyIdentity {}
+
+#[cfg(verif_hooks)]
+pub mod verif_hooks {
+    use super::*;
+
+    #[derive(Default)]
+    pub struct Manager(AccountManager);
+
+    impl Manager {
+        pub fn keys(&self, round: basics::Round) -> Vec<&account::Participation> {
+            self.0.keys(round)
+        }
+
+        pub fn has_live_keys(&self, from: basics::Round, to: basics::Round) -> bool {
+            self.0.has_live_keys(from, to)
+        }
+
+        pub fn add_participation(&mut self, participation: account::Participation) -> bool {
+            self.0.add_participation(participation)
+        }
+
+        pub fn delete_old_keys(
+            &mut self,
+            latest_header: bookkeeping::BlockHeader,
+            cc_sigs: HashMap<basics::Address, basics::Round>,
+            agreement_proto: config::ConsensusParams,
+        ) {
+            self.0
+                .delete_old_keys(latest_header, cc_sigs, agreement_proto)
+        }
+    }
+}
-- 
2.43.0


From b1dbfc11efcd56b938ccd0551386ff3e040cfce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:27 +0000
Subject: [PATCH 26/61] hook: multisignature operations

---
 src/crypto/multisig.rs | 67 ++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 67 insertions(+)

diff --git a/src/crypto/multisig.rs b/src/crypto/multisig.rs
index ca46aa3..14490c7 100644
--- a/src/crypto/multisig.rs
+++ b/src/crypto/multisig.rs
@@ -746,3 +746,70 @@ mod tests {
         assert_eq!(msig.verify(tx, &addr), Err(MultisigError::InvalidAddress));
     }
 }
+
+#[cfg(verif_hooks)]
+pub mod verif_hooks {
+    use super::*;
+
+    pub fn from_pks(
+        version: u8,
+        threshold: u8,
+        pks: &[PublicKey],
+    ) -> Result<MultisigAddr, MultisigError> {
+        MultisigAddr::from_pks(version, threshold, pks)
+    }
+
+    pub fn from_subsigs(
+        version: u8,
+        threshold: u8,
+        subsigs: &[MultisigSubsig],
+    ) -> Result<MultisigAddr, MultisigError> {
+        MultisigAddr::from_subsigs(version, threshold, subsigs)
+    }
+
+    pub fn from_bytes(bytes: [u8; 32]) -> MultisigAddr {
+        MultisigAddr(bytes)
+    }
+
+    pub fn bytes(addr: &MultisigAddr) -> [u8; 32] {
+        addr.0
+    }
+
+    pub fn sign(
+        addr: &MultisigAddr,
+        msg: &[u8],
+        version: u8,
+        threshold: u8,
+        pks: &[PublicKey],
+        kp: &Keypair,
+    ) -> Result<MultisigSignature, MultisigError> {
+        addr.sign(msg, version, threshold, pks, kp)
+    }
+
+    pub fn assemble(unisig: &[MultisigSignature]) -> Result<MultisigSignature, MultisigError> {
+        MultisigSignature::assemble(unisig)
+    }
+
+    pub fn add_sigs(
+        msig: &mut MultisigSignature,
+        unisigs: Vec<MultisigSignature>,
+    ) -> Result<(), MultisigError> {
+        msig.add_sigs(unisigs)
+    }
+
+    pub fn merge(
+        msig: &MultisigSignature,
+        other: &MultisigSignature,
+    ) -> Result<MultisigSignature, MultisigError> {
+        msig.merge(other)
+    }
+
+    pub fn batch_verify(
+        msig: &MultisigSignature,
+        msg: &[u8],
+        addr: &MultisigAddr,
+        batch_verifier: &mut BatchVerifier,
+    ) -> Result<bool, MultisigError> {
+        msig.batch_verify(msg, addr, batch_verifier)
+    }
+}
-- 
2.43.0


From 7dd19556a1e4125d549a80d8201896a34851e497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:11 +0000
Subject: [PATCH 27/61] fix: selection counts are computed accurately for large
 stakes

---
 src/data/committee/sortition.rs | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/src/data/committee/sortition.rs b/src/data/committee/sortition.rs
index 5e70a73..162fe5a 100644
--- a/src/data/committee/sortition.rs
+++ b/src/data/committee/sortition.rs
@@ -6,7 +6,6 @@ use num::{
     rational::BigRational,
     ToPrimitive,
 };
-use statrs::distribution::{Binomial, DiscreteCDF};
 
 use crate::crypto;
 
@@ -14,8 +13,8 @@ use crate::crypto;
 ///
 /// # Panics
 ///
-/// Should not panic for any provided inputs,
-/// as both `unwrap()`s can only panic if `max` is malformed.
+/// Panics if `expected_size` is not between zero and `total_money`.
+/// Both `unwrap()`s can only panic if `max` is malformed.
 #[must_use]
 pub fn select(
     money: u64,
@@ -39,11 +38,28 @@ pub fn select(
 }
 
 fn sortition_binomial_cdf_walk(n: u64, p: f64, ratio: f64) -> u64 {
-    let bin = Binomial::new(p, n).unwrap();
-    (0..n)
-        .into_iter()
-        .find(|&i| bin.cdf(i) >= ratio)
-        .unwrap_or(n)
+    assert!((0.0..=1.0).contains(&p), "invalid probability: {}", p);
+    if p == 1.0 {
+        return if ratio <= 0.0 { 0 } else { n };
+    }
+
+    // Sums up the probabilities P(i) themselves, going from each to the next in log space:
+    // P(0) = (1-p)^n and P(i+1) = P(i) * (n-i)/(i+1) * p/(1-p).
+    // A closed form by way of the incomplete beta function loses all precision for large stakes.
+    let mean = n as f64 * p;
+    let log_odds = p.ln() - (-p).ln_1p();
+    let mut log_prob = n as f64 * (-p).ln_1p();
+    let mut cdf = 0.0;
+    for i in 0..n {
+        let next = cdf + log_prob.exp();
+        // Beyond the mean, stop also when the sum can no longer grow.
+        if next >= ratio || (i as f64 > mean && next == cdf) {
+            return i;
+        }
+        cdf = next;
+        log_prob += ((n - i) as f64 / (i + 1) as f64).ln() + log_odds;
+    }
+    n
 }
 
 #[cfg(test)]
-- 
2.43.0


From d73183b8ae7fc1cb15fe287cb33a9e31eb1a8eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:11 +0000
Subject: [PATCH 28/61] fix: the tie-break value covers all sub-tickets of a
 credential

---
 src/data/committee/credential.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data/committee/credential.rs b/src/data/committee/credential.rs
index fe2db50..7a0f178 100644
--- a/src/data/committee/credential.rs
+++ b/src/data/committee/credential.rs
@@ -170,7 +170,7 @@ impl Credential {
         // significant disadvantage because UnauthenticatedCredential.Verify
         // wants the hash to be large but tiebreaking between proposals wants
         // the hash to be small.
-        for i in 1..self.weight {
+        for i in 1..=self.weight {
             let h: crypto::CryptoHash;
             if self.domain_separation_enabled {
                 self.hashable.as_mut().unwrap().iter = i;
-- 
2.43.0


From 9a5272ea36faf47d14377bdcf43d181f4e2e892c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:11 +0000
Subject: [PATCH 29/61] fix: the hash of a credential covers the random output
 under domain separation

---
 src/data/committee/credential.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/data/committee/credential.rs b/src/data/committee/credential.rs
index 7a0f178..7cdba15 100644
--- a/src/data/committee/credential.rs
+++ b/src/data/committee/credential.rs
@@ -2,7 +2,7 @@
 // Distributed under terms of the MIT license.
 
 use num::bigint::{BigInt, Sign};
-use serde::{Deserialize, Serialize};
+use serde::{Serialize, Serializer};
 use thiserror::Error;
 
 use super::{sortition, Membership, Selector};
@@ -46,15 +46,19 @@ pub struct Credential {
     inner: UnauthenticatedCredential,
 }
 
-#[derive(Serialize, Deserialize)]
+#[derive(Serialize)]
 struct HashableCredential {
     //_struct struct{}         `codec:",omitempty,omitemptyarray"`
-    #[serde(skip)]
+    #[serde(serialize_with = "serialize_output")]
     raw_out: crypto::VrfOutput,
     member: basics::Address,
     iter: u64,
 }
 
+fn serialize_output<S: Serializer>(out: &crypto::VrfOutput, s: S) -> Result<S::Ok, S::Error> {
+    s.serialize_bytes(&out.0)
+}
+
 impl UnauthenticatedCredential {
     /// Creates a new unauthenticated Credential given some selector.
     fn new(secrets: &crypto::VrfKeypair, sel: &impl Selector) -> Self {
-- 
2.43.0


From 3c7692ddc6ad933150e891abed1cebc59fc4213d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:11 +0000
Subject: [PATCH 30/61] fix: a VRF public key that is no curve point is an
 error instead of a panic

---
 src/crypto/vrf.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/crypto/vrf.rs b/src/crypto/vrf.rs
index aa0477e..19843e5 100644
--- a/src/crypto/vrf.rs
+++ b/src/crypto/vrf.rs
@@ -57,6 +57,10 @@ pub enum VrfError {
     #[error("The proof is invalid")]
     InvalidProof,
 
+    /// The public key is not a valid curve point.
+    #[error("The public key is invalid")]
+    InvalidPublicKey,
+
     /// Unknown error.
     #[error("Unknown error")]
     Unknown,
@@ -144,7 +148,8 @@ impl VrfPublicKey {
         let (gamma, c, s) = decoded.unwrap();
         let hash_point = hash_to_curve(self, bytes);
 
-        let u = s * constants::ED25519_BASEPOINT_POINT - c * self.to_point();
+        let pk_point = self.to_point().ok_or(VrfError::InvalidPublicKey)?;
+        let u = s * constants::ED25519_BASEPOINT_POINT - c * pk_point;
         let v = s * hash_point - c * gamma;
         let c_calculated = hash_points(&[hash_point, gamma, u, v]);
 
@@ -156,11 +161,9 @@ impl VrfPublicKey {
     }
 
     /// Converts the public key, which is a compressed point representation, to the curve point.
-    /// Panics if the public key does not correspond to a valid curve point.
-    fn to_point(&self) -> EdwardsPoint {
-        CompressedEdwardsY::from_slice(&self.0)
-            .decompress()
-            .unwrap()
+    /// Returns None if the public key does not correspond to a valid curve point.
+    fn to_point(&self) -> Option<EdwardsPoint> {
+        CompressedEdwardsY::from_slice(&self.0).decompress()
     }
 }
 
-- 
2.43.0


From bda65fa17c4277169c508c355c0dea68569a9b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:39 +0000
Subject: [PATCH 31/61] fix: VRF public keys of small order, for which anyone
 can make proofs, are refused

---
 src/crypto/vrf.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/crypto/vrf.rs b/src/crypto/vrf.rs
index 19843e5..15f65b6 100644
--- a/src/crypto/vrf.rs
+++ b/src/crypto/vrf.rs
@@ -161,9 +161,12 @@ impl VrfPublicKey {
     }
 
     /// Converts the public key, which is a compressed point representation, to the curve point.
-    /// Returns None if the public key does not correspond to a valid curve point.
+    /// Returns None if the public key does not correspond to a valid curve point,
+    /// or to one of small order, under which anyone could make proofs.
     fn to_point(&self) -> Option<EdwardsPoint> {
-        CompressedEdwardsY::from_slice(&self.0).decompress()
+        CompressedEdwardsY::from_slice(&self.0)
+            .decompress()
+            .filter(|point| !point.is_small_order())
     }
 }
 
-- 
2.43.0


From 01cdcfa6b7d5cb15d60141ab0f06e0ce42062fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:16 +0000
Subject: [PATCH 32/61] hook: committee credentials

---
 src/data/committee/credential.rs | 70 ++++++++++++++++++++++++++++++++
 1 file changed, 70 insertions(+)

diff --git a/src/data/committee/credential.rs b/src/data/committee/credential.rs
index 7cdba15..177f147 100644
--- a/src/data/committee/credential.rs
+++ b/src/data/committee/credential.rs
@@ -234,3 +234,73 @@ impl Hashable for HashableCredential {
         (protocol::CREDENTIAL, protocol::encode(&self))
     }
 }
+
+/// Gives the verification harness access to credentials.
+#[cfg(verif_hooks)]
+pub mod verif_hooks {
+    use super::*;
+    use crate::data::committee::BalanceRecord;
+
+    pub struct Claim(UnauthenticatedCredential);
+    pub struct Proven(Credential);
+
+    pub fn new(secrets: &crypto::VrfKeypair, sel: &impl Selector) -> Claim {
+        Claim(UnauthenticatedCredential::new(secrets, sel))
+    }
+
+    pub fn verify<S: Selector>(
+        claim: Claim,
+        proto: &config::ConsensusParams,
+        record: BalanceRecord,
+        selector: S,
+        total_money: basics::MicroAlgos,
+    ) -> Result<Proven, Error> {
+        let mem = Membership {
+            record,
+            selector,
+            total_money,
+        };
+        claim.0.verify(proto, &mem).map(Proven)
+    }
+
+    impl Proven {
+        pub fn weight(&self) -> u64 {
+            self.0.weight
+        }
+
+        pub fn selected(&self) -> bool {
+            self.0.selected()
+        }
+
+        pub fn hash(&self) -> crypto::CryptoHash {
+            self.0.vrf_out.clone()
+        }
+
+        pub fn lowest_output(&mut self) -> BigInt {
+            self.0.lowest_output()
+        }
+
+        pub fn lowest_output_digest(&mut self) -> crypto::CryptoHash {
+            self.0.lowest_output_digest()
+        }
+
+        pub fn lt(&mut self, other: &mut Proven) -> bool {
+            self.0.lt(&mut other.0)
+        }
+
+        pub fn equals(&self, other: &Proven) -> bool {
+            self.0 == other.0
+        }
+
+        /// The i-th sub-ticket under domain separation.
+        pub fn separated_ticket(&self, i: u64) -> Option<crypto::CryptoHash> {
+            self.0.hashable.as_ref().map(|x| {
+                crypto::hash_obj(&HashableCredential {
+                    raw_out: x.raw_out.clone(),
+                    member: x.member,
+                    iter: i,
+                })
+            })
+        }
+    }
+}
-- 
2.43.0


From 9109d1a1435614a758fd77e609f5cd363d0288a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:22 +0000
Subject: [PATCH 33/61] fix: an address text of the wrong length is an error
 instead of a panic

---
 src/data/basics/address.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data/basics/address.rs b/src/data/basics/address.rs
index d88d629..bc19bb1 100644
--- a/src/data/basics/address.rs
+++ b/src/data/basics/address.rs
@@ -121,7 +121,7 @@ impl FromStr for Address {
         };
 
         let mut short = Address([0; 32]);
-        if decoded.len() < short.0.len() {
+        if decoded.len() != short.0.len() + CHECKSUM_LEN {
             return Err(AddressError::WrongLength);
         }
 
-- 
2.43.0


From f6c288d3c980c8dc4e6c7cc721428479e4fba484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:22 +0000
Subject: [PATCH 34/61] fix: merging consensus parameters deletes linked
 versions whatever their order, with every upgrade to them

---
 src/config/consensus.rs | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/src/config/consensus.rs b/src/config/consensus.rs
index 08e3ba0..f98554c 100644
--- a/src/config/consensus.rs
+++ b/src/config/consensus.rs
@@ -521,30 +521,27 @@ impl ConsensusProtocols {
     /// Merges a configurable consensus ontop of the existing consensus protocol.
     pub fn merge(&mut self, configurable_consensus: Self) -> Self {
         let mut static_consensus = self.clone();
+        let mut deleted = Vec::new();
 
         for (version, params) in configurable_consensus.0 {
             if params.approved_upgrades.is_empty() {
                 // if we were provided with an empty ConsensusParams,
                 // delete the existing reference to this consensus version
-                for (ver, par) in &self.0 {
-                    if *ver == version {
-                        static_consensus.0.remove(ver);
-                    } else if par.approved_upgrades.contains_key(&version) {
-                        // delete upgrade to deleted version
-                        static_consensus
-                            .0
-                            .get_mut(ver)
-                            .unwrap()
-                            .approved_upgrades
-                            .remove(&version);
-                    }
-                }
+                static_consensus.0.remove(&version);
+                deleted.push(version);
             } else {
                 // need to add/update entry
                 static_consensus.0.insert(version, params);
             }
         }
 
+        // delete upgrades to deleted versions, also those just added
+        for params in static_consensus.0.values_mut() {
+            for version in &deleted {
+                params.approved_upgrades.remove(version);
+            }
+        }
+
         static_consensus
     }
 }
-- 
2.43.0


From 0b8303ccf7fcdd010ee96cb4a8c271e5cbcc0c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:22 +0000
Subject: [PATCH 35/61] fix: saving an empty consensus table removes the file

---
 src/config/consensus.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/config/consensus.rs b/src/config/consensus.rs
index f98554c..e8bdfa4 100644
--- a/src/config/consensus.rs
+++ b/src/config/consensus.rs
@@ -496,7 +496,10 @@ pub fn save_configurable_consensus(data_dir: &str, params: ConsensusProtocols) -
     if params.is_empty() {
         // We have no consensus params to write.
         // In this case, delete the existing file (if any).
-        std::fs::remove_file(&consensus_protocol_path)?;
+        return match std::fs::remove_file(&consensus_protocol_path) {
+            Err(e) if e.kind() != io::ErrorKind::NotFound => Err(e.into()),
+            _ => Ok(()),
+        };
     }
     let f = std::fs::OpenOptions::new()
         .write(true)
-- 
2.43.0


From 6c787847eab460112c4c42b1e3e0b84462f8b7fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:22 +0000
Subject: [PATCH 36/61] fix: settings absent from a configuration file keep
 their defaults

---
 src/config/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/config/mod.rs b/src/config/mod.rs
index 09e2001..d8cb03f 100644
--- a/src/config/mod.rs
+++ b/src/config/mod.rs
@@ -70,6 +70,7 @@ pub type Result<T> = std::result::Result<T, ConfigError>;
 
 /// Local holds the per-node-instance configuration settings for the protocol.
 #[derive(Clone, Serialize, Deserialize)]
+#[serde(default)]
 pub struct Local {
     /// Tracks the current version of the defaults so we can migrate old -> new
     /// This is specifically important whenever we decide to change the default value
-- 
2.43.0


From df074f06cb542f0d4d4c166d862c03df948c1139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:22 +0000
Subject: [PATCH 37/61] fix: saving a configuration writes it

---
 src/config/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/config/mod.rs b/src/config/mod.rs
index d8cb03f..09c3467 100644
--- a/src/config/mod.rs
+++ b/src/config/mod.rs
@@ -563,9 +563,10 @@ impl Local {
     }
 
     /// Saves the config to a specific filename, allowing overriding the default name.
-    // TODO actually write to file once util/codecs is implemented
+    // TODO write only the values that differ from the defaults once util/codecs is implemented
     pub fn save_to_file(&self, filename: &str) -> io::Result<()> {
-        Ok(())
+        let f = fs::File::create(filename)?;
+        Ok(serde_json::to_writer_pretty(f, self)?)
         /*return codecs.SaveNonDefaultValuesToFile(
             filename,
             cfg,
-- 
2.43.0


From a812f9573973bba5a1d1027913bfddf3f1fb5182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:22 +0000
Subject: [PATCH 38/61] fix: loading a phonebook gives its entries

---
 src/config/mod.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/config/mod.rs b/src/config/mod.rs
index 09c3467..8d8e0d7 100644
--- a/src/config/mod.rs
+++ b/src/config/mod.rs
@@ -631,18 +631,15 @@ struct PhonebookBlackWhiteList {
 /// Returns a phonebook loaded from the provided directory, if it exists.
 // NOTE: We no longer use phonebook for anything but tests, but users should be able to use it
 pub fn load_phonebook(datadir: &str) -> io::Result<Vec<String>> {
-    let entries = Vec::new();
     let path = Path::new(datadir).join(PHONEBOOK_FILENAME);
     let content = fs::read_to_string(path)?;
     //if os.IsNotExist(rootErr) {
     //	//don't return error
     //} else {
-    //phonebook := PhonebookBlackWhiteList{}
-    serde_json::from_str(&content)?;
-    //entries = phonebook.include
+    let phonebook: PhonebookBlackWhiteList = serde_json::from_str(&content)?;
 
     // get an initial list of peers
-    Ok(entries)
+    Ok(phonebook.include)
 }
 
 /// Writes the phonebook into a root/PhonebookFilename file.
-- 
2.43.0


From f75d8b1fad64b439acb84c382685957b6466f123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:22 +0000
Subject: [PATCH 39/61] fix: root key files are recognised by name

---
 src/config/keyfile.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/config/keyfile.rs b/src/config/keyfile.rs
index ca2a63e..46f6af0 100644
--- a/src/config/keyfile.rs
+++ b/src/config/keyfile.rs
@@ -33,7 +33,7 @@ pub fn matches_part_key_filename(account: &str, filename: &str) -> bool {
 
 /// Returns true iff the given filename is a valid root key filename.
 pub fn is_root_key_filename(filename: &str) -> bool {
-    let n = account_name_from_part_key_filename(filename);
+    let n = account_name_from_root_key_filename(filename);
     matches_root_key_filename(&n, filename)
 }
 
-- 
2.43.0


From 3e271f656d3eb5bc7302f868623fdda79830c7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:22 +0000
Subject: [PATCH 40/61] fix: key file names contain their suffix once

---
 src/config/keyfile.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/config/keyfile.rs b/src/config/keyfile.rs
index 46f6af0..cddb983 100644
--- a/src/config/keyfile.rs
+++ b/src/config/keyfile.rs
@@ -47,7 +47,10 @@ pub fn is_part_key_filename(filename: &str) -> bool {
 ///
 /// If filename is not a valid root key filename, this returns the filename unchanged.
 pub fn account_name_from_root_key_filename(filename: &str) -> String {
-    filename.trim_end_matches(".rootkey").to_owned()
+    filename
+        .strip_suffix(".rootkey")
+        .unwrap_or(filename)
+        .to_owned()
 }
 
 /// Returns the account name given a participation key filename.
@@ -56,7 +59,10 @@ pub fn account_name_from_root_key_filename(filename: &str) -> String {
 pub fn account_name_from_part_key_filename(filename: &str) -> String {
     if let Some((first, last)) = extract_part_valid_interval(filename) {
         let suffix = format!(".{}.{}.partkey", first.0, last.0);
-        filename.trim_end_matches(&suffix).to_owned()
+        filename
+            .strip_suffix(&suffix)
+            .unwrap_or(filename)
+            .to_owned()
     } else {
         filename.to_owned()
     }
-- 
2.43.0


From bb74f9cf24d85a1812174e9be7dafc83ce6fda6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:19 +0000
Subject: [PATCH 41/61] fix: saving under a path naming an unset variable is an
 error instead of a panic

---
 src/config/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/config/mod.rs b/src/config/mod.rs
index 8d8e0d7..3c2c9e1 100644
--- a/src/config/mod.rs
+++ b/src/config/mod.rs
@@ -559,7 +559,7 @@ impl Local {
         let configpath = Path::new(root).join(CONFIG_FILENAME);
         let configpath_str = configpath.into_os_string().into_string().unwrap();
         let expanded_path = shellexpand::env(&configpath_str);
-        self.save_to_file(&expanded_path.unwrap())
+        self.save_to_file(&expanded_path.map_err(|e| io::Error::new(io::ErrorKind::NotFound, e))?)
     }
 
     /// Saves the config to a specific filename, allowing overriding the default name.
@@ -653,7 +653,7 @@ pub fn save_phonebook_to_disk(entries: Vec<String>, root: &str) -> Result<()> {
         .create(true)
         .truncate(true)
         .mode(0o600)
-        .open(&*expanded_path.unwrap())?;
+        .open(&*expanded_path.map_err(|e| io::Error::new(io::ErrorKind::NotFound, e))?)?;
     save_phonebook(entries, &mut f)?;
     Ok(())
 }
-- 
2.43.0


From 51827446b0266eb3a4ed160a9aa827c01e0558b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:19 +0000
Subject: [PATCH 42/61] fix: the global configuration directory may exist
 already

---
 src/config/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/config/mod.rs b/src/config/mod.rs
index 3c2c9e1..712e3c6 100644
--- a/src/config/mod.rs
+++ b/src/config/mod.rs
@@ -681,7 +681,7 @@ pub fn get_global_config_file_root() -> io::Result<PathBuf> {
     if gcfr.as_os_str().is_empty() {
         *gcfr = get_default_config_file_path()?;
         // TODO use permissions 0o777
-        fs::create_dir(gcfr.clone())?;
+        fs::create_dir_all(gcfr.clone())?;
     }
     Ok(gcfr.clone())
 }
-- 
2.43.0


From 80e60011a3eb2734a7fdffa5ce78cf9b7651244a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:19 +0000
Subject: [PATCH 43/61] hook: configuration files and key file names

---
 src/config/mod.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/config/mod.rs b/src/config/mod.rs
index 712e3c6..4fb676c 100644
--- a/src/config/mod.rs
+++ b/src/config/mod.rs
@@ -707,3 +707,17 @@ pub fn get_default_config_file_path() -> io::Result<PathBuf> {
         )),
     }
 }
+
+#[cfg(verif_hooks)]
+pub mod verif_hooks {
+    use super::*;
+    pub use keyfile::*;
+
+    pub fn load_from_disk(dir: &str) -> Result<Local> {
+        Local::load_from_disk(&dir)
+    }
+
+    pub fn dns_bootstrap_array(c: &Local, network: &str) -> Vec<String> {
+        c.dns_bootsrap_array(network)
+    }
+}
-- 
2.43.0


From 751935f68fdc16dccb2e45c50cf591bf8136cd4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:53 +0000
Subject: [PATCH 44/61] fix: a missing or malformed genesis file is an error
 instead of a panic

---
 src/data/bookkeeping/genesis.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/data/bookkeeping/genesis.rs b/src/data/bookkeeping/genesis.rs
index 28b9784..bfd3fee 100644
--- a/src/data/bookkeeping/genesis.rs
+++ b/src/data/bookkeeping/genesis.rs
@@ -126,8 +126,8 @@ impl Genesis {
     // TODO update once actual JSON encoding is implemented
     fn load_from_file<P: AsRef<std::path::Path>>(genesis_file: P) -> Result<Genesis, ()> {
         // Load genesis.json
-        let file = std::fs::File::open(&genesis_file).unwrap();
-        let genesis: Genesis = rmp_serde::decode::from_read(file).unwrap();
+        let file = std::fs::File::open(&genesis_file).map_err(|_| ())?;
+        let genesis: Genesis = rmp_serde::decode::from_read(file).map_err(|_| ())?;
         Ok(genesis)
     }
 
-- 
2.43.0


From f74a1b03b6a3b6531b7e0ff0afc8193779b006b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:53 +0000
Subject: [PATCH 45/61] fix: optional arguments of algokey may be left out

---
 src/bin/algokey/export.rs   |  2 +-
 src/bin/algokey/generate.rs |  4 ++--
 src/bin/algokey/import.rs   |  2 +-
 src/bin/algokey/part.rs     | 11 ++++++++---
 src/bin/algokey/sign.rs     |  4 ++--
 5 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/bin/algokey/export.rs b/src/bin/algokey/export.rs
index 83bbe99..4cb2239 100644
--- a/src/bin/algokey/export.rs
+++ b/src/bin/algokey/export.rs
@@ -19,7 +19,7 @@ pub struct ExportCmd {
     #[clap(short = 'f', long = "keyfile", required = true)]
     sk_file: String,
     /// Public key filename
-    #[clap(short = 'p', long = "pubkeyfile", required = false)]
+    #[clap(short = 'p', long = "pubkeyfile", default_value = "")]
     pk_file: String,
 }
 
diff --git a/src/bin/algokey/generate.rs b/src/bin/algokey/generate.rs
index b77e96d..85e0eae 100644
--- a/src/bin/algokey/generate.rs
+++ b/src/bin/algokey/generate.rs
@@ -17,10 +17,10 @@ use algorsand::data::basics::address::Address;
 #[clap(setting = AppSettings::ArgRequiredElseHelp)]
 pub struct GenerateCmd {
     /// Private key filename
-    #[clap(short = 'f', long = "keyfile")]
+    #[clap(short = 'f', long = "keyfile", default_value = "")]
     sk_file: String,
     /// Public key filename
-    #[clap(short = 'p', long = "pubkeyfile")]
+    #[clap(short = 'p', long = "pubkeyfile", default_value = "")]
     pk_file: String,
 }
 
diff --git a/src/bin/algokey/import.rs b/src/bin/algokey/import.rs
index 799d009..12cbd98 100644
--- a/src/bin/algokey/import.rs
+++ b/src/bin/algokey/import.rs
@@ -22,7 +22,7 @@ pub struct ImportCmd {
     #[clap(short = 'f', long = "keyfile", required = true)]
     sk_file: String,
     /// Public key filename to write to
-    #[clap(short = 'p', long = "pubkeyfile", required = false)]
+    #[clap(short = 'p', long = "pubkeyfile", default_value = "")]
     pk_file: String,
 }
 
diff --git a/src/bin/algokey/part.rs b/src/bin/algokey/part.rs
index e83a3d3..de8f314 100644
--- a/src/bin/algokey/part.rs
+++ b/src/bin/algokey/part.rs
@@ -39,10 +39,10 @@ pub struct PartGenerateCmd {
     #[clap(short, long, required = true)]
     last: u64,
     /// Key dilution (default: sqrt(last-first))
-    #[clap(short, long)]
+    #[clap(short, long, default_value = "0")]
     dilution: u64,
     /// Address of parent account
-    #[clap(short, long)]
+    #[clap(short, long, default_value = "")]
     parent: String,
 }
 
@@ -82,8 +82,13 @@ impl PartGenerateCmd {
             _ => self.dilution,
         };
 
+        let parent = match self.parent.as_str() {
+            "" => Address::default(),
+            parent => Address::from_str(parent).unwrap(),
+        };
+
         let res = account::Participation::fill_db_with_participation_keys(
-            Address::from_str(&self.parent).unwrap(),
+            parent,
             Round(self.first),
             Round(self.last),
             key_dilution,
diff --git a/src/bin/algokey/sign.rs b/src/bin/algokey/sign.rs
index 1abe857..96606c2 100644
--- a/src/bin/algokey/sign.rs
+++ b/src/bin/algokey/sign.rs
@@ -15,10 +15,10 @@ use algorsand::data::{basics, transactions::Transaction};
 #[clap(setting = AppSettings::ArgRequiredElseHelp)]
 pub struct SignCmd {
     /// Private key filename
-    #[clap(short = 'f', long = "keyfile")]
+    #[clap(short = 'f', long = "keyfile", default_value = "")]
     sk_file: String,
     /// Private mnemonic phrase
-    #[clap(short = 'm', long = "mnemonic")]
+    #[clap(short = 'm', long = "mnemonic", default_value = "")]
     mnemonic: String,
     /// Transaction input filename
     #[clap(short = 't', long = "txfile", required = true)]
-- 
2.43.0


From b41539d701ffaf33c2709969468c3286d3c00332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:53 +0000
Subject: [PATCH 46/61] fix: signing with algokey writes the signed transaction

---
 src/bin/algokey/sign.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/bin/algokey/sign.rs b/src/bin/algokey/sign.rs
index 96606c2..e0b0bf1 100644
--- a/src/bin/algokey/sign.rs
+++ b/src/bin/algokey/sign.rs
@@ -6,10 +6,11 @@ use std::io::{self, Read};
 use std::path::Path;
 
 use clap::{AppSettings, Parser};
-use ed25519_dalek::{Keypair, SECRET_KEY_LENGTH};
+use ed25519_dalek::{Keypair, SecretKey, SECRET_KEY_LENGTH};
 
 use algorsand::crypto::mnemonic;
 use algorsand::data::{basics, transactions::Transaction};
+use algorsand::protocol;
 
 #[derive(Parser)]
 #[clap(setting = AppSettings::ArgRequiredElseHelp)]
@@ -31,7 +32,11 @@ pub struct SignCmd {
 impl SignCmd {
     pub fn entrypoint(&self) {
         let seed = load_keyfile_or_mnemonic(&self.sk_file, &self.mnemonic);
-        let kp = Keypair::from_bytes(&seed).unwrap();
+        let secret = SecretKey::from_bytes(&seed).unwrap();
+        let kp = Keypair {
+            public: (&secret).into(),
+            secret,
+        };
 
         // load tx from file
         let in_f = fs::File::open(&self.tx_file).unwrap();
@@ -44,8 +49,7 @@ impl SignCmd {
         }
 
         // write signed tx back to file
-        let mut out_f = fs::File::open(&self.out_file).unwrap();
-        rmp_serde::encode::write(&mut out_f, &sig_tx).unwrap();
+        fs::write(&self.out_file, protocol::encode(&sig_tx)).unwrap();
     }
 }
 
-- 
2.43.0


From 2852d50531e9ffa02603e354372e407ff39f4a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:53 +0000
Subject: [PATCH 47/61] fix: algokey exits with an error on bad input instead
 of panicking or reporting success

---
 src/bin/algokey/export.rs   |  8 ++++++--
 src/bin/algokey/generate.rs |  6 ++++--
 src/bin/algokey/import.rs   | 18 ++++++++++--------
 src/bin/algokey/part.rs     | 13 ++++++++++++-
 src/bin/algokey/sign.rs     | 25 ++++++++++++++++++++-----
 5 files changed, 52 insertions(+), 18 deletions(-)

diff --git a/src/bin/algokey/export.rs b/src/bin/algokey/export.rs
index 4cb2239..f99f571 100644
--- a/src/bin/algokey/export.rs
+++ b/src/bin/algokey/export.rs
@@ -25,7 +25,10 @@ pub struct ExportCmd {
 
 impl ExportCmd {
     pub fn entrypoint(&self) {
-        let seed = load_sk(&self.sk_file).unwrap();
+        let seed = load_sk(&self.sk_file).unwrap_or_else(|e| {
+            eprintln!("[Error] Could not read private key from file: {}", e);
+            std::process::exit(1);
+        });
         let words = mnemonic::key_to_mnemonic(seed);
 
         let key = SecretKey::from_bytes(&seed).unwrap();
@@ -37,7 +40,8 @@ impl ExportCmd {
 
         if !self.pk_file.is_empty() {
             if let Err(e) = write_pk(&self.pk_file, pk_chk.as_bytes()) {
-                println!("[Error] Could not write public key to file: {}", e);
+                eprintln!("[Error] Could not write public key to file: {}", e);
+                std::process::exit(1);
             }
         }
     }
diff --git a/src/bin/algokey/generate.rs b/src/bin/algokey/generate.rs
index 85e0eae..0566b03 100644
--- a/src/bin/algokey/generate.rs
+++ b/src/bin/algokey/generate.rs
@@ -41,13 +41,15 @@ impl GenerateCmd {
 
         if !self.sk_file.is_empty() {
             if let Err(e) = write_sk(&self.sk_file, &seed) {
-                println!("[Error] Could not write private key to file: {}", e);
+                eprintln!("[Error] Could not write private key to file: {}", e);
+                std::process::exit(1);
             }
         }
 
         if !self.pk_file.is_empty() {
             if let Err(e) = write_pk(&self.pk_file, pk_chk.as_bytes()) {
-                println!("[Error] Could not write public key to file: {}", e);
+                eprintln!("[Error] Could not write public key to file: {}", e);
+                std::process::exit(1);
             }
         }
     }
diff --git a/src/bin/algokey/import.rs b/src/bin/algokey/import.rs
index 12cbd98..36f361d 100644
--- a/src/bin/algokey/import.rs
+++ b/src/bin/algokey/import.rs
@@ -28,12 +28,12 @@ pub struct ImportCmd {
 
 impl ImportCmd {
     pub fn entrypoint(&self) {
-        let seed = mnemonic::phrase_to_key(&self.mnemonic);
-        if let Err(e) = seed.as_ref() {
-            println!("[Error] Invalid mnemonic provided: {}", e);
-        }
+        let seed = mnemonic::phrase_to_key(&self.mnemonic).unwrap_or_else(|e| {
+            eprintln!("[Error] Invalid mnemonic provided: {}", e);
+            std::process::exit(1);
+        });
 
-        let key = SecretKey::from_bytes(seed.as_ref().unwrap()).unwrap();
+        let key = SecretKey::from_bytes(&seed).unwrap();
         let pk: PublicKey = (&key).into();
         let pk_chk = Address(*pk.as_bytes()).to_string();
 
@@ -41,14 +41,16 @@ impl ImportCmd {
         println!("Public key: {}", pk_chk);
 
         if !self.sk_file.is_empty() {
-            if let Err(e) = write_sk(&self.sk_file, seed.as_ref().unwrap()) {
-                println!("[Error] Could not write private key to file: {}", e);
+            if let Err(e) = write_sk(&self.sk_file, &seed) {
+                eprintln!("[Error] Could not write private key to file: {}", e);
+                std::process::exit(1);
             }
         }
 
         if !self.pk_file.is_empty() {
             if let Err(e) = write_pk(&self.pk_file, pk_chk.as_bytes()) {
-                println!("[Error] Could not write public key to file: {}", e);
+                eprintln!("[Error] Could not write public key to file: {}", e);
+                std::process::exit(1);
             }
         }
     }
diff --git a/src/bin/algokey/part.rs b/src/bin/algokey/part.rs
index de8f314..5438452 100644
--- a/src/bin/algokey/part.rs
+++ b/src/bin/algokey/part.rs
@@ -77,6 +77,14 @@ impl PartCmd {
 
 impl PartGenerateCmd {
     pub fn entrypoint(&self) {
+        if self.last < self.first {
+            eprintln!(
+                "Last round {} is before first round {}",
+                self.last, self.first
+            );
+            std::process::exit(1);
+        }
+
         let key_dilution = match self.dilution {
             0 => 1 + ((self.last - self.first) as f64).sqrt() as u64,
             _ => self.dilution,
@@ -84,7 +92,10 @@ impl PartGenerateCmd {
 
         let parent = match self.parent.as_str() {
             "" => Address::default(),
-            parent => Address::from_str(parent).unwrap(),
+            parent => Address::from_str(parent).unwrap_or_else(|e| {
+                eprintln!("Failed to parse parent address: {}", e);
+                std::process::exit(1);
+            }),
         };
 
         let res = account::Participation::fill_db_with_participation_keys(
diff --git a/src/bin/algokey/sign.rs b/src/bin/algokey/sign.rs
index e0b0bf1..1e7d3e2 100644
--- a/src/bin/algokey/sign.rs
+++ b/src/bin/algokey/sign.rs
@@ -39,8 +39,14 @@ impl SignCmd {
         };
 
         // load tx from file
-        let in_f = fs::File::open(&self.tx_file).unwrap();
-        let tx: Transaction = rmp_serde::decode::from_read(in_f).unwrap();
+        let in_f = fs::File::open(&self.tx_file).unwrap_or_else(|e| {
+            eprintln!("Failed to open transaction file: {}", e);
+            std::process::exit(1);
+        });
+        let tx: Transaction = rmp_serde::decode::from_read(in_f).unwrap_or_else(|e| {
+            eprintln!("Failed to decode transaction: {}", e);
+            std::process::exit(1);
+        });
 
         // sign tx
         let mut sig_tx = tx.sign(&kp);
@@ -49,7 +55,10 @@ impl SignCmd {
         }
 
         // write signed tx back to file
-        fs::write(&self.out_file, protocol::encode(&sig_tx)).unwrap();
+        if let Err(e) = fs::write(&self.out_file, protocol::encode(&sig_tx)) {
+            eprintln!("Failed to write signed transaction: {}", e);
+            std::process::exit(1);
+        }
     }
 }
 
@@ -60,9 +69,15 @@ fn load_keyfile_or_mnemonic(keyfile: &str, mnemonic: &str) -> [u8; SECRET_KEY_LE
     }
 
     if !keyfile.is_empty() {
-        return load_sk(&keyfile).unwrap();
+        return load_sk(&keyfile).unwrap_or_else(|e| {
+            eprintln!("Failed to read private key from file: {}", e);
+            std::process::exit(1);
+        });
     } else if !mnemonic.is_empty() {
-        return mnemonic::phrase_to_key(mnemonic).unwrap();
+        return mnemonic::phrase_to_key(mnemonic).unwrap_or_else(|e| {
+            eprintln!("Invalid mnemonic provided: {}", e);
+            std::process::exit(1);
+        });
     }
 
     eprintln!("Must specify one of keyfile or mnemonic");
-- 
2.43.0


From 94c259bc8f39c435cee80aabe297f12a6ba431e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:54 +0000
Subject: [PATCH 48/61] fix: algokey refuses key files of the wrong length

---
 src/bin/algokey/export.rs | 11 ++++++-----
 src/bin/algokey/sign.rs   | 11 ++++++-----
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/bin/algokey/export.rs b/src/bin/algokey/export.rs
index f99f571..cf2e432 100644
--- a/src/bin/algokey/export.rs
+++ b/src/bin/algokey/export.rs
@@ -1,8 +1,9 @@
 // Copyright (C) 2021 Quentin M. Kniep <hello@quentinkniep.com>
 // Distributed under terms of the MIT license.
 
+use std::convert::TryInto;
 use std::fs;
-use std::io::{self, Read, Write};
+use std::io::{self, Write};
 use std::os::unix::fs::OpenOptionsExt;
 use std::path::Path;
 
@@ -48,10 +49,10 @@ impl ExportCmd {
 }
 
 fn load_sk(filename: &impl AsRef<Path>) -> io::Result<[u8; SECRET_KEY_LENGTH]> {
-    let mut buf = [0; SECRET_KEY_LENGTH];
-    let mut f = fs::File::open(filename)?;
-    f.read_exact(&mut buf)?;
-    Ok(buf)
+    let buf = fs::read(filename)?;
+    buf.as_slice()
+        .try_into()
+        .map_err(|_| io::Error::new(io::ErrorKind::InvalidData, "wrong length of key"))
 }
 
 fn write_pk(filename: &impl AsRef<Path>, data: &[u8]) -> io::Result<()> {
diff --git a/src/bin/algokey/sign.rs b/src/bin/algokey/sign.rs
index 1e7d3e2..7874f67 100644
--- a/src/bin/algokey/sign.rs
+++ b/src/bin/algokey/sign.rs
@@ -1,8 +1,9 @@
 // Copyright (C) 2021 Quentin M. Kniep <hello@quentinkniep.com>
 // Distributed under terms of the MIT license.
 
+use std::convert::TryInto;
 use std::fs;
-use std::io::{self, Read};
+use std::io;
 use std::path::Path;
 
 use clap::{AppSettings, Parser};
@@ -85,8 +86,8 @@ fn load_keyfile_or_mnemonic(keyfile: &str, mnemonic: &str) -> [u8; SECRET_KEY_LE
 }
 
 fn load_sk(filename: &impl AsRef<Path>) -> io::Result<[u8; SECRET_KEY_LENGTH]> {
-    let mut buf = [0; SECRET_KEY_LENGTH];
-    let mut f = fs::File::open(filename)?;
-    f.read_exact(&mut buf)?;
-    Ok(buf)
+    let buf = fs::read(filename)?;
+    buf.as_slice()
+        .try_into()
+        .map_err(|_| io::Error::new(io::ErrorKind::InvalidData, "wrong length of key"))
 }
-- 
2.43.0


From 6036ffd6f26f9cf25fb451277d7bfc5f2ccb08d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:54 +0000
Subject: [PATCH 49/61] fix: algokey makes existing secret key files private

---
 src/bin/algokey/generate.rs | 4 +++-
 src/bin/algokey/import.rs   | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/bin/algokey/generate.rs b/src/bin/algokey/generate.rs
index 0566b03..6586558 100644
--- a/src/bin/algokey/generate.rs
+++ b/src/bin/algokey/generate.rs
@@ -3,7 +3,7 @@
 
 use std::fs;
 use std::io::{self, Write};
-use std::os::unix::fs::OpenOptionsExt;
+use std::os::unix::fs::{OpenOptionsExt, PermissionsExt};
 use std::path::Path;
 
 use clap::{AppSettings, Parser};
@@ -63,6 +63,8 @@ fn write_sk(filename: &impl AsRef<Path>, data: &[u8]) -> io::Result<()> {
         .truncate(true)
         .mode(0o600)
         .open(filename)?;
+    // the mode above does not apply to a file that exists already
+    f.set_permissions(fs::Permissions::from_mode(0o600))?;
     f.write_all(data)
 }
 
diff --git a/src/bin/algokey/import.rs b/src/bin/algokey/import.rs
index 36f361d..15a74a7 100644
--- a/src/bin/algokey/import.rs
+++ b/src/bin/algokey/import.rs
@@ -3,7 +3,7 @@
 
 use std::fs;
 use std::io::{self, Write};
-use std::os::unix::fs::OpenOptionsExt;
+use std::os::unix::fs::{OpenOptionsExt, PermissionsExt};
 use std::path::Path;
 
 use clap::Parser;
@@ -64,6 +64,8 @@ fn write_sk(filename: &impl AsRef<Path>, data: &[u8]) -> io::Result<()> {
         .truncate(true)
         .mode(0o600)
         .open(filename)?;
+    // the mode above does not apply to a file that exists already
+    f.set_permissions(fs::Permissions::from_mode(0o600))?;
     f.write_all(data)
 }
 
-- 
2.43.0


From e0948ff072381425b8c9bdae9a8560f7746ca4ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:54 +0000
Subject: [PATCH 50/61] fix: algokey keeps participation keys in the given key
 file

---
 src/bin/algokey/part.rs | 19 +++++++++++++++++++
 src/data/account.rs     | 18 +++++++++++++++++-
 2 files changed, 36 insertions(+), 1 deletion(-)

diff --git a/src/bin/algokey/part.rs b/src/bin/algokey/part.rs
index 5438452..e960d31 100644
--- a/src/bin/algokey/part.rs
+++ b/src/bin/algokey/part.rs
@@ -1,6 +1,7 @@
 // Copyright (C) 2021 Quentin M. Kniep <hello@quentinkniep.com>
 // Distributed under terms of the MIT license.
 
+use std::path::Path;
 use std::str::FromStr;
 
 use clap::{AppSettings, Parser};
@@ -98,6 +99,7 @@ impl PartGenerateCmd {
             }),
         };
 
+        open_keyfile(&self.keyfile);
         let res = account::Participation::fill_db_with_participation_keys(
             parent,
             Round(self.first),
@@ -117,6 +119,7 @@ impl PartGenerateCmd {
 
 impl PartInfoCmd {
     pub fn entrypoint(&self) {
+        open_existing_keyfile(&self.keyfile);
         let res = account::Participation::restore();
 
         match res {
@@ -136,6 +139,7 @@ impl PartReparentCmd {
             std::process::exit(1);
         });
 
+        open_existing_keyfile(&self.keyfile);
         let mut part_key = account::Participation::restore().unwrap_or_else(|e| {
             eprintln!("Failed to load participiation key: {}", e);
             std::process::exit(1);
@@ -153,6 +157,21 @@ impl PartReparentCmd {
     }
 }
 
+fn open_existing_keyfile(keyfile: &str) {
+    if !Path::new(keyfile).exists() {
+        eprintln!("There is no key file {}", keyfile);
+        std::process::exit(1);
+    }
+    open_keyfile(keyfile);
+}
+
+fn open_keyfile(keyfile: &str) {
+    if let Err(e) = account::open_key_store(keyfile) {
+        eprintln!("Failed to open key file {}: {}", keyfile, e);
+        std::process::exit(1);
+    }
+}
+
 fn print_participation_key(part_key: &account::Participation) {
     let voting_pk = BASE64.encode(part_key.voting.verifier.as_bytes());
     println!("Parent address: {}", part_key.parent);
diff --git a/src/data/account.rs b/src/data/account.rs
index e18b035..a32e249 100644
--- a/src/data/account.rs
+++ b/src/data/account.rs
@@ -2,6 +2,8 @@
 // Distributed under terms of the MIT license.
 
 use std::convert::TryInto;
+use std::path::Path;
+use std::sync::OnceLock;
 
 use lazy_static::lazy_static;
 use rand::{rngs::OsRng, RngCore};
@@ -14,7 +16,21 @@ use crate::data::*;
 use crate::protocol;
 
 lazy_static! {
-    static ref KEY_STORE: Db = sled::open("keystore.db").unwrap();
+    static ref KEY_STORE: Db = match OPENED_STORE.get() {
+        Some(db) => db.clone(),
+        None => sled::open("keystore.db").unwrap(),
+    };
+}
+
+/// The store opened by `open_key_store`, if any.
+static OPENED_STORE: OnceLock<Db> = OnceLock::new();
+
+/// Opens the key store at the given path, to be used in place of the default one.
+/// Has no effect on a process that has opened or used a store before.
+pub fn open_key_store<P: AsRef<Path>>(path: P) -> Result<(), Error> {
+    let db = sled::open(path)?;
+    OPENED_STORE.get_or_init(|| db);
+    Ok(())
 }
 
 /// Encapsulates a set of secrets which controls some store of money.
-- 
2.43.0


From 5f40863ccd5eeddf7f2b456036d403cbacadb1b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:00 +0000
Subject: [PATCH 51/61] hook: genesis files, VRF proofs and public keys from
 bytes

---
 src/crypto/vrf.rs               | 20 ++++++++++++++++++++
 src/data/bookkeeping/genesis.rs |  6 ++++++
 2 files changed, 26 insertions(+)

diff --git a/src/crypto/vrf.rs b/src/crypto/vrf.rs
index 15f65b6..dbc2c35 100644
--- a/src/crypto/vrf.rs
+++ b/src/crypto/vrf.rs
@@ -289,6 +289,26 @@ fn hash_points(points: &[EdwardsPoint]) -> Scalar {
     Scalar::from_bytes_mod_order(out_bytes)
 }
 
+#[cfg(verif_hooks)]
+pub mod verif_hooks {
+    use super::*;
+
+    /// A proof of the given bytes, which need not be a valid one.
+    pub fn proof(bytes: [u8; 80]) -> VrfProof {
+        VrfProof(bytes)
+    }
+
+    /// The curve point, compressed, that proofs of the given bytes under the given key are about.
+    pub fn hash_point(pk: &VrfPublicKey, bytes: &[u8]) -> [u8; 32] {
+        hash_to_curve(pk, bytes).compress().to_bytes()
+    }
+
+    /// A public key of the given bytes, which need not be a valid one.
+    pub fn public_key(bytes: [u8; 32]) -> VrfPublicKey {
+        VrfPublicKey(bytes)
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/src/data/bookkeeping/genesis.rs b/src/data/bookkeeping/genesis.rs
index bfd3fee..5ae7186 100644
--- a/src/data/bookkeeping/genesis.rs
+++ b/src/data/bookkeeping/genesis.rs
@@ -214,6 +214,12 @@ pub mod verif_hooks {
         Genesis::create_block(proto, gen_bal, id, hash)
     }
 
+    /// The encoding, effective identifier and hash of the genesis configuration in a file.
+    pub fn load(path: &str) -> Result<(Vec<u8>, String, crypto::CryptoHash), ()> {
+        let g = Genesis::load_from_file(path)?;
+        Ok((protocol::encode(&g), g.id(), crypto::hash_obj(&g)))
+    }
+
     /// The genesis configuration read from its encoding, its encoding, effective identifier and hash.
     pub fn recode(bytes: &[u8]) -> Result<(Vec<u8>, String, crypto::CryptoHash), String> {
         let g: Genesis = rmp_serde::from_slice(bytes).map_err(|e| e.to_string())?;
-- 
2.43.0


From 716e76988de70a8af56d1850a322075f2d09f9dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:41 +0000
Subject: [PATCH 52/61] fix: the hash of a balance record covers its contents

---
 src/data/basics/user_balance.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/data/basics/user_balance.rs b/src/data/basics/user_balance.rs
index 1ecb646..96de80e 100644
--- a/src/data/basics/user_balance.rs
+++ b/src/data/basics/user_balance.rs
@@ -523,9 +523,7 @@ struct BalanceRecord {
 
 impl Hashable for BalanceRecord {
     fn to_be_hashed(&self) -> (protocol::HashID, Vec<u8>) {
-        // TODO implement protocol::codec
-        //(protocol::BALANCE_RECORD, protocol::encode(&self))
-        (protocol::BALANCE_RECORD, Vec::new())
+        (protocol::BALANCE_RECORD, protocol::encode(self))
     }
 }
 
-- 
2.43.0


From d02aa1b0c51e13225778b7c616867c2cd9eb6b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:41 +0000
Subject: [PATCH 53/61] hook: hashes of balance records

---
 src/data/basics/user_balance.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/data/basics/user_balance.rs b/src/data/basics/user_balance.rs
index 96de80e..a710381 100644
--- a/src/data/basics/user_balance.rs
+++ b/src/data/basics/user_balance.rs
@@ -688,4 +688,16 @@ pub mod verif_hooks {
     pub fn normalized_online_balance(a: &AccountData, p: config::ConsensusParams) -> u64 {
         a.normalized_online_balance(p)
     }
+
+    /// The encoding and the hash of a balance record, and whether it is the same when read back.
+    pub fn record(addr: Address, account_data: AccountData) -> (Vec<u8>, crypto::CryptoHash, bool) {
+        let r = BalanceRecord { addr, account_data };
+        let enc = protocol::encode(&r);
+        let back = protocol::decode::<BalanceRecord>(&enc).map_or(false, |x| protocol::encode(&x) == enc);
+        (enc, crypto::hash_obj(&r), back)
+    }
+
+    pub fn reads_record(bytes: &[u8]) -> bool {
+        protocol::decode::<BalanceRecord>(bytes).is_ok()
+    }
 }
-- 
2.43.0


From caa3813570217cadd3f90ea773a31a7e0306fe02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:31 +0000
Subject: [PATCH 54/61] fix: stored bytes claiming a long node are no node
 instead of aborting the process

---
 src/crypto/merkletrie/node.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/crypto/merkletrie/node.rs b/src/crypto/merkletrie/node.rs
index 4a70297..56cce27 100644
--- a/src/crypto/merkletrie/node.rs
+++ b/src/crypto/merkletrie/node.rs
@@ -236,6 +236,9 @@ impl Node {
         let mut cursor = std::io::Cursor::new(buf);
         let mut n = Node::default();
         let hash_length = cursor.read_varint().ok()?;
+        if hash_length > buf.len() {
+            return None;
+        }
         n.hash = vec![0; hash_length];
         cursor.read_exact(&mut n.hash).ok()?;
         let mut is_inner = 0_u8;
-- 
2.43.0


From ef03b3f3bf43f075a5e5db86eb0f58085cf5f8c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:31 +0000
Subject: [PATCH 55/61] fix: a storage failing on the first element of a trie
 is an error instead of a panic

---
 src/crypto/merkletrie/trie.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/crypto/merkletrie/trie.rs b/src/crypto/merkletrie/trie.rs
index 8604cef..a3e1666 100644
--- a/src/crypto/merkletrie/trie.rs
+++ b/src/crypto/merkletrie/trie.rs
@@ -78,10 +78,10 @@ impl Trie {
     pub fn add(&mut self, d: &[u8]) -> Result<bool, TrieError> {
         if self.root == None {
             let (mut pnode, id) = self.cache.allocate_new_node();
+            pnode.hash = d.to_vec();
+            self.cache.set_node(id, pnode)?;
             self.root = Some(id);
             //self.cache.commit_transaction();
-            pnode.hash = d.to_vec();
-            self.cache.set_node(id, pnode).unwrap();
             self.element_length = d.len() as u32;
             return Ok(true);
         } else if d.len() != self.element_length as usize {
-- 
2.43.0


From f418211069e98201962eaea256dc2a5848d0ba3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:31 +0000
Subject: [PATCH 56/61] fix: nodes the storage refused are not taken for stored

---
 src/crypto/merkletrie/cache.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crypto/merkletrie/cache.rs b/src/crypto/merkletrie/cache.rs
index 4ad2a45..6a03858 100644
--- a/src/crypto/merkletrie/cache.rs
+++ b/src/crypto/merkletrie/cache.rs
@@ -68,8 +68,8 @@ impl MerkleTrieCache {
     pub fn set_node(&mut self, id: NodeID, node: Node) -> Result<(), CacheError> {
         let mut buf = Vec::new();
         node.serialize(&mut buf);
-        self.cache.insert(id, node);
         self.storage.store_node(id, &buf)?;
+        self.cache.insert(id, node);
         Ok(())
     }
 
-- 
2.43.0


From f70213cfa32ffc9a6af28c44617371b4458dbc6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:31 +0000
Subject: [PATCH 57/61] fix: rounding up a round near the end of the range does
 not overflow

---
 src/data/basics/units.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/data/basics/units.rs b/src/data/basics/units.rs
index 3be9100..925aa32 100644
--- a/src/data/basics/units.rs
+++ b/src/data/basics/units.rs
@@ -88,7 +88,10 @@ impl Round {
 
     /// Rounds up round number to the next multiple of r.
     fn round_up_to_multiple_of(&self, r: Self) -> Self {
-        Self((self.0 + r.0 - 1) / r.0 * r.0)
+        match self.0 % r.0 {
+            0 => *self,
+            rest => Self(self.0 + (r.0 - rest)),
+        }
     }
 }
 
-- 
2.43.0


From 34044a5a941db8c158facdf2d0f913220b197393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:31 +0000
Subject: [PATCH 58/61] hook: hashed objects, application addresses, round
 arithmetic

---
 src/data/basics/units.rs             | 13 +++++++++++++
 src/data/basics/user_balance.rs      |  8 ++++++++
 src/data/bookkeeping/genesis.rs      |  4 ++++
 src/data/committee/credential.rs     |  8 ++++++++
 src/data/transactions/compactcert.rs |  9 +++++++++
 src/data/transactions/transaction.rs |  4 ++++
 6 files changed, 46 insertions(+)

diff --git a/src/data/basics/units.rs b/src/data/basics/units.rs
index 925aa32..5e5a0f3 100644
--- a/src/data/basics/units.rs
+++ b/src/data/basics/units.rs
@@ -103,6 +103,19 @@ impl Add for Round {
     }
 }
 
+#[cfg(verif_hooks)]
+pub mod verif_hooks {
+    use super::*;
+
+    pub fn sub_capped(a: Round, b: Round) -> Round {
+        a.sub_capped(b)
+    }
+
+    pub fn round_up_to_multiple_of(a: Round, b: Round) -> Round {
+        a.round_up_to_multiple_of(b)
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/src/data/basics/user_balance.rs b/src/data/basics/user_balance.rs
index a710381..2ed6d42 100644
--- a/src/data/basics/user_balance.rs
+++ b/src/data/basics/user_balance.rs
@@ -697,6 +697,14 @@ pub mod verif_hooks {
         (enc, crypto::hash_obj(&r), back)
     }
 
+    pub fn hashed_record(addr: Address, account_data: AccountData) -> impl Hashable {
+        BalanceRecord { addr, account_data }
+    }
+
+    pub fn app_address(app: AppIndex) -> Address {
+        app.address()
+    }
+
     pub fn reads_record(bytes: &[u8]) -> bool {
         protocol::decode::<BalanceRecord>(bytes).is_ok()
     }
diff --git a/src/data/bookkeeping/genesis.rs b/src/data/bookkeeping/genesis.rs
index 5ae7186..0e628fb 100644
--- a/src/data/bookkeeping/genesis.rs
+++ b/src/data/bookkeeping/genesis.rs
@@ -220,6 +220,10 @@ pub mod verif_hooks {
         Ok((protocol::encode(&g), g.id(), crypto::hash_obj(&g)))
     }
 
+    pub fn read(bytes: &[u8]) -> impl Hashable {
+        rmp_serde::from_slice::<Genesis>(bytes).unwrap()
+    }
+
     /// The genesis configuration read from its encoding, its encoding, effective identifier and hash.
     pub fn recode(bytes: &[u8]) -> Result<(Vec<u8>, String, crypto::CryptoHash), String> {
         let g: Genesis = rmp_serde::from_slice(bytes).map_err(|e| e.to_string())?;
diff --git a/src/data/committee/credential.rs b/src/data/committee/credential.rs
index 177f147..146d387 100644
--- a/src/data/committee/credential.rs
+++ b/src/data/committee/credential.rs
@@ -244,6 +244,14 @@ pub mod verif_hooks {
     pub struct Claim(UnauthenticatedCredential);
     pub struct Proven(Credential);
 
+    pub fn ticket(raw_out: crypto::VrfOutput, member: basics::Address, iter: u64) -> impl Hashable {
+        HashableCredential {
+            raw_out,
+            member,
+            iter,
+        }
+    }
+
     pub fn new(secrets: &crypto::VrfKeypair, sel: &impl Selector) -> Claim {
         Claim(UnauthenticatedCredential::new(secrets, sel))
     }
diff --git a/src/data/transactions/compactcert.rs b/src/data/transactions/compactcert.rs
index 6b0aecc..31c719e 100644
--- a/src/data/transactions/compactcert.rs
+++ b/src/data/transactions/compactcert.rs
@@ -51,3 +51,12 @@ lazy_static! {
     pub static ref COMPACT_CERT_SENDER: basics::Address =
         basics::Address::new(hash_obj(&SpecialAddr("CompactCertSender".to_owned())));
 }
+
+#[cfg(verif_hooks)]
+pub mod verif_hooks {
+    use super::*;
+
+    pub fn special(name: String) -> impl Hashable {
+        SpecialAddr(name)
+    }
+}
diff --git a/src/data/transactions/transaction.rs b/src/data/transactions/transaction.rs
index f1aa1e9..3ea8ecc 100644
--- a/src/data/transactions/transaction.rs
+++ b/src/data/transactions/transaction.rs
@@ -652,4 +652,8 @@ pub mod verif_hooks {
     pub fn group_id(tx_group_hashes: Vec<CryptoHash>) -> CryptoHash {
         hash_obj(&TxGroup { tx_group_hashes })
     }
+
+    pub fn group(tx_group_hashes: Vec<CryptoHash>) -> impl Hashable {
+        TxGroup { tx_group_hashes }
+    }
 }
-- 
2.43.0


From 6c5a9fd9861ead2697dadab7f61cd7a9c42405a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:52 +0000
Subject: [PATCH 59/61] fix: a participation key is stored whole even if the
 process ends while storing it

---
 src/data/account.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/data/account.rs b/src/data/account.rs
index a32e249..d92d4bf 100644
--- a/src/data/account.rs
+++ b/src/data/account.rs
@@ -305,12 +305,15 @@ impl Participation {
         let voting = self.voting.snapshot();
         let voting_enc = protocol::encode(&voting);
 
-        KEY_STORE.insert("part-parent", &self.parent.0[..])?;
-        KEY_STORE.insert("part-vrf", vrf_enc)?;
-        KEY_STORE.insert("part-voting", voting_enc)?;
-        KEY_STORE.insert("part-first_valid", &self.first_valid.0.to_be_bytes()[..])?;
-        KEY_STORE.insert("part-last_valid", &self.last_valid.0.to_be_bytes()[..])?;
-        KEY_STORE.insert("part-key_dilution", &self.key_dilution.to_be_bytes()[..])?;
+        // all or nothing, even if the process ends halfway
+        let mut batch = sled::Batch::default();
+        batch.insert("part-parent", &self.parent.0[..]);
+        batch.insert("part-vrf", vrf_enc);
+        batch.insert("part-voting", voting_enc);
+        batch.insert("part-first_valid", &self.first_valid.0.to_be_bytes()[..]);
+        batch.insert("part-last_valid", &self.last_valid.0.to_be_bytes()[..]);
+        batch.insert("part-key_dilution", &self.key_dilution.to_be_bytes()[..]);
+        KEY_STORE.apply_batch(batch)?;
         KEY_STORE.flush()?;
 
         Ok(())
-- 
2.43.0


From 4e2b513f59fadd42716e1758a1c22de42706524e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:54 +0000
Subject: [PATCH 60/61] fix: a key store is opened even if its last user ended
 while writing a snapshot or creating it

---
 src/data/account.rs | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/src/data/account.rs b/src/data/account.rs
index d92d4bf..454c029 100644
--- a/src/data/account.rs
+++ b/src/data/account.rs
@@ -2,6 +2,7 @@
 // Distributed under terms of the MIT license.
 
 use std::convert::TryInto;
+use std::fs;
 use std::path::Path;
 use std::sync::OnceLock;
 
@@ -18,7 +19,7 @@ use crate::protocol;
 lazy_static! {
     static ref KEY_STORE: Db = match OPENED_STORE.get() {
         Some(db) => db.clone(),
-        None => sled::open("keystore.db").unwrap(),
+        None => open_db("keystore.db").unwrap(),
     };
 }
 
@@ -28,11 +29,37 @@ static OPENED_STORE: OnceLock<Db> = OnceLock::new();
 /// Opens the key store at the given path, to be used in place of the default one.
 /// Has no effect on a process that has opened or used a store before.
 pub fn open_key_store<P: AsRef<Path>>(path: P) -> Result<(), Error> {
-    let db = sled::open(path)?;
+    let db = open_db(path)?;
     OPENED_STORE.get_or_init(|| db);
     Ok(())
 }
 
+/// Opens a database, even if the process that used it last ended while writing a snapshot or creating it.
+/// Snapshots only shorten the recovery, and without the file "db" nothing was stored yet,
+/// but `sled` takes what is unfinished for a corruption.
+fn open_db<P: AsRef<Path>>(path: P) -> Result<Db, sled::Error> {
+    let err = match sled::open(&path) {
+        Err(err @ sled::Error::Corruption { .. }) => err,
+        res => return res,
+    };
+    let created = path.as_ref().join("db").exists();
+    let mut found = false;
+    for entry in fs::read_dir(&path)? {
+        let file = entry?.path();
+        let name = file.file_name().map_or_else(Default::default, |n| n.to_string_lossy());
+        let snapshot = name.starts_with("snap.") && name.ends_with(".generating");
+        if snapshot || (name == "conf" && !created) {
+            fs::remove_file(&file)?;
+            found = true;
+        }
+    }
+    if found {
+        sled::open(&path)
+    } else {
+        Err(err)
+    }
+}
+
 /// Encapsulates a set of secrets which controls some store of money.
 ///
 /// A `Root` is authorized to spend money and create `Participation`s
-- 
2.43.0


From e7d79f5f88a0aa7101576d8a5d53001af49417bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:29:36 +0000
Subject: [PATCH 61/61] fix: reject a header whose predecessor announces a
 switch to no protocol instead of panicking

---
 src/data/bookkeeping/block.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/data/bookkeeping/block.rs b/src/data/bookkeeping/block.rs
index 5feeb91..5b64812 100644
--- a/src/data/bookkeeping/block.rs
+++ b/src/data/bookkeeping/block.rs
@@ -707,7 +707,9 @@ impl UpgradeState {
 
         // Switch over to new approved protocol
         if round == self.next_protocol_switch_on {
-            self.current_protocol = self.next_protocol.unwrap();
+            self.current_protocol = self
+                .next_protocol
+                .ok_or(InvalidBlock::WrongUpgradeState)?;
             self.next_protocol = None;
             self.next_protocol_approvals = 0;
             self.next_protocol_vote_before = basics::Round(0);
-- 
2.43.0

