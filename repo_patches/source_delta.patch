From 8f62a5aaaa00db78076f660a32c76a2c5ef87d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:33 +0000
Subject: [PATCH 01/25] fix: drop quorum certificates whose vote weight is not
 above two thirds

---
 src/state/parallel.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/state/parallel.rs b/src/state/parallel.rs
index 25bac20..616be9f 100644
--- a/src/state/parallel.rs
+++ b/src/state/parallel.rs
@@ -5,6 +5,7 @@ use creep::Context;
 use futures::channel::mpsc::UnboundedSender;
 use muta_apm::derive::tracing_span;
 
+use crate::error::ConsensusError;
 use crate::types::{Address, AggregatedVote, OverlordMsg};
 use crate::utils::auth_manage::AuthorityManage;
 use crate::{Codec, ConsensusResult, Crypto};
@@ -98,7 +99,11 @@ fn get_voters(
     addr_bitmap: &Bytes,
     authority_manage: AuthorityManage,
 ) -> ConsensusResult<Vec<Address>> {
-    authority_manage.is_above_threshold(addr_bitmap)?;
+    if !authority_manage.is_above_threshold(addr_bitmap)? {
+        return Err(ConsensusError::AggregatedSignatureErr(
+            "the vote weight of the QC is not above threshold".to_string(),
+        ));
+    }
     authority_manage.get_voters(addr_bitmap)
 }
 
-- 
2.43.0


From ebaa7d77a78ef412c8eb0ed6b8243c7d86ff09d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:33 +0000
Subject: [PATCH 02/25] fix: count vote weights in 64 bits

---
 src/state/process.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/state/process.rs b/src/state/process.rs
index e4586c4..e3344ea 100644
--- a/src/state/process.rs
+++ b/src/state/process.rs
@@ -1158,11 +1158,11 @@ where
         );
 
         for (hash, set) in vote_map.iter() {
-            let mut acc = 0u32;
+            let mut acc = 0u64;
             for addr in set.iter() {
-                acc += self.authority.get_vote_weight(addr)?;
+                acc += u64::from(*self.authority.get_vote_weight(addr)?);
             }
-            if u64::from(acc) * 3 > threshold {
+            if acc * 3 > threshold {
                 return Ok(Some(hash.to_owned()));
             }
         }
-- 
2.43.0


From 8766c51b344ac9e319c9d735cd0e7ad26242a519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:33 +0000
Subject: [PATCH 03/25] fix: sum propose weights in 64 bits in get_leader

---
 src/utils/auth_manage.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/utils/auth_manage.rs b/src/utils/auth_manage.rs
index 5dd6644..bf217be 100644
--- a/src/utils/auth_manage.rs
+++ b/src/utils/auth_manage.rs
@@ -161,15 +161,15 @@ pub fn extract_voters(
 /// Get the leader address of the height and the round, the authority list MUST be sorted.
 pub fn get_leader(height: u64, round: u64, mut authority_list: Vec<Node>) -> Address {
     authority_list.sort();
-    let mut weight_sum = 0;
+    let mut weight_sum = 0u64;
     let mut propose_weights = Vec::new();
     for node in authority_list.iter() {
-        weight_sum += node.propose_weight;
+        weight_sum += u64::from(node.propose_weight);
         propose_weights.push(node.propose_weight as u64);
     }
 
     let index = if cfg!(feature = "random_leader") {
-        get_random_proposer_index(height + round, &propose_weights, weight_sum as u64)
+        get_random_proposer_index(height + round, &propose_weights, weight_sum)
     } else {
         rotation_leader_index(height, round, authority_list.len())
     };
-- 
2.43.0


From 6570415ae62b9f6a6f036541f6ceeeb46b2ff9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:33 +0000
Subject: [PATCH 04/25] fix: return an error instead of panicking on invalid
 tags when decoding

---
 src/codec.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/codec.rs b/src/codec.rs
index 1ae3ff1..6b0ba6c 100644
--- a/src/codec.rs
+++ b/src/codec.rs
@@ -445,7 +445,7 @@ impl Decodable for UpdateFrom {
                         let qc: AggregatedChoke = r.val_at(1)?;
                         UpdateFrom::ChokeQC(qc)
                     }
-                    _ => unreachable!(),
+                    _ => return Err(DecoderError::Custom("Invalid update from tag.")),
                 };
                 Ok(res)
             }
@@ -502,6 +502,9 @@ impl<T: Codec> Decodable for WalInfo<T> {
                 let height: u64 = r.val_at(0)?;
                 let round: u64 = r.val_at(1)?;
                 let tmp: u8 = r.val_at(2)?;
+                if tmp > u8::from(Step::Commit) {
+                    return Err(DecoderError::Custom("Invalid step."));
+                }
                 let step = Step::from(tmp);
                 let lock = r.val_at(3)?;
                 let from: UpdateFrom = r.val_at(4)?;
-- 
2.43.0


From dfd4d8ffa2bb473c66b85e31e97c7596fd4f0d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:33 +0000
Subject: [PATCH 05/25] fix: rotate the leader without overflow and without a
 division by zero

---
 src/utils/auth_manage.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/utils/auth_manage.rs b/src/utils/auth_manage.rs
index bf217be..c62138b 100644
--- a/src/utils/auth_manage.rs
+++ b/src/utils/auth_manage.rs
@@ -178,9 +178,15 @@ pub fn get_leader(height: u64, round: u64, mut authority_list: Vec<Node>) -> Add
 }
 
 fn rotation_leader_index(height: u64, round: u64, authority_len: usize) -> usize {
-    let len = authority_len as u32;
-    let prime_num = *get_primes_less_than_x(len).last().unwrap_or(&1) as u64;
-    let res = (height * prime_num + round) % (len as u64);
+    if authority_len == 0 {
+        return 0;
+    }
+    let prime_num = *get_primes_less_than_x(authority_len as u32)
+        .last()
+        .unwrap_or(&1) as u64;
+    let len = authority_len as u64;
+    // Reduce first, the product of a large height must not wrap around.
+    let res = (height % len * prime_num + round % len) % len;
     res as usize
 }
 
-- 
2.43.0


From 9f988a7840a8915ea96283ed527dc63f35f3a366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:33 +0000
Subject: [PATCH 06/25] fix: random leader for zero weights and seeds that
 overflow

---
 src/utils/auth_manage.rs   | 4 ++--
 src/utils/rand_proposer.rs | 4 ++++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/utils/auth_manage.rs b/src/utils/auth_manage.rs
index c62138b..1b86ea9 100644
--- a/src/utils/auth_manage.rs
+++ b/src/utils/auth_manage.rs
@@ -64,7 +64,7 @@ impl AuthorityManage {
     pub fn get_proposer(&self, height: u64, round: u64) -> ConsensusResult<Address> {
         let index = if cfg!(feature = "random_leader") {
             get_random_proposer_index(
-                height + round,
+                height.wrapping_add(round),
                 &self.propose_weights,
                 self.propose_weight_sum,
             )
@@ -169,7 +169,7 @@ pub fn get_leader(height: u64, round: u64, mut authority_list: Vec<Node>) -> Add
     }
 
     let index = if cfg!(feature = "random_leader") {
-        get_random_proposer_index(height + round, &propose_weights, weight_sum)
+        get_random_proposer_index(height.wrapping_add(round), &propose_weights, weight_sum)
     } else {
         rotation_leader_index(height, round, authority_list.len())
     };
diff --git a/src/utils/rand_proposer.rs b/src/utils/rand_proposer.rs
index 3b259ff..a4d7999 100644
--- a/src/utils/rand_proposer.rs
+++ b/src/utils/rand_proposer.rs
@@ -2,6 +2,10 @@ use rand_core::{RngCore, SeedableRng};
 use rand_pcg::Pcg64Mcg as Pcg;
 
 pub fn get_random_proposer_index(seed: u64, weights: &[u64], weight_sum: u64) -> usize {
+    if weight_sum == 0 {
+        // Nobody has any propose weight, take turns.
+        return (seed % weights.len().max(1) as u64) as usize;
+    }
     let tmp = u64::max_value() / weight_sum;
     let mut rng = Pcg::seed_from_u64(seed);
     let mut acc = 0u64;
-- 
2.43.0


From 0c19db0d8a318d0a982be66eef76b957331d5318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:33 +0000
Subject: [PATCH 07/25] fix: keep the timer back-off at its maximum for every
 round number

---
 src/timer.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/timer.rs b/src/timer.rs
index a2c26ba..c14697e 100644
--- a/src/timer.rs
+++ b/src/timer.rs
@@ -141,10 +141,7 @@ impl Timer {
 
         let mut interval = self.config.get_timeout(event.clone())?;
         if !is_brake_timer {
-            let mut coef = self.round as u32;
-            if coef > MAX_TIMEOUT_COEF {
-                coef = MAX_TIMEOUT_COEF;
-            }
+            let coef = self.round.min(u64::from(MAX_TIMEOUT_COEF)) as u32;
             interval *= 2u32.pow(coef);
         }
 
-- 
2.43.0


From ee1e80fca759db73fb14888d61785eb26885d15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:33 +0000
Subject: [PATCH 08/25] fix: let the timer know height and round after starting
 from wal

---
 src/timer.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/timer.rs b/src/timer.rs
index c14697e..e721208 100644
--- a/src/timer.rs
+++ b/src/timer.rs
@@ -134,7 +134,17 @@ impl Timer {
                     self.config.update(config);
                 }
             }
-            SMREvent::Brake { .. } => is_brake_timer = true,
+            // After starting from wal, the first event can be one of the following.
+            SMREvent::PrevoteVote { height, round, .. }
+            | SMREvent::PrecommitVote { height, round, .. } => {
+                self.height = self.height.max(height);
+                self.round = round;
+            }
+            SMREvent::Brake { height, round, .. } => {
+                self.height = self.height.max(height);
+                self.round = round;
+                is_brake_timer = true;
+            }
             SMREvent::Commit(_) => return Ok(()),
             _ => (),
         };
-- 
2.43.0


From 7c9320b9f961f65cd9c7e1c5a62a99c98354c4b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:58 +0000
Subject: [PATCH 09/25] fix: check that a PoLC belongs to its proposal

---
 src/state/process.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/state/process.rs b/src/state/process.rs
index e3344ea..96d5902 100644
--- a/src/state/process.rs
+++ b/src/state/process.rs
@@ -620,6 +620,17 @@ where
         // SMR. Otherwise, touch off SMR directly.
         let lock_round = if let Some(polc) = proposal.lock.clone() {
             log::debug!("Overlord: state receive a signed proposal with a lock");
+            let qc = &polc.lock_votes;
+            if !qc.is_prevote_qc()
+                || qc.height != proposal_height
+                || qc.round != polc.lock_round
+                || qc.block_hash != proposal.block_hash
+                || polc.lock_round >= proposal_round
+            {
+                return Err(ConsensusError::ProposalErr(
+                    "PoLC does not match the proposal".to_string(),
+                ));
+            }
             Some(polc.lock_round)
         } else {
             None
-- 
2.43.0


From 2667c20e4b6206c8c2e74dab0f9707e434801b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:58 +0000
Subject: [PATCH 10/25] fix: verify the QC inside a choke before handling it

---
 src/state/process.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/state/process.rs b/src/state/process.rs
index 96d5902..741467c 100644
--- a/src/state/process.rs
+++ b/src/state/process.rs
@@ -1215,11 +1215,20 @@ where
 
         if choke_round > self.round {
             match choke.from {
-                UpdateFrom::PrevoteQC(qc) => {
-                    return self.handle_aggregated_vote(ctx.clone(), qc).await
-                }
-                UpdateFrom::PrecommitQC(qc) => {
-                    return self.handle_aggregated_vote(ctx.clone(), qc).await
+                // The signature of the choke does not cover the QC. Verify it like any other QC of
+                // the current height before handling it.
+                UpdateFrom::PrevoteQC(qc) | UpdateFrom::PrecommitQC(qc) => {
+                    if qc.height == self.height {
+                        parallel_verify(
+                            ctx,
+                            OverlordMsg::<T>::AggregatedVote(qc),
+                            Arc::clone(&self.util),
+                            self.authority.clone(),
+                            self.verify_sig_tx.clone(),
+                        )
+                        .await;
+                    }
+                    return Ok(());
                 }
                 UpdateFrom::ChokeQC(qc) => return self.handle_aggregated_choke(qc),
             }
-- 
2.43.0


From 7f04c1b9f60f606facea21b18fa7f63cc781905e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:58 +0000
Subject: [PATCH 11/25] fix: verify aggregated chokes

---
 src/state/process.rs | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/state/process.rs b/src/state/process.rs
index 741467c..b17d7a4 100644
--- a/src/state/process.rs
+++ b/src/state/process.rs
@@ -1243,14 +1243,34 @@ where
         &mut self,
         aggregated_choke: AggregatedChoke,
     ) -> ConsensusResult<()> {
-        // verify is above threshold.
-        if aggregated_choke.len() * 3 <= self.authority.len() * 2 {
+        if aggregated_choke.height != self.height {
+            return Err(ConsensusError::BrakeErr(
+                "choke qc is of another height".to_string(),
+            ));
+        }
+
+        // verify is above threshold, each voter counts once.
+        let voters = aggregated_choke.voters.iter().collect::<HashSet<_>>();
+        for voter in voters.iter() {
+            self.verify_address(voter)?;
+        }
+        if voters.len() != aggregated_choke.len() || voters.len() * 3 <= self.authority.len() * 2 {
             return Err(ConsensusError::BrakeErr(
                 "choke qc is not above threshold".to_string(),
             ));
         }
 
         let choke = aggregated_choke.to_hash();
+        self.util
+            .verify_aggregated_signature(
+                aggregated_choke.signature.clone(),
+                self.util.hash(Bytes::from(rlp::encode(&choke))),
+                aggregated_choke.voters.clone(),
+            )
+            .map_err(|err| {
+                ConsensusError::CryptoErr(format!("verify choke qc signature error {:?}", err))
+            })?;
+
         self.chokes.set_qc(choke.round, aggregated_choke);
 
         self.state_machine.trigger(SMRTrigger {
-- 
2.43.0


From 32047be9a77b526802dcb7d75e079aea8751eef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:58 +0000
Subject: [PATCH 12/25] fix: count chokes of validators only

---
 src/state/process.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/state/process.rs b/src/state/process.rs
index b17d7a4..1560846 100644
--- a/src/state/process.rs
+++ b/src/state/process.rs
@@ -1206,6 +1206,8 @@ where
             return Ok(());
         }
 
+        self.verify_address(&signed_choke.address)?;
+
         log::debug!(
             "Overlord: state receive a choke of height {}, round {}, from {:?}",
             choke_height,
-- 
2.43.0


From 625579037b784afa64fb80fffcdab8c23befa897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:58 +0000
Subject: [PATCH 13/25] fix: count the own choke only after it is saved

---
 src/state/process.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/state/process.rs b/src/state/process.rs
index 1560846..2ffedc7 100644
--- a/src/state/process.rs
+++ b/src/state/process.rs
@@ -745,9 +745,9 @@ where
             self.round
         );
 
-        self.chokes.insert(self.round, signed_choke.clone());
         self.save_wal_with_lock_round(Step::Brake, lock_round)
             .await?;
+        self.chokes.insert(self.round, signed_choke.clone());
         self.broadcast(Context::new(), OverlordMsg::SignedChoke(signed_choke))
             .await;
         self.check_choke_above_threshold()?;
-- 
2.43.0


From 912938ae0cb51aa0a3c85f1778029da087da6b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:58 +0000
Subject: [PATCH 14/25] fix: do not let unverified future messages queue up
 with verified ones

---
 src/state/process.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/state/process.rs b/src/state/process.rs
index 2ffedc7..46b1bc4 100644
--- a/src/state/process.rs
+++ b/src/state/process.rs
@@ -136,8 +136,13 @@ where
                         let _ = self.verify_sig_tx.unbounded_send((ctx, msg));
                     } else {
                         match self.height.cmp(&msg.get_height()) {
+                            // The signature of a future message is not verified yet. It must not
+                            // queue up with the verified ones, as the height may change meanwhile.
                             Ordering::Less => {
-                                let _ = self.verify_sig_tx.unbounded_send((ctx, msg));
+                                if let Err(e) = self.handle_msg(ctx.clone(), msg).await {
+                                    self.report_error(ctx, e.clone());
+                                    log::error!("Overlord: state {:?} error", e);
+                                }
                             }
                             Ordering::Equal => {
                                 parallel_verify(
-- 
2.43.0


From 6cef1f14095d946b4d50ee345f34c13516ab9446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:58 +0000
Subject: [PATCH 15/25] fix: ignore SMR events of a height or round the state
 has left

---
 src/smr/smr_types.rs |  4 ++--
 src/state/process.rs | 20 ++++++++++++++++++--
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/smr/smr_types.rs b/src/smr/smr_types.rs
index 00e8894..7e4c790 100644
--- a/src/smr/smr_types.rs
+++ b/src/smr/smr_types.rs
@@ -124,8 +124,8 @@ impl FromWhere {
 }
 
 /// SMR event that state and timer monitor this.
-/// **NOTICE**: The `height` field is just for the timer. Timer will take this to signal the timer
-/// height. State will ignore this field on handling event.
+/// **NOTICE**: Timer takes the `height` field to signal the timer height. State ignores events of a
+/// height that is not its own.
 #[derive(Clone, Debug, Display, PartialEq, Eq)]
 pub enum SMREvent {
     /// New round event,
diff --git a/src/state/process.rs b/src/state/process.rs
index 46b1bc4..5a0402d 100644
--- a/src/state/process.rs
+++ b/src/state/process.rs
@@ -264,13 +264,19 @@ where
     /// A function to handle event from the SMR. Public this function in the crate to do unit tests.
     pub(crate) async fn handle_event(&mut self, event: Option<SMREvent>) -> ConsensusResult<()> {
         match event.ok_or_else(|| ConsensusError::Other("Event sender dropped".to_string()))? {
+            // The state may have gone to a new height after the SMR threw the event.
             SMREvent::NewRoundInfo {
+                height,
                 round,
                 lock_round,
                 lock_proposal,
                 from_where,
                 ..
             } => {
+                if height != self.height {
+                    return Ok(());
+                }
+
                 if let Err(e) = self
                     .handle_new_round(round, lock_round, lock_proposal, from_where)
                     .await
@@ -281,10 +287,15 @@ where
             }
 
             SMREvent::PrevoteVote {
+                height,
+                round,
                 block_hash,
                 lock_round,
-                ..
             } => {
+                if height != self.height || round != self.round {
+                    return Ok(());
+                }
+
                 if let Err(e) = self
                     .handle_vote_event(block_hash, VoteType::Prevote, lock_round)
                     .await
@@ -295,10 +306,15 @@ where
             }
 
             SMREvent::PrecommitVote {
+                height,
+                round,
                 block_hash,
                 lock_round,
-                ..
             } => {
+                if height != self.height || round != self.round {
+                    return Ok(());
+                }
+
                 if let Err(e) = self
                     .handle_vote_event(block_hash, VoteType::Precommit, lock_round)
                     .await
-- 
2.43.0


From d1dd2d21ae2b4f687b2e8d53228545f3031ea91e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:58 +0000
Subject: [PATCH 16/25] fix: handle the stop message

---
 src/smr/state_machine.rs | 4 +++-
 src/state/process.rs     | 8 ++++++--
 src/types.rs             | 4 ++++
 3 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/smr/state_machine.rs b/src/smr/state_machine.rs
index d2ef0e8..6e57017 100644
--- a/src/smr/state_machine.rs
+++ b/src/smr/state_machine.rs
@@ -71,7 +71,9 @@ impl Stream for StateMachine {
                     }
                     TriggerType::WalInfo => Some(self.handle_wal(msg.wal_info.unwrap())),
                     TriggerType::Stop => {
-                        let _ = self.throw_event(SMREvent::Stop);
+                        // The timer has to stop even if the state is gone already.
+                        let _ = self.throw_timer_event(SMREvent::Stop);
+                        let _ = self.event.0.unbounded_send(SMREvent::Stop);
                         None
                     }
                 };
diff --git a/src/state/process.rs b/src/state/process.rs
index 5a0402d..d1fd2ff 100644
--- a/src/state/process.rs
+++ b/src/state/process.rs
@@ -132,7 +132,7 @@ where
                 raw = raw_rx.next() => {
                     let (ctx, msg) = raw.expect("Overlord message handler dropped");
 
-                    if msg.is_rich_status() {
+                    if msg.is_rich_status() || msg.is_stop() {
                         let _ = self.verify_sig_tx.unbounded_send((ctx, msg));
                     } else {
                         match self.height.cmp(&msg.get_height()) {
@@ -189,6 +189,10 @@ where
                         self.report_error(ctx, e.clone());
                         log::error!("Overlord: state {:?} error", e);
                     }
+
+                    if self.stopped {
+                        break;
+                    }
                 }
             }
         }
@@ -201,7 +205,7 @@ where
         ctx: Context,
         raw: OverlordMsg<T>,
     ) -> ConsensusResult<()> {
-        if !self.consensus_power && !raw.is_rich_status() {
+        if !self.consensus_power && !raw.is_rich_status() && !raw.is_stop() {
             return Ok(());
         }
 
diff --git a/src/types.rs b/src/types.rs
index 469eea6..3ab1d2d 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -100,6 +100,10 @@ impl<T: Codec> OverlordMsg<T> {
         matches!(self, OverlordMsg::RichStatus(_))
     }
 
+    pub(crate) fn is_stop(&self) -> bool {
+        matches!(self, OverlordMsg::Stop)
+    }
+
     pub(crate) fn get_height(&self) -> u64 {
         match self {
             OverlordMsg::SignedProposal(sp) => sp.proposal.height,
-- 
2.43.0


From 9726d4b4fddae9aea0b03183b60c9b5b9851c14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:58 +0000
Subject: [PATCH 17/25] fix: stay consistent when the log fails at a new height

---
 src/state/process.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/state/process.rs b/src/state/process.rs
index d1fd2ff..09a4fea 100644
--- a/src/state/process.rs
+++ b/src/state/process.rs
@@ -438,7 +438,11 @@ where
 
         log::info!("Overlord: state goto new height {}", self.height);
 
-        self.save_wal(Step::Propose, None).await?;
+        // Nothing is sent at the new height before its first round is saved. Going on without this
+        // record keeps height, authority list and SMR consistent.
+        if let Err(e) = self.save_wal(Step::Propose, None).await {
+            log::error!("Overlord: state go to new height with {:?}", e);
+        }
 
         // Update height and authority list.
         self.height_start = Instant::now();
-- 
2.43.0


From d5ddf70d8e43b799a45efcb214f6fb3802e8cc33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:58 +0000
Subject: [PATCH 18/25] fix: forget block check results at a new height

---
 src/state/process.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/state/process.rs b/src/state/process.rs
index 09a4fea..cbdbcd1 100644
--- a/src/state/process.rs
+++ b/src/state/process.rs
@@ -457,6 +457,7 @@ where
         self.proposals.flush(new_height - 1);
         self.votes.flush(new_height - 1);
         self.hash_with_block.clear();
+        self.is_full_transaction.clear();
         self.chokes.clear();
 
         // Re-check proposals that have been in the proposal collector, of the current height.
-- 
2.43.0


From b1aab0b523e190bb0db89a19c85f989af8f9376c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:58 +0000
Subject: [PATCH 19/25] fix: commit the block that was checked

---
 src/state/process.rs | 39 +++++++++++++++++++++++++++++----------
 src/types.rs         |  4 +++-
 2 files changed, 32 insertions(+), 11 deletions(-)

diff --git a/src/state/process.rs b/src/state/process.rs
index cbdbcd1..fa32edf 100644
--- a/src/state/process.rs
+++ b/src/state/process.rs
@@ -56,7 +56,7 @@ pub struct State<T: Codec, F: Consensus<T>, C: Crypto, W: Wal> {
     stopped: bool,
 
     verify_sig_tx: UnboundedSender<(Context, OverlordMsg<T>)>,
-    resp_tx: UnboundedSender<VerifyResp>,
+    resp_tx: UnboundedSender<VerifyResp<T>>,
     function: Arc<F>,
     wal: Arc<W>,
     util: Arc<C>,
@@ -80,7 +80,7 @@ where
         consensus: Arc<F>,
         crypto: Arc<C>,
         wal_engine: Arc<W>,
-    ) -> (Self, UnboundedReceiver<VerifyResp>) {
+    ) -> (Self, UnboundedReceiver<VerifyResp<T>>) {
         let (tx, rx) = unbounded();
         let mut auth = AuthorityManage::new();
         auth.update(&mut authority_list);
@@ -119,7 +119,7 @@ where
         &mut self,
         mut raw_rx: UnboundedReceiver<(Context, OverlordMsg<T>)>,
         mut event: Event,
-        mut verify_resp: UnboundedReceiver<VerifyResp>,
+        mut verify_resp: UnboundedReceiver<VerifyResp<T>>,
         mut verify_sig: UnboundedReceiver<(Context, OverlordMsg<T>)>,
     ) {
         log::debug!("Overlord: state start running");
@@ -354,13 +354,17 @@ where
         }
     }
 
-    fn handle_resp(&mut self, msg: Option<VerifyResp>) -> ConsensusResult<()> {
+    fn handle_resp(&mut self, msg: Option<VerifyResp<T>>) -> ConsensusResult<()> {
         let resp = msg.ok_or_else(|| ConsensusError::Other("Event sender dropped".to_string()))?;
         if resp.height != self.height {
             return Ok(());
         }
 
         let block_hash = resp.block_hash.clone();
+        if self.hash_with_block.get(&block_hash) != Some(&resp.block) {
+            return Ok(());
+        }
+
         log::debug!(
             "Overlord: state receive a verify response true, height {}, round {}, hash {:?}",
             resp.height,
@@ -556,9 +560,7 @@ where
             (block.to_owned(), hash, Some(polc))
         };
 
-        self.hash_with_block
-            .entry(hash.clone())
-            .or_insert_with(|| block.clone());
+        self.cache_block(hash.clone(), block.clone())?;
 
         let proposal = Proposal {
             height: self.height,
@@ -668,13 +670,13 @@ where
 
         let hash = proposal.block_hash.clone();
         let block = proposal.content.clone();
-        self.hash_with_block.insert(hash.clone(), proposal.content);
         self.proposals.insert(
             ctx.clone(),
             self.height,
             self.round,
             signed_proposal.clone(),
         )?;
+        self.cache_block(hash.clone(), proposal.content)?;
 
         log::debug!(
             "Overlord: state trigger SMR proposal height {}, round {}, hash {:?}",
@@ -698,6 +700,21 @@ where
         Ok(())
     }
 
+    /// Cache the whole block of a hash. The block that passed the check stays, any other one is
+    /// replaced and has to be checked itself.
+    fn cache_block(&mut self, hash: Hash, block: T) -> ConsensusResult<()> {
+        if self.hash_with_block.get(&hash) != Some(&block) {
+            if self.try_get_full_txs(&hash) {
+                return Err(ConsensusError::ProposalErr(format!(
+                    "Another block of hash {:?} has been checked",
+                    hash
+                )));
+            }
+            self.hash_with_block.insert(hash, block);
+        }
+        Ok(())
+    }
+
     async fn handle_vote_event(
         &mut self,
         hash: Hash,
@@ -1783,6 +1800,7 @@ where
             let lock = wal_info.lock.clone().unwrap();
             let qc = lock.lock_votes.clone();
             self.votes.set_qc(qc.clone());
+            self.is_full_transaction.insert(qc.block_hash.clone(), true);
             self.hash_with_block.insert(qc.block_hash, lock.content);
         }
 
@@ -1936,10 +1954,10 @@ async fn check_current_block<U: Consensus<T>, T: Codec>(
     round: u64,
     hash: Hash,
     block: T,
-    tx: UnboundedSender<VerifyResp>,
+    tx: UnboundedSender<VerifyResp<T>>,
 ) -> ConsensusResult<()> {
     function
-        .check_block(ctx, height, hash.clone(), block)
+        .check_block(ctx, height, hash.clone(), block.clone())
         .await
         .map_err(|err| ConsensusError::Other(format!("check {} block error {:?}", height, err)))?;
 
@@ -1948,6 +1966,7 @@ async fn check_current_block<U: Consensus<T>, T: Codec>(
         height,
         round,
         block_hash: hash,
+        block,
         is_pass: true,
     })
     .map_err(|e| ConsensusError::ChannelErr(e.to_string()))
diff --git a/src/types.rs b/src/types.rs
index 3ab1d2d..740735d 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -429,13 +429,15 @@ impl Node {
 
 /// A verify response.
 #[derive(Clone, Debug, PartialEq, Eq)]
-pub(crate) struct VerifyResp {
+pub(crate) struct VerifyResp<T: Codec> {
     /// The height of the verified block.
     pub(crate) height: u64,
     /// The round of the verified block.
     pub(crate) round: u64,
     /// Verified proposal hash.
     pub(crate) block_hash: Hash,
+    /// Verified block.
+    pub(crate) block: T,
     /// The block is pass or not.
     pub(crate) is_pass: bool,
 }
-- 
2.43.0


From 2c68ef5709d82707fbef05965a83ccc5ee78969c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:58 +0000
Subject: [PATCH 20/25] fix: bound what is kept of unverified future QCs

---
 src/state/collection.rs | 12 ++++++++++++
 src/state/process.rs    |  2 +-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/state/collection.rs b/src/state/collection.rs
index 5ffefa6..e53963b 100644
--- a/src/state/collection.rs
+++ b/src/state/collection.rs
@@ -140,6 +140,15 @@ impl VoteCollector {
             .set_qc(qc);
     }
 
+    /// Set a quorum certificate of a future height, that is not verified yet. It is only kept for
+    /// its round, so that there is a bound of what is kept for a height.
+    pub fn set_future_qc(&mut self, qc: AggregatedVote) {
+        self.0
+            .entry(qc.get_height())
+            .or_insert_with(VoteRoundCollector::new)
+            .set_round_qc(qc);
+    }
+
     /// Get an index of a `HashMap` that the key is vote hash and the value is address list, with
     /// the given height, round and type.
     pub fn get_vote_map(
@@ -270,7 +279,10 @@ impl VoteRoundCollector {
             .entry(qc.block_hash.clone())
             .or_insert_with(QuorumCertificate::new)
             .set_quorum_certificate(qc.clone());
+        self.set_round_qc(qc);
+    }
 
+    fn set_round_qc(&mut self, qc: AggregatedVote) {
         self.general
             .entry(qc.get_round())
             .or_insert_with(RoundCollector::new)
diff --git a/src/state/process.rs b/src/state/process.rs
index fa32edf..66c3054 100644
--- a/src/state/process.rs
+++ b/src/state/process.rs
@@ -1074,7 +1074,7 @@ where
                         vote_height,
                         vote_round,
                     );
-                    self.votes.set_qc(aggregated_vote);
+                    self.votes.set_future_qc(aggregated_vote);
                 } else {
                     log::warn!("Overlord: state receive a much higher aggregated vote");
                 }
-- 
2.43.0


From 73a1932541560be37460650773c76798c087b15b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:58 +0000
Subject: [PATCH 21/25] fix: keep future votes next to an unverified QC

---
 src/state/process.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/state/process.rs b/src/state/process.rs
index 66c3054..51f6854 100644
--- a/src/state/process.rs
+++ b/src/state/process.rs
@@ -933,11 +933,13 @@ where
         self.verify_address(&voter)?;
 
         // Check if the quorum certificate has generated before check whether there is a hash that
-        // vote weight is above the threshold. If no hash achieved this, return directly.
-        if self
-            .votes
-            .get_qc_by_id(height, round, vote_type.clone())
-            .is_ok()
+        // vote weight is above the threshold. If no hash achieved this, return directly. A future
+        // quorum certificate is not verified yet.
+        if height == self.height
+            && self
+                .votes
+                .get_qc_by_id(height, round, vote_type.clone())
+                .is_ok()
         {
             return Ok(());
         }
-- 
2.43.0


From 803f085a386192840545579decf0a7310b5443b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:19 +0000
Subject: [PATCH 22/25] fix: stay locked when a newer PoLC is for the locked
 block

---
 src/smr/state_machine.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/smr/state_machine.rs b/src/smr/state_machine.rs
index 6e57017..88a76e1 100644
--- a/src/smr/state_machine.rs
+++ b/src/smr/state_machine.rs
@@ -243,7 +243,10 @@ impl StateMachine {
                 log::debug!("Overlord: SMR handle proposal with a lock");
 
                 if lock_round > lock.round {
-                    self.remove_polc();
+                    // A newer PoLC of the locked block is no reason to unlock.
+                    if proposal_hash != lock.hash {
+                        self.remove_polc();
+                    }
                     self.set_proposal(proposal_hash);
                 } else if lock_round == lock.round && proposal_hash != self.block_hash {
                     return Err(ConsensusError::CorrectnessErr("Fork".to_string()));
-- 
2.43.0


From 2a6f21eb85a73b43296ed24d11890ee0d3b80985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:47 +0000
Subject: [PATCH 23/25] fix: a choke timer of a finished round does nothing

---
 src/smr/state_machine.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/smr/state_machine.rs b/src/smr/state_machine.rs
index 88a76e1..c8108b3 100644
--- a/src/smr/state_machine.rs
+++ b/src/smr/state_machine.rs
@@ -104,7 +104,7 @@ impl StateMachine {
     }
 
     fn handle_brake_timeout(&mut self, height: u64, round: u64) -> ConsensusResult<()> {
-        if height != self.height || round != self.round {
+        if height != self.height || round != self.round || self.step != Step::Brake {
             Ok(())
         } else {
             log::debug!(
-- 
2.43.0


From 0364b2f9688e637d0b6326db82a2d92214273f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:57 +0000
Subject: [PATCH 24/25] fix: a commit that returns no higher status does not
 replace the authority list

---
 src/state/process.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/state/process.rs b/src/state/process.rs
index 51f6854..52a3ea6 100644
--- a/src/state/process.rs
+++ b/src/state/process.rs
@@ -857,8 +857,6 @@ where
             .await
             .map_err(|err| ConsensusError::Other(format!("commit error {:?}", err)))?;
 
-        let mut auth_list = status.authority_list.clone();
-        self.authority.update(&mut auth_list);
         let cost = Instant::now() - self.height_start;
 
         log::info!(
@@ -868,10 +866,18 @@ where
             cost
         );
 
-        if self.next_proposer(status.height, INIT_ROUND)?
-            && cost < Duration::from_millis(self.block_interval)
-        {
-            sleep(Duration::from_millis(self.block_interval) - cost).await;
+        // A status that is not higher must not replace the authority list of the current height.
+        if status.height > self.height {
+            let mut auth_list = status.authority_list.clone();
+            self.authority.update(&mut auth_list);
+
+            if self
+                .next_proposer(status.height, INIT_ROUND)
+                .unwrap_or(false)
+                && cost < Duration::from_millis(self.block_interval)
+            {
+                sleep(Duration::from_millis(self.block_interval) - cost).await;
+            }
         }
 
         self.goto_new_height(ctx, status).await?;
-- 
2.43.0


From fdc5a6b8a770a2ed9316475d3bc9cb01883848b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:00 +0000
Subject: [PATCH 25/25] fix: heights and rounds near the upper limit do not
 wrap in the gap checks

---
 src/state/process.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/state/process.rs b/src/state/process.rs
index 52a3ea6..73bae53 100644
--- a/src/state/process.rs
+++ b/src/state/process.rs
@@ -1076,7 +1076,7 @@ where
             }
 
             Ordering::Greater => {
-                if self.height + FUTURE_HEIGHT_GAP > vote_height && vote_round < FUTURE_ROUND_GAP {
+                if vote_height - self.height < FUTURE_HEIGHT_GAP && vote_round < FUTURE_ROUND_GAP {
                     log::debug!(
                         "Overlord: state receive a future QC, height {}, round {}",
                         vote_height,
@@ -1936,14 +1936,14 @@ where
                 self.height
             );
             return true;
-        } else if self.height + FUTURE_HEIGHT_GAP < height {
+        } else if height - self.height > FUTURE_HEIGHT_GAP {
             log::debug!(
                 "Overlord: state receive a future message height {}, self height {}",
                 height,
                 self.height
             );
             return true;
-        } else if (height == self.height && self.round + FUTURE_ROUND_GAP < round)
+        } else if (height == self.height && round - self.round > FUTURE_ROUND_GAP)
             || (height > self.height && round > FUTURE_ROUND_GAP)
         {
             log::debug!("Overlord: state receive a much higher round message");
-- 
2.43.0

