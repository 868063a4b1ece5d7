From 307318f56a4e845eef1c52040f946ed718f1c8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:27 +0000
Subject: [PATCH 01/59] fix: transitive access is the best path, each path
 worth its weakest link

transitive_members overwrote better access with whatever path it visited last,
did not attenuate nested members by their own grant, and so depended on hash
map order: two replicas with the same events disagreed.
---
 keyhive_core/src/principal/group.rs | 61 +++++++----------------------
 1 file changed, 15 insertions(+), 46 deletions(-)

diff --git a/keyhive_core/src/principal/group.rs b/keyhive_core/src/principal/group.rs
index 069d18c..cc8df58 100644
--- a/keyhive_core/src/principal/group.rs
+++ b/keyhive_core/src/principal/group.rs
@@ -269,79 +269,48 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
 
     #[tracing::instrument(skip(self), fields(group_id = %self.group_id()))]
     pub async fn transitive_members(&self) -> HashMap<Identifier, (Agent<F, S, T, L>, Access)> {
-        struct GroupAccess<
-            G: FutureForm,
-            Z: AsyncSigner<G>,
-            U: ContentRef,
-            M: MembershipListener<G, Z, U>,
-        > {
-            agent: Agent<G, Z, U, M>,
-            agent_access: Access,
-            parent_access: Access,
-        }
-
-        let mut explore: Vec<GroupAccess<F, S, T, L>> = vec![];
-        let mut seen: HashSet<([u8; 64], Access)> = HashSet::new();
+        let mut explore: Vec<(Agent<F, S, T, L>, Access)> = vec![];
 
         for member in self.members.keys() {
             let dlg = self
                 .get_capability(member)
                 .expect("members have capabilities by defintion");
 
-            seen.insert((dlg.signature.to_bytes(), Access::Admin));
-
-            explore.push(GroupAccess {
-                agent: dlg.payload.delegate.clone(),
-                agent_access: dlg.payload.can,
-                parent_access: Access::Admin,
-            });
+            explore.push((dlg.payload.delegate.dupe(), dlg.payload.can));
         }
 
         let mut caps: HashMap<Identifier, (Agent<F, S, T, L>, Access)> = HashMap::new();
 
-        while let Some(GroupAccess {
-            agent: member,
-            agent_access: access,
-            parent_access,
-        }) = explore.pop()
-        {
+        // A path is worth its weakest link, and a member has the access of their best path.
+        while let Some((member, path_access)) = explore.pop() {
             let id = member.id();
             if id == self.id() {
                 continue;
             }
 
-            let best_access = *caps
-                .get(&id)
-                .map(|(_, existing_access)| existing_access.max(&access))
-                .unwrap_or(&access);
+            if let Some((_, best_access)) = caps.get(&id) {
+                if *best_access >= path_access {
+                    continue;
+                }
+            }
 
-            let current_path_access = access.min(parent_access);
-            caps.insert(member.id(), (member.dupe(), current_path_access));
+            caps.insert(id, (member.dupe(), path_access));
 
             if let Some(membered) = match member {
                 Agent::Group(id, inner_group) => Some(Membered::Group(id, inner_group.dupe())),
                 Agent::Document(id, doc) => Some(Membered::Document(id, doc.dupe())),
                 _ => None,
             } {
-                for (mem_id, dlgs) in membered.members().await.iter() {
+                for mem_id in membered.members().await.keys() {
                     let dlg = membered
                         .get_capability(mem_id)
                         .await
                         .expect("members have capabilities by defintion");
 
-                    caps.insert(*mem_id, (dlg.payload.delegate.dupe(), best_access));
-
-                    'inner: for sub_dlg in dlgs.iter() {
-                        if !seen.insert((sub_dlg.signature.to_bytes(), dlg.payload.can)) {
-                            continue 'inner;
-                        }
-
-                        explore.push(GroupAccess {
-                            agent: sub_dlg.payload.delegate.dupe(),
-                            agent_access: sub_dlg.payload.can,
-                            parent_access: best_access,
-                        });
-                    }
+                    explore.push((
+                        dlg.payload.delegate.dupe(),
+                        dlg.payload.can.min(path_access),
+                    ));
                 }
             }
         }
-- 
2.43.0


From 46debfcc2cae20905b93edfb9a74e5f344b5c250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:17 +0000
Subject: [PATCH 02/59] fix: replay pending concurrent CGKA operations before
 testing for a member

add and remove looked the member up in a tree that did not yet include
concurrent membership operations: removing a member whose add had just been
merged was silently skipped (they kept getting keys), and adding one gave them
a second leaf.
---
 beekem/src/cgka.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/beekem/src/cgka.rs b/beekem/src/cgka.rs
index 56ef512..ebe4cc9 100644
--- a/beekem/src/cgka.rs
+++ b/beekem/src/cgka.rs
@@ -242,12 +242,12 @@ impl Cgka {
         pk: ShareKey,
         signer: &S,
     ) -> Result<Option<Signed<CgkaOperation>>, CgkaError> {
-        if self.tree.contains_id(&id) {
-            return Ok(None);
-        }
         if self.should_replay() {
             self.replay_ops_graph()?;
         }
+        if self.tree.contains_id(&id) {
+            return Ok(None);
+        }
         let leaf_index = self.tree.push_leaf(id, pk.into());
         let predecessors = Vec::from_iter(self.ops_graph.cgka_op_heads.iter().cloned());
         let add_predecessors = Vec::from_iter(self.ops_graph.add_heads.iter().cloned());
@@ -285,12 +285,12 @@ impl Cgka {
         id: MemberId,
         signer: &S,
     ) -> Result<Option<Signed<CgkaOperation>>, CgkaError> {
-        if !self.tree.contains_id(&id) {
-            return Ok(None);
-        }
         if self.should_replay() {
             self.replay_ops_graph()?;
         }
+        if !self.tree.contains_id(&id) {
+            return Ok(None);
+        }
         if self.group_size() == 1 {
             return Err(CgkaError::RemoveLastMember);
         }
-- 
2.43.0


From 7441aa560762c8e6976507b7932b64a9669f7eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:54 +0000
Subject: [PATCH 03/59] fix: a revocation's proof must speak for whoever signed
 it

Any key, member or not, could revoke any grant by naming that grant (or one of
its ancestors) as the proof: the issuer was only compared with the proof when
the revoked grant did not descend from it. A member with several grants could
also not renounce them, because its own signed revocation was then refused.
---
 keyhive_core/src/principal/group/state.rs | 30 ++++++++++++++---------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/keyhive_core/src/principal/group/state.rs b/keyhive_core/src/principal/group/state.rs
index bcd15cb..76430ae 100644
--- a/keyhive_core/src/principal/group/state.rs
+++ b/keyhive_core/src/principal/group/state.rs
@@ -212,22 +212,28 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
         }
 
         if let Some(proof) = &revocation.payload.proof {
-            if revocation.payload.revoke != *proof
-                && !revocation.payload.revoke.payload.is_descendant_of(proof)
-            {
-                // The revoked delegation is not a descendant of the proof.
-                // Check if the revoker has transitive access through the
-                // proof's delegate (a group/doc intermediary).
-                let revoker_id = Identifier::from(revocation.issuer);
-                if !is_transitive_member_of(
+            // The proof only speaks for those who issued it or hold it. Its issuer and its
+            // holder may revoke it and anything descending from it, a member may renounce
+            // their own grants, and anyone with transitive access through the proof's
+            // delegate (a group/doc intermediary) may revoke up to that access.
+            let revoked = &revocation.payload.revoke;
+            let revoker_id = Identifier::from(revocation.issuer);
+            let holds_proof = proof.payload.delegate.id() == revoker_id;
+            let is_authorized = if revoked == proof || revoked.payload.is_descendant_of(proof) {
+                holds_proof || Identifier::from(proof.issuer) == revoker_id
+            } else {
+                holds_proof && revoked.payload.delegate.id() == revoker_id
+            };
+
+            if !is_authorized
+                && !is_transitive_member_of(
                     &proof.payload.delegate,
                     revoker_id,
-                    revocation.payload.revoke.payload.can,
+                    revoked.payload.can,
                 )
                 .await
-                {
-                    return Err(AddError::InvalidProofChain);
-                }
+            {
+                return Err(AddError::InvalidProofChain);
             }
 
             let lineage = proof.payload.proof_lineage();
-- 
2.43.0


From d2766e1520d5dd154307914352f1e9e9fa7bc144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:14 +0000
Subject: [PATCH 04/59] fix: do not announce revocations that are then refused

---
 keyhive_core/src/principal/group.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/keyhive_core/src/principal/group.rs b/keyhive_core/src/principal/group.rs
index cc8df58..ad48193 100644
--- a/keyhive_core/src/principal/group.rs
+++ b/keyhive_core/src/principal/group.rs
@@ -400,8 +400,8 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
         &mut self,
         revocation: Arc<Signed<Revocation<F, S, T, L>>>,
     ) -> Result<Digest<Signed<Revocation<F, S, T, L>>>, error::AddError> {
+        let digest = self.state.add_revocation(revocation.dupe()).await?;
         self.listener.on_revocation(&revocation).await;
-        let digest = self.state.add_revocation(revocation).await?;
         self.rebuild().await;
         Ok(digest)
     }
-- 
2.43.0


From a2ffa51cb8d2a2be12186cab44cd1209397a74d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:09 +0000
Subject: [PATCH 05/59] fix: order delegations after every revocation of their
 proof, without cycles

Only the last visited revocation of a grant was kept, so the order (and the
membership built from it) depended on hash map iteration, and a revocation that
itself depends on a delegation under the revoked grant made a cycle: everything
behind it was dropped and the group came out empty.
---
 .../principal/group/membership_operation.rs   | 54 ++++++++++++++++---
 1 file changed, 48 insertions(+), 6 deletions(-)

diff --git a/keyhive_core/src/principal/group/membership_operation.rs b/keyhive_core/src/principal/group/membership_operation.rs
index e376790..ab8b164 100644
--- a/keyhive_core/src/principal/group/membership_operation.rs
+++ b/keyhive_core/src/principal/group/membership_operation.rs
@@ -23,7 +23,7 @@ use keyhive_crypto::{
 };
 use serde::{Deserialize, Serialize};
 use std::{
-    collections::{BTreeMap, HashMap},
+    collections::{BTreeMap, BTreeSet, HashMap},
     hash::Hash,
     sync::Arc,
 };
@@ -251,9 +251,11 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
             }
         }
 
-        // revoked delegation signature -> revocation digest
-        let mut revoked_dependencies: HashMap<Key, Digest<MembershipOperation<F, S, T, L>>> =
-            HashMap::new();
+        // revoked delegation signature -> digests of all of its revocations
+        let mut revoked_dependencies: HashMap<
+            Key,
+            BTreeSet<Digest<MembershipOperation<F, S, T, L>>>,
+        > = HashMap::new();
 
         let mut explore: Vec<MembershipOperation<F, S, T, L>> = vec![];
 
@@ -280,7 +282,10 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
             let parent_digests: Vec<_> = parents.iter().map(|p| p.digest()).collect();
 
             if let MembershipOperation::Revocation(r) = &op {
-                revoked_dependencies.insert((*r.payload.revoke.signature()).into(), digest);
+                revoked_dependencies
+                    .entry((*r.payload.revoke.signature()).into())
+                    .or_default()
+                    .insert(digest);
             }
 
             all_ops.insert(digest, (op, parent_digests));
@@ -361,10 +366,23 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
                         .push(*parent_digest);
                 }
             }
+        }
 
+        // Delegations go after the revocations of their proof, unless the revocation itself
+        // (transitively) depends on the delegation: that would be a cycle, and none of its
+        // ops would ever be reached.
+        for (digest, (op, _)) in all_ops.iter() {
             if let MembershipOperation::Delegation(d) = op {
                 if let Some(proof) = &d.payload.proof {
-                    if let Some(revoked_digest) = revoked_dependencies.get(&Key(proof.signature)) {
+                    for revoked_digest in revoked_dependencies
+                        .get(&Key(proof.signature))
+                        .into_iter()
+                        .flatten()
+                    {
+                        if is_successor(digest, revoked_digest, &successors_of) {
+                            continue;
+                        }
+
                         if let Some((revoked_op, _)) = all_ops.get(revoked_digest) {
                             adjacencies
                                 .add_dependency((*digest, op), (*revoked_digest, revoked_op));
@@ -435,6 +453,30 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
     }
 }
 
+/// Whether `target` is reachable from `start`.
+fn is_successor<D: Copy + Eq + Hash>(
+    target: &D,
+    start: &D,
+    successors_of: &HashMap<D, Vec<D>>,
+) -> bool {
+    let mut seen = HashSet::from([*start]);
+    let mut explore = vec![*start];
+
+    while let Some(node) = explore.pop() {
+        if node == *target {
+            return true;
+        }
+
+        for succ in successors_of.get(&node).into_iter().flatten() {
+            if seen.insert(*succ) {
+                explore.push(*succ);
+            }
+        }
+    }
+
+    false
+}
+
 impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S, T>> Dupe
     for MembershipOperation<F, S, T, L>
 {
-- 
2.43.0


From db5d9eac5f45253f43098fe9bebb4d916be76617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:39 +0000
Subject: [PATCH 06/59] fix: encrypt to one of a leaf's keys when it has
 several

---
 beekem/src/tree.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/beekem/src/tree.rs b/beekem/src/tree.rs
index f5c71f5..aa202a4 100644
--- a/beekem/src/tree.rs
+++ b/beekem/src/tree.rs
@@ -459,7 +459,10 @@ impl BeeKem {
             for idx in sibling_resolution {
                 let next_pk = match self.node_key_for_index(idx)? {
                     NodeKey::ShareKey(share_key) => share_key,
-                    _ => panic!("Sibling resolution nodes should have exactly one ShareKey"),
+                    // Only a leaf can have several keys here (inner nodes with
+                    // conflict keys are never part of a resolution). They are all keys
+                    // of the same member, so any of them will do.
+                    NodeKey::ConflictKeys(keys) => keys.first,
                 };
                 let encrypted_sk = crate::encrypted::encrypt_secret(
                     self.doc_id.as_bytes(),
-- 
2.43.0


From 9ea28a8694eb4cae39c0d6cee92494d0f23ce488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:03 +0000
Subject: [PATCH 07/59] fix: replay concurrent removals of the same or of the
 last members

---
 beekem/src/cgka.rs | 6 +++++-
 beekem/src/tree.rs | 5 +----
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/beekem/src/cgka.rs b/beekem/src/cgka.rs
index ebe4cc9..f8e0213 100644
--- a/beekem/src/cgka.rs
+++ b/beekem/src/cgka.rs
@@ -423,7 +423,11 @@ impl Cgka {
                 self.tree.push_leaf(added_id, pk.into());
             }
             CgkaOperation::Remove { id, .. } => {
-                self.tree.remove_id(id)?;
+                // If this id has been concurrently removed, it might no longer be
+                // present when we try to apply this remove.
+                if self.tree.contains_id(&id) {
+                    self.tree.remove_id(id)?;
+                }
             }
             CgkaOperation::Update { ref new_path, .. } => {
                 self.tree.apply_path(new_path);
diff --git a/beekem/src/tree.rs b/beekem/src/tree.rs
index aa202a4..2174ea7 100644
--- a/beekem/src/tree.rs
+++ b/beekem/src/tree.rs
@@ -157,9 +157,6 @@ impl BeeKem {
     /// Remove data for the provided [`MemberId`] and blank its leaf's
     /// path to the root.
     pub fn remove_id(&mut self, id: MemberId) -> Result<(u32, Vec<ShareKey>), CgkaError> {
-        if self.member_count() == 1 {
-            return Err(CgkaError::RemoveLastMember);
-        }
         let l_idx = *self.leaf_index_for_id(id)?;
         let mut removed_keys = Vec::new();
         for idx in treemath::direct_path((l_idx).into(), self.tree_size) {
@@ -170,7 +167,7 @@ impl BeeKem {
         self.blank_leaf_and_path(l_idx);
         self.id_to_leaf_idx.remove(&id);
         // Collect any contiguous "tombstones" at the end of the leaves Vec
-        while self.leaf(self.next_leaf_idx - 1).is_none() {
+        while self.next_leaf_idx.u32() > 0 && self.leaf(self.next_leaf_idx - 1).is_none() {
             self.blank_path(treemath::parent((self.next_leaf_idx - 1).into()));
             self.next_leaf_idx -= 1;
         }
-- 
2.43.0


From 17e71a3e56c77e9247aa05a7cc6dc8773d2f2d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:03 +0000
Subject: [PATCH 08/59] fix: concurrent membership changes act on the leaves
 members actually have

---
 beekem/src/cgka.rs | 18 +++++++++++-------
 beekem/src/tree.rs | 30 +++++++++++++++++++++---------
 2 files changed, 32 insertions(+), 16 deletions(-)

diff --git a/beekem/src/cgka.rs b/beekem/src/cgka.rs
index f8e0213..a6f52f2 100644
--- a/beekem/src/cgka.rs
+++ b/beekem/src/cgka.rs
@@ -460,23 +460,27 @@ impl Cgka {
                 // An epoch with at least one membership change requires blanking
                 // removed paths and sorting added leaves after all ops are applied.
                 let mut added_ids = Set::new();
-                let mut removed_ids = Set::new();
+                let mut vacated_leaves = Set::new();
                 for op in epoch.iter() {
-                    match op.payload {
+                    let changed_id = match op.payload {
                         CgkaOperation::Add { added_id, .. } => {
                             added_ids.insert(added_id);
+                            Some(added_id)
                         }
-                        CgkaOperation::Remove { id, leaf_idx, .. } => {
-                            removed_ids.insert((id, leaf_idx));
-                        }
-                        _ => {}
+                        CgkaOperation::Remove { id, .. } => Some(id),
+                        CgkaOperation::Update { .. } => None,
+                    };
+                    if let Some(leaf_idx) =
+                        changed_id.and_then(|id| self.tree.leaf_index_for_id(id).ok())
+                    {
+                        vacated_leaves.insert(leaf_idx.u32());
                     }
                     self.apply_operation(op.clone())?;
                 }
                 self.tree
                     .sort_leaves_and_blank_paths_for_concurrent_membership_changes(
                         added_ids,
-                        removed_ids,
+                        vacated_leaves,
                     );
             }
         }
diff --git a/beekem/src/tree.rs b/beekem/src/tree.rs
index 2174ea7..4339ad0 100644
--- a/beekem/src/tree.rs
+++ b/beekem/src/tree.rs
@@ -105,25 +105,29 @@ impl BeeKem {
     ///
     /// Sorting concurrently added leaves deterministically resolves add conflicts
     /// (e.g., if two members concurrently add distinct members to the same leaf).
+    ///
+    /// `vacated_leaves` are the leaves that removed (or concurrently re-added) members
+    /// actually had in this tree. When merging, that can differ from the leaf the
+    /// remover saw.
     pub fn sort_leaves_and_blank_paths_for_concurrent_membership_changes(
         &mut self,
         mut added_ids: Set<MemberId>,
-        removed_ids: Set<(MemberId, u32)>,
+        vacated_leaves: Set<u32>,
     ) {
         let mut leaves_to_sort = Vec::new();
-        for (id, idx) in removed_ids {
-            added_ids.remove(&id);
-            let leaf_idx = LeafNodeIndex::new(idx);
-            debug_assert!(self.leaf(leaf_idx).is_none());
-            // We should have already removed this id during merge, but concurrent
-            // updates at other leaves with intersecting paths must be overridden by
-            // this remove.
-            self.blank_leaf_and_path(leaf_idx);
+        for idx in vacated_leaves {
+            // We should have already blanked this leaf during merge (and somebody
+            // else might have been added there since), but concurrent updates at
+            // other leaves with intersecting paths must be overridden by this change.
+            self.blank_path(treemath::parent(LeafNodeIndex::new(idx).into()));
         }
+        // Ids that were also removed might no longer be present.
+        added_ids.retain(|id| self.id_to_leaf_idx.contains_key(id));
         while !added_ids.is_empty() && self.next_leaf_idx.u32() > 0 {
             let leaf_idx = self.next_leaf_idx - 1;
             if let Some(next_leaf) = self.leaf(leaf_idx).clone() {
                 added_ids.remove(&next_leaf.id);
+                self.id_to_leaf_idx.remove(&next_leaf.id);
                 leaves_to_sort.push(next_leaf);
             }
             self.blank_leaf_and_path(leaf_idx);
@@ -144,7 +148,15 @@ impl BeeKem {
 
     /// Add a new leaf to the first available [`LeafNodeIndex`] on the right and
     /// blank that leaf's path to the root.
+    ///
+    /// A member has a single leaf: if this id was already added (which happens
+    /// when it is concurrently added more than once), then its earlier leaf and
+    /// that leaf's path are blanked. Otherwise secrets would still be encrypted
+    /// for that leaf after the member is removed.
     pub fn push_leaf(&mut self, id: MemberId, pk: NodeKey) -> u32 {
+        if let Some(old_idx) = self.id_to_leaf_idx.remove(&id) {
+            self.blank_leaf_and_path(old_idx);
+        }
         self.maybe_grow_tree(self.next_leaf_idx.u32());
         let l_idx = self.next_leaf_idx;
         self.next_leaf_idx += 1;
-- 
2.43.0


From 4d137dde8318f5517031826e83727c5282cc6a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:51 +0000
Subject: [PATCH 09/59] fix: merging a group-key fork keeps only real heads and
 works for non-members

---
 beekem/src/cgka.rs      |  6 ++++--
 beekem/src/operation.rs | 14 ++++++++++++++
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/beekem/src/cgka.rs b/beekem/src/cgka.rs
index a6f52f2..44016f7 100644
--- a/beekem/src/cgka.rs
+++ b/beekem/src/cgka.rs
@@ -573,9 +573,11 @@ impl Cgka {
         )?
         .with_new_owner(self.owner_id, self.owner_sks.clone())?;
         rebuilt_cgka.apply_epochs(&epochs)?;
+        // Only members can derive the key
         if rebuilt_cgka.has_pcs_key() {
-            let pcs_key = rebuilt_cgka.pcs_key_from_tree_root()?;
-            rebuilt_cgka.insert_pcs_key(&pcs_key, Digest::hash(&epochs.last()[0]));
+            if let Ok(pcs_key) = rebuilt_cgka.pcs_key_from_tree_root() {
+                rebuilt_cgka.insert_pcs_key(&pcs_key, Digest::hash(&epochs.last()[0]));
+            }
         }
         Ok(rebuilt_cgka)
     }
diff --git a/beekem/src/operation.rs b/beekem/src/operation.rs
index 2648ba9..9e34882 100644
--- a/beekem/src/operation.rs
+++ b/beekem/src/operation.rs
@@ -163,6 +163,20 @@ impl Merge for CgkaOperationGraph {
             .extend(fork.cgka_ops_predecessors);
         self.cgka_op_heads.extend(fork.cgka_op_heads);
         self.add_heads.extend(fork.add_heads);
+        // A head on one side might have successors on the other side
+        for op in self.cgka_ops.values() {
+            for pred in op.payload.predecessors() {
+                self.cgka_op_heads.remove(&pred);
+            }
+            if let CgkaOperation::Add {
+                add_predecessors, ..
+            } = &op.payload
+            {
+                for pred in add_predecessors {
+                    self.add_heads.remove(pred);
+                }
+            }
+        }
     }
 }
 
-- 
2.43.0


From 4accf185a00803b735ea749042ceb6c33f84aa93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:27 +0000
Subject: [PATCH 10/59] fix: blank paths of concurrent updates that no longer
 fit the tree

---
 beekem/src/cgka.rs | 18 ++++++++++--------
 beekem/src/tree.rs | 40 ++++++++++++++++++++--------------------
 2 files changed, 30 insertions(+), 28 deletions(-)

diff --git a/beekem/src/cgka.rs b/beekem/src/cgka.rs
index 44016f7..41d9b96 100644
--- a/beekem/src/cgka.rs
+++ b/beekem/src/cgka.rs
@@ -460,27 +460,29 @@ impl Cgka {
                 // An epoch with at least one membership change requires blanking
                 // removed paths and sorting added leaves after all ops are applied.
                 let mut added_ids = Set::new();
-                let mut vacated_leaves = Set::new();
+                let mut changed_leaves = Set::new();
                 for op in epoch.iter() {
-                    let changed_id = match op.payload {
+                    let changed_id = match &op.payload {
                         CgkaOperation::Add { added_id, .. } => {
-                            added_ids.insert(added_id);
-                            Some(added_id)
+                            added_ids.insert(*added_id);
+                            Some(*added_id)
+                        }
+                        CgkaOperation::Remove { id, .. } => Some(*id),
+                        CgkaOperation::Update { new_path, .. } => {
+                            (!self.tree.is_valid_path(new_path)).then_some(new_path.leaf_id)
                         }
-                        CgkaOperation::Remove { id, .. } => Some(id),
-                        CgkaOperation::Update { .. } => None,
                     };
                     if let Some(leaf_idx) =
                         changed_id.and_then(|id| self.tree.leaf_index_for_id(id).ok())
                     {
-                        vacated_leaves.insert(leaf_idx.u32());
+                        changed_leaves.insert(leaf_idx.u32());
                     }
                     self.apply_operation(op.clone())?;
                 }
                 self.tree
                     .sort_leaves_and_blank_paths_for_concurrent_membership_changes(
                         added_ids,
-                        vacated_leaves,
+                        changed_leaves,
                     );
             }
         }
diff --git a/beekem/src/tree.rs b/beekem/src/tree.rs
index 4339ad0..1f3f877 100644
--- a/beekem/src/tree.rs
+++ b/beekem/src/tree.rs
@@ -106,19 +106,20 @@ impl BeeKem {
     /// Sorting concurrently added leaves deterministically resolves add conflicts
     /// (e.g., if two members concurrently add distinct members to the same leaf).
     ///
-    /// `vacated_leaves` are the leaves that removed (or concurrently re-added) members
-    /// actually had in this tree. When merging, that can differ from the leaf the
-    /// remover saw.
+    /// `changed_leaves` are the leaves that removed (or concurrently re-added) members
+    /// actually had in this tree (when merging, that can differ from the leaf the
+    /// remover saw), and the leaves of members whose concurrent update only applied to
+    /// their leaf.
     pub fn sort_leaves_and_blank_paths_for_concurrent_membership_changes(
         &mut self,
         mut added_ids: Set<MemberId>,
-        vacated_leaves: Set<u32>,
+        changed_leaves: Set<u32>,
     ) {
         let mut leaves_to_sort = Vec::new();
-        for idx in vacated_leaves {
-            // We should have already blanked this leaf during merge (and somebody
-            // else might have been added there since), but concurrent updates at
-            // other leaves with intersecting paths must be overridden by this change.
+        for idx in changed_leaves {
+            // We should have already blanked this path during merge, but concurrent
+            // updates at other leaves with intersecting paths must be overridden by
+            // this change.
             self.blank_path(treemath::parent(LeafNodeIndex::new(idx).into()));
         }
         // Ids that were also removed might no longer be present.
@@ -577,14 +578,17 @@ impl BeeKem {
     }
 
     /// Whether the [`PathChange`] still makes sense given the state of the tree
-    /// we are attempting to merge it into.
-    fn is_valid_path(&self, new_path: &PathChange) -> bool {
-        debug_assert!(self.id_to_leaf_idx.contains_key(&new_path.leaf_id));
-        let leaf_idx = self
-            .leaf_index_for_id(new_path.leaf_id)
-            .expect("Id should be present");
-        new_path.path.len() == self.path_length_for(LeafNodeIndex::new(new_path.leaf_idx))
-            && leaf_idx.u32() == new_path.leaf_idx
+    /// we are attempting to merge it into: this id still has the same leaf, and
+    /// the path from there to the root goes through the same nodes.
+    pub(crate) fn is_valid_path(&self, new_path: &PathChange) -> bool {
+        let Ok(leaf_idx) = self.leaf_index_for_id(new_path.leaf_id) else {
+            return false;
+        };
+        leaf_idx.u32() == new_path.leaf_idx
+            && treemath::direct_path((*leaf_idx).into(), self.tree_size)
+                .iter()
+                .map(|idx| idx.u32())
+                .eq(new_path.path.iter().map(|(idx, _)| *idx))
     }
 
     /// Growing the tree will add a new root and a new subtree, all blank.
@@ -607,10 +611,6 @@ impl BeeKem {
         idx == treemath::root(self.tree_size)
     }
 
-    fn path_length_for(&self, idx: LeafNodeIndex) -> usize {
-        treemath::direct_path(idx.into(), self.tree_size).len()
-    }
-
     /// Highest non-blank, non-conflict descendants of a node
     fn append_resolution(&self, idx: TreeNodeIndex, acc: &mut Vec<TreeNodeIndex>) {
         if self.should_skip_for_resolution(idx) {
-- 
2.43.0


From 2ec667df4bb5dc68713999e80abe0d5dd6b8cb31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:08 +0000
Subject: [PATCH 11/59] fix: revoking a grant also drops what was delegated
 from it

---
 keyhive_core/src/principal/group.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/keyhive_core/src/principal/group.rs b/keyhive_core/src/principal/group.rs
index ad48193..f52e36d 100644
--- a/keyhive_core/src/principal/group.rs
+++ b/keyhive_core/src/principal/group.rs
@@ -744,20 +744,19 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
                             })
                             .or_insert_with(|| HashSet::from_iter([d.signature.to_bytes()]));
 
-                        // If the proof was directly revoked, then check if they've been
-                        // re-added some other way. Since `rebuild` recurses,
+                        // If the proof was directly revoked, then check if its holder has
+                        // been re-added some other way. Since `rebuild` recurses,
                         // we only need to check one level.
                         if revoked_dlgs.contains(&found_proof.signature.to_bytes())
                             || !dlgs_in_play.contains_key(&found_proof.signature.to_bytes())
                         {
-                            if let Some(alt_proofs) = self.members.get(&found_proof.issuer.into()) {
-                                if alt_proofs.iter().filter(|d| *d != found_proof).all(
-                                    |alt_proof| alt_proof.payload.can < found_proof.payload.can,
-                                ) {
-                                    // No suitable proofs
-                                    continue;
-                                }
-                            } else if found_proof.issuer != self.verifying_key() {
+                            let holder = found_proof.payload.delegate.id();
+                            let has_alt_proof = self.members.get(&holder).is_some_and(|alts| {
+                                alts.iter().any(|alt| alt.payload.can >= d.payload.can)
+                            });
+
+                            if !has_alt_proof {
+                                // No suitable proofs
                                 continue;
                             }
                         }
@@ -817,6 +816,7 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
                                 revoked_dlgs.insert(*dlg_sig);
 
                                 if let Some(dep_dlg) = dlgs_in_play.remove(dlg_sig) {
+                                    to_drop.push((dep_dlg.payload.delegate.id(), *dlg_sig));
                                     next_to_revoke.push(dep_dlg.signature.to_bytes());
                                 }
                             }
-- 
2.43.0


From ffec3fd55c1ef9cee7904e349eaab12c2491e7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:53 +0000
Subject: [PATCH 12/59] fix: authority through a nested group is no more than
 that group's own

---
 keyhive_core/src/principal/group.rs       | 11 +++++++----
 keyhive_core/src/principal/group/state.rs | 16 +++++++++-------
 2 files changed, 16 insertions(+), 11 deletions(-)

diff --git a/keyhive_core/src/principal/group.rs b/keyhive_core/src/principal/group.rs
index f52e36d..72ed4a6 100644
--- a/keyhive_core/src/principal/group.rs
+++ b/keyhive_core/src/principal/group.rs
@@ -470,12 +470,14 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
                 if let Some(m) = dlg.payload.delegate.as_membered() {
                     let sub_members = m.transitive_members().await;
                     if let Some((_, sub_access)) = sub_members.get(&signer_id) {
-                        if *sub_access >= can {
+                        // The path through the member is worth its weakest link
+                        let access = *sub_access.min(&dlg.payload.can);
+                        if access >= can {
                             best_proof = Some(dlg.dupe());
                             break;
                         }
-                        if best_access.is_none_or(|a| *sub_access > a) {
-                            best_access = Some(*sub_access);
+                        if best_access.is_none_or(|a| access > a) {
+                            best_access = Some(access);
                         }
                     }
                 }
@@ -630,7 +632,8 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
                         if let Some(m) = dlg.payload.delegate.as_membered() {
                             let sub_members = m.transitive_members().await;
                             if let Some((_, sub_access)) = sub_members.get(&signer_id) {
-                                if *sub_access >= to_revoke.payload.can {
+                                // The path through the member is worth its weakest link
+                                if *sub_access.min(&dlg.payload.can) >= to_revoke.payload.can {
                                     let r = self
                                         .build_revocation(
                                             signer,
diff --git a/keyhive_core/src/principal/group/state.rs b/keyhive_core/src/principal/group/state.rs
index 76430ae..c2b8e97 100644
--- a/keyhive_core/src/principal/group/state.rs
+++ b/keyhive_core/src/principal/group/state.rs
@@ -215,7 +215,8 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
             // The proof only speaks for those who issued it or hold it. Its issuer and its
             // holder may revoke it and anything descending from it, a member may renounce
             // their own grants, and anyone with transitive access through the proof's
-            // delegate (a group/doc intermediary) may revoke up to that access.
+            // delegate (a group/doc intermediary) may revoke up to that access, as far as
+            // the proof itself goes.
             let revoked = &revocation.payload.revoke;
             let revoker_id = Identifier::from(revocation.issuer);
             let holds_proof = proof.payload.delegate.id() == revoker_id;
@@ -226,12 +227,13 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
             };
 
             if !is_authorized
-                && !is_transitive_member_of(
-                    &proof.payload.delegate,
-                    revoker_id,
-                    revoked.payload.can,
-                )
-                .await
+                && (proof.payload.can < revoked.payload.can
+                    || !is_transitive_member_of(
+                        &proof.payload.delegate,
+                        revoker_id,
+                        revoked.payload.can,
+                    )
+                    .await)
             {
                 return Err(AddError::InvalidProofChain);
             }
-- 
2.43.0


From 3c8306880abe3643fe62d8a47e3133673e52c811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:53 +0000
Subject: [PATCH 13/59] fix: a delegation received again does not become a head
 again

---
 keyhive_core/src/principal/group/state.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/keyhive_core/src/principal/group/state.rs b/keyhive_core/src/principal/group/state.rs
index c2b8e97..b96677a 100644
--- a/keyhive_core/src/principal/group/state.rs
+++ b/keyhive_core/src/principal/group/state.rs
@@ -182,9 +182,10 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
             }
         }
 
+        let mut is_head = true;
         for (head_digest, head) in self.delegation_heads.clone().iter() {
-            if !delegation.payload.is_ancestor_of(head) {
-                self.delegation_heads.insert(delegation.dupe());
+            if delegation.payload.is_ancestor_of(head) {
+                is_head = false;
             }
 
             if head.payload.is_ancestor_of(&delegation) {
@@ -192,6 +193,10 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
             }
         }
 
+        if is_head {
+            self.delegation_heads.insert(delegation.dupe());
+        }
+
         for (head_digest, head) in self.revocation_heads.clone().iter() {
             if delegation.payload.after_revocations.contains(head) {
                 self.revocation_heads.remove_by_hash(head_digest);
-- 
2.43.0


From 87d7390e1ac28a80a3f9e38348105d23b68024b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:07 +0000
Subject: [PATCH 14/59] fix: support by another grant of the proof's holder
 does not depend on order

---
 keyhive_core/src/principal/group.rs | 52 +++++++++++++++++++++++++++++
 1 file changed, 52 insertions(+)

diff --git a/keyhive_core/src/principal/group.rs b/keyhive_core/src/principal/group.rs
index 72ed4a6..a4de11b 100644
--- a/keyhive_core/src/principal/group.rs
+++ b/keyhive_core/src/principal/group.rs
@@ -726,6 +726,7 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
         let mut dlgs_in_play: HashMap<[u8; 64], Arc<Signed<Delegation<F, S, T, L>>>> =
             HashMap::new();
         let mut revoked_dlgs: HashSet<[u8; 64]> = HashSet::new();
+        let mut rooted_dlgs: Vec<Arc<Signed<Delegation<F, S, T, L>>>> = vec![];
 
         // {dlg_dep => Set<dlgs that depend on it>}
         let mut reverse_dlg_dep_map: HashMap<[u8; 64], HashSet<[u8; 64]>> = HashMap::new();
@@ -738,6 +739,8 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
         while let Some((_, op)) = ops.pop() {
             match op {
                 MembershipOperation::Delegation(d) => {
+                    rooted_dlgs.push(d.dupe());
+
                     // NOTE: friendly reminder that the topsort already includes all ancestors
                     if let Some(found_proof) = &d.payload.proof {
                         reverse_dlg_dep_map
@@ -765,6 +768,7 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
                         }
                     } else if d.issuer != self.verifying_key() {
                         debug_assert!(false, "Delegation without valid root proof");
+                        rooted_dlgs.pop();
                         continue;
                     }
 
@@ -847,6 +851,54 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
                 }
             }
         }
+
+        // Whether a grant can rest on another grant of its proof's holder must not depend on
+        // which of the two happens to come first in the order above, nor on grants that were
+        // revoked later in it. So, the revocations in force being known, start again from the
+        // roots and add every grant that is supported until there are no more.
+        let revoked: HashSet<[u8; 64]> = self
+            .active_revocations
+            .values()
+            .map(|r| r.payload.revoke.signature.to_bytes())
+            .collect();
+        let mut live: HashSet<[u8; 64]> = HashSet::new();
+        self.members.clear();
+
+        loop {
+            let before = live.len();
+
+            for d in rooted_dlgs.iter() {
+                let sig = d.signature.to_bytes();
+                if live.contains(&sig) || revoked.contains(&sig) {
+                    continue;
+                }
+
+                let is_supported =
+                    match &d.payload.proof {
+                        None => true,
+                        Some(proof) => {
+                            live.contains(&proof.signature.to_bytes())
+                                || self.members.get(&proof.payload.delegate.id()).is_some_and(
+                                    |alts| alts.iter().any(|alt| alt.payload.can >= d.payload.can),
+                                )
+                        }
+                    };
+
+                if is_supported {
+                    live.insert(sig);
+                    if let Some(mut_dlgs) = self.members.get_mut(&d.payload.delegate.id()) {
+                        mut_dlgs.push(d.dupe());
+                    } else {
+                        self.members
+                            .insert(d.payload.delegate.id(), nonempty![d.dupe()]);
+                    }
+                }
+            }
+
+            if live.len() == before {
+                break;
+            }
+        }
     }
 
     pub(crate) fn dummy_from_archive(
-- 
2.43.0


From d09cda84c9559b1e191aa412750c9e5083993219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:28 +0000
Subject: [PATCH 15/59] fix: verify the first prekey op of a stranger before
 trusting it

---
 keyhive_core/src/keyhive.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/keyhive_core/src/keyhive.rs b/keyhive_core/src/keyhive.rs
index bf5ad8d..fe26abb 100644
--- a/keyhive_core/src/keyhive.rs
+++ b/keyhive_core/src/keyhive.rs
@@ -350,6 +350,7 @@ impl<
                 .receive_prekey_op(contact_card.op().dupe())?;
             indie.dupe()
         } else {
+            contact_card.op().try_verify()?;
             let new_user = Arc::new(Mutex::new(Individual::from(contact_card)));
             self.register_individual(new_user.dupe()).await;
             new_user
@@ -1544,6 +1545,7 @@ impl<
         let agent = if let Some(agent) = self.get_agent(id).await {
             agent
         } else {
+            key_op.try_verify()?;
             let indie = Arc::new(Mutex::new(Individual::new(key_op.clone())));
             self.register_individual(indie.dupe()).await;
             Agent::Individual(id.into(), indie)
@@ -1567,6 +1569,7 @@ impl<
                 if let IdOrIndividual::Individual(indie) = &mut locked.id_or_indie {
                     indie.receive_prekey_op(key_op.clone())?;
                 } else {
+                    key_op.try_verify()?;
                     let individual = Individual::new(key_op.dupe());
                     locked.id_or_indie = IdOrIndividual::Individual(individual);
                 }
@@ -1576,6 +1579,7 @@ impl<
                 if let IdOrIndividual::Individual(indie) = &mut locked.group.id_or_indie {
                     indie.receive_prekey_op(key_op.clone())?;
                 } else {
+                    key_op.try_verify()?;
                     let individual = Individual::new(key_op.dupe());
                     locked.group.id_or_indie = IdOrIndividual::Individual(individual);
                 }
-- 
2.43.0


From f2e0312edd352f63aadd13971cb23ea56d2c6cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:28 +0000
Subject: [PATCH 16/59] fix: a picked prekey index is always in range

---
 keyhive_core/src/principal/individual.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/keyhive_core/src/principal/individual.rs b/keyhive_core/src/principal/individual.rs
index da4572c..7bdf281 100644
--- a/keyhive_core/src/principal/individual.rs
+++ b/keyhive_core/src/principal/individual.rs
@@ -222,7 +222,7 @@ fn pseudorandom_in_range(seed: &[u8], max: usize) -> usize {
     while idx.is_none() {
         hash_stream.fill(&mut buf);
         let raw_idx: usize = clamp(buf, shiftsize);
-        if raw_idx <= max {
+        if raw_idx < max || max == 0 {
             idx = Some(raw_idx)
         }
     }
-- 
2.43.0


From c1ac555aadd4516f27ae63c2010991b7ed18252b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:28 +0000
Subject: [PATCH 17/59] fix: rotating prekeys in a circle does not leave none

---
 keyhive_core/src/principal/individual/state.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/keyhive_core/src/principal/individual/state.rs b/keyhive_core/src/principal/individual/state.rs
index 561fa8e..8e5657e 100644
--- a/keyhive_core/src/principal/individual/state.rs
+++ b/keyhive_core/src/principal/individual/state.rs
@@ -138,10 +138,16 @@ impl PrekeyState {
             }
         }
 
+        let all_keys = keys.clone();
         for tombstone in to_drop {
             keys.remove(&tombstone);
         }
 
+        // Rotations that form a cycle would retire every key
+        if keys.is_empty() {
+            return all_keys;
+        }
+
         keys
     }
 }
-- 
2.43.0


From ab6dc9ff3eb44a4e5bfc9fc54fcc42d6af04168c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:08 +0000
Subject: [PATCH 18/59] fix: order all prekey ops, also ones rotating an
 unknown key or in a circle

---
 keyhive_core/src/principal/individual/op.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/keyhive_core/src/principal/individual/op.rs b/keyhive_core/src/principal/individual/op.rs
index 2963a81..345783b 100644
--- a/keyhive_core/src/principal/individual/op.rs
+++ b/keyhive_core/src/principal/individual/op.rs
@@ -37,6 +37,7 @@ impl KeyOp {
     pub fn topsort(key_ops: &CaMap<KeyOp>) -> Vec<Arc<KeyOp>> {
         let mut heads: Vec<Arc<KeyOp>> = vec![];
         let mut rotate_key_ops: HashMap<ShareKey, Vec<Arc<KeyOp>>> = HashMap::new();
+        let known_keys: HashSet<&ShareKey> = key_ops.values().map(|op| op.new_key()).collect();
 
         for key_op in key_ops.values() {
             match key_op.as_ref() {
@@ -44,6 +45,11 @@ impl KeyOp {
                     heads.push(key_op.dupe());
                 }
                 KeyOp::Rotate(rot) => {
+                    if !known_keys.contains(&rot.payload.old) {
+                        // e.g. from a contact card: the op that added the old key is unknown
+                        heads.push(key_op.dupe());
+                    }
+
                     rotate_key_ops
                         .entry(rot.payload.old)
                         .or_default()
@@ -53,8 +59,15 @@ impl KeyOp {
         }
 
         let mut topsorted = vec![];
+        let mut visited: HashSet<Arc<KeyOp>> = HashSet::new();
+        // Rotations that form a cycle have no first op, so are picked up last
+        let mut remaining = key_ops.values();
+
+        while let Some(head) = heads.pop().or_else(|| remaining.next().cloned()) {
+            if !visited.insert(head.dupe()) {
+                continue;
+            }
 
-        while let Some(head) = heads.pop() {
             if let Some(ops) = rotate_key_ops.get(head.new_key()) {
                 for op in ops.iter() {
                     heads.push(op.dupe());
-- 
2.43.0


From 16c2495f9d24ab583db2e2979eb92ccb32a0b3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:26 +0000
Subject: [PATCH 19/59] fix: a revocation's proof must be on the group it
 revokes from

---
 keyhive_core/src/principal/group/state.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/keyhive_core/src/principal/group/state.rs b/keyhive_core/src/principal/group/state.rs
index b96677a..d31281e 100644
--- a/keyhive_core/src/principal/group/state.rs
+++ b/keyhive_core/src/principal/group/state.rs
@@ -217,6 +217,10 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
         }
 
         if let Some(proof) = &revocation.payload.proof {
+            if proof.subject_id() != Identifier::from(self.id) {
+                return Err(AddError::InvalidProofChain);
+            }
+
             // The proof only speaks for those who issued it or hold it. Its issuer and its
             // holder may revoke it and anything descending from it, a member may renounce
             // their own grants, and anyone with transitive access through the proof's
-- 
2.43.0


From 7486d11945beb68baa9380e3f23d5f366facd8ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:36 +0000
Subject: [PATCH 20/59] fix: adding a revoked member again comes after their
 revocation

---
 keyhive_core/src/principal/group.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/keyhive_core/src/principal/group.rs b/keyhive_core/src/principal/group.rs
index a4de11b..83a894d 100644
--- a/keyhive_core/src/principal/group.rs
+++ b/keyhive_core/src/principal/group.rs
@@ -495,13 +495,29 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
             }
         };
 
+        let mut after_revocations: Vec<_> = self.state.revocation_heads.values().duped().collect();
+
+        // Adding a member again has to come after they were revoked, even where later grants
+        // have already covered that revocation: without it, this would be the very grant that
+        // was revoked.
+        let member_id = member_to_add.id();
+        let mut earlier: Vec<_> = self
+            .active_revocations
+            .iter()
+            .filter(|(_, r)| r.payload.revoke.payload.delegate.id() == member_id)
+            .filter(|(_, r)| !after_revocations.contains(r))
+            .map(|(sig, r)| (*sig, r.dupe()))
+            .collect();
+        earlier.sort_by_key(|(sig, _)| *sig);
+        after_revocations.extend(earlier.into_iter().map(|(_, r)| r));
+
         let delegation = keyhive_crypto::signer::async_signer::try_sign_async::<F, _, _>(
             signer,
             Delegation {
                 delegate: member_to_add,
                 can,
                 proof,
-                after_revocations: self.state.revocation_heads.values().duped().collect(),
+                after_revocations,
                 after_content,
             },
         )
-- 
2.43.0


From e536f4ca27de1cda9571da6a720eb21ab024a748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:41 +0000
Subject: [PATCH 21/59] fix: a refused revocation revokes nothing

---
 keyhive_core/src/principal/group.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/keyhive_core/src/principal/group.rs b/keyhive_core/src/principal/group.rs
index 83a894d..3ca5aff 100644
--- a/keyhive_core/src/principal/group.rs
+++ b/keyhive_core/src/principal/group.rs
@@ -569,7 +569,6 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
                 let r = self
                     .build_revocation(signer, to_revoke.dupe(), None, after_content.clone())
                     .await?;
-                self.receive_revocation(r.dupe()).await?;
                 revocations.push(r);
             }
         } else {
@@ -598,7 +597,6 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
                                     after_content.clone(),
                                 )
                                 .await?;
-                            self.receive_revocation(r.dupe()).await?;
                             revocations.push(r);
                             found = true;
                         }
@@ -614,7 +612,6 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
                             after_content.clone(),
                         )
                         .await?;
-                    self.receive_revocation(r.dupe()).await?;
                     revocations.push(r);
                     found = true;
                 } else {
@@ -630,8 +627,7 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
                                     after_content.clone(),
                                 )
                                 .await?;
-                            revocations.push(r.dupe());
-                            self.receive_revocation(r).await?;
+                            revocations.push(r);
                             break;
                         }
                     }
@@ -658,8 +654,7 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
                                             after_content.clone(),
                                         )
                                         .await?;
-                                    revocations.push(r.dupe());
-                                    self.receive_revocation(r).await?;
+                                    revocations.push(r);
                                     found = true;
                                     break;
                                 }
@@ -674,6 +669,11 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
             }
         }
 
+        // Only once all of them can be revoked, so that a refusal leaves everything as it was
+        for r in revocations.iter() {
+            self.receive_revocation(r.dupe()).await?;
+        }
+
         for r in revocations.iter() {
             self.listener.on_revocation(r).await
         }
-- 
2.43.0


From dec69a2ab7f7a2f5bffdf8465aef739e0d49ad55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:41 +0000
Subject: [PATCH 22/59] fix: a revocation holds whatever became of the access
 of its proof's issuer

---
 keyhive_core/src/principal/group.rs | 15 +--------------
 1 file changed, 1 insertion(+), 14 deletions(-)

diff --git a/keyhive_core/src/principal/group.rs b/keyhive_core/src/principal/group.rs
index 3ca5aff..67c8246 100644
--- a/keyhive_core/src/principal/group.rs
+++ b/keyhive_core/src/principal/group.rs
@@ -802,20 +802,7 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
                     }
                 }
                 MembershipOperation::Revocation(r) => {
-                    if let Some(found_proof) = &r.payload.proof {
-                        if revoked_dlgs.contains(&found_proof.signature.to_bytes())
-                            || !dlgs_in_play.contains_key(&found_proof.signature.to_bytes())
-                        {
-                            if let Some(alt_proofs) = self.members.get(&found_proof.issuer.into()) {
-                                if !alt_proofs
-                                    .iter()
-                                    .any(|p| p.payload.can >= found_proof.payload.can)
-                                {
-                                    continue;
-                                }
-                            }
-                        }
-                    } else if r.issuer != self.verifying_key() {
+                    if r.payload.proof.is_none() && r.issuer != self.verifying_key() {
                         debug_assert!(false, "Revocation without valid root proof");
                         continue;
                     }
-- 
2.43.0


From 4055babc819fbf307c21685be73b2eb1ae5877d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:51 +0000
Subject: [PATCH 23/59] fix: comparing tree node indices does not overflow

---
 beekem/src/treemath.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/beekem/src/treemath.rs b/beekem/src/treemath.rs
index e8d037b..52ffae8 100644
--- a/beekem/src/treemath.rs
+++ b/beekem/src/treemath.rs
@@ -199,7 +199,14 @@ impl TreeNodeIndex {
 
 impl Ord for TreeNodeIndex {
     fn cmp(&self, other: &TreeNodeIndex) -> Ordering {
-        self.u32().cmp(&other.u32())
+        // Widened, since a decoded index can be anything and must not overflow here.
+        fn position(idx: &TreeNodeIndex) -> u64 {
+            match idx {
+                TreeNodeIndex::Leaf(index) => u64::from(index.u32()) * 2,
+                TreeNodeIndex::Inner(index) => u64::from(index.u32()) * 2 + 1,
+            }
+        }
+        position(self).cmp(&position(other))
     }
 }
 
-- 
2.43.0


From 4579dca7d8fa6052a3984b5999973b57d3c1dd08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:51 +0000
Subject: [PATCH 24/59] fix: reject signatures by keys of small order

---
 keyhive_crypto/src/signed.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/keyhive_crypto/src/signed.rs b/keyhive_crypto/src/signed.rs
index 3ee4a7b..17ac2ad 100644
--- a/keyhive_crypto/src/signed.rs
+++ b/keyhive_crypto/src/signed.rs
@@ -10,8 +10,6 @@ use core::{
 };
 #[cfg(feature = "std")]
 use dupe::Dupe;
-#[cfg(feature = "std")]
-use ed25519_dalek::Verifier;
 use serde::{Deserialize, Serialize};
 #[cfg(feature = "std")]
 use std::sync::OnceLock;
@@ -150,6 +148,9 @@ impl<T: Serialize + Debug> Signed<T> {
     ///
     /// Requires the `std` feature (uses [`bincode`] for serialization).
     ///
+    /// This is strict verification: issuers of small order are rejected, since a single
+    /// signature would verify under them for any number of payloads.
+    ///
     /// # Examples
     ///
     /// ```
@@ -165,7 +166,7 @@ impl<T: Serialize + Debug> Signed<T> {
         let buf: Vec<u8> = bincode::serialize(&self.payload)?;
         Ok(self
             .verifying_key()
-            .verify(buf.as_slice(), &self.signature)?)
+            .verify_strict(buf.as_slice(), &self.signature)?)
     }
 
     /// Map over the payload of the signed data.
-- 
2.43.0


From 1bc4daa2ad1d66da9600962807543a6682654840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:24 +0000
Subject: [PATCH 25/59] test_utils: tree arithmetic with plain numbers, for
 property tests

---
 beekem/src/treemath.rs | 60 ++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 60 insertions(+)

diff --git a/beekem/src/treemath.rs b/beekem/src/treemath.rs
index 52ffae8..b08d63d 100644
--- a/beekem/src/treemath.rs
+++ b/beekem/src/treemath.rs
@@ -410,3 +410,63 @@ fn test_node_not_in_tree() {
         ));
     }
 }
+
+/// The tree arithmetic with plain numbers, for property tests outside of this crate.
+/// Leaf `i` is node `2 * i`, inner node `i` is node `2 * i + 1`.
+#[cfg(feature = "test_utils")]
+pub mod numbers {
+    use super::*;
+
+    /// The number of nodes of the smallest tree with room for `nodes` nodes.
+    pub fn size_for_nodes(nodes: u32) -> u32 {
+        TreeSize::new(nodes).u32()
+    }
+
+    /// The number of nodes of the smallest tree with room for `leaves` leaves.
+    pub fn size_for_leaves(leaves: u32) -> u32 {
+        TreeSize::from_leaf_count(leaves).u32()
+    }
+
+    /// Leaf count, inner node count and root of the tree with `size` nodes, and the
+    /// size of the next larger tree.
+    pub fn tree(size: u32) -> (u32, u32, u32, u32) {
+        let size = TreeSize::new(size);
+        let mut next = size;
+        next.inc();
+        (
+            size.leaf_count(),
+            size.inner_node_count(),
+            root(size).u32(),
+            next.u32(),
+        )
+    }
+
+    /// Left and right child of an inner node.
+    pub fn children(node: u32) -> (u32, u32) {
+        let inner = InnerNodeIndex::from_tree_index(node);
+        (left(inner).u32(), right(inner).u32())
+    }
+
+    /// Parent of a node.
+    pub fn parent_of(node: u32) -> u32 {
+        parent(TreeNodeIndex::new(node)).to_tree_index()
+    }
+
+    /// Sibling of a node.
+    pub fn sibling_of(node: u32) -> u32 {
+        sibling(TreeNodeIndex::new(node)).u32()
+    }
+
+    /// The nodes above a node, in a tree with `size` nodes.
+    pub fn direct_path_of(node: u32, size: u32) -> Vec<u32> {
+        direct_path(TreeNodeIndex::new(node), TreeSize::new(size))
+            .iter()
+            .map(|i| i.to_tree_index())
+            .collect()
+    }
+
+    /// Compare two nodes by their position in the tree.
+    pub fn compare(a: u32, b: u32) -> Ordering {
+        TreeNodeIndex::new(a).cmp(&TreeNodeIndex::new(b))
+    }
+}
-- 
2.43.0


From 474aef7ae2c36f0655376a911c557ba24201873e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:24 +0000
Subject: [PATCH 26/59] fix: beekem's dependency sort returns what is ready in
 order, as documented

---
 beekem/src/topsort.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/beekem/src/topsort.rs b/beekem/src/topsort.rs
index 7d27c16..a9433a7 100644
--- a/beekem/src/topsort.rs
+++ b/beekem/src/topsort.rs
@@ -46,12 +46,13 @@ impl<T: Eq + Hash + Ord + Clone> TopologicalSort<T> {
     ///
     /// Returns them sorted for determinism.
     pub fn pop_all(&mut self) -> Vec<T> {
-        let ready: Vec<T> = self
+        let mut ready: Vec<T> = self
             .deps
             .iter()
             .filter(|(_, deps)| deps.is_empty())
             .map(|(node, _)| node.clone())
             .collect();
+        ready.sort();
 
         for node in &ready {
             self.deps.remove(node);
-- 
2.43.0


From b94a979d643baadef4890e429228c7f3502abdae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:09 +0000
Subject: [PATCH 27/59] fix: the deque listener's pop_latest and pop_earliest
 were each other

---
 keyhive_core/src/listener/deque.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/keyhive_core/src/listener/deque.rs b/keyhive_core/src/listener/deque.rs
index e08d31a..7ef8205 100644
--- a/keyhive_core/src/listener/deque.rs
+++ b/keyhive_core/src/listener/deque.rs
@@ -36,12 +36,12 @@ where
 
     pub async fn pop_latest(&self) -> Option<Event<F, S, T, Self>> {
         let mut locked = self.0.lock().await;
-        locked.pop_front()
+        locked.pop_back()
     }
 
     pub async fn pop_earliest(&self) -> Option<Event<F, S, T, Self>> {
         let mut locked = self.0.lock().await;
-        locked.pop_back()
+        locked.pop_front()
     }
 
     pub async fn is_empty(&self) -> bool {
-- 
2.43.0


From 5ca86415e061c5855ce38e6213712dd75565193b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:09 +0000
Subject: [PATCH 28/59] fix: the in-memory ciphertext store's index by PCS
 update matches what it holds

---
 keyhive_core/src/store/ciphertext/memory.rs | 62 ++++++++++++---------
 1 file changed, 37 insertions(+), 25 deletions(-)

diff --git a/keyhive_core/src/store/ciphertext/memory.rs b/keyhive_core/src/store/ciphertext/memory.rs
index 590a662..3196a95 100644
--- a/keyhive_core/src/store/ciphertext/memory.rs
+++ b/keyhive_core/src/store/ciphertext/memory.rs
@@ -76,7 +76,10 @@ impl<Cr: ContentRef, P> MemoryCiphertextStore<Cr, P> {
                     if let Some(digests) = locked.refs_to_digests.get(content_ref) {
                         for digest in digests.iter() {
                             if let Some((_, encrypted)) = locked.store.get(digest) {
-                                acc.push(encrypted.dupe());
+                                // The same content may be encrypted under other updates, too
+                                if &encrypted.pcs_update_op_hash == pcs_update_op {
+                                    acc.push(encrypted.dupe());
+                                }
                             }
                         }
                     }
@@ -133,33 +136,13 @@ impl<Cr: ContentRef, P> MemoryCiphertextStore<Cr, P> {
         let mut locked = self.0.lock().await;
         let (_, encrypted) = locked.store.remove(digest)?;
 
-        locked
-            .ops_to_refs
-            .entry(encrypted.pcs_update_op_hash)
-            .and_modify(|crs| {
-                crs.remove(&encrypted.content_ref);
-            });
-
-        if locked
-            .ops_to_refs
-            .get(&encrypted.pcs_update_op_hash)?
-            .is_empty()
-        {
-            locked.ops_to_refs.remove(&encrypted.pcs_update_op_hash);
-        }
-
-        locked
-            .refs_to_digests
-            .entry(encrypted.content_ref.clone())
-            .and_modify(|digests| {
-                digests.remove(digest);
-            });
-
-        if let Some(digests) = locked.refs_to_digests.get(&encrypted.content_ref) {
+        if let Some(digests) = locked.refs_to_digests.get_mut(&encrypted.content_ref) {
+            digests.remove(digest);
             if digests.is_empty() {
                 locked.refs_to_digests.remove(&encrypted.content_ref);
             }
         }
+        locked.forget_op_for_ref(&encrypted.pcs_update_op_hash, &encrypted.content_ref);
 
         Some(encrypted)
     }
@@ -169,7 +152,9 @@ impl<Cr: ContentRef, P> MemoryCiphertextStore<Cr, P> {
         let mut locked = self.0.lock().await;
         if let Some(digests) = locked.refs_to_digests.remove(content_ref) {
             for digest in digests.iter() {
-                locked.store.remove(digest);
+                if let Some((_, encrypted)) = locked.store.remove(digest) {
+                    locked.forget_op_for_ref(&encrypted.pcs_update_op_hash, content_ref);
+                }
             }
             true
         } else {
@@ -178,6 +163,33 @@ impl<Cr: ContentRef, P> MemoryCiphertextStore<Cr, P> {
     }
 }
 
+impl<Cr: ContentRef, P> MemoryCiphertextStoreInner<Cr, P> {
+    /// Drop `content_ref` from the index by PCS update, unless some ciphertext of it
+    /// under that update is left.
+    fn forget_op_for_ref(
+        &mut self,
+        pcs_update_op: &Digest<Signed<CgkaOperation>>,
+        content_ref: &Cr,
+    ) {
+        let is_left = self
+            .refs_to_digests
+            .get(content_ref)
+            .into_iter()
+            .flatten()
+            .filter_map(|digest| self.store.get(digest))
+            .any(|(_, encrypted)| &encrypted.pcs_update_op_hash == pcs_update_op);
+        if is_left {
+            return;
+        }
+        if let Some(content_refs) = self.ops_to_refs.get_mut(pcs_update_op) {
+            content_refs.remove(content_ref);
+            if content_refs.is_empty() {
+                self.ops_to_refs.remove(pcs_update_op);
+            }
+        }
+    }
+}
+
 impl<T: ContentRef, P> Default for MemoryCiphertextStore<T, P> {
     fn default() -> Self {
         Self::new()
-- 
2.43.0


From 1615320bb592f99f9d1082206d323c92059c650e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:09 +0000
Subject: [PATCH 29/59] fix: a causal decryption reports direct ancestors it
 did not find

---
 keyhive_core/src/principal/document.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/keyhive_core/src/principal/document.rs b/keyhive_core/src/principal/document.rs
index 9c02e05..c5b0213 100644
--- a/keyhive_core/src/principal/document.rs
+++ b/keyhive_core/src/principal/document.rs
@@ -573,7 +573,16 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
             }
         }
 
-        Ok(store.try_causal_decrypt(&mut to_decrypt).await?)
+        match store.try_causal_decrypt(&mut to_decrypt).await {
+            Ok(mut progress) => {
+                progress.next.extend(acc.next);
+                Ok(progress)
+            }
+            Err(mut e) => {
+                e.progress.next.extend(acc.next);
+                Err(e.into())
+            }
+        }
     }
 
     #[instrument(skip_all)]
-- 
2.43.0


From a880069ecb82229ec836fc03e58d15f98d21cf65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:09 +0000
Subject: [PATCH 30/59] fix: the order of content addressed maps does not
 depend on hash iteration

---
 beekem/src/content_addressed_map.rs            | 14 +++++++-------
 keyhive_core/src/util/content_addressed_map.rs | 10 +++-------
 2 files changed, 10 insertions(+), 14 deletions(-)

diff --git a/beekem/src/content_addressed_map.rs b/beekem/src/content_addressed_map.rs
index ec642fb..478203a 100644
--- a/beekem/src/content_addressed_map.rs
+++ b/beekem/src/content_addressed_map.rs
@@ -4,7 +4,11 @@ use crate::{
     collections::Map,
     transact::{Fork, Merge},
 };
-use alloc::{collections::BTreeMap, sync::Arc, vec::Vec};
+use alloc::{
+    collections::{BTreeMap, BTreeSet},
+    sync::Arc,
+    vec::Vec,
+};
 use core::hash::{Hash, Hasher};
 use keyhive_crypto::digest::Digest;
 use serde::{Deserialize, Serialize};
@@ -152,12 +156,8 @@ impl<T: Serialize> FromIterator<T> for CaMap<T> {
 
 impl<T: Serialize + PartialEq> PartialOrd for CaMap<T> {
     fn partial_cmp(&self, other: &Self) -> Option<core::cmp::Ordering> {
-        Some(
-            self.0
-                .keys()
-                .collect::<Vec<_>>()
-                .cmp(&other.0.keys().collect::<Vec<_>>()),
-        )
+        let keys: BTreeSet<_> = self.0.keys().collect();
+        Some(keys.cmp(&other.0.keys().collect()))
     }
 }
 
diff --git a/keyhive_core/src/util/content_addressed_map.rs b/keyhive_core/src/util/content_addressed_map.rs
index f4ee990..f6995b8 100644
--- a/keyhive_core/src/util/content_addressed_map.rs
+++ b/keyhive_core/src/util/content_addressed_map.rs
@@ -3,7 +3,7 @@ use derive_where::derive_where;
 use keyhive_crypto::digest::Digest;
 use serde::{Deserialize, Serialize};
 use std::{
-    collections::{BTreeMap, HashMap},
+    collections::{BTreeMap, BTreeSet, HashMap},
     sync::Arc,
 };
 
@@ -152,12 +152,8 @@ impl<T: Serialize> FromIterator<T> for CaMap<T> {
 
 impl<T: Serialize + PartialEq> PartialOrd for CaMap<T> {
     fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {
-        Some(
-            self.0
-                .keys()
-                .collect::<Vec<_>>()
-                .cmp(&other.0.keys().collect::<Vec<_>>()),
-        )
+        let keys: BTreeSet<_> = self.0.keys().collect();
+        Some(keys.cmp(&other.0.keys().collect()))
     }
 }
 
-- 
2.43.0


From f4ba66d113a8a1ab2c626f8a648c3b3f50360435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:10 +0000
Subject: [PATCH 31/59] fix: the events offered to an agent are listed under
 their own digests

---
 keyhive_core/src/keyhive.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/keyhive_core/src/keyhive.rs b/keyhive_core/src/keyhive.rs
index fe26abb..39e6486 100644
--- a/keyhive_core/src/keyhive.rs
+++ b/keyhive_core/src/keyhive.rs
@@ -844,7 +844,10 @@ impl<
             .membership_ops_for_agent(agent)
             .await
             .into_iter()
-            .map(|(op_digest, op)| (op_digest.coerce(), op.into()))
+            .map(|(_, op)| {
+                let event = Event::<F, S, T, L>::from(op);
+                (Digest::hash(&event), event)
+            })
             .collect();
 
         for key_ops in self.reachable_prekey_ops_for_agent(agent).await.values() {
-- 
2.43.0


From 507b42eb3d7f60cd06895dd2bbbb8252a55681bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:06 +0000
Subject: [PATCH 32/59] fix: agents are offered the whole membership history of
 what they can or could reach, in bulk as singly

---
 keyhive_core/src/keyhive.rs                   | 142 +++++++++---------
 .../principal/group/membership_operation.rs   |  40 ++---
 2 files changed, 96 insertions(+), 86 deletions(-)

diff --git a/keyhive_core/src/keyhive.rs b/keyhive_core/src/keyhive.rs
index 39e6486..66474f2 100644
--- a/keyhive_core/src/keyhive.rs
+++ b/keyhive_core/src/keyhive.rs
@@ -924,14 +924,8 @@ impl<
         &self,
         agent: &Agent<F, S, T, L>,
     ) -> HashMap<Digest<MembershipOperation<F, S, T, L>>, MembershipOperation<F, S, T, L>> {
-        let mut ops = HashMap::new();
-        let mut visited_hashes = HashSet::new();
-
-        #[allow(clippy::type_complexity)]
-        let mut heads: Vec<(
-            Digest<MembershipOperation<F, S, T, L>>,
-            MembershipOperation<F, S, T, L>,
-        )> = Vec::new();
+        let mut heads = Vec::new();
+        let mut agent_ids = vec![agent.id()];
 
         for (mem_rc, _max_acces) in self.membered_reachable_by_agent(agent).await.values() {
             for (hash, dlg_head) in mem_rc.delegation_heads().await.iter() {
@@ -941,62 +935,76 @@ impl<
             for (hash, rev_head) in mem_rc.revocation_heads().await.iter() {
                 heads.push((hash.coerce(), rev_head.dupe().into()));
             }
-        }
 
-        // Include any revocations for this agent that were missed
-        if let Some(agent_revocations) = self
-            .revocations
-            .lock()
-            .await
-            .get_revocations_for_agent(&agent.agent_id())
-        {
-            for rev in agent_revocations {
-                let hash: Digest<MembershipOperation<F, S, T, L>> =
-                    Digest::hash(rev.as_ref()).coerce();
-                heads.push((hash, rev.into()));
-            }
+            agent_ids.push(mem_rc.agent_id().into());
         }
 
-        while let Some((hash, op)) = heads.pop() {
-            if visited_hashes.contains(&hash) {
-                continue;
+        match agent {
+            Agent::Group(_, group) => {
+                let locked = group.lock().await;
+                heads.extend(collect_membership_heads(
+                    locked.delegation_heads(),
+                    locked.revocation_heads(),
+                ));
+            }
+            Agent::Document(_, doc) => {
+                let locked = doc.lock().await;
+                heads.extend(collect_membership_heads(
+                    locked.delegation_heads(),
+                    locked.revocation_heads(),
+                ));
             }
+            Agent::Active(..) | Agent::Individual(..) => {}
+        }
 
-            visited_hashes.insert(hash);
-            ops.insert(hash, op.clone());
+        // Include any revocations for this agent that were missed, and those of the
+        // groups and docs through which it had access
+        let revocations = self.revocations_by_agent().await;
+        for rev in agent_ids
+            .iter()
+            .filter_map(|id| revocations.get(id))
+            .flatten()
+        {
+            heads.push((Digest::hash(rev.as_ref()).coerce(), rev.dupe().into()));
+        }
 
-            match op {
-                MembershipOperation::Delegation(dlg) => {
-                    if let Some(proof) = &dlg.payload.proof {
-                        heads.push((Digest::hash(proof.as_ref()).coerce(), proof.dupe().into()));
-                    }
+        bfs_membership_ops(heads).await
+    }
 
-                    for rev in dlg.payload.after_revocations.iter() {
-                        heads.push((Digest::hash(rev.as_ref()).coerce(), rev.dupe().into()));
-                    }
+    /// The revocations that took (or may have taken) a delegation away from each agent: those
+    /// of the delegation itself, and those of the delegations that it rests on.
+    #[allow(clippy::type_complexity)]
+    async fn revocations_by_agent(
+        &self,
+    ) -> HashMap<Identifier, HashSet<Arc<Signed<Revocation<F, S, T, L>>>>> {
+        let mut by_delegation: HashMap<Arc<Signed<Delegation<F, S, T, L>>>, Vec<_>> =
+            HashMap::new();
+        for rev in self.revocations.lock().await.values() {
+            by_delegation
+                .entry(rev.payload.revoke.dupe())
+                .or_default()
+                .push(rev.dupe());
+        }
 
-                    // If this delegation is to a group, include the group's delegation heads
-                    if let Agent::Group(_group_id, group) = &dlg.payload.delegate {
-                        for dlg in group.lock().await.delegation_heads().values() {
-                            let dlg_hash = Digest::hash(dlg.as_ref()).coerce();
-                            if !visited_hashes.contains(&dlg_hash) {
-                                heads.push((dlg_hash, dlg.dupe().into()));
-                            }
-                        }
-                    }
-                }
-                MembershipOperation::Revocation(rev) => {
-                    if let Some(proof) = &rev.payload.proof {
-                        heads.push((Digest::hash(proof.as_ref()).coerce(), proof.dupe().into()));
-                    }
+        let mut by_agent: HashMap<Identifier, HashSet<_>> = HashMap::new();
+        if by_delegation.is_empty() {
+            return by_agent;
+        }
 
-                    let r = rev.payload.revoke.dupe();
-                    heads.push((Digest::hash(r.as_ref()).coerce(), r.into()));
+        for dlg in self.delegations.lock().await.values() {
+            let mut next = Some(dlg);
+            while let Some(ancestor) = next {
+                if let Some(revs) = by_delegation.get(ancestor) {
+                    by_agent
+                        .entry(dlg.payload.delegate.id())
+                        .or_default()
+                        .extend(revs.iter().cloned());
                 }
+                next = ancestor.payload.proof.as_ref();
             }
         }
 
-        ops
+        by_agent
     }
 
     /// Compute membership ops for all agents in a single pass.
@@ -1031,6 +1039,7 @@ impl<
             let source_id: Identifier = group_id.into();
             ops.insert(source_id, bfs_membership_ops(heads).await);
 
+            index.entry(source_id).or_default().insert(source_id);
             for agent_id in transitive.keys() {
                 index.entry(*agent_id).or_default().insert(source_id);
             }
@@ -1050,6 +1059,7 @@ impl<
             let source_id: Identifier = doc_id.into();
             ops.insert(source_id, bfs_membership_ops(heads).await);
 
+            index.entry(source_id).or_default().insert(source_id);
             for agent_id in transitive.keys() {
                 index.entry(*agent_id).or_default().insert(source_id);
             }
@@ -1060,25 +1070,21 @@ impl<
         // NOTE: We must include revocations even for agents no longer in the index
         // (i.e., fully revoked agents), so that those revocation events can be
         // synced to the revoked peer.
-        {
-            let revocations = self.revocations.lock().await;
-            for (agent_id, agent_revs) in revocations.all_agent_revocations() {
-                let identifier: Identifier = (*agent_id).into();
-                let agent_ops = ops.entry(identifier).or_default();
-                let mut visited: HashSet<Digest<MembershipOperation<F, S, T, L>>> =
-                    agent_ops.keys().copied().collect();
-                for rev in agent_revs {
-                    let hash: Digest<MembershipOperation<F, S, T, L>> =
-                        Digest::hash(rev.as_ref()).coerce();
-                    if visited.insert(hash) {
-                        agent_ops.entry(hash).or_insert_with(|| rev.dupe().into());
-                        bfs_extend_from_revocation(rev, agent_ops, &mut visited).await;
-                    }
-                }
-                if !agent_ops.is_empty() {
-                    index.entry(identifier).or_default().insert(identifier);
+        for (identifier, agent_revs) in self.revocations_by_agent().await {
+            let agent_ops = ops.entry(identifier).or_default();
+            let mut visited: HashSet<Digest<MembershipOperation<F, S, T, L>>> =
+                agent_ops.keys().copied().collect();
+            for rev in agent_revs {
+                let hash: Digest<MembershipOperation<F, S, T, L>> =
+                    Digest::hash(rev.as_ref()).coerce();
+                if visited.insert(hash) {
+                    agent_ops.entry(hash).or_insert_with(|| rev.dupe().into());
+                    bfs_extend_from_revocation(&rev, agent_ops, &mut visited).await;
                 }
             }
+            if !agent_ops.is_empty() {
+                index.entry(identifier).or_default().insert(identifier);
+            }
         }
 
         AllMembershipOps { ops, index }
diff --git a/keyhive_core/src/principal/group/membership_operation.rs b/keyhive_core/src/principal/group/membership_operation.rs
index ab8b164..a93d232 100644
--- a/keyhive_core/src/principal/group/membership_operation.rs
+++ b/keyhive_core/src/principal/group/membership_operation.rs
@@ -615,10 +615,9 @@ pub fn collect_membership_heads<
 
 /// Enqueue BFS edges from a single [`MembershipOperation`].
 ///
-/// For delegations, follows the proof chain and any `after_revocations`.
-/// When `follow_group_heads` is true, also enqueues the group delegate's
-/// own delegation heads (used during full BFS but not when extending from
-/// a single revocation).
+/// For delegations, follows the proof chain and any `after_revocations`, and
+/// the delegate's own delegation and revocation heads if it is a group or
+/// document: without them, the receiver would not know its members.
 ///
 /// For revocations, follows the proof and revoke chains.
 async fn push_membership_edges<
@@ -629,8 +628,6 @@ async fn push_membership_edges<
 >(
     op: &MembershipOperation<F, S, T, L>,
     heads: &mut Vec<MembershipOpEntry<F, S, T, L>>,
-    visited: &HashSet<Digest<MembershipOperation<F, S, T, L>>>,
-    follow_group_heads: bool,
 ) {
     match op {
         MembershipOperation::Delegation(dlg) => {
@@ -640,15 +637,22 @@ async fn push_membership_edges<
             for rev in dlg.payload.after_revocations.iter() {
                 heads.push((Digest::hash(rev.as_ref()).coerce(), rev.dupe().into()));
             }
-            if follow_group_heads {
-                if let Agent::Group(_group_id, group) = &dlg.payload.delegate {
-                    for dlg in group.lock().await.delegation_heads().values() {
-                        let dlg_hash = Digest::hash(dlg.as_ref()).coerce();
-                        if !visited.contains(&dlg_hash) {
-                            heads.push((dlg_hash, dlg.dupe().into()));
-                        }
-                    }
+            match &dlg.payload.delegate {
+                Agent::Group(_group_id, group) => {
+                    let locked = group.lock().await;
+                    heads.extend(collect_membership_heads(
+                        locked.delegation_heads(),
+                        locked.revocation_heads(),
+                    ));
+                }
+                Agent::Document(_doc_id, doc) => {
+                    let locked = doc.lock().await;
+                    heads.extend(collect_membership_heads(
+                        locked.delegation_heads(),
+                        locked.revocation_heads(),
+                    ));
                 }
+                Agent::Active(..) | Agent::Individual(..) => {}
             }
         }
         MembershipOperation::Revocation(rev) => {
@@ -662,8 +666,8 @@ async fn push_membership_edges<
 }
 
 /// Walk all [`MembershipOperation`]s reachable from the given heads via BFS,
-/// following proof chains, revoke chains, and (for delegations to groups) the
-/// group's own delegation heads. Returns a map keyed by digest.
+/// following proof chains, revoke chains, and (for delegations to groups and
+/// documents) their own heads. Returns a map keyed by digest.
 pub async fn bfs_membership_ops<
     F: FutureForm,
     S: AsyncSigner<F>,
@@ -680,7 +684,7 @@ pub async fn bfs_membership_ops<
             continue;
         }
         visited.insert(hash);
-        push_membership_edges(&op, &mut heads, &visited, true).await;
+        push_membership_edges(&op, &mut heads).await;
         ops.insert(hash, op);
     }
 
@@ -713,7 +717,7 @@ pub async fn bfs_extend_from_revocation<
             continue;
         }
         visited.insert(hash);
-        push_membership_edges(&op, &mut heads, visited, false).await;
+        push_membership_edges(&op, &mut heads).await;
         all_ops.entry(hash).or_insert(op);
     }
 }
-- 
2.43.0


From a76b4b192147aac0ea9ff179f47b7911655121e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:06 +0000
Subject: [PATCH 33/59] fix: agents are offered the prekeys of former members,
 which their delegations need

---
 keyhive_core/src/keyhive.rs | 37 +++++++++++++++++++++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/keyhive_core/src/keyhive.rs b/keyhive_core/src/keyhive.rs
index 66474f2..29a2a8f 100644
--- a/keyhive_core/src/keyhive.rs
+++ b/keyhive_core/src/keyhive.rs
@@ -1164,6 +1164,16 @@ impl<
             }
         }
 
+        // Former members, too: their delegations cannot be read without knowing them
+        for op in self.membership_ops_for_agent(agent).await.values() {
+            if let MembershipOperation::Delegation(dlg) = op {
+                let delegate = &dlg.payload.delegate;
+                if let Entry::Vacant(e) = map.entry(delegate.id()) {
+                    e.insert(delegate.key_ops().await);
+                }
+            }
+        }
+
         map.into_iter()
             .map(|(id, keys)| (id, KeyOp::topsort(&keys)))
             .collect()
@@ -1258,6 +1268,24 @@ impl<
             }
         }
 
+        // Former members, too: their delegations cannot be read without knowing them
+        let membership_ops = self.membership_ops_for_all_agents().await;
+        let mut delegates: HashMap<Identifier, HashSet<Identifier>> = HashMap::new();
+        for (source_id, source_ops) in &membership_ops.ops {
+            for op in source_ops.values() {
+                if let MembershipOperation::Delegation(dlg) = op {
+                    let delegate = &dlg.payload.delegate;
+                    delegates
+                        .entry(*source_id)
+                        .or_default()
+                        .insert(delegate.id());
+                    if let Entry::Vacant(e) = key_ops_cache.entry(delegate.id()) {
+                        e.insert(delegate.key_ops().await);
+                    }
+                }
+            }
+        }
+
         // Include all registered individuals (even those not in any group/doc)
         for (id, indie) in self.individuals.lock().await.iter() {
             let agent_id: Identifier = (*id).into();
@@ -1307,6 +1335,15 @@ impl<
             }
         }
 
+        for (agent_id, source_ids) in &membership_ops.index {
+            let entry = index.entry(*agent_id).or_default();
+            entry.insert(active_id);
+            entry.insert(*agent_id);
+            for source_id in source_ids {
+                entry.extend(delegates.get(source_id).into_iter().flatten());
+            }
+        }
+
         AllReachablePrekeyOps { ops, index }
     }
 
-- 
2.43.0


From 2ab9ad87371ec533ac927ccc3048a5aa5e86955f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:23 +0000
Subject: [PATCH 34/59] fix: a peer restored from its archive knows which
 revocations are in force

---
 keyhive_core/src/keyhive.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/keyhive_core/src/keyhive.rs b/keyhive_core/src/keyhive.rs
index 29a2a8f..5c6bd08 100644
--- a/keyhive_core/src/keyhive.rs
+++ b/keyhive_core/src/keyhive.rs
@@ -2250,6 +2250,7 @@ impl<
                     .collect(),
             )
             .await?;
+            locked_group.rebuild().await;
         }
 
         for (doc_id, doc) in docs.iter() {
@@ -2273,6 +2274,7 @@ impl<
                     .collect(),
             )
             .await?;
+            locked_doc.rebuild().await;
         }
 
         let mut pending_events = Vec::new();
-- 
2.43.0


From 27a7351a032abdf5c901ca65870374e9a43722c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:57 +0000
Subject: [PATCH 35/59] fix: listeners hear of prekeys and delegations received
 from others, and of own revocations once

---
 keyhive_core/src/keyhive.rs         | 46 +++++++++++++++++++----------
 keyhive_core/src/principal/group.rs |  8 ++---
 2 files changed, 33 insertions(+), 21 deletions(-)

diff --git a/keyhive_core/src/keyhive.rs b/keyhive_core/src/keyhive.rs
index 5c6bd08..5acab2d 100644
--- a/keyhive_core/src/keyhive.rs
+++ b/keyhive_core/src/keyhive.rs
@@ -1588,46 +1588,65 @@ impl<
         if id == Public.id() {
             return Ok(());
         }
-        let agent = if let Some(agent) = self.get_agent(id).await {
-            agent
+        let (agent, is_unknown) = if let Some(agent) = self.get_agent(id).await {
+            (agent, false)
         } else {
             key_op.try_verify()?;
             let indie = Arc::new(Mutex::new(Individual::new(key_op.clone())));
             self.register_individual(indie.dupe()).await;
-            Agent::Individual(id.into(), indie)
+            (Agent::Individual(id.into(), indie), true)
         };
 
-        match agent {
+        let op_digest = Digest::hash(key_op);
+        let is_new = match agent {
             Agent::Active(_, active) => {
-                active
-                    .lock()
-                    .await
-                    .individual
-                    .lock()
-                    .await
-                    .receive_prekey_op(key_op.clone())?;
+                let locked_active = active.lock().await;
+                let mut locked_indie = locked_active.individual.lock().await;
+                let is_new = !locked_indie.prekey_ops().contains_key(&op_digest);
+                locked_indie.receive_prekey_op(key_op.clone())?;
+                is_new
             }
             Agent::Individual(_, indie) => {
-                indie.lock().await.receive_prekey_op(key_op.clone())?;
+                let mut locked_indie = indie.lock().await;
+                let is_new = is_unknown || !locked_indie.prekey_ops().contains_key(&op_digest);
+                locked_indie.receive_prekey_op(key_op.clone())?;
+                is_new
             }
             Agent::Group(_, group) => {
                 let mut locked = group.lock().await;
                 if let IdOrIndividual::Individual(indie) = &mut locked.id_or_indie {
+                    let is_new = !indie.prekey_ops().contains_key(&op_digest);
                     indie.receive_prekey_op(key_op.clone())?;
+                    is_new
                 } else {
                     key_op.try_verify()?;
                     let individual = Individual::new(key_op.dupe());
                     locked.id_or_indie = IdOrIndividual::Individual(individual);
+                    true
                 }
             }
             Agent::Document(_, doc) => {
                 let mut locked = doc.lock().await;
                 if let IdOrIndividual::Individual(indie) = &mut locked.group.id_or_indie {
+                    let is_new = !indie.prekey_ops().contains_key(&op_digest);
                     indie.receive_prekey_op(key_op.clone())?;
+                    is_new
                 } else {
                     key_op.try_verify()?;
                     let individual = Individual::new(key_op.dupe());
                     locked.group.id_or_indie = IdOrIndividual::Individual(individual);
+                    true
+                }
+            }
+        };
+
+        if is_new {
+            match key_op {
+                KeyOp::Add(add_op) => {
+                    self.event_listener.on_prekeys_expanded(add_op).await;
+                }
+                KeyOp::Rotate(rot_op) => {
+                    self.event_listener.on_prekey_rotated(rot_op).await;
                 }
             }
         }
@@ -1722,9 +1741,6 @@ impl<
             }
         };
 
-        // FIXME remove because this is way too high in the stack
-        // self.event_listener.on_delegation(&delegation).await;
-
         Ok(())
     }
 
diff --git a/keyhive_core/src/principal/group.rs b/keyhive_core/src/principal/group.rs
index 67c8246..09f1696 100644
--- a/keyhive_core/src/principal/group.rs
+++ b/keyhive_core/src/principal/group.rs
@@ -388,8 +388,9 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
         &mut self,
         delegation: Arc<Signed<Delegation<F, S, T, L>>>,
     ) -> Result<Digest<Signed<Delegation<F, S, T, L>>>, error::AddError> {
-        let digest = self.state.add_delegation(delegation).await?;
+        let digest = self.state.add_delegation(delegation.dupe()).await?;
         tracing::info!("{:x?}", &digest);
+        self.listener.on_delegation(&delegation).await;
         self.rebuild().await;
         Ok(digest)
     }
@@ -525,7 +526,6 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
 
         let rc = Arc::new(delegation);
         let _digest = self.receive_delegation(rc.dupe()).await?;
-        self.listener.on_delegation(&rc).await;
 
         Ok(AddMemberUpdate {
             cgka_ops: Vec::new(),
@@ -674,10 +674,6 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
             self.receive_revocation(r.dupe()).await?;
         }
 
-        for r in revocations.iter() {
-            self.listener.on_revocation(r).await
-        }
-
         let mut cgka_ops = Vec::new();
 
         let mut redelegations = vec![];
-- 
2.43.0


From 18024b0723809ecf0e0008ddd4d7faab0510a156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:31 +0000
Subject: [PATCH 36/59] fix: merging an archive or a fork takes over its group
 keys and pending events; forks of an identity are independent

---
 keyhive_core/src/keyhive.rs            | 68 ++++++++++++++++++++------
 keyhive_core/src/principal/active.rs   | 14 +++---
 keyhive_core/src/principal/document.rs | 14 ++++++
 3 files changed, 76 insertions(+), 20 deletions(-)

diff --git a/keyhive_core/src/keyhive.rs b/keyhive_core/src/keyhive.rs
index 5acab2d..72f5b52 100644
--- a/keyhive_core/src/keyhive.rs
+++ b/keyhive_core/src/keyhive.rs
@@ -4,7 +4,7 @@ use crate::{
     ability::Ability,
     access::Access,
     archive::Archive,
-    cgka::AllCgkaOps,
+    cgka::{AllCgkaOps, Cgka},
     contact_card::ContactCard,
     crypto::signed_ext::{SignedId, SignedSubjectId},
     error::missing_dependency::MissingDependency,
@@ -2347,7 +2347,8 @@ impl<
                 locked_indies.insert(id, Arc::new(Mutex::new(indie)));
             }
         }
-        let events = archive
+
+        let mut events = archive
             .topsorted_ops
             .into_iter()
             .map(|(_, op)| match op {
@@ -2355,7 +2356,37 @@ impl<
                 StaticMembershipOperation::Revocation(signed) => StaticEvent::Revoked(signed),
             })
             .collect::<Vec<_>>();
-        Ok(self.ingest_unsorted_static_events(events).await)
+
+        let cgkas: Vec<_> = archive
+            .docs
+            .into_iter()
+            .filter_map(|(doc_id, doc)| doc.cgka.map(|cgka| (doc_id, cgka)))
+            .collect();
+        for (_, cgka) in cgkas.iter() {
+            if let Ok(epochs) = cgka.ops() {
+                events.extend(
+                    epochs
+                        .iter()
+                        .flat_map(|epoch| epoch.iter())
+                        .map(|op| StaticEvent::CgkaOperation(Box::new(op.as_ref().clone()))),
+                );
+            }
+        }
+
+        events.extend(archive.pending_events);
+
+        let pending = self.ingest_unsorted_static_events(events).await;
+        self.merge_cgkas(cgkas).await;
+        Ok(pending)
+    }
+
+    /// Merge the group keys that another copy of this peer holds, including their secrets.
+    async fn merge_cgkas(&self, cgkas: Vec<(DocumentId, Cgka)>) {
+        for (doc_id, cgka) in cgkas {
+            if let Some(doc) = self.get_document(doc_id).await {
+                doc.lock().await.merge_cgka(cgka);
+            }
+        }
     }
 
     #[instrument(skip_all)]
@@ -2634,23 +2665,32 @@ where
             }
         }
 
-        let forked_listener = { fork.event_listener.0.lock().await.clone() };
-        for event in forked_listener.iter() {
+        let forked_events = { fork.event_listener.0.lock().await.clone() };
+        let mut events = Vec::new();
+        for event in forked_events {
             match event {
-                Event::PrekeysExpanded(_add_op) => {
-                    continue; // NOTE: handled above
+                // NOTE: the state is handled above
+                Event::PrekeysExpanded(add_op) => {
+                    locked.event_listener.on_prekeys_expanded(&add_op).await;
                 }
-                Event::PrekeyRotated(_rot_op) => {
-                    continue; // NOTE: handled above
+                Event::PrekeyRotated(rot_op) => {
+                    locked.event_listener.on_prekey_rotated(&rot_op).await;
                 }
-                _ => {}
+                event => events.push(event.into()),
             }
+        }
+        for event in fork.pending_events.lock().await.iter() {
+            events.push(event.as_ref().clone());
+        }
+        locked.ingest_unsorted_static_events(events).await;
 
-            locked
-                .receive_static_event(event.clone().into())
-                .await
-                .expect("prechecked events to work");
+        let mut cgkas = Vec::new();
+        for (doc_id, doc) in fork.docs.lock().await.iter() {
+            if let Ok(cgka) = doc.lock().await.cgka() {
+                cgkas.push((*doc_id, cgka.clone()));
+            }
         }
+        locked.merge_cgkas(cgkas).await;
     }
 }
 
diff --git a/keyhive_core/src/principal/active.rs b/keyhive_core/src/principal/active.rs
index 4eeda14..0c747c5 100644
--- a/keyhive_core/src/principal/active.rs
+++ b/keyhive_core/src/principal/active.rs
@@ -24,7 +24,7 @@ use crate::{
         membered::Membered,
     },
     transact::{
-        fork::Fork,
+        fork::ForkAsync,
         merge::{Merge, MergeAsync},
     },
 };
@@ -357,19 +357,21 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: PrekeyListener<F>> Veri
     }
 }
 
-impl<F: FutureForm, S: AsyncSigner<F> + Clone, T: ContentRef, L: PrekeyListener<F>> Fork
+impl<F: FutureForm, S: AsyncSigner<F> + Clone, T: ContentRef, L: PrekeyListener<F>> ForkAsync
     for Active<F, S, T, L>
 where
     Log<F, S, T>: MembershipListener<F, S, T>,
 {
-    type Forked = Active<F, S, T, Log<F, S, T>>;
+    type AsyncForked = Active<F, S, T, Log<F, S, T>>;
 
-    fn fork(&self) -> Self::Forked {
+    async fn fork_async(&self) -> Self::AsyncForked {
+        let prekey_pairs = { self.prekey_pairs.lock().await.clone() };
+        let individual = { self.individual.lock().await.clone() };
         Active {
             id: self.id,
             signer: self.signer.clone(),
-            prekey_pairs: self.prekey_pairs.clone(),
-            individual: self.individual.clone(),
+            prekey_pairs: Arc::new(Mutex::new(prekey_pairs)),
+            individual: Arc::new(Mutex::new(individual)),
             listener: Log::new(),
             _phantom: PhantomData,
         }
diff --git a/keyhive_core/src/principal/document.rs b/keyhive_core/src/principal/document.rs
index c5b0213..b0196ca 100644
--- a/keyhive_core/src/principal/document.rs
+++ b/keyhive_core/src/principal/document.rs
@@ -27,6 +27,7 @@ use crate::{
         delegation::DelegationStore,
         revocation::RevocationStore,
     },
+    transact::merge::Merge,
 };
 use beekem::{
     encrypted::EncryptedContent,
@@ -433,6 +434,19 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
         self.merge_cgka_op(op)
     }
 
+    /// Merge the [`Cgka`] of another copy of this document that the same peer holds,
+    /// including its secrets.
+    pub(crate) fn merge_cgka(&mut self, other: Cgka) {
+        match &mut self.cgka {
+            Some(cgka) => {
+                if cgka.init_add_op() == other.init_add_op() {
+                    cgka.merge(other);
+                }
+            }
+            None => self.cgka = Some(other),
+        }
+    }
+
     /// Reset the CGKA owner to `owner_id`, preserving `owner_sks`.
     pub fn reset_cgka_owner(&mut self, owner_id: IndividualId) -> Result<(), CgkaError> {
         let owner_sks = self.cgka()?.owner_sks().clone();
-- 
2.43.0


From 25d555905d67dfcc1e823f2a312ba17c2aca47f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:22 +0000
Subject: [PATCH 37/59] fix: peers that were not invited do not own the
 document's initial leaf

---
 keyhive_core/src/keyhive.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/keyhive_core/src/keyhive.rs b/keyhive_core/src/keyhive.rs
index 72f5b52..48b20a2 100644
--- a/keyhive_core/src/keyhive.rs
+++ b/keyhive_core/src/keyhive.rs
@@ -1891,7 +1891,18 @@ impl<
                 return Ok(());
             }
         }
-        if doc.lock().await.merge_cgka_op(signed_op.clone())? {
+        let active_id = { self.active.lock().await.id() };
+        let merged = {
+            let mut locked_doc = doc.lock().await;
+            let is_init = locked_doc.cgka().is_err();
+            let merged = locked_doc.merge_cgka_op(signed_op.clone())?;
+            if is_init {
+                // Whoever creates the document owns its initial leaf, we don't
+                locked_doc.reset_cgka_owner(active_id)?;
+            }
+            merged
+        };
+        if merged {
             self.event_listener.on_cgka_op(&signed_op).await;
         }
         Ok(())
-- 
2.43.0


From 560572253a31ff0cad6d818db5f8f48ad9defd80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:34 +0000
Subject: [PATCH 38/59] fix: a delegation's revocations must concern the same
 group

---
 keyhive_core/src/principal/group/state.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/keyhive_core/src/principal/group/state.rs b/keyhive_core/src/principal/group/state.rs
index d31281e..50dd2e1 100644
--- a/keyhive_core/src/principal/group/state.rs
+++ b/keyhive_core/src/principal/group/state.rs
@@ -151,6 +151,13 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
             return Err(AddError::InvalidProofChain);
         }
 
+        // Otherwise the revocation would pull another group's history into this one
+        for rev in &delegation.payload.after_revocations {
+            if rev.subject_id() != Identifier::from(self.id) {
+                return Err(AddError::InvalidSubject(Box::new(rev.subject_id())));
+            }
+        }
+
         // Validate the proof chain. Each link must satisfy:
         // 1. The delegation's access doesn't exceed the proof's access.
         // 2. Either the signer matches the proof's delegate (direct chain),
-- 
2.43.0


From 4b8a5f3441f24a4a13c17837cd277f332fac3cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:34 +0000
Subject: [PATCH 39/59] fix: an archived group only takes back heads that
 concern it

---
 keyhive_core/src/keyhive.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/keyhive_core/src/keyhive.rs b/keyhive_core/src/keyhive.rs
index 48b20a2..b2cfb63 100644
--- a/keyhive_core/src/keyhive.rs
+++ b/keyhive_core/src/keyhive.rs
@@ -2218,9 +2218,7 @@ impl<
                     .ok_or(TryFromArchiveError::MissingDelegation(dlg_hash.coerce()))?
                     .dupe();
 
-                if actual_dlg.payload().proof.is_none()
-                    && actual_dlg.issuer != group.verifying_key()
-                {
+                if actual_dlg.subject_id() != group.id() {
                     tracing::warn!(
                         "try_from_archive: skipping delegation with mismatched root issuer (group={:?}, issuer={:?})",
                         group.group_id(),
@@ -2236,6 +2234,16 @@ impl<
                 let actual_rev = read_revs
                     .get(&rev_hash.coerce())
                     .ok_or(TryFromArchiveError::MissingRevocation(rev_hash.coerce()))?;
+
+                if actual_rev.subject_id() != group.id() {
+                    tracing::warn!(
+                        "try_from_archive: skipping revocation with mismatched subject (group={:?}, subject={:?})",
+                        group.group_id(),
+                        actual_rev.subject_id(),
+                    );
+                    continue;
+                }
+
                 group.state.revocation_heads.insert(actual_rev.dupe());
             }
 
-- 
2.43.0


From eeee09b1e7dd465c7ac1979fc034b04fface9bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:18 +0000
Subject: [PATCH 40/59] fix: secrets imported for an invitation of our own
 reach the document's group

---
 keyhive_core/src/keyhive.rs            | 28 ++++++++++++++++++++++++++
 keyhive_core/src/principal/document.rs | 21 +++++++++++++++++++
 2 files changed, 49 insertions(+)

diff --git a/keyhive_core/src/keyhive.rs b/keyhive_core/src/keyhive.rs
index b2cfb63..fc91a5b 100644
--- a/keyhive_core/src/keyhive.rs
+++ b/keyhive_core/src/keyhive.rs
@@ -543,6 +543,13 @@ impl<
             }
         };
 
+        let active_id = { self.active.lock().await.id() };
+        if update.cgka_ops.iter().any(|op| {
+            matches!(op.payload, CgkaOperation::Add { added_id, .. } if IndividualId::from(added_id) == active_id)
+        }) {
+            self.adopt_invite_secrets().await;
+        }
+
         for cgka_op in &update.cgka_ops {
             self.event_listener
                 .on_cgka_op(&Arc::new(cgka_op.clone()))
@@ -1999,9 +2006,30 @@ impl<
         let active = self.active.lock().await;
         active.import_prekey_secrets(bytes).await?;
         drop(active);
+        self.adopt_invite_secrets().await;
         Ok(self.ingest_unsorted_static_events(vec![]).await)
     }
 
+    /// Our own invitations usually wait for the secret behind them, but an invitation that
+    /// we signed ourselves is merged right away.
+    async fn adopt_invite_secrets(&self) {
+        let (active_id, prekey_pairs) = {
+            let locked = self.active.lock().await;
+            let pairs = locked.prekey_pairs.lock().await.clone();
+            (locked.id(), pairs)
+        };
+        let docs: Vec<_> = { self.docs.lock().await.values().cloned().collect() };
+        for doc in docs {
+            if let Err(e) = doc
+                .lock()
+                .await
+                .adopt_invite_secrets(active_id, &prekey_pairs)
+            {
+                tracing::warn!("unable to adopt invite secrets: {e:?}");
+            }
+        }
+    }
+
     #[instrument(skip_all)]
     pub async fn into_archive(&self) -> Archive<T> {
         let topsorted_ops = {
diff --git a/keyhive_core/src/principal/document.rs b/keyhive_core/src/principal/document.rs
index b0196ca..990ffe7 100644
--- a/keyhive_core/src/principal/document.rs
+++ b/keyhive_core/src/principal/document.rs
@@ -447,6 +447,27 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
         }
     }
 
+    /// Take over the secrets behind the invitations of `id` that were merged without them.
+    pub(crate) fn adopt_invite_secrets(
+        &mut self,
+        id: IndividualId,
+        prekey_pairs: &BTreeMap<ShareKey, ShareSecretKey>,
+    ) -> Result<(), CgkaError> {
+        let Some(cgka) = &mut self.cgka else {
+            return Ok(());
+        };
+        for op in cgka.ops()?.iter().flat_map(|epoch| epoch.iter()) {
+            if let CgkaOperation::Add { added_id, pk, .. } = op.payload {
+                if IndividualId::from(added_id) == id {
+                    if let Some(sk) = prekey_pairs.get(&pk) {
+                        cgka.owner_sks_mut().insert(pk, *sk);
+                    }
+                }
+            }
+        }
+        Ok(())
+    }
+
     /// Reset the CGKA owner to `owner_id`, preserving `owner_sks`.
     pub fn reset_cgka_owner(&mut self, owner_id: IndividualId) -> Result<(), CgkaError> {
         let owner_sks = self.cgka()?.owner_sks().clone();
-- 
2.43.0


From bc3ac66ff25993c017f1c79fe190c953ac5e9d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:58 +0000
Subject: [PATCH 41/59] fix: causal decryption keeps the keys of ancestors that
 could not be fetched, and reports only those

---
 keyhive_core/src/store/ciphertext.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/keyhive_core/src/store/ciphertext.rs b/keyhive_core/src/store/ciphertext.rs
index c9e9f00..3e6c0e3 100644
--- a/keyhive_core/src/store/ciphertext.rs
+++ b/keyhive_core/src/store/ciphertext.rs
@@ -201,12 +201,13 @@ impl<F: FutureForm, Cr: ContentRef, T, S: CiphertextStore<F, Cr, T>> CiphertextS
                                 for (ancestor_ref, ancestor_key) in envelope.ancestors.iter() {
                                     match self.get_ciphertext(ancestor_ref).await {
                                         Err(e) => {
-                                            seen.remove(&content_ref);
+                                            progress
+                                                .next
+                                                .insert(ancestor_ref.clone(), *ancestor_key);
                                             cannot.insert(
-                                                content_ref.clone(),
+                                                ancestor_ref.clone(),
                                                 ErrorReason::GetCiphertextError(e),
                                             );
-                                            continue;
                                         }
                                         Ok(None) => {
                                             progress
@@ -229,6 +230,8 @@ impl<F: FutureForm, Cr: ContentRef, T, S: CiphertextStore<F, Cr, T>> CiphertextS
             }
 
             for id in progress.complete.iter().map(|(id, _)| id) {
+                // It may have been reached with a wrong key as well
+                cannot.remove(id);
                 if let Err(e) = self.mark_decrypted(id).await {
                     cannot.insert(id.clone(), ErrorReason::MarkDecryptedError(e));
                 };
-- 
2.43.0


From 86ca9a41535b403713ad10b7911b40094381bf3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:58 +0000
Subject: [PATCH 42/59] test_utils: an individual's live prekeys, for property
 tests

---
 keyhive_core/src/principal/individual.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/keyhive_core/src/principal/individual.rs b/keyhive_core/src/principal/individual.rs
index 7bdf281..840f378 100644
--- a/keyhive_core/src/principal/individual.rs
+++ b/keyhive_core/src/principal/individual.rs
@@ -126,6 +126,12 @@ impl Individual {
         self.prekeys.iter().nth(idx).expect("index to be in range")
     }
 
+    /// The live prekeys.
+    #[cfg(any(feature = "test_utils", test))]
+    pub fn prekeys(&self) -> &HashSet<ShareKey> {
+        &self.prekeys
+    }
+
     pub fn prekey_ops(&self) -> &CaMap<KeyOp> {
         self.prekey_state.ops()
     }
-- 
2.43.0


From 4ad81f294ef4f9561d9be3a57056dab55df75081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:13 +0000
Subject: [PATCH 43/59] fix: revoking a member while retaining the others is
 refused before it has any effect

---
 keyhive_core/src/principal/group.rs | 205 +++++++++++++++++-----------
 1 file changed, 124 insertions(+), 81 deletions(-)

diff --git a/keyhive_core/src/principal/group.rs b/keyhive_core/src/principal/group.rs
index 09f1696..d55265c 100644
--- a/keyhive_core/src/principal/group.rs
+++ b/keyhive_core/src/principal/group.rs
@@ -444,9 +444,56 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
         signer: &S,
         after_content: BTreeMap<DocumentId, Vec<T>>,
     ) -> Result<AddMemberUpdate<F, S, T, L>, AddGroupMemberError> {
-        let proof = if self.verifying_key() == signer.verifying_key() {
-            None
-        } else if let Some(p) = self.get_capability(&signer.verifying_key().into()) {
+        let proof = self.find_proof(signer.verifying_key(), can).await?;
+
+        let mut after_revocations: Vec<_> = self.state.revocation_heads.values().duped().collect();
+
+        // Adding a member again has to come after they were revoked, even where later grants
+        // have already covered that revocation: without it, this would be the very grant that
+        // was revoked.
+        let member_id = member_to_add.id();
+        let mut earlier: Vec<_> = self
+            .active_revocations
+            .iter()
+            .filter(|(_, r)| r.payload.revoke.payload.delegate.id() == member_id)
+            .filter(|(_, r)| !after_revocations.contains(r))
+            .map(|(sig, r)| (*sig, r.dupe()))
+            .collect();
+        earlier.sort_by_key(|(sig, _)| *sig);
+        after_revocations.extend(earlier.into_iter().map(|(_, r)| r));
+
+        let delegation = keyhive_crypto::signer::async_signer::try_sign_async::<F, _, _>(
+            signer,
+            Delegation {
+                delegate: member_to_add,
+                can,
+                proof,
+                after_revocations,
+                after_content,
+            },
+        )
+        .await?;
+
+        let rc = Arc::new(delegation);
+        let _digest = self.receive_delegation(rc.dupe()).await?;
+
+        Ok(AddMemberUpdate {
+            cgka_ops: Vec::new(),
+            delegation: rc,
+        })
+    }
+
+    /// The grant that lets the holder of `verifying_key` delegate `can` in this group, or
+    /// `None` for the group itself.
+    #[allow(clippy::type_complexity)]
+    async fn find_proof(
+        &self,
+        verifying_key: ed25519_dalek::VerifyingKey,
+        can: Access,
+    ) -> Result<Option<Arc<Signed<Delegation<F, S, T, L>>>>, AddGroupMemberError> {
+        if self.verifying_key() == verifying_key {
+            Ok(None)
+        } else if let Some(p) = self.get_capability(&verifying_key.into()) {
             // Signer is a direct member of this group.
             if can > p.payload.can {
                 return Err(AddGroupMemberError::AccessEscalation {
@@ -454,12 +501,12 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
                     have: p.payload().can,
                 });
             }
-            Some(p.dupe())
+            Ok(Some(p.dupe()))
         } else {
             // Check transitive membership through the group graph.
             // Single pass: find which direct member provides a sufficient
             // transitive path for the signer.
-            let signer_id = Identifier::from(signer.verifying_key());
+            let signer_id = Identifier::from(verifying_key);
             let mut best_proof = None;
             let mut best_access: Option<Access> = None;
 
@@ -485,52 +532,16 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
             }
 
             if let Some(proof) = best_proof {
-                Some(proof)
+                Ok(Some(proof))
             } else if let Some(access) = best_access {
-                return Err(AddGroupMemberError::AccessEscalation {
+                Err(AddGroupMemberError::AccessEscalation {
                     wanted: can,
                     have: access,
-                });
+                })
             } else {
-                return Err(AddGroupMemberError::NoProof);
+                Err(AddGroupMemberError::NoProof)
             }
-        };
-
-        let mut after_revocations: Vec<_> = self.state.revocation_heads.values().duped().collect();
-
-        // Adding a member again has to come after they were revoked, even where later grants
-        // have already covered that revocation: without it, this would be the very grant that
-        // was revoked.
-        let member_id = member_to_add.id();
-        let mut earlier: Vec<_> = self
-            .active_revocations
-            .iter()
-            .filter(|(_, r)| r.payload.revoke.payload.delegate.id() == member_id)
-            .filter(|(_, r)| !after_revocations.contains(r))
-            .map(|(sig, r)| (*sig, r.dupe()))
-            .collect();
-        earlier.sort_by_key(|(sig, _)| *sig);
-        after_revocations.extend(earlier.into_iter().map(|(_, r)| r));
-
-        let delegation = keyhive_crypto::signer::async_signer::try_sign_async::<F, _, _>(
-            signer,
-            Delegation {
-                delegate: member_to_add,
-                can,
-                proof,
-                after_revocations,
-                after_content,
-            },
-        )
-        .await?;
-
-        let rc = Arc::new(delegation);
-        let _digest = self.receive_delegation(rc.dupe()).await?;
-
-        Ok(AddMemberUpdate {
-            cgka_ops: Vec::new(),
-            delegation: rc,
-        })
+        }
     }
 
     /// Revoke a member from this group.
@@ -669,14 +680,8 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
             }
         }
 
-        // Only once all of them can be revoked, so that a refusal leaves everything as it was
-        for r in revocations.iter() {
-            self.receive_revocation(r.dupe()).await?;
-        }
-
-        let mut cgka_ops = Vec::new();
-
-        let mut redelegations = vec![];
+        #[allow(clippy::type_complexity)]
+        let mut to_retain: Vec<Arc<Signed<Delegation<F, S, T, L>>>> = vec![];
         if retain_all_other_members {
             for dlg in og_dlgs.iter() {
                 if dlg.payload.delegate.id() == member_to_remove {
@@ -686,20 +691,49 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
 
                 if let Some(proof) = &dlg.payload.proof {
                     if proof.payload.delegate.id() == member_to_remove {
-                        let update = self
-                            .add_member_with_manual_content(
-                                dlg.payload.delegate.dupe(),
-                                dlg.payload.can,
-                                signer,
-                                after_content.clone(),
-                            )
-                            .await?;
-
-                        cgka_ops.extend(update.cgka_ops);
-                        redelegations.push(update.delegation);
+                        to_retain.push(dlg.dupe());
                     }
                 }
             }
+
+            // Nobody can retain members by grants of their own that go with this revocation
+            let revoked = all_to_revoke
+                .iter()
+                .map(|d| d.signature.to_bytes())
+                .collect();
+            let remaining = Self::supported(&og_dlgs, &revoked);
+            let members = std::mem::replace(&mut self.members, remaining);
+            let mut retained = Ok(());
+            for dlg in to_retain.iter() {
+                retained = self.find_proof(vk, dlg.payload.can).await.map(|_| ());
+                if retained.is_err() {
+                    break;
+                }
+            }
+            self.members = members;
+            retained?;
+        }
+
+        // Only once all of this can be done, so that a refusal leaves everything as it was
+        for r in revocations.iter() {
+            self.receive_revocation(r.dupe()).await?;
+        }
+
+        let mut cgka_ops = Vec::new();
+
+        let mut redelegations = vec![];
+        for dlg in to_retain.iter() {
+            let update = self
+                .add_member_with_manual_content(
+                    dlg.payload.delegate.dupe(),
+                    dlg.payload.can,
+                    signer,
+                    after_content.clone(),
+                )
+                .await?;
+
+            cgka_ops.extend(update.cgka_ops);
+            redelegations.push(update.delegation);
         }
 
         Ok(RevokeMemberUpdate {
@@ -860,42 +894,51 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
             .values()
             .map(|r| r.payload.revoke.signature.to_bytes())
             .collect();
+        self.members = Self::supported(&rooted_dlgs, &revoked);
+    }
+
+    /// The members by those of the `delegations` that rest on a grant in force.
+    #[allow(clippy::type_complexity)]
+    fn supported(
+        delegations: &[Arc<Signed<Delegation<F, S, T, L>>>],
+        revoked: &HashSet<[u8; 64]>,
+    ) -> HashMap<Identifier, NonEmpty<Arc<Signed<Delegation<F, S, T, L>>>>> {
         let mut live: HashSet<[u8; 64]> = HashSet::new();
-        self.members.clear();
+        let mut members: HashMap<_, NonEmpty<Arc<Signed<Delegation<F, S, T, L>>>>> = HashMap::new();
 
         loop {
             let before = live.len();
 
-            for d in rooted_dlgs.iter() {
+            for d in delegations {
                 let sig = d.signature.to_bytes();
                 if live.contains(&sig) || revoked.contains(&sig) {
                     continue;
                 }
 
-                let is_supported =
-                    match &d.payload.proof {
-                        None => true,
-                        Some(proof) => {
-                            live.contains(&proof.signature.to_bytes())
-                                || self.members.get(&proof.payload.delegate.id()).is_some_and(
-                                    |alts| alts.iter().any(|alt| alt.payload.can >= d.payload.can),
-                                )
-                        }
-                    };
+                let is_supported = match &d.payload.proof {
+                    None => true,
+                    Some(proof) => {
+                        live.contains(&proof.signature.to_bytes())
+                            || members
+                                .get(&proof.payload.delegate.id())
+                                .is_some_and(|alts| {
+                                    alts.iter().any(|alt| alt.payload.can >= d.payload.can)
+                                })
+                    }
+                };
 
                 if is_supported {
                     live.insert(sig);
-                    if let Some(mut_dlgs) = self.members.get_mut(&d.payload.delegate.id()) {
+                    if let Some(mut_dlgs) = members.get_mut(&d.payload.delegate.id()) {
                         mut_dlgs.push(d.dupe());
                     } else {
-                        self.members
-                            .insert(d.payload.delegate.id(), nonempty![d.dupe()]);
+                        members.insert(d.payload.delegate.id(), nonempty![d.dupe()]);
                     }
                 }
             }
 
             if live.len() == before {
-                break;
+                return members;
             }
         }
     }
-- 
2.43.0


From d4be73a22ca910524805f0d2b221dfbd640c0542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:12 +0000
Subject: [PATCH 44/59] fix: the creator of a document keeps its keys when
 added again or when the document is made public

---
 beekem/src/cgka.rs          | 34 +++++++++++++++++++++-------------
 keyhive_core/src/keyhive.rs | 10 ----------
 2 files changed, 21 insertions(+), 23 deletions(-)

diff --git a/beekem/src/cgka.rs b/beekem/src/cgka.rs
index 41d9b96..17d97d7 100644
--- a/beekem/src/cgka.rs
+++ b/beekem/src/cgka.rs
@@ -325,6 +325,8 @@ impl Cgka {
         }
         let (update_id, update_pk, update_sk) = if self.tree.contains_id(&self.owner_id) {
             (self.owner_id, new_pk, new_sk)
+        } else if self.holds_original_leaf() {
+            (self.original_member.0, new_pk, new_sk)
         } else {
             let public_id = MemberId::public();
             let NodeKey::ShareKey(pk) = self
@@ -359,6 +361,14 @@ impl Cgka {
         }
     }
 
+    /// Whether we are the one who created the tree, and its initial member is still in it.
+    fn holds_original_leaf(&self) -> bool {
+        let Ok(NodeKey::ShareKey(pk)) = self.tree.node_key_for_id(self.original_member.0) else {
+            return false;
+        };
+        self.owner_sks.get(&pk).is_some()
+    }
+
     /// The current group size
     pub fn group_size(&self) -> u32 {
         self.tree.member_count()
@@ -491,22 +501,20 @@ impl Cgka {
 
     /// Decrypt tree secret to derive [`PcsKey`].
     pub fn pcs_key_from_tree_root(&mut self) -> Result<PcsKey, CgkaError> {
-        let key = match self
+        // When deriving as the owner fails, read as another member whose keys we may hold:
+        // whoever created the tree may since have been added under their own ID, and
+        // everyone knows the keys of Public.
+        let mut result = self
             .tree
-            .decrypt_tree_secret(self.owner_id, &mut self.owner_sks)
-        {
-            Ok(k) => k,
-            Err(e) => {
-                // When deriving as the owner fails and Public is a member, read as
-                // Public instead.
-                let public = MemberId::public();
-                if self.owner_id != public && self.tree.contains_id(&public) {
-                    self.tree.decrypt_tree_secret(public, &mut self.owner_sks)?
-                } else {
-                    return Err(e);
+            .decrypt_tree_secret(self.owner_id, &mut self.owner_sks);
+        for id in [self.original_member.0, MemberId::public()] {
+            if result.is_err() && self.owner_id != id && self.tree.contains_id(&id) {
+                if let Ok(key) = self.tree.decrypt_tree_secret(id, &mut self.owner_sks) {
+                    result = Ok(key);
                 }
             }
-        };
+        }
+        let key = result?;
         Ok(PcsKey::new(key))
     }
 
diff --git a/keyhive_core/src/keyhive.rs b/keyhive_core/src/keyhive.rs
index fc91a5b..fe83c06 100644
--- a/keyhive_core/src/keyhive.rs
+++ b/keyhive_core/src/keyhive.rs
@@ -1886,16 +1886,6 @@ impl<
                     self.event_listener.on_cgka_op(&signed_op).await;
                 };
                 return Ok(());
-            } else if Public.individual().id() == added_id {
-                let sk = Public.share_secret_key();
-                let mut locked_doc = doc.lock().await;
-                let merged = locked_doc.merge_cgka_invite_op(signed_op.clone(), &sk)?;
-                locked_doc.reset_cgka_owner(active_id)?;
-                drop(locked_doc);
-                if merged {
-                    self.event_listener.on_cgka_op(&signed_op).await;
-                }
-                return Ok(());
             }
         }
         let active_id = { self.active.lock().await.id() };
-- 
2.43.0


From f9abeda48207a9ad59d842df97ac5280322c034c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:47 +0000
Subject: [PATCH 45/59] fix: the keys of every document follow who may read it
 when members are added and revoked

---
 keyhive_core/src/keyhive.rs            | 169 +++++++++----------------
 keyhive_core/src/principal/document.rs | 103 ++++++++++++---
 2 files changed, 150 insertions(+), 122 deletions(-)

diff --git a/keyhive_core/src/keyhive.rs b/keyhive_core/src/keyhive.rs
index fe83c06..431b0dd 100644
--- a/keyhive_core/src/keyhive.rs
+++ b/keyhive_core/src/keyhive.rs
@@ -488,60 +488,31 @@ impl<
         other_relevant_docs: &[Arc<Mutex<Document<F, S, T, L>>>], // TODO make this automatic
     ) -> Result<AddMemberUpdate<F, S, T, L>, AddMemberError> {
         let signer = { self.active.lock().await.signer.clone() };
-        let update = match resource {
-            Membered::Group(group_id, group) => {
-                let mut update = group
-                    .lock()
-                    .await
-                    .add_member(to_add, can, &signer, other_relevant_docs)
-                    .await?;
 
-                // Propagate CGKA adds to docs that contain this group.
-                // TODO: O(# of docs x `transitive_members()`). We should replace this approach
-                // (possibly with a reverse index lookup).
-                if can.is_reader() {
-                    let group_identifier: Identifier = (*group_id).into();
-                    let docs = { self.docs.lock().await.values().cloned().collect::<Vec<_>>() };
-                    for doc in &docs {
-                        let (contains_group, doc_id) = {
-                            let locked = doc.lock().await;
-                            (
-                                locked
-                                    .transitive_members()
-                                    .await
-                                    .contains_key(&group_identifier),
-                                locked.doc_id(),
-                            )
-                        };
-                        if !contains_group {
-                            continue;
-                        }
-                        // Document lock is intentionally dropped before `pick_individual_prekeys`,
-                        // which may lock groups (walking group members to find
-                        // individuals).
-                        let prekeys = update
-                            .delegation
-                            .payload
-                            .delegate
-                            .pick_individual_prekeys(doc_id)
-                            .await;
-                        let mut locked_doc = doc.lock().await;
-                        let ops = locked_doc
-                            .add_cgka_members_from_prekeys(&prekeys, &signer)
-                            .await?;
-                        update.cgka_ops.extend(ops);
-                    }
-                }
+        // The docs that contain this group or document, and who can read them so far.
+        // TODO: O(# of docs x `transitive_members()`). We should replace this approach
+        // (possibly with a reverse index lookup).
+        let mut containing_docs = Vec::new();
+        if can.is_reader() {
+            containing_docs = self.docs_containing(resource.agent_id().into()).await;
+        }
 
-                update
-            }
-            Membered::Document(_, doc) => {
-                let mut locked = doc.lock().await;
-                locked
-                    .add_member(to_add, can, &signer, other_relevant_docs)
-                    .await?
-            }
-        };
+        let mut update = resource
+            .add_member(to_add, can, &signer, other_relevant_docs)
+            .await?;
+
+        // Propagate CGKA adds to those docs.
+        let added_ids = update.delegation.payload.delegate.individual_ids().await;
+        for (doc, readers_before) in containing_docs {
+            let mut locked_doc = doc.lock().await;
+            let prekeys = locked_doc
+                .pick_new_reader_prekeys(&readers_before, &added_ids)
+                .await;
+            let ops = locked_doc
+                .add_cgka_members_from_prekeys(&prekeys, &signer)
+                .await?;
+            update.cgka_ops.extend(ops);
+        }
 
         let active_id = { self.active.lock().await.id() };
         if update.cgka_ops.iter().any(|op| {
@@ -559,6 +530,25 @@ impl<
         Ok(update)
     }
 
+    /// The documents with a member `id` whose keys have arrived here, and their readers.
+    #[allow(clippy::type_complexity)]
+    async fn docs_containing(
+        &self,
+        id: Identifier,
+    ) -> Vec<(Arc<Mutex<Document<F, S, T, L>>>, HashSet<IndividualId>)> {
+        let docs = { self.docs.lock().await.values().cloned().collect::<Vec<_>>() };
+        let mut containing = Vec::new();
+        for doc in docs {
+            let locked = doc.lock().await;
+            if locked.cgka().is_ok() && locked.transitive_members().await.contains_key(&id) {
+                let readers = locked.reader_ids().await;
+                drop(locked);
+                containing.push((doc, readers));
+            }
+        }
+        containing
+    }
+
     #[allow(clippy::type_complexity)]
     #[instrument(skip_all)]
     pub async fn revoke_member(
@@ -575,27 +565,21 @@ impl<
 
         let signer = { self.active.lock().await.signer.clone() };
 
-        // When revoking from a group, collect the revoked member's individual
-        // IDs before the revocation removes them from the members map.
-        let revoked_individual_ids: HashSet<IndividualId> = match resource {
-            Membered::Group(_, group) => {
-                let delegates: Vec<Agent<F, S, T, L>> = {
-                    let locked = group.lock().await;
-                    locked
-                        .members()
-                        .get(&to_revoke)
-                        .into_iter()
-                        .flat_map(|ds| ds.iter().map(|d| d.payload().delegate.dupe()))
-                        .collect()
-                };
-                let mut ids = HashSet::new();
-                for d in &delegates {
-                    ids.extend(d.individual_ids().await);
-                }
-                ids
-            }
-            _ => HashSet::new(),
-        };
+        // Collect the revoked member's individual IDs before the revocation removes them from
+        // the members map.
+        let delegates: Vec<Agent<F, S, T, L>> = resource
+            .members()
+            .await
+            .get(&to_revoke)
+            .into_iter()
+            .flat_map(|ds| ds.iter().map(|d| d.payload().delegate.dupe()))
+            .collect();
+        let mut revoked_individual_ids: HashSet<IndividualId> = HashSet::new();
+        for d in &delegates {
+            revoked_individual_ids.extend(d.individual_ids().await);
+        }
+
+        let containing_docs = self.docs_containing(resource.agent_id().into()).await;
 
         let mut update = resource
             .revoke_member(
@@ -606,39 +590,12 @@ impl<
             )
             .await?;
 
-        // Propagate CGKA removals to docs that contain this group.
-        // TODO: O(# of docs x `transitive_members()`). We should replace this approach
-        // (possibly with a reverse index lookup).
-        if let Membered::Group(group_id, _) = resource {
-            if !revoked_individual_ids.is_empty() {
-                let group_identifier: Identifier = (*group_id).into();
-                let docs = { self.docs.lock().await.values().cloned().collect::<Vec<_>>() };
-                for doc in &docs {
-                    let transitive = {
-                        let locked = doc.lock().await;
-                        locked.transitive_members().await
-                    };
-                    if !transitive.contains_key(&group_identifier) {
-                        continue;
-                    }
-                    let still_reachable: HashSet<IndividualId> = transitive
-                        .into_iter()
-                        .filter_map(|(_, (agent, _))| match agent {
-                            Agent::Individual(id, _) | Agent::Active(id, _) => Some(id),
-                            _ => None,
-                        })
-                        .collect();
-                    let mut locked_doc = doc.lock().await;
-                    for &id in &revoked_individual_ids {
-                        if still_reachable.contains(&id) {
-                            continue;
-                        }
-                        if let Ok(Some(op)) = locked_doc.remove_cgka_member(id, &signer).await {
-                            update.cgka_ops.push(op);
-                        }
-                    }
-                }
-            }
+        // Propagate CGKA removals to docs that contain this group or document.
+        for (doc, mut ids) in containing_docs {
+            ids.extend(revoked_individual_ids.iter().copied());
+            let mut locked_doc = doc.lock().await;
+            let ops = locked_doc.remove_cgka_non_readers(ids, &signer).await?;
+            update.cgka_ops.extend(ops);
         }
 
         for cgka_op in &update.cgka_ops {
diff --git a/keyhive_core/src/principal/document.rs b/keyhive_core/src/principal/document.rs
index 990ffe7..29be826 100644
--- a/keyhive_core/src/principal/document.rs
+++ b/keyhive_core/src/principal/document.rs
@@ -61,6 +61,25 @@ use std::{
 use thiserror::Error;
 use tracing::instrument;
 
+/// The individuals with read access among some transitive members.
+fn readers_among<
+    F: FutureForm,
+    S: AsyncSigner<F>,
+    T: ContentRef,
+    L: MembershipListener<F, S, T>,
+>(
+    members: HashMap<Identifier, (Agent<F, S, T, L>, Access)>,
+) -> HashSet<IndividualId> {
+    members
+        .into_values()
+        .filter(|(_, can)| can.is_reader())
+        .filter_map(|(agent, _)| match agent {
+            Agent::Individual(id, _) | Agent::Active(id, _) => Some(id),
+            _ => None,
+        })
+        .collect()
+}
+
 #[derive(Clone, Derivative)]
 #[derive_where(Debug; T)]
 pub struct Document<
@@ -134,6 +153,11 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
         self.group.transitive_members().await
     }
 
+    /// The individuals that may read this document, directly or through its members.
+    pub async fn reader_ids(&self) -> HashSet<IndividualId> {
+        readers_among(self.transitive_members().await)
+    }
+
     pub fn revoked_members(&self) -> HashMap<Identifier, (Agent<F, S, T, L>, Access)> {
         self.group.revoked_members()
     }
@@ -188,9 +212,10 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
         let owner_share_secret_key = ShareSecretKey::generate(&mut *locked_csprng);
         let owner_share_key = owner_share_secret_key.share_key();
         let group_members = group.pick_individual_prekeys(doc_id).await;
+        let readers = readers_among(group.transitive_members().await);
         let other_members: Vec<(IndividualId, ShareKey)> = group_members
             .iter()
-            .filter(|(id, _sk)| **id != owner_id)
+            .filter(|(id, _sk)| **id != owner_id && readers.contains(id))
             .map(|(id, pk)| (*id, *pk))
             .collect();
         let mut owner_sks = ShareKeyMap::new();
@@ -235,6 +260,11 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
         signer: &S,
         other_relevant_docs: &[Arc<Mutex<Document<F, S, T, L>>>],
     ) -> Result<AddMemberUpdate<F, S, T, L>, AddMemberError> {
+        if can.is_reader() {
+            // There is no inviting anyone before the keys of this document have arrived
+            self.cgka()?;
+        }
+
         let mut after_content: BTreeMap<_, _> =
             join_all(other_relevant_docs.iter().map(|doc| async {
                 let locked = doc.lock().await;
@@ -249,6 +279,7 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
 
         after_content.insert(self.doc_id(), self.content_state.iter().cloned().collect());
 
+        let readers_before = self.reader_ids().await;
         let mut update = self
             .group
             .add_member_with_manual_content(member_to_add.dupe(), can, signer, after_content)
@@ -259,11 +290,9 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
             // transitive document members of the group, but not to the group itself
             // (because the group might not be a document), so we add the member to
             // the group here and add any extra resulting cgka ops to the update.
-            let prekeys = update
-                .delegation
-                .payload
-                .delegate
-                .pick_individual_prekeys(self.doc_id())
+            let added_ids = update.delegation.payload.delegate.individual_ids().await;
+            let prekeys = self
+                .pick_new_reader_prekeys(&readers_before, &added_ids)
                 .await;
             let cgka_ops_for_this_doc =
                 self.add_cgka_members_from_prekeys(&prekeys, signer).await?;
@@ -272,6 +301,24 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
         Ok(update)
     }
 
+    /// Pick prekeys for those that may read this document since they, or somebody they depend
+    /// on, have been added.
+    pub(crate) async fn pick_new_reader_prekeys(
+        &self,
+        readers_before: &HashSet<IndividualId>,
+        added_ids: &HashSet<IndividualId>,
+    ) -> HashMap<IndividualId, ShareKey> {
+        let mut prekeys = HashMap::new();
+        for (agent, can) in self.transitive_members().await.into_values() {
+            if let Agent::Individual(id, _) | Agent::Active(id, _) = agent {
+                if can.is_reader() && (added_ids.contains(&id) || !readers_before.contains(&id)) {
+                    prekeys.extend(agent.pick_individual_prekeys(self.doc_id()).await);
+                }
+            }
+        }
+        prekeys
+    }
+
     /// Add individuals to this document's [`Cgka`] from pre-computed prekeys.
     ///
     /// Prekeys must be computed before locking the document to avoid
@@ -305,6 +352,8 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
         for d in self.group.members.get(&member_id).into_iter().flatten() {
             ids_to_remove.extend(d.payload().delegate.individual_ids().await);
         }
+        // Others may only be readers because of the member being revoked
+        ids_to_remove.extend(self.reader_ids().await);
 
         let RevokeMemberUpdate {
             revocations,
@@ -320,17 +369,10 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
             )
             .await?;
 
-        // After revocation, check which individuals are still reachable via
-        // remaining members. Only remove those that are no longer reachable.
-        let still_reachable = self.group.individual_ids().await;
-        ids_to_remove.retain(|id| !still_reachable.contains(id));
-
-        // FIXME: We need to check if this has revoked the last member in our group.
+        // After revocation, only those that can no longer read are removed.
         let mut ops = cgka_ops;
-        for id in ids_to_remove {
-            if let Some(op) = self.cgka_mut()?.remove(id, signer).await? {
-                ops.push(op);
-            }
+        if self.cgka.is_some() {
+            ops.extend(self.remove_cgka_non_readers(ids_to_remove, signer).await?);
         }
         Ok(RevokeMemberUpdate {
             revocations,
@@ -348,6 +390,35 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
         self.cgka_mut()?.remove(id, signer).await
     }
 
+    /// Remove those of `ids` from this document's [`Cgka`] that may not read the document.
+    #[instrument(skip_all)]
+    pub(crate) async fn remove_cgka_non_readers(
+        &mut self,
+        ids: HashSet<IndividualId>,
+        signer: &S,
+    ) -> Result<Vec<Signed<CgkaOperation>>, CgkaError> {
+        let readers = self.reader_ids().await;
+        let mut to_remove: Vec<IndividualId> = ids.difference(&readers).copied().collect();
+        to_remove.sort();
+
+        // Whoever created the document holds the keys under the document's own ID
+        let creator = IndividualId(self.cgka()?.init_add_op().issuer.into());
+        if to_remove.contains(&creator) {
+            to_remove.push(IndividualId(self.id()));
+        }
+
+        let mut ops = Vec::new();
+        for id in to_remove {
+            match self.cgka_mut()?.remove(id, signer).await {
+                Ok(op) => ops.extend(op),
+                // There are no readers left to keep the keys from
+                Err(CgkaError::RemoveLastMember) => {}
+                Err(e) => return Err(e),
+            }
+        }
+        Ok(ops)
+    }
+
     pub async fn get_agent_revocations(
         &self,
         agent: &Agent<F, S, T, L>,
-- 
2.43.0


From 76c4dfd910fb91f3b878d5b784f7d700d6f0cc1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:59 +0000
Subject: [PATCH 46/59] fix: a contact card cannot change the prekeys of the
 public agent

---
 keyhive_core/src/keyhive.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/keyhive_core/src/keyhive.rs b/keyhive_core/src/keyhive.rs
index 431b0dd..642a776 100644
--- a/keyhive_core/src/keyhive.rs
+++ b/keyhive_core/src/keyhive.rs
@@ -344,6 +344,11 @@ impl<
         contact_card: &ContactCard,
     ) -> Result<Arc<Mutex<Individual>>, ReceivePrekeyOpError> {
         let result = if let Some(indie) = self.get_individual(contact_card.id()).await {
+            // Drop any prekey op addressed to Public so its individual can never
+            // expand or rotate.
+            if contact_card.id() == Public.individual().id() {
+                return Ok(indie);
+            }
             indie
                 .lock()
                 .await
-- 
2.43.0


From 3033b6630f7f6ad8a94b11812e04635a389e2862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:55 +0000
Subject: [PATCH 47/59] fix: a creator that was removed and adds itself again
 uses its new leaf

---
 keyhive_core/src/principal/document.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/keyhive_core/src/principal/document.rs b/keyhive_core/src/principal/document.rs
index 29be826..2ae7800 100644
--- a/keyhive_core/src/principal/document.rs
+++ b/keyhive_core/src/principal/document.rs
@@ -527,15 +527,21 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
         let Some(cgka) = &mut self.cgka else {
             return Ok(());
         };
+        let mut adopted = false;
         for op in cgka.ops()?.iter().flat_map(|epoch| epoch.iter()) {
             if let CgkaOperation::Add { added_id, pk, .. } = op.payload {
                 if IndividualId::from(added_id) == id {
                     if let Some(sk) = prekey_pairs.get(&pk) {
                         cgka.owner_sks_mut().insert(pk, *sk);
+                        adopted = true;
                     }
                 }
             }
         }
+        if adopted {
+            // The leaf we created the document with may be gone
+            self.reset_cgka_owner(id)?;
+        }
         Ok(())
     }
 
-- 
2.43.0


From 0d94139d95040be8bf036526237d5b868a9e45e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:14 +0000
Subject: [PATCH 48/59] fix: cyclic memberships no longer deadlock additions,
 revocations and their receipt

Whoever holds the lock of a group or document skips it while walking the
transitive members of its members.
---
 keyhive_core/src/principal/agent.rs       | 21 ++++++++++++++--
 keyhive_core/src/principal/document.rs    | 14 +++++++++--
 keyhive_core/src/principal/group.rs       | 29 +++++++++++++++++++----
 keyhive_core/src/principal/group/state.rs |  6 ++++-
 keyhive_core/src/principal/membered.rs    | 20 ++++++++++++++++
 5 files changed, 80 insertions(+), 10 deletions(-)

diff --git a/keyhive_core/src/principal/agent.rs b/keyhive_core/src/principal/agent.rs
index e2e71d9..fbbd3de 100644
--- a/keyhive_core/src/principal/agent.rs
+++ b/keyhive_core/src/principal/agent.rs
@@ -82,8 +82,16 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
     }
 
     pub async fn individual_ids(&self) -> HashSet<IndividualId> {
+        self.individual_ids_apart_from(None).await
+    }
+
+    /// The individuals, without looking into `skip`, whose lock the caller holds.
+    pub(crate) async fn individual_ids_apart_from(
+        &self,
+        skip: Option<Identifier>,
+    ) -> HashSet<IndividualId> {
         let mut ids = HashSet::new();
-        let mut seen = HashSet::new();
+        let mut seen: HashSet<Identifier> = skip.into_iter().collect();
         let mut stack: Vec<Self> = vec![self.dupe()];
 
         while let Some(node) = stack.pop() {
@@ -122,9 +130,18 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
     pub async fn pick_individual_prekeys(
         &self,
         doc_id: DocumentId,
+    ) -> HashMap<IndividualId, ShareKey> {
+        self.pick_individual_prekeys_apart_from(doc_id, None).await
+    }
+
+    /// As above, without looking into `skip`, whose lock the caller holds.
+    pub(crate) async fn pick_individual_prekeys_apart_from(
+        &self,
+        doc_id: DocumentId,
+        skip: Option<Identifier>,
     ) -> HashMap<IndividualId, ShareKey> {
         let mut result = HashMap::new();
-        let mut seen = HashSet::new();
+        let mut seen: HashSet<Identifier> = skip.into_iter().collect();
         let mut stack: Vec<Self> = vec![self.dupe()];
 
         while let Some(agent) = stack.pop() {
diff --git a/keyhive_core/src/principal/document.rs b/keyhive_core/src/principal/document.rs
index 2ae7800..429241f 100644
--- a/keyhive_core/src/principal/document.rs
+++ b/keyhive_core/src/principal/document.rs
@@ -290,7 +290,12 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
             // transitive document members of the group, but not to the group itself
             // (because the group might not be a document), so we add the member to
             // the group here and add any extra resulting cgka ops to the update.
-            let added_ids = update.delegation.payload.delegate.individual_ids().await;
+            let added_ids = update
+                .delegation
+                .payload
+                .delegate
+                .individual_ids_apart_from(Some(self.id()))
+                .await;
             let prekeys = self
                 .pick_new_reader_prekeys(&readers_before, &added_ids)
                 .await;
@@ -350,7 +355,12 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
         // group revocation removes them from the members map.
         let mut ids_to_remove = HashSet::new();
         for d in self.group.members.get(&member_id).into_iter().flatten() {
-            ids_to_remove.extend(d.payload().delegate.individual_ids().await);
+            ids_to_remove.extend(
+                d.payload()
+                    .delegate
+                    .individual_ids_apart_from(Some(self.id()))
+                    .await,
+            );
         }
         // Others may only be readers because of the member being revoked
         ids_to_remove.extend(self.reader_ids().await);
diff --git a/keyhive_core/src/principal/group.rs b/keyhive_core/src/principal/group.rs
index d55265c..631939a 100644
--- a/keyhive_core/src/principal/group.rs
+++ b/keyhive_core/src/principal/group.rs
@@ -236,7 +236,11 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
     pub async fn individual_ids(&self) -> HashSet<IndividualId> {
         let mut ids = HashSet::new();
         for delegations in self.members.values() {
-            let more_ids = delegations[0].payload().delegate.individual_ids().await;
+            let more_ids = delegations[0]
+                .payload()
+                .delegate
+                .individual_ids_apart_from(Some(self.id()))
+                .await;
             ids.extend(more_ids.iter());
         }
         ids
@@ -256,7 +260,12 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
                     crate::principal::public::Public.share_key(),
                 );
             } else {
-                prekeys.extend(agent.pick_individual_prekeys(doc_id).await.iter());
+                prekeys.extend(
+                    agent
+                        .pick_individual_prekeys_apart_from(doc_id, Some(self.id()))
+                        .await
+                        .iter(),
+                );
             }
         }
         prekeys
@@ -269,6 +278,16 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
 
     #[tracing::instrument(skip(self), fields(group_id = %self.group_id()))]
     pub async fn transitive_members(&self) -> HashMap<Identifier, (Agent<F, S, T, L>, Access)> {
+        self.transitive_members_apart_from(None).await
+    }
+
+    /// The transitive members, without looking into the group or document `skip`.
+    ///
+    /// Memberships can be cyclic: whoever holds the lock of a group or document has to skip it.
+    pub(crate) async fn transitive_members_apart_from(
+        &self,
+        skip: Option<Identifier>,
+    ) -> HashMap<Identifier, (Agent<F, S, T, L>, Access)> {
         let mut explore: Vec<(Agent<F, S, T, L>, Access)> = vec![];
 
         for member in self.members.keys() {
@@ -284,7 +303,7 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
         // A path is worth its weakest link, and a member has the access of their best path.
         while let Some((member, path_access)) = explore.pop() {
             let id = member.id();
-            if id == self.id() {
+            if id == self.id() || Some(id) == skip {
                 continue;
             }
 
@@ -516,7 +535,7 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
                     .expect("members have capabilities by definition");
 
                 if let Some(m) = dlg.payload.delegate.as_membered() {
-                    let sub_members = m.transitive_members().await;
+                    let sub_members = m.transitive_members_apart_from(self.id()).await;
                     if let Some((_, sub_access)) = sub_members.get(&signer_id) {
                         // The path through the member is worth its weakest link
                         let access = *sub_access.min(&dlg.payload.can);
@@ -653,7 +672,7 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
                             .expect("members have capabilities by definition");
 
                         if let Some(m) = dlg.payload.delegate.as_membered() {
-                            let sub_members = m.transitive_members().await;
+                            let sub_members = m.transitive_members_apart_from(self.id()).await;
                             if let Some((_, sub_access)) = sub_members.get(&signer_id) {
                                 // The path through the member is worth its weakest link
                                 if *sub_access.min(&dlg.payload.can) >= to_revoke.payload.can {
diff --git a/keyhive_core/src/principal/group/state.rs b/keyhive_core/src/principal/group/state.rs
index 50dd2e1..4c1db51 100644
--- a/keyhive_core/src/principal/group/state.rs
+++ b/keyhive_core/src/principal/group/state.rs
@@ -181,6 +181,7 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
                     &proof.payload.delegate,
                     head_id,
                     delegation.payload.can,
+                    self.id.into(),
                 )
                 .await
                 {
@@ -248,6 +249,7 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
                         &proof.payload.delegate,
                         revoker_id,
                         revoked.payload.can,
+                        self.id.into(),
                     )
                     .await)
             {
@@ -270,6 +272,7 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
                         &next_proof.payload.delegate,
                         head_id,
                         proof.payload.can,
+                        self.id.into(),
                     )
                     .await
                     {
@@ -342,11 +345,12 @@ async fn is_transitive_member_of<
     delegate: &Agent<F, S, T, L>,
     member_id: Identifier,
     min_access: Access,
+    locked: Identifier,
 ) -> bool {
     let Some(m) = delegate.as_membered() else {
         return false;
     };
-    m.transitive_members()
+    m.transitive_members_apart_from(locked)
         .await
         .get(&member_id)
         .map(|(_, access)| *access >= min_access)
diff --git a/keyhive_core/src/principal/membered.rs b/keyhive_core/src/principal/membered.rs
index 55bb547..5bca323 100644
--- a/keyhive_core/src/principal/membered.rs
+++ b/keyhive_core/src/principal/membered.rs
@@ -105,6 +105,26 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
         }
     }
 
+    /// The transitive members, without looking into `skip`, whose lock the caller holds.
+    pub(crate) async fn transitive_members_apart_from(
+        &self,
+        skip: Identifier,
+    ) -> HashMap<Identifier, (Agent<F, S, T, L>, Access)> {
+        let skip = Some(skip);
+        match self {
+            Membered::Group(id, _) if Some((*id).into()) == skip => HashMap::new(),
+            Membered::Document(id, _) if Some((*id).into()) == skip => HashMap::new(),
+            Membered::Group(_, group) => {
+                let locked = group.lock().await;
+                locked.transitive_members_apart_from(skip).await
+            }
+            Membered::Document(_, doc) => {
+                let locked = doc.lock().await;
+                locked.group.transitive_members_apart_from(skip).await
+            }
+        }
+    }
+
     #[allow(clippy::type_complexity)]
     pub async fn add_member(
         &self,
-- 
2.43.0


From 732de353d7f66076092190ca4266d444efe112cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:14 +0000
Subject: [PATCH 49/59] fix: malformed path updates are refused instead of
 breaking the tree

An update has to name the leaf it is about, every node of its path needs a
key, and only the initial add has no predecessors. An encrypted key that no
known operation explains is an error, not an assertion.
---
 beekem/src/cgka.rs         | 17 +++++++++++++----
 beekem/src/secret_store.rs |  6 ++++++
 beekem/src/tree.rs         |  7 +++++++
 3 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/beekem/src/cgka.rs b/beekem/src/cgka.rs
index 17d97d7..5e5587a 100644
--- a/beekem/src/cgka.rs
+++ b/beekem/src/cgka.rs
@@ -388,7 +388,16 @@ impl Cgka {
         if self.ops_graph.contains_op_hash(&Digest::hash(&op)) {
             return Ok(false);
         }
+        if let CgkaOperation::Update { id, new_path, .. } = &op.payload {
+            if *id != new_path.leaf_id || !new_path.is_well_formed() {
+                return Err(CgkaError::InvalidOperation);
+            }
+        }
         let predecessors = op.payload.predecessors();
+        if predecessors.is_empty() {
+            // Only the initial add comes after nothing
+            return Err(CgkaError::UnexpectedInitialOperation);
+        }
         if !self.ops_graph.contains_predecessors(&predecessors) {
             return Err(CgkaError::OutOfOrderOperation);
         }
@@ -596,10 +605,10 @@ impl Cgka {
     /// list of [`CgkaEpoch`]s.
     #[instrument(skip_all)]
     fn rebuild_pcs_key(&mut self, epochs: NonEmpty<CgkaEpoch>) -> Result<PcsKey, CgkaError> {
-        debug_assert!(matches!(
-            epochs.last()[0].payload,
-            CgkaOperation::Update { .. }
-        ));
+        // The hash comes from the ciphertext, and may name any operation
+        if !matches!(epochs.last()[0].payload, CgkaOperation::Update { .. }) {
+            return Err(CgkaError::UnknownPcsKey);
+        }
         let mut rebuilt_cgka = Cgka::new_from_init_add(
             self.doc_id,
             self.original_member.0,
diff --git a/beekem/src/secret_store.rs b/beekem/src/secret_store.rs
index a319cbf..d104e00 100644
--- a/beekem/src/secret_store.rs
+++ b/beekem/src/secret_store.rs
@@ -38,6 +38,12 @@ impl SecretStore {
         }
     }
 
+    /// Whether the invariant of having at least one version is broken, which only
+    /// a malformed message can do.
+    pub(crate) fn is_empty(&self) -> bool {
+        self.versions.is_empty()
+    }
+
     pub fn has_conflict(&self) -> bool {
         self.versions.len() > 1
     }
diff --git a/beekem/src/tree.rs b/beekem/src/tree.rs
index 1f3f877..3b42bfd 100644
--- a/beekem/src/tree.rs
+++ b/beekem/src/tree.rs
@@ -31,6 +31,13 @@ pub struct PathChange {
     pub removed_keys: Vec<ShareKey>,
 }
 
+impl PathChange {
+    /// Whether every node on the path has a key, as every path we encrypt does.
+    pub(crate) fn is_well_formed(&self) -> bool {
+        self.path.iter().all(|(_, node)| !node.is_empty())
+    }
+}
+
 /// BeeKEM is our variant of the [TreeKEM] protocol (used in [MLS]) and inspired by
 /// [Matthew Weidner's Causal TreeKEM][Causal TreeKEM]. The distinctive
 /// feature of BeeKEM is that when merging concurrent updates, we keep all concurrent
-- 
2.43.0


From 4639704e1de3ab5ba6c5141511843003a48f5b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:32 +0000
Subject: [PATCH 50/59] fix: an individual that becomes a group is found as
 one, and the public agent never becomes one

Promoted individuals were dropped from the individuals without being added to
the groups, whose lock was then still held while they were looked up.
---
 keyhive_core/src/keyhive.rs | 88 ++++++++++++++++++-------------------
 1 file changed, 44 insertions(+), 44 deletions(-)

diff --git a/keyhive_core/src/keyhive.rs b/keyhive_core/src/keyhive.rs
index 642a776..aeff1c1 100644
--- a/keyhive_core/src/keyhive.rs
+++ b/keyhive_core/src/keyhive.rs
@@ -1656,34 +1656,32 @@ impl<
         let delegation = Signed::new(payload, static_dlg.issuer, static_dlg.signature);
 
         let subject_id = delegation.subject_id();
+        // Everybody knows the signing key of Public: it can never become a group.
+        if subject_id == Public.id().into() {
+            return Err(AddError::InvalidSubject(Box::new(subject_id)).into());
+        }
         let delegation = Arc::new(delegation);
-        let mut found = false;
-        {
-            if let Some(group) = self.groups.lock().await.get(&GroupId(subject_id)) {
-                found = true;
-                group
-                    .lock()
-                    .await
-                    .receive_delegation(delegation.clone())
-                    .await?;
-            } else if let Some(doc) = self.docs.lock().await.get(&DocumentId(subject_id)) {
-                found = true;
-                doc.lock()
-                    .await
-                    .receive_delegation(delegation.clone())
-                    .await?;
-            } else if let Some(indie) = self
-                .individuals
+        let group = {
+            self.groups
                 .lock()
                 .await
-                .remove(&IndividualId(subject_id))
-            {
-                found = true;
-                self.promote_individual_to_group(indie, delegation.clone())
-                    .await;
-            }
-        }
-        if !found {
+                .get(&GroupId(subject_id))
+                .map(|g| g.dupe())
+        };
+        let doc = {
+            self.docs
+                .lock()
+                .await
+                .get(&DocumentId(subject_id))
+                .map(|d| d.dupe())
+        };
+        if let Some(group) = group {
+            group.lock().await.receive_delegation(delegation).await?;
+        } else if let Some(doc) = doc {
+            doc.lock().await.receive_delegation(delegation).await?;
+        } else if let Some(indie) = self.take_individual(&IndividualId(subject_id)).await {
+            self.promote_individual_to_group(indie, delegation).await;
+        } else {
             let group = Group::new(
                 GroupId(subject_id),
                 delegation.dupe(),
@@ -1736,30 +1734,27 @@ impl<
 
         let id = revocation.subject_id();
         let revocation = Arc::new(revocation);
-        if let Some(group) = self.groups.lock().await.get(&GroupId(id)) {
-            group
+        let group = { self.groups.lock().await.get(&GroupId(id)).map(|g| g.dupe()) };
+        let doc = {
+            self.docs
                 .lock()
                 .await
-                .receive_revocation(revocation.clone())
-                .await?;
-        } else if let Some(doc) = self.docs.lock().await.get(&DocumentId(id)) {
-            doc.lock()
-                .await
-                .receive_revocation(revocation.clone())
-                .await?;
-        } else if let Some(indie) = self.individuals.lock().await.remove(&IndividualId(id)) {
+                .get(&DocumentId(id))
+                .map(|d| d.dupe())
+        };
+        if let Some(group) = group {
+            group.lock().await.receive_revocation(revocation).await?;
+        } else if let Some(doc) = doc {
+            doc.lock().await.receive_revocation(revocation).await?;
+        } else if let Some(indie) = self.take_individual(&IndividualId(id)).await {
             let group = self
                 .promote_individual_to_group(indie, revocation.payload.revoke.dupe())
                 .await;
-            group
-                .lock()
-                .await
-                .receive_revocation(revocation.clone())
-                .await?;
+            group.lock().await.receive_revocation(revocation).await?;
         } else {
             let group = Arc::new(Mutex::new(
                 Group::new(
-                    GroupId(static_rev.issuer.into()),
+                    GroupId(id),
                     revocation.payload.revoke.dupe(),
                     self.delegations.dupe(),
                     self.revocations.dupe(),
@@ -1779,6 +1774,10 @@ impl<
         Ok(())
     }
 
+    async fn take_individual(&self, id: &IndividualId) -> Option<Arc<Mutex<Individual>>> {
+        self.individuals.lock().await.remove(id)
+    }
+
     #[instrument(skip_all)]
     pub async fn receive_static_event(
         &self,
@@ -1885,7 +1884,9 @@ impl<
             .await,
         ));
 
-        let agent = Agent::Group(group.lock().await.group_id(), group.dupe());
+        let group_id = group.lock().await.group_id();
+        let agent = Agent::Group(group_id, group.dupe());
+        self.groups.lock().await.insert(group_id, group.dupe());
 
         {
             let mut locked_delegations = self.delegations.lock().await;
@@ -1907,10 +1908,9 @@ impl<
         }
 
         {
-            let group_id = group.lock().await.id();
             let mut locked_revocations = self.revocations.lock().await;
             for (_digest, rev) in locked_revocations.clone().iter() {
-                if rev.payload.subject_id() == group_id {
+                if rev.payload.subject_id() == group_id.into() {
                     locked_revocations.insert(Arc::new(Signed::new(
                         Revocation {
                             revoke: self
-- 
2.43.0


From 3fcc14ccda4aa43be4c4345cc14f4a1fa1d05ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:32 +0000
Subject: [PATCH 51/59] fix: group key operations are only accepted from those
 who were given a part in the document

Anyone who knew a document's id could add, remove and update members of its
group key, and so read what was encrypted later or lock the readers out.
---
 keyhive_core/src/keyhive.rs | 75 +++++++++++++++++++++++++++++++++++++
 1 file changed, 75 insertions(+)

diff --git a/keyhive_core/src/keyhive.rs b/keyhive_core/src/keyhive.rs
index aeff1c1..32fceb1 100644
--- a/keyhive_core/src/keyhive.rs
+++ b/keyhive_core/src/keyhive.rs
@@ -1827,6 +1827,10 @@ impl<
                 .dupe()
         };
 
+        if !self.may_issue_cgka_op(doc_id, &signed_op).await {
+            return Err(ReceiveCgkaOpError::UnauthorizedOperation);
+        }
+
         let signed_op = Arc::new(signed_op);
         if let CgkaOperation::Add { added_id, pk, .. } = signed_op.payload {
             let added_id: IndividualId = added_id.into();
@@ -1866,6 +1870,73 @@ impl<
         Ok(())
     }
 
+    /// Whether the issuer of a group key operation has ever been given a part in the document
+    /// that allows for it.
+    ///
+    /// Delegations that have since been revoked count as well: the operation may have been
+    /// issued concurrently with their revocation.
+    async fn may_issue_cgka_op(&self, doc_id: DocumentId, op: &Signed<CgkaOperation>) -> bool {
+        let doc_id: Identifier = doc_id.into();
+        let public_id: Identifier = Public.id().into();
+        let issuer: Identifier = op.issuer().into();
+
+        let mut delegates: HashMap<Identifier, Vec<(Identifier, Access)>> = HashMap::new();
+        let mut parents: HashSet<Identifier> = HashSet::new();
+        for (_, dlg) in self.delegations.lock().await.iter() {
+            let subject = dlg.subject_id();
+            let delegate = dlg.payload.delegate.id();
+            if subject == doc_id && dlg.payload.proof.is_none() {
+                parents.insert(delegate);
+            }
+            delegates
+                .entry(subject)
+                .or_default()
+                .push((delegate, dlg.payload.can));
+        }
+
+        let mut granted: HashMap<Identifier, Access> = HashMap::new();
+        let mut explore = vec![(doc_id, Access::Admin)];
+        while let Some((id, access)) = explore.pop() {
+            if granted.get(&id).is_some_and(|best| *best >= access) {
+                continue;
+            }
+            granted.insert(id, access);
+            for (delegate, can) in delegates.get(&id).into_iter().flatten() {
+                explore.push((*delegate, access.min(*can)));
+            }
+        }
+        let reads = |id: &Identifier| granted.get(id).is_some_and(|a| a.is_reader());
+
+        match &op.payload {
+            CgkaOperation::Add {
+                added_id,
+                pk,
+                predecessors,
+                ..
+            } => {
+                let added: Identifier = IndividualId::from(*added_id).into();
+                if predecessors.is_empty() {
+                    return added == doc_id && parents.contains(&issuer);
+                }
+                granted.contains_key(&issuer)
+                    && reads(&added)
+                    && (added != public_id || *pk == Public.share_key())
+            }
+            CgkaOperation::Remove { .. } => granted.contains_key(&issuer),
+            CgkaOperation::Update { id, .. } => {
+                let id: Identifier = IndividualId::from(*id).into();
+                if id == doc_id {
+                    // The leaf of the document itself is that of its creator
+                    parents.contains(&issuer)
+                } else if id == public_id {
+                    granted.contains_key(&issuer) || reads(&public_id)
+                } else {
+                    id == issuer && reads(&issuer)
+                }
+            }
+        }
+    }
+
     #[instrument(skip_all)]
     pub async fn promote_individual_to_group(
         &self,
@@ -2864,6 +2935,9 @@ pub enum ReceiveCgkaOpError {
 
     #[error("Unknown invite prekey for received CGKA add op: {0}")]
     UnknownInvitePrekey(ShareKey),
+
+    #[error("The issuer of the received CGKA op has no part in the document that allows for it")]
+    UnauthorizedOperation,
 }
 
 impl ReceiveCgkaOpError {
@@ -2873,6 +2947,7 @@ impl ReceiveCgkaOpError {
             Self::VerificationError(_) => false,
             Self::UnknownDocument(_) => false,
             Self::UnknownInvitePrekey(_) => false,
+            Self::UnauthorizedOperation => true,
         }
     }
 }
-- 
2.43.0


From fcb9354c591fe37ffd180c4143b5da02b89fbebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:32 +0000
Subject: [PATCH 52/59] fix: a new group cannot start after the revocations of
 another one

The check existed only for delegations to groups that are already known.
---
 keyhive_core/src/keyhive.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/keyhive_core/src/keyhive.rs b/keyhive_core/src/keyhive.rs
index 32fceb1..5c9b8a6 100644
--- a/keyhive_core/src/keyhive.rs
+++ b/keyhive_core/src/keyhive.rs
@@ -1660,6 +1660,12 @@ impl<
         if subject_id == Public.id().into() {
             return Err(AddError::InvalidSubject(Box::new(subject_id)).into());
         }
+        // Otherwise the revocation would pull another group's history into this one
+        for rev in &delegation.payload.after_revocations {
+            if rev.subject_id() != subject_id {
+                return Err(AddError::InvalidSubject(Box::new(rev.subject_id())).into());
+            }
+        }
         let delegation = Arc::new(delegation);
         let group = {
             self.groups
-- 
2.43.0


From a4739b507ad3236d4719c9208e683b078771ae8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:20 +0000
Subject: [PATCH 53/59] fix: whoever becomes a group is found as one by
 everything granted to them before

---
 keyhive_core/src/keyhive.rs         | 117 ++++++++++++++++++----------
 keyhive_core/src/principal/group.rs |  19 +++++
 2 files changed, 95 insertions(+), 41 deletions(-)

diff --git a/keyhive_core/src/keyhive.rs b/keyhive_core/src/keyhive.rs
index 5c9b8a6..cb71b68 100644
--- a/keyhive_core/src/keyhive.rs
+++ b/keyhive_core/src/keyhive.rs
@@ -1962,56 +1962,91 @@ impl<
         ));
 
         let group_id = group.lock().await.group_id();
-        let agent = Agent::Group(group_id, group.dupe());
         self.groups.lock().await.insert(group_id, group.dupe());
+        self.repoint_delegates(Agent::Group(group_id, group.dupe()))
+            .await;
 
-        {
-            let mut locked_delegations = self.delegations.lock().await;
-            for (_digest, dlg) in locked_delegations.clone().iter() {
-                if dlg.payload.delegate == agent {
-                    locked_delegations.insert(Arc::new(Signed::new(
-                        Delegation {
-                            delegate: agent.dupe(),
-                            can: dlg.payload.can,
-                            proof: dlg.payload.proof.clone(),
-                            after_revocations: dlg.payload.after_revocations.clone(),
-                            after_content: dlg.payload.after_content.clone(),
-                        },
-                        dlg.issuer,
-                        dlg.signature,
-                    )));
-                }
-            }
-        }
+        group
+    }
 
+    /// Replace the individual that `agent` used to be in all of the operations that we hold,
+    /// so that those that were given something together with it are found through it.
+    async fn repoint_delegates(&self, agent: Agent<F, S, T, L>) {
         {
-            let mut locked_revocations = self.revocations.lock().await;
-            for (_digest, rev) in locked_revocations.clone().iter() {
-                if rev.payload.subject_id() == group_id.into() {
-                    locked_revocations.insert(Arc::new(Signed::new(
-                        Revocation {
-                            revoke: self
-                                .delegations
-                                .lock()
-                                .await
-                                .get(&Digest::hash(&rev.payload.revoke))
-                                .expect("revoked delegation to be available")
-                                .dupe(),
-                            proof: if let Some(proof) = rev.payload.proof.dupe() {
-                                self.delegations.lock().await.get(&Digest::hash(&proof))
-                            } else {
-                                panic!("revoked delegation to be available");
+            let mut delegations = self.delegations.lock().await;
+            let mut revocations = self.revocations.lock().await;
+
+            // NOTE: an operation comes after all that it refers to
+            let ops = MembershipOperation::reverse_topsort(&delegations, &revocations);
+            for (_, op) in ops.into_iter().rev() {
+                match op {
+                    MembershipOperation::Delegation(dlg) => {
+                        let payload = &dlg.payload;
+                        let delegate = match &payload.delegate {
+                            Agent::Individual(..) if payload.delegate.id() == agent.id() => {
+                                agent.dupe()
+                            }
+                            other => other.dupe(),
+                        };
+                        let proof = payload.proof.as_ref().map(|proof| {
+                            delegations
+                                .get(&Digest::hash(proof.as_ref()))
+                                .unwrap_or_else(|| proof.dupe())
+                        });
+                        let after_revocations = payload
+                            .after_revocations
+                            .iter()
+                            .map(|rev| {
+                                revocations
+                                    .get(&Digest::hash(rev.as_ref()))
+                                    .unwrap_or_else(|| rev.dupe())
+                            })
+                            .collect();
+                        delegations.insert(Arc::new(Signed::new(
+                            Delegation {
+                                delegate,
+                                can: payload.can,
+                                proof,
+                                after_revocations,
+                                after_content: payload.after_content.clone(),
                             },
-                            after_content: rev.payload.after_content.clone(),
-                        },
-                        rev.issuer,
-                        rev.signature,
-                    )));
+                            dlg.issuer,
+                            dlg.signature,
+                        )));
+                    }
+                    MembershipOperation::Revocation(rev) => {
+                        let payload = &rev.payload;
+                        let revoke = delegations
+                            .get(&Digest::hash(payload.revoke.as_ref()))
+                            .unwrap_or_else(|| payload.revoke.dupe());
+                        let proof = payload.proof.as_ref().map(|proof| {
+                            delegations
+                                .get(&Digest::hash(proof.as_ref()))
+                                .unwrap_or_else(|| proof.dupe())
+                        });
+                        revocations.insert(Arc::new(Signed::new(
+                            Revocation {
+                                revoke,
+                                proof,
+                                after_content: payload.after_content.clone(),
+                            },
+                            rev.issuer,
+                            rev.signature,
+                        )));
+                    }
                 }
             }
         }
 
-        group
+        let groups: Vec<_> = { self.groups.lock().await.values().cloned().collect() };
+        for group in groups {
+            group.lock().await.reload_heads().await;
+        }
+
+        let docs: Vec<_> = { self.docs.lock().await.values().cloned().collect() };
+        for doc in docs {
+            doc.lock().await.group.reload_heads().await;
+        }
     }
 
     /// Export prekey secrets as an opaque blob for backup/migration.
diff --git a/keyhive_core/src/principal/group.rs b/keyhive_core/src/principal/group.rs
index 631939a..518233f 100644
--- a/keyhive_core/src/principal/group.rs
+++ b/keyhive_core/src/principal/group.rs
@@ -782,6 +782,25 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
         Ok(Arc::new(revocation))
     }
 
+    /// Take the heads over from the stores again, where the operations have been replaced.
+    pub(crate) async fn reload_heads(&mut self) {
+        {
+            let delegations = self.state.delegations.lock().await;
+            for (digest, head) in self.state.delegation_heads.clone().iter() {
+                let stored = delegations.get(digest).unwrap_or_else(|| head.dupe());
+                self.state.delegation_heads.insert(stored);
+            }
+        }
+        {
+            let revocations = self.state.revocations.lock().await;
+            for (digest, head) in self.state.revocation_heads.clone().iter() {
+                let stored = revocations.get(digest).unwrap_or_else(|| head.dupe());
+                self.state.revocation_heads.insert(stored);
+            }
+        }
+        self.rebuild().await;
+    }
+
     #[tracing::instrument(skip_all)]
     pub async fn rebuild(&mut self) {
         self.members.clear();
-- 
2.43.0


From cb5e76d04b845a60c4f75f1ddaa04ecfa8037af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:25 +0000
Subject: [PATCH 54/59] fix: merging an archive or a fork keeps individuals
 that became groups

---
 keyhive_core/src/keyhive.rs | 59 ++++++++++++++++++++++++-------------
 1 file changed, 39 insertions(+), 20 deletions(-)

diff --git a/keyhive_core/src/keyhive.rs b/keyhive_core/src/keyhive.rs
index cb71b68..9fb9b17 100644
--- a/keyhive_core/src/keyhive.rs
+++ b/keyhive_core/src/keyhive.rs
@@ -2450,13 +2450,8 @@ impl<
             }
         }
 
-        for (id, indie) in archive.individuals {
-            let mut locked_indies = self.individuals.lock().await;
-            if let Some(our_indie) = locked_indies.get_mut(&id) {
-                our_indie.merge_async(indie).await;
-            } else {
-                locked_indies.insert(id, Arc::new(Mutex::new(indie)));
-            }
+        for indie in archive.individuals.into_values() {
+            self.merge_individual(indie).await;
         }
 
         let mut events = archive
@@ -2487,10 +2482,37 @@ impl<
         events.extend(archive.pending_events);
 
         let pending = self.ingest_unsorted_static_events(events).await;
+        for group in archive.groups.into_values() {
+            if let IdOrIndividual::Individual(indie) = group.id_or_indie {
+                self.merge_individual(indie).await;
+            }
+        }
         self.merge_cgkas(cgkas).await;
         Ok(pending)
     }
 
+    /// Merge what another copy of this peer knows of an individual, which may have become a
+    /// group since, here or there.
+    async fn merge_individual(&self, indie: Individual) {
+        let id = indie.id();
+        if let Some(group) = self.get_group(GroupId(id.into())).await {
+            let mut locked = group.lock().await;
+            if let IdOrIndividual::Individual(our_indie) = &mut locked.id_or_indie {
+                our_indie.merge(indie);
+            } else {
+                locked.id_or_indie = IdOrIndividual::Individual(indie);
+            }
+            return;
+        }
+
+        let mut locked_indies = self.individuals.lock().await;
+        if let Some(our_indie) = locked_indies.get_mut(&id) {
+            our_indie.merge_async(indie).await;
+        } else {
+            locked_indies.insert(id, Arc::new(Mutex::new(indie)));
+        }
+    }
+
     /// Merge the group keys that another copy of this peer holds, including their secrets.
     async fn merge_cgkas(&self, cgkas: Vec<(DocumentId, Cgka)>) {
         for (doc_id, cgka) in cgkas {
@@ -2761,19 +2783,9 @@ where
         let locked = self.lock().await;
         locked.active.lock().await.merge_async(forked_active).await;
 
-        {
-            let mut locked_fork_indies = fork.individuals.lock().await;
-            let mut locked_indies = locked.individuals.lock().await;
-            for (id, forked_indie) in locked_fork_indies.drain() {
-                if let Some(og_indie) = locked_indies.get(&id) {
-                    og_indie
-                        .lock()
-                        .await
-                        .merge(forked_indie.lock().await.clone())
-                } else {
-                    locked_indies.insert(id, forked_indie);
-                }
-            }
+        for forked_indie in fork.individuals.lock().await.values() {
+            let forked_indie = forked_indie.lock().await.clone();
+            locked.merge_individual(forked_indie).await;
         }
 
         let forked_events = { fork.event_listener.0.lock().await.clone() };
@@ -2795,6 +2807,13 @@ where
         }
         locked.ingest_unsorted_static_events(events).await;
 
+        for group in fork.groups.lock().await.values() {
+            let forked_group = group.lock().await.id_or_indie.clone();
+            if let IdOrIndividual::Individual(forked_indie) = forked_group {
+                locked.merge_individual(forked_indie).await;
+            }
+        }
+
         let mut cgkas = Vec::new();
         for (doc_id, doc) in fork.docs.lock().await.iter() {
             if let Ok(cgka) = doc.lock().await.cgka() {
-- 
2.43.0


From c35a0179b79406cc904a28c751d195aa1e9b25de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:18 +0000
Subject: [PATCH 55/59] fix: calls at the same time cannot wait for each
 other's locks

---
 keyhive_core/src/keyhive.rs            | 19 ++++++------
 keyhive_core/src/principal/document.rs | 41 +++++++++++++++-----------
 keyhive_core/src/principal/group.rs    |  7 +++--
 3 files changed, 36 insertions(+), 31 deletions(-)

diff --git a/keyhive_core/src/keyhive.rs b/keyhive_core/src/keyhive.rs
index 9fb9b17..c70b985 100644
--- a/keyhive_core/src/keyhive.rs
+++ b/keyhive_core/src/keyhive.rs
@@ -639,9 +639,9 @@ impl<
     ) -> Result<(EncryptedContentWithUpdate<T>, SymmetricKey), EncryptContentError> {
         let signer = { self.active.lock().await.signer.clone() };
         let (result, application_secret_key) = {
+            let mut locked_doc = doc.lock().await;
             let mut locked_csprng = self.csprng.lock().await;
-            doc.lock()
-                .await
+            locked_doc
                 .try_encrypt_content_keyed(
                     content_ref,
                     content,
@@ -702,12 +702,11 @@ impl<
         doc: Arc<Mutex<Document<F, S, T, L>>>,
     ) -> Result<(Signed<CgkaOperation>, ShareKey, ShareSecretKey), EncryptError> {
         let signer = { self.active.lock().await.signer.clone() };
-        let mut locked_csprng = self.csprng.lock().await;
-        let (op, new_share_key, new_share_secret_key) = doc
-            .lock()
-            .await
-            .pcs_update(&signer, &mut *locked_csprng)
-            .await?;
+        let (op, new_share_key, new_share_secret_key) = {
+            let mut locked_doc = doc.lock().await;
+            let mut locked_csprng = self.csprng.lock().await;
+            locked_doc.pcs_update(&signer, &mut *locked_csprng).await?
+        };
         self.event_listener.on_cgka_op(&Arc::new(op.clone())).await;
         Ok((op, new_share_key, new_share_secret_key))
     }
@@ -715,8 +714,8 @@ impl<
     #[instrument(skip_all)]
     pub async fn reachable_docs(&self) -> BTreeMap<DocumentId, Ability<F, S, T, L>> {
         let active = self.active.dupe();
-        let locked_active = self.active.lock().await;
-        self.docs_reachable_by_agent(&Agent::Active(locked_active.id(), active))
+        let id = { self.active.lock().await.id() };
+        self.docs_reachable_by_agent(&Agent::Active(id, active))
             .await
     }
 
diff --git a/keyhive_core/src/principal/document.rs b/keyhive_core/src/principal/document.rs
index 429241f..23f6761 100644
--- a/keyhive_core/src/principal/document.rs
+++ b/keyhive_core/src/principal/document.rs
@@ -189,27 +189,32 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
         signer: &S,
         csprng: Arc<Mutex<R>>,
     ) -> Result<Self, GenerateDocError> {
-        let mut locked_csprng = csprng.lock().await;
-        let (group_result, group_vk) =
-            EphemeralSigner::with_signer(&mut *locked_csprng, |verifier, signer| {
-                Group::generate_after_content(
-                    signer,
-                    verifier,
-                    parents,
-                    delegations,
-                    revocations,
-                    BTreeMap::from_iter([(
-                        DocumentId(verifier.into()),
-                        initial_content_heads.clone().into_iter().collect(),
-                    )]),
-                    listener,
-                )
-            });
+        // NOTE: picking prekeys below locks the active agent, whose own operations lock the
+        // csprng, so it cannot be held throughout
+        let (group_result, group_vk, owner_share_secret_key) = {
+            let mut locked_csprng = csprng.lock().await;
+            let (group_result, group_vk) =
+                EphemeralSigner::with_signer(&mut *locked_csprng, |verifier, signer| {
+                    Group::generate_after_content(
+                        signer,
+                        verifier,
+                        parents,
+                        delegations,
+                        revocations,
+                        BTreeMap::from_iter([(
+                            DocumentId(verifier.into()),
+                            initial_content_heads.clone().into_iter().collect(),
+                        )]),
+                        listener,
+                    )
+                });
+            let owner_share_secret_key = ShareSecretKey::generate(&mut *locked_csprng);
+            (group_result, group_vk, owner_share_secret_key)
+        };
 
         let group = group_result.await?;
         let owner_id = IndividualId(group_vk.into());
         let doc_id = DocumentId(group.id());
-        let owner_share_secret_key = ShareSecretKey::generate(&mut *locked_csprng);
         let owner_share_key = owner_share_secret_key.share_key();
         let group_members = group.pick_individual_prekeys(doc_id).await;
         let readers = readers_among(group.transitive_members().await);
@@ -233,7 +238,7 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
                 owner_share_key,
                 owner_share_secret_key,
                 signer,
-                &mut *locked_csprng,
+                &mut *csprng.lock().await,
             )
             .await?;
 
diff --git a/keyhive_core/src/principal/group.rs b/keyhive_core/src/principal/group.rs
index 518233f..ad6e550 100644
--- a/keyhive_core/src/principal/group.rs
+++ b/keyhive_core/src/principal/group.rs
@@ -137,8 +137,8 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
         listener: L,
         csprng: Arc<Mutex<R>>,
     ) -> Result<Group<F, S, T, L>, SigningError> {
-        let mut locked_csprng = csprng.lock().await;
-        let (group_result, _vk) =
+        let (group_result, _vk) = {
+            let mut locked_csprng = csprng.lock().await;
             EphemeralSigner::with_signer(&mut *locked_csprng, |verifier, signer| {
                 Self::generate_after_content(
                     signer,
@@ -149,7 +149,8 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
                     Default::default(),
                     listener,
                 )
-            });
+            })
+        };
 
         group_result.await
     }
-- 
2.43.0


From 22258f5b527ba6efe2ea3cd73f72ed7e0d0df9c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:30 +0000
Subject: [PATCH 56/59] fix: ingesting events keeps what became pending
 meanwhile

---
 keyhive_core/src/keyhive.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/keyhive_core/src/keyhive.rs b/keyhive_core/src/keyhive.rs
index c70b985..6ad4092 100644
--- a/keyhive_core/src/keyhive.rs
+++ b/keyhive_core/src/keyhive.rs
@@ -76,7 +76,6 @@ use std::{
     collections::{hash_map::Entry, BTreeMap, HashMap, HashSet},
     fmt::{Debug, Formatter},
     marker::PhantomData,
-    mem,
     sync::Arc,
 };
 use thiserror::Error;
@@ -2580,13 +2579,16 @@ impl<
                     err
                 );
 
-                let new_pending: Vec<Arc<StaticEvent<T>>> =
-                    next_epoch.clone().into_iter().map(Arc::new).collect();
-                drop(mem::replace(
-                    &mut *self.pending_events.lock().await,
-                    new_pending.clone(),
-                ));
-                return new_pending;
+                // Other events may have become pending since, and stay so
+                let stuck: HashSet<Digest<StaticEvent<T>>> =
+                    next_epoch.iter().map(Digest::hash).collect();
+                let mut pending = self.pending_events.lock().await;
+                pending.retain(|e| {
+                    let hash = Digest::hash(e.as_ref());
+                    !replayed_pending.contains(&hash) && !stuck.contains(&hash)
+                });
+                pending.extend(next_epoch.into_iter().map(Arc::new));
+                return pending.clone();
             }
 
             epoch = next_epoch
-- 
2.43.0


From c370b76ca9db8de78292efa6a0bef6ff4e522da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:30 +0000
Subject: [PATCH 57/59] fix: events received at the same time do not overwrite
 each other's groups

---
 keyhive_core/src/keyhive.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/keyhive_core/src/keyhive.rs b/keyhive_core/src/keyhive.rs
index 6ad4092..4f86b51 100644
--- a/keyhive_core/src/keyhive.rs
+++ b/keyhive_core/src/keyhive.rs
@@ -118,6 +118,9 @@ pub struct Keyhive<
     /// [`StaticEvent`]s that are still awaiting dependencies.
     pending_events: Arc<Mutex<Vec<Arc<StaticEvent<T>>>>>,
 
+    /// Held while an event is received: looking up and inserting who it is about is one step.
+    receiving: Arc<Mutex<()>>,
+
     /// Observer for [`Event`]s. Intended for running live updates.
     event_listener: L,
 
@@ -197,6 +200,7 @@ impl<
             delegations: Arc::new(Mutex::new(DelegationStore::new())),
             revocations: Arc::new(Mutex::new(RevocationStore::new())),
             pending_events: Arc::new(Mutex::new(Vec::new())),
+            receiving: Arc::new(Mutex::new(())),
             ciphertext_store,
             event_listener,
             csprng: Arc::new(Mutex::new(csprng)),
@@ -1549,6 +1553,7 @@ impl<
 
     #[instrument(skip_all)]
     pub async fn receive_prekey_op(&self, key_op: &KeyOp) -> Result<(), ReceivePrekeyOpError> {
+        let _receiving = self.receiving.lock().await;
         let id = Identifier(*key_op.issuer());
         // Drop any prekey op addressed to Public so its individual can never
         // expand or rotate.
@@ -1626,6 +1631,7 @@ impl<
         &self,
         static_dlg: &Signed<StaticDelegation<T>>,
     ) -> Result<(), ReceiveStaticDelegationError<F, S, T, L>> {
+        let _receiving = self.receiving.lock().await;
         if self
             .delegations
             .lock()
@@ -1720,6 +1726,7 @@ impl<
         &self,
         static_rev: &Signed<StaticRevocation<T>>,
     ) -> Result<(), ReceiveStaticDelegationError<F, S, T, L>> {
+        let _receiving = self.receiving.lock().await;
         if self
             .revocations
             .lock()
@@ -2416,6 +2423,7 @@ impl<
             delegations,
             revocations,
             pending_events: Arc::new(Mutex::new(pending_events)),
+            receiving: Arc::new(Mutex::new(())),
             csprng,
             ciphertext_store,
             event_listener: listener,
@@ -2492,6 +2500,7 @@ impl<
     /// Merge what another copy of this peer knows of an individual, which may have become a
     /// group since, here or there.
     async fn merge_individual(&self, indie: Individual) {
+        let _receiving = self.receiving.lock().await;
         let id = indie.id();
         if let Some(group) = self.get_group(GroupId(id.into())).await {
             let mut locked = group.lock().await;
-- 
2.43.0


From 8bfab26d5cf92d2df9438eee7e7a7dbabb472977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:31 +0000
Subject: [PATCH 58/59] fix: an operation already in the key tree is accepted
 when it is received again

---
 beekem/src/cgka.rs          |  5 +++++
 keyhive_core/src/cgka.rs    |  4 ++++
 keyhive_core/src/keyhive.rs | 11 +++++++++++
 3 files changed, 20 insertions(+)

diff --git a/beekem/src/cgka.rs b/beekem/src/cgka.rs
index 5e5587a..fb9fbab 100644
--- a/beekem/src/cgka.rs
+++ b/beekem/src/cgka.rs
@@ -427,6 +427,11 @@ impl Cgka {
         self.ops_graph.topsort_graph()
     }
 
+    /// Whether this operation has been merged already.
+    pub fn contains_op(&self, op_hash: &Digest<Signed<CgkaOperation>>) -> bool {
+        self.ops_graph.contains_op_hash(op_hash)
+    }
+
     pub fn contains_predecessors(&self, preds: &Set<Digest<Signed<CgkaOperation>>>) -> bool {
         self.ops_graph.contains_predecessors(preds)
     }
diff --git a/keyhive_core/src/cgka.rs b/keyhive_core/src/cgka.rs
index 03ae449..a9daa38 100644
--- a/keyhive_core/src/cgka.rs
+++ b/keyhive_core/src/cgka.rs
@@ -209,6 +209,10 @@ impl Cgka {
         self.0.ops()
     }
 
+    pub fn contains_op(&self, op_hash: &Digest<Signed<CgkaOperation>>) -> bool {
+        self.0.contains_op(op_hash)
+    }
+
     pub fn contains_predecessors(&self, preds: &HashSet<Digest<Signed<CgkaOperation>>>) -> bool {
         self.0.contains_predecessors(preds)
     }
diff --git a/keyhive_core/src/keyhive.rs b/keyhive_core/src/keyhive.rs
index 4f86b51..3d10a22 100644
--- a/keyhive_core/src/keyhive.rs
+++ b/keyhive_core/src/keyhive.rs
@@ -1838,6 +1838,17 @@ impl<
                 .dupe()
         };
 
+        {
+            // An invitation may have been merged without its secret, by whoever signed it
+            let locked_doc = doc.lock().await;
+            if locked_doc
+                .cgka()
+                .is_ok_and(|cgka| cgka.contains_op(&Digest::hash(&signed_op)))
+            {
+                return Ok(());
+            }
+        }
+
         if !self.may_issue_cgka_op(doc_id, &signed_op).await {
             return Err(ReceiveCgkaOpError::UnauthorizedOperation);
         }
-- 
2.43.0


From 43cb1cec0ace01d6d34096d28d95e260dfedfea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:31 +0000
Subject: [PATCH 59/59] fix: the contact card of whoever became a group is
 received as that group's

---
 keyhive_core/src/keyhive.rs | 40 ++++++++++++++-----------------------
 1 file changed, 15 insertions(+), 25 deletions(-)

diff --git a/keyhive_core/src/keyhive.rs b/keyhive_core/src/keyhive.rs
index 3d10a22..f5f517e 100644
--- a/keyhive_core/src/keyhive.rs
+++ b/keyhive_core/src/keyhive.rs
@@ -346,34 +346,24 @@ impl<
         &self,
         contact_card: &ContactCard,
     ) -> Result<Arc<Mutex<Individual>>, ReceivePrekeyOpError> {
-        let result = if let Some(indie) = self.get_individual(contact_card.id()).await {
-            // Drop any prekey op addressed to Public so its individual can never
-            // expand or rotate.
-            if contact_card.id() == Public.individual().id() {
-                return Ok(indie);
-            }
-            indie
-                .lock()
-                .await
-                .receive_prekey_op(contact_card.op().dupe())?;
-            indie.dupe()
-        } else {
-            contact_card.op().try_verify()?;
-            let new_user = Arc::new(Mutex::new(Individual::from(contact_card)));
-            self.register_individual(new_user.dupe()).await;
-            new_user
-        };
+        self.receive_prekey_op(contact_card.op()).await?;
 
-        match contact_card.op() {
-            KeyOp::Add(add_op) => {
-                self.event_listener.on_prekeys_expanded(add_op).await;
-            }
-            KeyOp::Rotate(rot_op) => {
-                self.event_listener.on_prekey_rotated(rot_op).await;
-            }
+        let id = contact_card.id();
+        if let Some(indie) = self.get_individual(id).await {
+            return Ok(indie);
         }
 
-        Ok(result)
+        // Individuals are kept with the group or document that they have become
+        let id_or_indie = match self.get_agent(id.into()).await {
+            Some(Agent::Group(_, group)) => Some(group.lock().await.id_or_indie.clone()),
+            Some(Agent::Document(_, doc)) => Some(doc.lock().await.group.id_or_indie.clone()),
+            _ => None,
+        };
+        let indie = match id_or_indie {
+            Some(IdOrIndividual::Individual(indie)) => indie,
+            _ => Individual::from(contact_card),
+        };
+        Ok(Arc::new(Mutex::new(indie)))
     }
 
     #[instrument(skip_all)]
-- 
2.43.0

