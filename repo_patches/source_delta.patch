From 4358512a63a6fc9475208d9f62b6db971970c4f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:52 +0000
Subject: [PATCH 01/45] fix: transitive_members reports the best path's access,
 independent of visiting order

---
 keyhive_core/src/principal/group.rs | 71 +++++++++--------------------
 1 file changed, 21 insertions(+), 50 deletions(-)

diff --git a/keyhive_core/src/principal/group.rs b/keyhive_core/src/principal/group.rs
index 069d18c..4f93eb9 100644
--- a/keyhive_core/src/principal/group.rs
+++ b/keyhive_core/src/principal/group.rs
@@ -269,79 +269,50 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
 
     #[tracing::instrument(skip(self), fields(group_id = %self.group_id()))]
     pub async fn transitive_members(&self) -> HashMap<Identifier, (Agent<F, S, T, L>, Access)> {
-        struct GroupAccess<
-            G: FutureForm,
-            Z: AsyncSigner<G>,
-            U: ContentRef,
-            M: MembershipListener<G, Z, U>,
-        > {
-            agent: Agent<G, Z, U, M>,
-            agent_access: Access,
-            parent_access: Access,
-        }
-
-        let mut explore: Vec<GroupAccess<F, S, T, L>> = vec![];
-        let mut seen: HashSet<([u8; 64], Access)> = HashSet::new();
+        // Agents still to visit, with the access conferred by the path that led to them.
+        let mut explore: Vec<(Agent<F, S, T, L>, Access)> = vec![];
 
         for member in self.members.keys() {
             let dlg = self
                 .get_capability(member)
                 .expect("members have capabilities by defintion");
 
-            seen.insert((dlg.signature.to_bytes(), Access::Admin));
-
-            explore.push(GroupAccess {
-                agent: dlg.payload.delegate.clone(),
-                agent_access: dlg.payload.can,
-                parent_access: Access::Admin,
-            });
+            explore.push((dlg.payload.delegate.dupe(), dlg.payload.can));
         }
 
         let mut caps: HashMap<Identifier, (Agent<F, S, T, L>, Access)> = HashMap::new();
 
-        while let Some(GroupAccess {
-            agent: member,
-            agent_access: access,
-            parent_access,
-        }) = explore.pop()
-        {
+        while let Some((member, path_access)) = explore.pop() {
             let id = member.id();
             if id == self.id() {
                 continue;
             }
 
-            let best_access = *caps
+            // Only a path with strictly more access than any seen so far changes anything,
+            // here or further down. This is also what ends the walk on membership cycles.
+            if caps
                 .get(&id)
-                .map(|(_, existing_access)| existing_access.max(&access))
-                .unwrap_or(&access);
-
-            let current_path_access = access.min(parent_access);
-            caps.insert(member.id(), (member.dupe(), current_path_access));
+                .is_some_and(|(_, known_access)| *known_access >= path_access)
+            {
+                continue;
+            }
+            caps.insert(id, (member.dupe(), path_access));
 
             if let Some(membered) = match member {
                 Agent::Group(id, inner_group) => Some(Membered::Group(id, inner_group.dupe())),
                 Agent::Document(id, doc) => Some(Membered::Document(id, doc.dupe())),
                 _ => None,
             } {
-                for (mem_id, dlgs) in membered.members().await.iter() {
-                    let dlg = membered
-                        .get_capability(mem_id)
-                        .await
-                        .expect("members have capabilities by defintion");
-
-                    caps.insert(*mem_id, (dlg.payload.delegate.dupe(), best_access));
-
-                    'inner: for sub_dlg in dlgs.iter() {
-                        if !seen.insert((sub_dlg.signature.to_bytes(), dlg.payload.can)) {
-                            continue 'inner;
-                        }
+                for dlgs in membered.members().await.values() {
+                    let best = dlgs
+                        .iter()
+                        .max_by_key(|dlg| dlg.payload.can)
+                        .expect("nonempty");
 
-                        explore.push(GroupAccess {
-                            agent: sub_dlg.payload.delegate.dupe(),
-                            agent_access: sub_dlg.payload.can,
-                            parent_access: best_access,
-                        });
-                    }
+                    explore.push((
+                        best.payload.delegate.dupe(),
+                        best.payload.can.min(path_access),
+                    ));
                 }
             }
         }
-- 
2.43.0


From dae9aca047fb256e0051d5008594097ae76e972e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:32 +0000
Subject: [PATCH 02/45] fix: announce a revocation once, and only after it was
 accepted

---
 keyhive_core/src/principal/group.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/keyhive_core/src/principal/group.rs b/keyhive_core/src/principal/group.rs
index 4f93eb9..a41b24d 100644
--- a/keyhive_core/src/principal/group.rs
+++ b/keyhive_core/src/principal/group.rs
@@ -402,9 +402,9 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
         &mut self,
         revocation: Arc<Signed<Revocation<F, S, T, L>>>,
     ) -> Result<Digest<Signed<Revocation<F, S, T, L>>>, error::AddError> {
-        self.listener.on_revocation(&revocation).await;
-        let digest = self.state.add_revocation(revocation).await?;
+        let digest = self.state.add_revocation(revocation.dupe()).await?;
         self.rebuild().await;
+        self.listener.on_revocation(&revocation).await;
         Ok(digest)
     }
 
@@ -657,10 +657,6 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
             }
         }
 
-        for r in revocations.iter() {
-            self.listener.on_revocation(r).await
-        }
-
         let mut cgka_ops = Vec::new();
 
         let mut redelegations = vec![];
-- 
2.43.0


From b38c2a8ba33fe504200f84941cf7dda80034c6dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:32 +0000
Subject: [PATCH 03/45] fix: restore active revocations when restarting from an
 archive

---
 keyhive_core/src/keyhive.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/keyhive_core/src/keyhive.rs b/keyhive_core/src/keyhive.rs
index bf5ad8d..ee83077 100644
--- a/keyhive_core/src/keyhive.rs
+++ b/keyhive_core/src/keyhive.rs
@@ -2200,6 +2200,7 @@ impl<
                     .collect(),
             )
             .await?;
+            locked_group.rebuild().await;
         }
 
         for (doc_id, doc) in docs.iter() {
@@ -2223,6 +2224,7 @@ impl<
                     .collect(),
             )
             .await?;
+            locked_doc.group.rebuild().await;
         }
 
         let mut pending_events = Vec::new();
-- 
2.43.0


From a0cc59d59a1c511238708d0c8c66a1c5b6d8da4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:14 +0000
Subject: [PATCH 04/45] fix: only accept revocations from someone entitled to
 revoke, and let admins revoke any member

---
 keyhive_core/src/principal/group.rs       |  4 ---
 keyhive_core/src/principal/group/state.rs | 35 +++++++++++++++--------
 2 files changed, 23 insertions(+), 16 deletions(-)

diff --git a/keyhive_core/src/principal/group.rs b/keyhive_core/src/principal/group.rs
index a41b24d..fe0a19c 100644
--- a/keyhive_core/src/principal/group.rs
+++ b/keyhive_core/src/principal/group.rs
@@ -564,10 +564,6 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
                     // "Double up" if you're an admin in case you get concurrently demoted.
                     // We include the admin proofs as well since those could also get revoked.
                     for mem_dlg in member_dlgs.clone().iter() {
-                        if mem_dlg.payload.delegate.id() != member_to_remove {
-                            continue;
-                        }
-
                         if mem_dlg.payload().can == Access::Admin {
                             // Use your awesome & terrible admin powers!
                             //
diff --git a/keyhive_core/src/principal/group/state.rs b/keyhive_core/src/principal/group/state.rs
index bcd15cb..a7770b2 100644
--- a/keyhive_core/src/principal/group/state.rs
+++ b/keyhive_core/src/principal/group/state.rs
@@ -212,22 +212,33 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
         }
 
         if let Some(proof) = &revocation.payload.proof {
-            if revocation.payload.revoke != *proof
-                && !revocation.payload.revoke.payload.is_descendant_of(proof)
-            {
-                // The revoked delegation is not a descendant of the proof.
-                // Check if the revoker has transitive access through the
-                // proof's delegate (a group/doc intermediary).
-                let revoker_id = Identifier::from(revocation.issuer);
-                if !is_transitive_member_of(
+            if proof.subject_id() != Identifier::from(self.id) {
+                return Err(AddError::InvalidSubject(Box::new(proof.subject_id())));
+            }
+
+            // The revoker must be one of:
+            // 1. The issuer of the proof, revoking that delegation or a descendant of it.
+            // 2. The holder of the proof, revoking it (i.e. leaving) or a descendant of it,
+            //    or revoking anything at all if the proof is an Admin delegation.
+            // 3. Someone with transitive access through the proof's delegate
+            //    (a group/doc intermediary).
+            let revoke = &revocation.payload.revoke;
+            let revoker_id = Identifier::from(revocation.issuer);
+            let holds_proof = proof.payload.delegate.id() == revoker_id;
+            let is_senior = (revoke == proof || revoke.payload.is_descendant_of(proof))
+                && (revocation.issuer == proof.issuer || holds_proof);
+            let is_admin = holds_proof && proof.payload.can == Access::Admin;
+
+            if !is_senior
+                && !is_admin
+                && !is_transitive_member_of(
                     &proof.payload.delegate,
                     revoker_id,
-                    revocation.payload.revoke.payload.can,
+                    revoke.payload.can,
                 )
                 .await
-                {
-                    return Err(AddError::InvalidProofChain);
-                }
+            {
+                return Err(AddError::InvalidProofChain);
             }
 
             let lineage = proof.payload.proof_lineage();
-- 
2.43.0


From 7355d9f3638f6e6ab4b10a9dc47f86eea0c7b3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:04 +0000
Subject: [PATCH 05/45] fix: order membership operations even when revocations
 revoke each other's authority

---
 .../principal/group/membership_operation.rs   | 51 +++++++++++++++++--
 keyhive_core/src/principal/group/state.rs     |  8 +--
 2 files changed, 49 insertions(+), 10 deletions(-)

diff --git a/keyhive_core/src/principal/group/membership_operation.rs b/keyhive_core/src/principal/group/membership_operation.rs
index e376790..c62431c 100644
--- a/keyhive_core/src/principal/group/membership_operation.rs
+++ b/keyhive_core/src/principal/group/membership_operation.rs
@@ -136,6 +136,16 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
         !self.is_delegation()
     }
 
+    /// Whether this is a revocation whose proof is the given delegation or descends from it.
+    fn rests_on(&self, delegation: &Arc<Signed<Delegation<F, S, T, L>>>) -> bool {
+        match self {
+            MembershipOperation::Delegation(_) => false,
+            MembershipOperation::Revocation(r) => r.payload.proof.as_ref().is_some_and(|proof| {
+                proof == delegation || proof.payload.proof_lineage().contains(delegation)
+            }),
+        }
+    }
+
     pub fn after_auth(&self) -> Vec<MembershipOperation<F, S, T, L>> {
         let deps = self.after();
         deps.delegations
@@ -252,7 +262,7 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
         }
 
         // revoked delegation signature -> revocation digest
-        let mut revoked_dependencies: HashMap<Key, Digest<MembershipOperation<F, S, T, L>>> =
+        let mut revoked_dependencies: HashMap<Key, Vec<Digest<MembershipOperation<F, S, T, L>>>> =
             HashMap::new();
 
         let mut explore: Vec<MembershipOperation<F, S, T, L>> = vec![];
@@ -280,7 +290,10 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
             let parent_digests: Vec<_> = parents.iter().map(|p| p.digest()).collect();
 
             if let MembershipOperation::Revocation(r) = &op {
-                revoked_dependencies.insert((*r.payload.revoke.signature()).into(), digest);
+                revoked_dependencies
+                    .entry((*r.payload.revoke.signature()).into())
+                    .or_default()
+                    .push(digest);
             }
 
             all_ops.insert(digest, (op, parent_digests));
@@ -364,8 +377,17 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
 
             if let MembershipOperation::Delegation(d) = op {
                 if let Some(proof) = &d.payload.proof {
-                    if let Some(revoked_digest) = revoked_dependencies.get(&Key(proof.signature)) {
+                    for revoked_digest in revoked_dependencies
+                        .get(&Key(proof.signature))
+                        .into_iter()
+                        .flatten()
+                    {
                         if let Some((revoked_op, _)) = all_ops.get(revoked_digest) {
+                            // A revocation always comes after the authority it rests on.
+                            if revoked_op.rests_on(d) {
+                                continue;
+                            }
+
                             adjacencies
                                 .add_dependency((*digest, op), (*revoked_digest, revoked_op));
                             successors_of
@@ -383,7 +405,28 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
         while !adjacencies.is_empty() {
             let batch = adjacencies.pop_frontier();
             if batch.is_empty() {
-                break; // cycle guard
+                // Concurrent revocations may each revoke authority that another one rests on,
+                // so ordering delegations after the revocations of their proofs can form a
+                // cycle. The causal order never does: fall back to it for what remains.
+                let done: HashSet<_> = dependencies.iter().map(|(digest, _)| *digest).collect();
+                adjacencies = Topsort::new();
+                successors_of.clear();
+                for (digest, (op, parent_digests)) in all_ops.iter() {
+                    if done.contains(digest) {
+                        continue;
+                    }
+                    adjacencies.add_node((*digest, op));
+                    for parent_digest in parent_digests {
+                        if let Some((parent_op, _)) = all_ops.get(parent_digest) {
+                            adjacencies.add_dependency((*digest, op), (*parent_digest, parent_op));
+                            successors_of
+                                .entry(*digest)
+                                .or_default()
+                                .push(*parent_digest);
+                        }
+                    }
+                }
+                continue;
             }
 
             let (mut revocations, mut others): (Vec<_>, Vec<_>) =
diff --git a/keyhive_core/src/principal/group/state.rs b/keyhive_core/src/principal/group/state.rs
index a7770b2..030758e 100644
--- a/keyhive_core/src/principal/group/state.rs
+++ b/keyhive_core/src/principal/group/state.rs
@@ -231,12 +231,8 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
 
             if !is_senior
                 && !is_admin
-                && !is_transitive_member_of(
-                    &proof.payload.delegate,
-                    revoker_id,
-                    revoke.payload.can,
-                )
-                .await
+                && !is_transitive_member_of(&proof.payload.delegate, revoker_id, revoke.payload.can)
+                    .await
             {
                 return Err(AddError::InvalidProofChain);
             }
-- 
2.43.0


From 7df09ba9958b4e4fdc9ce61cacb25f24554dff11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:47 +0000
Subject: [PATCH 06/45] fix: do not lock a group twice when membership is
 cyclic

---
 keyhive_core/src/principal/agent.rs       | 23 +++++++++++++++++--
 keyhive_core/src/principal/document.rs    |  9 ++++++--
 keyhive_core/src/principal/group.rs       | 28 +++++++++++++++++++----
 keyhive_core/src/principal/group/state.rs | 16 ++++++++++---
 keyhive_core/src/principal/membered.rs    | 22 ++++++++++++++++++
 5 files changed, 86 insertions(+), 12 deletions(-)

diff --git a/keyhive_core/src/principal/agent.rs b/keyhive_core/src/principal/agent.rs
index e2e71d9..ff71fed 100644
--- a/keyhive_core/src/principal/agent.rs
+++ b/keyhive_core/src/principal/agent.rs
@@ -82,8 +82,17 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
     }
 
     pub async fn individual_ids(&self) -> HashSet<IndividualId> {
+        self.individual_ids_except(None).await
+    }
+
+    /// [`Self::individual_ids`], without looking inside the group or document the caller has
+    /// locked. Membership may be cyclic, so it may be among its own members' members.
+    pub(crate) async fn individual_ids_except(
+        &self,
+        locked: Option<Identifier>,
+    ) -> HashSet<IndividualId> {
         let mut ids = HashSet::new();
-        let mut seen = HashSet::new();
+        let mut seen: HashSet<Identifier> = locked.into_iter().collect();
         let mut stack: Vec<Self> = vec![self.dupe()];
 
         while let Some(node) = stack.pop() {
@@ -122,9 +131,19 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
     pub async fn pick_individual_prekeys(
         &self,
         doc_id: DocumentId,
+    ) -> HashMap<IndividualId, ShareKey> {
+        self.pick_individual_prekeys_except(doc_id, None).await
+    }
+
+    /// [`Self::pick_individual_prekeys`], without looking inside the group or document the caller
+    /// has locked. Membership may be cyclic, so it may be among its own members' members.
+    pub(crate) async fn pick_individual_prekeys_except(
+        &self,
+        doc_id: DocumentId,
+        locked: Option<Identifier>,
     ) -> HashMap<IndividualId, ShareKey> {
         let mut result = HashMap::new();
-        let mut seen = HashSet::new();
+        let mut seen: HashSet<Identifier> = locked.into_iter().collect();
         let mut stack: Vec<Self> = vec![self.dupe()];
 
         while let Some(agent) = stack.pop() {
diff --git a/keyhive_core/src/principal/document.rs b/keyhive_core/src/principal/document.rs
index 9c02e05..3ded3f8 100644
--- a/keyhive_core/src/principal/document.rs
+++ b/keyhive_core/src/principal/document.rs
@@ -262,7 +262,7 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
                 .delegation
                 .payload
                 .delegate
-                .pick_individual_prekeys(self.doc_id())
+                .pick_individual_prekeys_except(self.doc_id(), Some(self.id()))
                 .await;
             let cgka_ops_for_this_doc =
                 self.add_cgka_members_from_prekeys(&prekeys, signer).await?;
@@ -302,7 +302,12 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
         // group revocation removes them from the members map.
         let mut ids_to_remove = HashSet::new();
         for d in self.group.members.get(&member_id).into_iter().flatten() {
-            ids_to_remove.extend(d.payload().delegate.individual_ids().await);
+            ids_to_remove.extend(
+                d.payload()
+                    .delegate
+                    .individual_ids_except(Some(self.id()))
+                    .await,
+            );
         }
 
         let RevokeMemberUpdate {
diff --git a/keyhive_core/src/principal/group.rs b/keyhive_core/src/principal/group.rs
index fe0a19c..25e7c19 100644
--- a/keyhive_core/src/principal/group.rs
+++ b/keyhive_core/src/principal/group.rs
@@ -236,7 +236,11 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
     pub async fn individual_ids(&self) -> HashSet<IndividualId> {
         let mut ids = HashSet::new();
         for delegations in self.members.values() {
-            let more_ids = delegations[0].payload().delegate.individual_ids().await;
+            let more_ids = delegations[0]
+                .payload()
+                .delegate
+                .individual_ids_except(Some(self.id()))
+                .await;
             ids.extend(more_ids.iter());
         }
         ids
@@ -256,7 +260,12 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
                     crate::principal::public::Public.share_key(),
                 );
             } else {
-                prekeys.extend(agent.pick_individual_prekeys(doc_id).await.iter());
+                prekeys.extend(
+                    agent
+                        .pick_individual_prekeys_except(doc_id, Some(self.id()))
+                        .await
+                        .iter(),
+                );
             }
         }
         prekeys
@@ -269,6 +278,15 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
 
     #[tracing::instrument(skip(self), fields(group_id = %self.group_id()))]
     pub async fn transitive_members(&self) -> HashMap<Identifier, (Agent<F, S, T, L>, Access)> {
+        self.transitive_members_except(None).await
+    }
+
+    /// [`Self::transitive_members`], without looking inside another group or document that the
+    /// caller has locked.
+    pub(crate) async fn transitive_members_except(
+        &self,
+        locked: Option<Identifier>,
+    ) -> HashMap<Identifier, (Agent<F, S, T, L>, Access)> {
         // Agents still to visit, with the access conferred by the path that led to them.
         let mut explore: Vec<(Agent<F, S, T, L>, Access)> = vec![];
 
@@ -284,7 +302,7 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
 
         while let Some((member, path_access)) = explore.pop() {
             let id = member.id();
-            if id == self.id() {
+            if id == self.id() || locked == Some(id) {
                 continue;
             }
 
@@ -470,7 +488,7 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
                     .expect("members have capabilities by definition");
 
                 if let Some(m) = dlg.payload.delegate.as_membered() {
-                    let sub_members = m.transitive_members().await;
+                    let sub_members = m.transitive_members_except(self.id()).await;
                     if let Some((_, sub_access)) = sub_members.get(&signer_id) {
                         if *sub_access >= can {
                             best_proof = Some(dlg.dupe());
@@ -626,7 +644,7 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
                             .expect("members have capabilities by definition");
 
                         if let Some(m) = dlg.payload.delegate.as_membered() {
-                            let sub_members = m.transitive_members().await;
+                            let sub_members = m.transitive_members_except(self.id()).await;
                             if let Some((_, sub_access)) = sub_members.get(&signer_id) {
                                 if *sub_access >= to_revoke.payload.can {
                                     let r = self
diff --git a/keyhive_core/src/principal/group/state.rs b/keyhive_core/src/principal/group/state.rs
index 030758e..fb30e62 100644
--- a/keyhive_core/src/principal/group/state.rs
+++ b/keyhive_core/src/principal/group/state.rs
@@ -174,6 +174,7 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
                     &proof.payload.delegate,
                     head_id,
                     delegation.payload.can,
+                    self.id(),
                 )
                 .await
                 {
@@ -231,8 +232,13 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
 
             if !is_senior
                 && !is_admin
-                && !is_transitive_member_of(&proof.payload.delegate, revoker_id, revoke.payload.can)
-                    .await
+                && !is_transitive_member_of(
+                    &proof.payload.delegate,
+                    revoker_id,
+                    revoke.payload.can,
+                    self.id(),
+                )
+                .await
             {
                 return Err(AddError::InvalidProofChain);
             }
@@ -253,6 +259,7 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
                         &next_proof.payload.delegate,
                         head_id,
                         proof.payload.can,
+                        self.id(),
                     )
                     .await
                     {
@@ -316,6 +323,8 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
     }
 }
 
+/// Whether `member_id` acts for `delegate`, without looking inside the group that the caller has
+/// `locked` (it may be among its own members' members).
 async fn is_transitive_member_of<
     F: FutureForm,
     S: AsyncSigner<F>,
@@ -325,11 +334,12 @@ async fn is_transitive_member_of<
     delegate: &Agent<F, S, T, L>,
     member_id: Identifier,
     min_access: Access,
+    locked: Identifier,
 ) -> bool {
     let Some(m) = delegate.as_membered() else {
         return false;
     };
-    m.transitive_members()
+    m.transitive_members_except(locked)
         .await
         .get(&member_id)
         .map(|(_, access)| *access >= min_access)
diff --git a/keyhive_core/src/principal/membered.rs b/keyhive_core/src/principal/membered.rs
index 55bb547..3668f7d 100644
--- a/keyhive_core/src/principal/membered.rs
+++ b/keyhive_core/src/principal/membered.rs
@@ -105,6 +105,28 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
         }
     }
 
+    /// [`Self::transitive_members`], without looking inside the group or document the caller has
+    /// locked. Membership may be cyclic, so it may be among its own members' members.
+    pub(crate) async fn transitive_members_except(
+        &self,
+        locked: Identifier,
+    ) -> HashMap<Identifier, (Agent<F, S, T, L>, Access)> {
+        if Identifier::from(self.agent_id()) == locked {
+            return HashMap::new();
+        }
+
+        match self {
+            Membered::Group(_, group) => {
+                let guard = group.lock().await;
+                guard.transitive_members_except(Some(locked)).await
+            }
+            Membered::Document(_, doc) => {
+                let guard = doc.lock().await;
+                guard.group.transitive_members_except(Some(locked)).await
+            }
+        }
+    }
+
     #[allow(clippy::type_complexity)]
     pub async fn add_member(
         &self,
-- 
2.43.0


From c1195b50faa8c13842e55956ad103588f08742e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:50 +0000
Subject: [PATCH 07/45] fix: never pick a prekey index past the end

---
 keyhive_core/src/principal/individual.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/keyhive_core/src/principal/individual.rs b/keyhive_core/src/principal/individual.rs
index da4572c..1c387f7 100644
--- a/keyhive_core/src/principal/individual.rs
+++ b/keyhive_core/src/principal/individual.rs
@@ -222,7 +222,7 @@ fn pseudorandom_in_range(seed: &[u8], max: usize) -> usize {
     while idx.is_none() {
         hash_stream.fill(&mut buf);
         let raw_idx: usize = clamp(buf, shiftsize);
-        if raw_idx <= max {
+        if raw_idx < max.max(1) {
             idx = Some(raw_idx)
         }
     }
-- 
2.43.0


From 0c63674477933588057cee1197026d6d3de5db62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:50 +0000
Subject: [PATCH 08/45] fix: keep prekeys usable when rotations form a cycle

---
 keyhive_core/src/principal/individual/state.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/keyhive_core/src/principal/individual/state.rs b/keyhive_core/src/principal/individual/state.rs
index 561fa8e..866bab8 100644
--- a/keyhive_core/src/principal/individual/state.rs
+++ b/keyhive_core/src/principal/individual/state.rs
@@ -142,6 +142,12 @@ impl PrekeyState {
             keys.remove(&tombstone);
         }
 
+        // Rotations that form a cycle retire every key. The set of current keys
+        // must never be empty, so in that case all of them stay usable.
+        if keys.is_empty() {
+            return self.all_keys();
+        }
+
         keys
     }
 }
-- 
2.43.0


From 0c6b1ba6aa41da0d2bd4c4c6b8d461ab2a8e0f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:50 +0000
Subject: [PATCH 09/45] fix: order every prekey op exactly once, including
 cyclic and unrooted rotations

---
 keyhive_core/src/principal/individual/op.rs | 31 +++++++++++++++------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/keyhive_core/src/principal/individual/op.rs b/keyhive_core/src/principal/individual/op.rs
index 2963a81..f26dd08 100644
--- a/keyhive_core/src/principal/individual/op.rs
+++ b/keyhive_core/src/principal/individual/op.rs
@@ -38,30 +38,43 @@ impl KeyOp {
         let mut heads: Vec<Arc<KeyOp>> = vec![];
         let mut rotate_key_ops: HashMap<ShareKey, Vec<Arc<KeyOp>>> = HashMap::new();
 
+        let introduced: HashSet<ShareKey> =
+            key_ops.values().map(|key_op| *key_op.new_key()).collect();
+
         for key_op in key_ops.values() {
             match key_op.as_ref() {
-                KeyOp::Add(_add) => {
-                    heads.push(key_op.dupe());
-                }
-                KeyOp::Rotate(rot) => {
+                KeyOp::Rotate(rot) if introduced.contains(&rot.payload.old) => {
                     rotate_key_ops
                         .entry(rot.payload.old)
                         .or_default()
                         .push(key_op.dupe());
                 }
+                // Added keys, and rotations of keys that aren't known here
+                // (e.g. because all that was received is a contact card)
+                KeyOp::Add(_) | KeyOp::Rotate(_) => {
+                    heads.push(key_op.dupe());
+                }
             }
         }
 
         let mut topsorted = vec![];
 
-        while let Some(head) = heads.pop() {
-            if let Some(ops) = rotate_key_ops.get(head.new_key()) {
-                for op in ops.iter() {
-                    heads.push(op.dupe());
+        loop {
+            while let Some(head) = heads.pop() {
+                // Removing the entry visits every rotation once, even if the
+                // same key was introduced repeatedly or rotations are cyclic
+                if let Some(ops) = rotate_key_ops.remove(head.new_key()) {
+                    heads.extend(ops);
                 }
+
+                topsorted.push(head);
             }
 
-            topsorted.push(head.dupe());
+            // Only rotation cycles that nothing else leads to are left
+            let Some(old) = rotate_key_ops.keys().min().copied() else {
+                break;
+            };
+            heads.extend(rotate_key_ops.remove(&old).unwrap_or_default());
         }
 
         topsorted
-- 
2.43.0


From b01efcc74322f067eba24b3b678590c91f91ebc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:06 +0000
Subject: [PATCH 10/45] fix: keep track of individuals promoted to groups,
 without panicking on their revocations

---
 keyhive_core/src/keyhive.rs | 155 +++++++++++-------------------------
 1 file changed, 46 insertions(+), 109 deletions(-)

diff --git a/keyhive_core/src/keyhive.rs b/keyhive_core/src/keyhive.rs
index ee83077..bd9d4aa 100644
--- a/keyhive_core/src/keyhive.rs
+++ b/keyhive_core/src/keyhive.rs
@@ -1619,33 +1619,19 @@ impl<
 
         let subject_id = delegation.subject_id();
         let delegation = Arc::new(delegation);
-        let mut found = false;
-        {
-            if let Some(group) = self.groups.lock().await.get(&GroupId(subject_id)) {
-                found = true;
-                group
-                    .lock()
-                    .await
-                    .receive_delegation(delegation.clone())
-                    .await?;
-            } else if let Some(doc) = self.docs.lock().await.get(&DocumentId(subject_id)) {
-                found = true;
-                doc.lock()
-                    .await
-                    .receive_delegation(delegation.clone())
-                    .await?;
-            } else if let Some(indie) = self
-                .individuals
-                .lock()
-                .await
-                .remove(&IndividualId(subject_id))
-            {
-                found = true;
-                self.promote_individual_to_group(indie, delegation.clone())
-                    .await;
-            }
-        }
-        if !found {
+        // NOTE no lock is held on these collections beyond each lookup
+        let group = self.get_group(GroupId(subject_id)).await;
+        let doc = self.get_document(DocumentId(subject_id)).await;
+        if let Some(group) = group {
+            group.lock().await.receive_delegation(delegation).await?;
+        } else if let Some(doc) = doc {
+            doc.lock().await.receive_delegation(delegation).await?;
+        } else if subject_id == Public.id() {
+            // Everyone can sign as Public, which must stay an individual
+            tracing::warn!("dropping delegation rooted in Public");
+        } else if let Some(indie) = self.get_individual(IndividualId(subject_id)).await {
+            self.promote_individual_to_group(indie, delegation).await;
+        } else {
             let group = Group::new(
                 GroupId(subject_id),
                 delegation.dupe(),
@@ -1701,44 +1687,16 @@ impl<
 
         let id = revocation.subject_id();
         let revocation = Arc::new(revocation);
-        if let Some(group) = self.groups.lock().await.get(&GroupId(id)) {
-            group
-                .lock()
-                .await
-                .receive_revocation(revocation.clone())
-                .await?;
-        } else if let Some(doc) = self.docs.lock().await.get(&DocumentId(id)) {
-            doc.lock()
-                .await
-                .receive_revocation(revocation.clone())
-                .await?;
-        } else if let Some(indie) = self.individuals.lock().await.remove(&IndividualId(id)) {
-            let group = self
-                .promote_individual_to_group(indie, revocation.payload.revoke.dupe())
-                .await;
-            group
-                .lock()
-                .await
-                .receive_revocation(revocation.clone())
-                .await?;
+        // NOTE no lock is held on these collections beyond each lookup
+        let group = self.get_group(GroupId(id)).await;
+        let doc = self.get_document(DocumentId(id)).await;
+        if let Some(group) = group {
+            group.lock().await.receive_revocation(revocation).await?;
+        } else if let Some(doc) = doc {
+            doc.lock().await.receive_revocation(revocation).await?;
         } else {
-            let group = Arc::new(Mutex::new(
-                Group::new(
-                    GroupId(static_rev.issuer.into()),
-                    revocation.payload.revoke.dupe(),
-                    self.delegations.dupe(),
-                    self.revocations.dupe(),
-                    self.event_listener.clone(),
-                )
-                .await,
-            ));
-
-            {
-                let group2 = group.dupe();
-                let mut locked = group.lock().await;
-                self.groups.lock().await.insert(locked.group_id(), group2);
-                locked.receive_revocation(revocation.clone()).await?;
-            }
+            // The revoked delegation is known, so its subject is known too
+            return Err(ReceiveStaticDelegationError::UnknownAgent(id));
         }
 
         Ok(())
@@ -1849,54 +1807,33 @@ impl<
             .await,
         ));
 
-        let agent = Agent::Group(group.lock().await.group_id(), group.dupe());
-
-        {
-            let mut locked_delegations = self.delegations.lock().await;
-            for (_digest, dlg) in locked_delegations.clone().iter() {
-                if dlg.payload.delegate == agent {
-                    locked_delegations.insert(Arc::new(Signed::new(
-                        Delegation {
-                            delegate: agent.dupe(),
-                            can: dlg.payload.can,
-                            proof: dlg.payload.proof.clone(),
-                            after_revocations: dlg.payload.after_revocations.clone(),
-                            after_content: dlg.payload.after_content.clone(),
-                        },
-                        dlg.issuer,
-                        dlg.signature,
-                    )));
-                }
-            }
-        }
+        let group_id = group.lock().await.group_id();
+        let agent_id: Identifier = group_id.into();
+        let agent = Agent::Group(group_id, group.dupe());
 
-        {
-            let group_id = group.lock().await.id();
-            let mut locked_revocations = self.revocations.lock().await;
-            for (_digest, rev) in locked_revocations.clone().iter() {
-                if rev.payload.subject_id() == group_id {
-                    locked_revocations.insert(Arc::new(Signed::new(
-                        Revocation {
-                            revoke: self
-                                .delegations
-                                .lock()
-                                .await
-                                .get(&Digest::hash(&rev.payload.revoke))
-                                .expect("revoked delegation to be available")
-                                .dupe(),
-                            proof: if let Some(proof) = rev.payload.proof.dupe() {
-                                self.delegations.lock().await.get(&Digest::hash(&proof))
-                            } else {
-                                panic!("revoked delegation to be available");
-                            },
-                            after_content: rev.payload.after_content.clone(),
-                        },
-                        rev.issuer,
-                        rev.signature,
-                    )));
-                }
+        self.groups.lock().await.insert(group_id, group.dupe());
+        self.individuals
+            .lock()
+            .await
+            .remove(&IndividualId(agent_id));
+
+        let mut locked_delegations = self.delegations.lock().await;
+        for (_digest, dlg) in locked_delegations.clone().iter() {
+            if dlg.payload.delegate.id() == agent_id {
+                locked_delegations.insert(Arc::new(Signed::new(
+                    Delegation {
+                        delegate: agent.dupe(),
+                        can: dlg.payload.can,
+                        proof: dlg.payload.proof.clone(),
+                        after_revocations: dlg.payload.after_revocations.clone(),
+                        after_content: dlg.payload.after_content.clone(),
+                    },
+                    dlg.issuer,
+                    dlg.signature,
+                )));
             }
         }
+        drop(locked_delegations);
 
         group
     }
-- 
2.43.0


From ac36f5629366e46f430bf77f255a5058ac733a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:59 +0000
Subject: [PATCH 11/45] fix: verify prekey ops and contact cards before
 registering their issuer

---
 keyhive_core/src/keyhive.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/keyhive_core/src/keyhive.rs b/keyhive_core/src/keyhive.rs
index bd9d4aa..f2df468 100644
--- a/keyhive_core/src/keyhive.rs
+++ b/keyhive_core/src/keyhive.rs
@@ -350,6 +350,7 @@ impl<
                 .receive_prekey_op(contact_card.op().dupe())?;
             indie.dupe()
         } else {
+            contact_card.op().try_verify()?;
             let new_user = Arc::new(Mutex::new(Individual::from(contact_card)));
             self.register_individual(new_user.dupe()).await;
             new_user
@@ -1541,6 +1542,7 @@ impl<
         if id == Public.id() {
             return Ok(());
         }
+        key_op.try_verify()?;
         let agent = if let Some(agent) = self.get_agent(id).await {
             agent
         } else {
-- 
2.43.0


From 25069d2fe7b054b5051a89c692d6939302a76a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:29 +0000
Subject: [PATCH 12/45] fix: a contact card cannot change Public's prekeys

---
 keyhive_core/src/keyhive.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/keyhive_core/src/keyhive.rs b/keyhive_core/src/keyhive.rs
index f2df468..4bb41d2 100644
--- a/keyhive_core/src/keyhive.rs
+++ b/keyhive_core/src/keyhive.rs
@@ -343,6 +343,16 @@ impl<
         &self,
         contact_card: &ContactCard,
     ) -> Result<Arc<Mutex<Individual>>, ReceivePrekeyOpError> {
+        // Anyone can sign as Public, whose prekeys never change (see `receive_prekey_op`)
+        if contact_card.id() == Public.individual().id() {
+            let public = Arc::new(Mutex::new(Public.individual()));
+            self.register_individual(public.dupe()).await;
+            return Ok(self
+                .get_individual(contact_card.id())
+                .await
+                .unwrap_or(public));
+        }
+
         let result = if let Some(indie) = self.get_individual(contact_card.id()).await {
             indie
                 .lock()
-- 
2.43.0


From b1dbfcf57d50438edccc20c33d8822fa3e9a2288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:25 +0000
Subject: [PATCH 13/45] fix: what rests on revoked authority falls with it

A grant made with revoked authority counts only if its own issuer has other
authority (the code looked at who issued the proof). Grants below the revoked
one leave the member map too, retaining members covers those that were added
indirectly, and whoever falls is removed from the key groups.
---
 keyhive_core/src/keyhive.rs            | 27 ++++---------
 keyhive_core/src/principal/document.rs | 21 ++++-------
 keyhive_core/src/principal/group.rs    | 52 ++++++++++++++------------
 3 files changed, 43 insertions(+), 57 deletions(-)

diff --git a/keyhive_core/src/keyhive.rs b/keyhive_core/src/keyhive.rs
index 4bb41d2..028abb6 100644
--- a/keyhive_core/src/keyhive.rs
+++ b/keyhive_core/src/keyhive.rs
@@ -578,25 +578,10 @@ impl<
 
         let signer = { self.active.lock().await.signer.clone() };
 
-        // When revoking from a group, collect the revoked member's individual
-        // IDs before the revocation removes them from the members map.
-        let revoked_individual_ids: HashSet<IndividualId> = match resource {
-            Membered::Group(_, group) => {
-                let delegates: Vec<Agent<F, S, T, L>> = {
-                    let locked = group.lock().await;
-                    locked
-                        .members()
-                        .get(&to_revoke)
-                        .into_iter()
-                        .flat_map(|ds| ds.iter().map(|d| d.payload().delegate.dupe()))
-                        .collect()
-                };
-                let mut ids = HashSet::new();
-                for d in &delegates {
-                    ids.extend(d.individual_ids().await);
-                }
-                ids
-            }
+        // When revoking from a group, collect its individual IDs before the revocation: others
+        // may fall along with the member being revoked.
+        let mut revoked_individual_ids: HashSet<IndividualId> = match resource {
+            Membered::Group(_, group) => group.lock().await.individual_ids().await,
             _ => HashSet::new(),
         };
 
@@ -612,7 +597,9 @@ impl<
         // Propagate CGKA removals to docs that contain this group.
         // TODO: O(# of docs x `transitive_members()`). We should replace this approach
         // (possibly with a reverse index lookup).
-        if let Membered::Group(group_id, _) = resource {
+        if let Membered::Group(group_id, group) = resource {
+            let remaining = group.lock().await.individual_ids().await;
+            revoked_individual_ids.retain(|id| !remaining.contains(id));
             if !revoked_individual_ids.is_empty() {
                 let group_identifier: Identifier = (*group_id).into();
                 let docs = { self.docs.lock().await.values().cloned().collect::<Vec<_>>() };
diff --git a/keyhive_core/src/principal/document.rs b/keyhive_core/src/principal/document.rs
index 3ded3f8..ca7f910 100644
--- a/keyhive_core/src/principal/document.rs
+++ b/keyhive_core/src/principal/document.rs
@@ -298,17 +298,9 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
         signer: &S,
         after_other_doc_content: &mut BTreeMap<DocumentId, Vec<T>>,
     ) -> Result<RevokeMemberUpdate<F, S, T, L>, RevokeMemberError> {
-        // Collect individual IDs from the member being revoked before the
-        // group revocation removes them from the members map.
-        let mut ids_to_remove = HashSet::new();
-        for d in self.group.members.get(&member_id).into_iter().flatten() {
-            ids_to_remove.extend(
-                d.payload()
-                    .delegate
-                    .individual_ids_except(Some(self.id()))
-                    .await,
-            );
-        }
+        // Collect the individual IDs from before the revocation: others may fall along with
+        // the member being revoked.
+        let mut ids_to_remove = self.group.individual_ids().await;
 
         let RevokeMemberUpdate {
             revocations,
@@ -332,8 +324,11 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
         // FIXME: We need to check if this has revoked the last member in our group.
         let mut ops = cgka_ops;
         for id in ids_to_remove {
-            if let Some(op) = self.cgka_mut()?.remove(id, signer).await? {
-                ops.push(op);
+            match self.cgka_mut()?.remove(id, signer).await {
+                Ok(op) => ops.extend(op),
+                // Nobody is left to keep the key from
+                Err(CgkaError::RemoveLastMember) => break,
+                Err(e) => return Err(e.into()),
             }
         }
         Ok(RevokeMemberUpdate {
diff --git a/keyhive_core/src/principal/group.rs b/keyhive_core/src/principal/group.rs
index 25e7c19..d0c8442 100644
--- a/keyhive_core/src/principal/group.rs
+++ b/keyhive_core/src/principal/group.rs
@@ -681,20 +681,26 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
                     continue;
                 }
 
-                if let Some(proof) = &dlg.payload.proof {
-                    if proof.payload.delegate.id() == member_to_remove {
-                        let update = self
-                            .add_member_with_manual_content(
-                                dlg.payload.delegate.dupe(),
-                                dlg.payload.can,
-                                signer,
-                                after_content.clone(),
-                            )
-                            .await?;
-
-                        cgka_ops.extend(update.cgka_ops);
-                        redelegations.push(update.delegation);
-                    }
+                // Everything that rests on the revoked member's authority falls with it,
+                // including what those that they added have granted in turn.
+                let falls = dlg
+                    .payload
+                    .proof_lineage()
+                    .iter()
+                    .any(|proof| proof.payload.delegate.id() == member_to_remove);
+
+                if falls {
+                    let update = self
+                        .add_member_with_manual_content(
+                            dlg.payload.delegate.dupe(),
+                            dlg.payload.can,
+                            signer,
+                            after_content.clone(),
+                        )
+                        .await?;
+
+                    cgka_ops.extend(update.cgka_ops);
+                    redelegations.push(update.delegation);
                 }
             }
         }
@@ -762,14 +768,16 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
                         if revoked_dlgs.contains(&found_proof.signature.to_bytes())
                             || !dlgs_in_play.contains_key(&found_proof.signature.to_bytes())
                         {
-                            if let Some(alt_proofs) = self.members.get(&found_proof.issuer.into()) {
-                                if alt_proofs.iter().filter(|d| *d != found_proof).all(
-                                    |alt_proof| alt_proof.payload.can < found_proof.payload.can,
-                                ) {
+                            if let Some(alt_proofs) = self.members.get(&d.issuer.into()) {
+                                if alt_proofs
+                                    .iter()
+                                    .filter(|d| *d != found_proof)
+                                    .all(|alt_proof| alt_proof.payload.can < d.payload.can)
+                                {
                                     // No suitable proofs
                                     continue;
                                 }
-                            } else if found_proof.issuer != self.verifying_key() {
+                            } else if d.issuer != self.verifying_key() {
                                 continue;
                             }
                         }
@@ -826,11 +834,7 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
 
                         if let Some(dlg_sigs_to_revoke) = reverse_dlg_dep_map.get(&sig_to_revoke) {
                             for dlg_sig in dlg_sigs_to_revoke.iter() {
-                                revoked_dlgs.insert(*dlg_sig);
-
-                                if let Some(dep_dlg) = dlgs_in_play.remove(dlg_sig) {
-                                    next_to_revoke.push(dep_dlg.signature.to_bytes());
-                                }
+                                next_to_revoke.push(*dlg_sig);
                             }
                         }
                     }
-- 
2.43.0


From fae22cfd68cb2954994eb238dbb191ed8780bd0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:53 +0000
Subject: [PATCH 14/45] fix: do not act as another member before one's own
 invitation arrives

The key group of a received document took the first member as its owner, so
encrypting before one's own invitation rotated that member's leaf key and left
it in conflict (a panic for everyone who updates afterwards).
---
 keyhive_core/src/keyhive.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/keyhive_core/src/keyhive.rs b/keyhive_core/src/keyhive.rs
index 028abb6..c6b89f4 100644
--- a/keyhive_core/src/keyhive.rs
+++ b/keyhive_core/src/keyhive.rs
@@ -1782,7 +1782,19 @@ impl<
                 return Ok(());
             }
         }
-        if doc.lock().await.merge_cgka_op(signed_op.clone())? {
+        let active_id = self.active.lock().await.id();
+        let merged = {
+            let mut locked_doc = doc.lock().await;
+            let is_init = locked_doc.cgka().is_err();
+            let merged = locked_doc.merge_cgka_op(signed_op.clone())?;
+            if is_init {
+                // The key group starts out owned by whoever it was created for. Until our own
+                // invitation arrives we are not in it, and must not update their leaf.
+                locked_doc.reset_cgka_owner(active_id)?;
+            }
+            merged
+        };
+        if merged {
             self.event_listener.on_cgka_op(&signed_op).await;
         }
         Ok(())
-- 
2.43.0


From ece493c9179278a0dc31211ecf881ae0c3bcac3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:17 +0000
Subject: [PATCH 15/45] fix: offer a peer the revocations in nested groups and
 documents, alike per peer and in bulk

---
 keyhive_core/src/keyhive.rs                   | 46 +++++++++-------
 .../principal/group/membership_operation.rs   | 52 +++++++++++++------
 2 files changed, 61 insertions(+), 37 deletions(-)

diff --git a/keyhive_core/src/keyhive.rs b/keyhive_core/src/keyhive.rs
index c6b89f4..2e9667d 100644
--- a/keyhive_core/src/keyhive.rs
+++ b/keyhive_core/src/keyhive.rs
@@ -24,7 +24,8 @@ use crate::{
             id::GroupId,
             membership_operation::{
                 bfs_extend_from_revocation, bfs_membership_ops, collect_membership_heads,
-                AllMembershipOps, MembershipOpMap, MembershipOperation, StaticMembershipOperation,
+                delegate_membership_heads, AllMembershipOps, MembershipOpMap, MembershipOperation,
+                StaticMembershipOperation,
             },
             revocation::{Revocation, StaticRevocation},
             Group, IdOrIndividual, RevokeMemberError,
@@ -927,7 +928,11 @@ impl<
             MembershipOperation<F, S, T, L>,
         )> = Vec::new();
 
+        let mut revocation_targets = HashSet::from([agent.agent_id()]);
+
         for (mem_rc, _max_acces) in self.membered_reachable_by_agent(agent).await.values() {
+            revocation_targets.insert(mem_rc.agent_id());
+
             for (hash, dlg_head) in mem_rc.delegation_heads().await.iter() {
                 heads.push((hash.coerce(), dlg_head.dupe().into()));
             }
@@ -937,17 +942,20 @@ impl<
             }
         }
 
-        // Include any revocations for this agent that were missed
-        if let Some(agent_revocations) = self
-            .revocations
-            .lock()
-            .await
-            .get_revocations_for_agent(&agent.agent_id())
+        // Include any revocations for this agent, or for anything it is a (transitive)
+        // member of, that were missed
         {
-            for rev in agent_revocations {
-                let hash: Digest<MembershipOperation<F, S, T, L>> =
-                    Digest::hash(rev.as_ref()).coerce();
-                heads.push((hash, rev.into()));
+            let revocations = self.revocations.lock().await;
+            for target in &revocation_targets {
+                for rev in revocations
+                    .get_revocations_for_agent(target)
+                    .into_iter()
+                    .flatten()
+                {
+                    let hash: Digest<MembershipOperation<F, S, T, L>> =
+                        Digest::hash(rev.as_ref()).coerce();
+                    heads.push((hash, rev.into()));
+                }
             }
         }
 
@@ -969,15 +977,13 @@ impl<
                         heads.push((Digest::hash(rev.as_ref()).coerce(), rev.dupe().into()));
                     }
 
-                    // If this delegation is to a group, include the group's delegation heads
-                    if let Agent::Group(_group_id, group) = &dlg.payload.delegate {
-                        for dlg in group.lock().await.delegation_heads().values() {
-                            let dlg_hash = Digest::hash(dlg.as_ref()).coerce();
-                            if !visited_hashes.contains(&dlg_hash) {
-                                heads.push((dlg_hash, dlg.dupe().into()));
-                            }
-                        }
-                    }
+                    // If this delegation is to a group or document, include its heads
+                    heads.extend(
+                        delegate_membership_heads(&dlg.payload.delegate)
+                            .await
+                            .into_iter()
+                            .filter(|(hash, _)| !visited_hashes.contains(hash)),
+                    );
                 }
                 MembershipOperation::Revocation(rev) => {
                     if let Some(proof) = &rev.payload.proof {
diff --git a/keyhive_core/src/principal/group/membership_operation.rs b/keyhive_core/src/principal/group/membership_operation.rs
index c62431c..b51f2fb 100644
--- a/keyhive_core/src/principal/group/membership_operation.rs
+++ b/keyhive_core/src/principal/group/membership_operation.rs
@@ -614,12 +614,35 @@ pub fn collect_membership_heads<
     heads
 }
 
+/// Collect the heads of a delegate that is itself a group or document.
+///
+/// Deciding who holds access through such a delegate takes its own membership
+/// operations, revocations included.
+pub async fn delegate_membership_heads<
+    F: FutureForm,
+    S: AsyncSigner<F>,
+    T: ContentRef,
+    L: MembershipListener<F, S, T>,
+>(
+    delegate: &Agent<F, S, T, L>,
+) -> Vec<MembershipOpEntry<F, S, T, L>> {
+    match delegate {
+        Agent::Group(_, group) => {
+            let locked = group.lock().await;
+            collect_membership_heads(locked.delegation_heads(), locked.revocation_heads())
+        }
+        Agent::Document(_, doc) => {
+            let locked = doc.lock().await;
+            collect_membership_heads(locked.delegation_heads(), locked.revocation_heads())
+        }
+        Agent::Active(_, _) | Agent::Individual(_, _) => Vec::new(),
+    }
+}
+
 /// Enqueue BFS edges from a single [`MembershipOperation`].
 ///
-/// For delegations, follows the proof chain and any `after_revocations`.
-/// When `follow_group_heads` is true, also enqueues the group delegate's
-/// own delegation heads (used during full BFS but not when extending from
-/// a single revocation).
+/// For delegations, follows the proof chain, any `after_revocations`, and the
+/// heads of the delegate if it is itself a group or document.
 ///
 /// For revocations, follows the proof and revoke chains.
 async fn push_membership_edges<
@@ -631,7 +654,6 @@ async fn push_membership_edges<
     op: &MembershipOperation<F, S, T, L>,
     heads: &mut Vec<MembershipOpEntry<F, S, T, L>>,
     visited: &HashSet<Digest<MembershipOperation<F, S, T, L>>>,
-    follow_group_heads: bool,
 ) {
     match op {
         MembershipOperation::Delegation(dlg) => {
@@ -641,16 +663,12 @@ async fn push_membership_edges<
             for rev in dlg.payload.after_revocations.iter() {
                 heads.push((Digest::hash(rev.as_ref()).coerce(), rev.dupe().into()));
             }
-            if follow_group_heads {
-                if let Agent::Group(_group_id, group) = &dlg.payload.delegate {
-                    for dlg in group.lock().await.delegation_heads().values() {
-                        let dlg_hash = Digest::hash(dlg.as_ref()).coerce();
-                        if !visited.contains(&dlg_hash) {
-                            heads.push((dlg_hash, dlg.dupe().into()));
-                        }
-                    }
-                }
-            }
+            heads.extend(
+                delegate_membership_heads(&dlg.payload.delegate)
+                    .await
+                    .into_iter()
+                    .filter(|(hash, _)| !visited.contains(hash)),
+            );
         }
         MembershipOperation::Revocation(rev) => {
             if let Some(proof) = &rev.payload.proof {
@@ -681,7 +699,7 @@ pub async fn bfs_membership_ops<
             continue;
         }
         visited.insert(hash);
-        push_membership_edges(&op, &mut heads, &visited, true).await;
+        push_membership_edges(&op, &mut heads, &visited).await;
         ops.insert(hash, op);
     }
 
@@ -714,7 +732,7 @@ pub async fn bfs_extend_from_revocation<
             continue;
         }
         visited.insert(hash);
-        push_membership_edges(&op, &mut heads, visited, false).await;
+        push_membership_edges(&op, &mut heads, visited).await;
         all_ops.entry(hash).or_insert(op);
     }
 }
-- 
2.43.0


From e0ff0e8e27f1e72acbc90dec5a1ef97780770eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:35 +0000
Subject: [PATCH 16/45] fix: key the events offered to a peer by their own
 digest

---
 keyhive_core/src/keyhive.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/keyhive_core/src/keyhive.rs b/keyhive_core/src/keyhive.rs
index 2e9667d..e8f7fcb 100644
--- a/keyhive_core/src/keyhive.rs
+++ b/keyhive_core/src/keyhive.rs
@@ -841,8 +841,11 @@ impl<
         let mut ops: HashMap<_, _> = self
             .membership_ops_for_agent(agent)
             .await
-            .into_iter()
-            .map(|(op_digest, op)| (op_digest.coerce(), op.into()))
+            .into_values()
+            .map(|op| {
+                let op = Event::<F, S, T, L>::from(op);
+                (Digest::hash(&op), op)
+            })
             .collect();
 
         for key_ops in self.reachable_prekey_ops_for_agent(agent).await.values() {
-- 
2.43.0


From 5c9b9fc903addfd9b78b4fea9a2712580b689d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:42 +0000
Subject: [PATCH 17/45] fix: offer the prekeys of every delegate in the offered
 membership operations

---
 keyhive_core/src/keyhive.rs | 35 +++++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/keyhive_core/src/keyhive.rs b/keyhive_core/src/keyhive.rs
index e8f7fcb..757502d 100644
--- a/keyhive_core/src/keyhive.rs
+++ b/keyhive_core/src/keyhive.rs
@@ -1161,6 +1161,16 @@ impl<
             }
         }
 
+        // The delegates of every membership op the agent is sent, including revoked ones
+        for op in self.membership_ops_for_agent(agent).await.into_values() {
+            if let MembershipOperation::Delegation(dlg) = op {
+                let delegate = &dlg.payload.delegate;
+                if !map.contains_key(&delegate.id()) {
+                    add_many_keys(&mut map, delegate.id(), delegate.key_ops().await);
+                }
+            }
+        }
+
         map.into_iter()
             .map(|(id, keys)| (id, KeyOp::topsort(&keys)))
             .collect()
@@ -1255,6 +1265,22 @@ impl<
             }
         }
 
+        // The delegates of every membership op, including revoked ones
+        let membership_ops = self.membership_ops_for_all_agents().await;
+        let mut delegates: HashMap<Identifier, HashSet<Identifier>> = HashMap::new();
+        for (source_id, source_ops) in &membership_ops.ops {
+            let source_delegates = delegates.entry(*source_id).or_default();
+            for op in source_ops.values() {
+                if let MembershipOperation::Delegation(dlg) = op {
+                    let delegate = &dlg.payload.delegate;
+                    if let Entry::Vacant(e) = key_ops_cache.entry(delegate.id()) {
+                        e.insert(delegate.key_ops().await);
+                    }
+                    source_delegates.insert(delegate.id());
+                }
+            }
+        }
+
         // Include all registered individuals (even those not in any group/doc)
         for (id, indie) in self.individuals.lock().await.iter() {
             let agent_id: Identifier = (*id).into();
@@ -1304,6 +1330,15 @@ impl<
             }
         }
 
+        for (agent_id, source_ids) in &membership_ops.index {
+            let entry = index.entry(*agent_id).or_default();
+            entry.insert(active_id);
+            entry.insert(*agent_id);
+            for source_id in source_ids {
+                entry.extend(delegates.get(source_id).into_iter().flatten());
+            }
+        }
+
         AllReachablePrekeyOps { ops, index }
     }
 
-- 
2.43.0


From 3dc64107a5df8857056a94ca44ae83379c42d2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:41 +0000
Subject: [PATCH 18/45] fix: key-group operations change nothing until they are
 signed

---
 beekem/src/cgka.rs | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/beekem/src/cgka.rs b/beekem/src/cgka.rs
index 56ef512..6c5a3ce 100644
--- a/beekem/src/cgka.rs
+++ b/beekem/src/cgka.rs
@@ -248,7 +248,9 @@ impl Cgka {
         if self.should_replay() {
             self.replay_ops_graph()?;
         }
-        let leaf_index = self.tree.push_leaf(id, pk.into());
+        // Nothing changes before the operation is signed.
+        let mut tree = self.tree.clone();
+        let leaf_index = tree.push_leaf(id, pk.into());
         let predecessors = Vec::from_iter(self.ops_graph.cgka_op_heads.iter().cloned());
         let add_predecessors = Vec::from_iter(self.ops_graph.add_heads.iter().cloned());
         let op = CgkaOperation::Add {
@@ -261,6 +263,7 @@ impl Cgka {
         };
 
         let signed_op = async_signer::try_sign_async::<F, _, _>(signer, op).await?;
+        self.tree = tree;
         self.ops_graph.add_local_op(&signed_op);
         Ok(Some(signed_op))
     }
@@ -294,7 +297,9 @@ impl Cgka {
         if self.group_size() == 1 {
             return Err(CgkaError::RemoveLastMember);
         }
-        let (leaf_idx, removed_keys) = self.tree.remove_id(id)?;
+        // Nothing changes before the operation is signed.
+        let mut tree = self.tree.clone();
+        let (leaf_idx, removed_keys) = tree.remove_id(id)?;
         let predecessors = Vec::from_iter(self.ops_graph.cgka_op_heads.iter().cloned());
         let op = CgkaOperation::Remove {
             id,
@@ -304,6 +309,7 @@ impl Cgka {
             doc_id: self.doc_id,
         };
         let signed_op = async_signer::try_sign_async::<F, _, _>(signer, op).await?;
+        self.tree = tree;
         self.ops_graph.add_local_op(&signed_op);
         Ok(Some(signed_op))
     }
@@ -337,10 +343,11 @@ impl Cgka {
             let sk = *self.owner_sks.get(&pk).ok_or(CgkaError::ShareKeyNotFound)?;
             (public_id, pk, sk)
         };
-        self.owner_sks.insert(update_pk, update_sk);
-        let maybe_key_and_path =
-            self.tree
-                .encrypt_path(update_id, update_pk, &mut self.owner_sks, csprng)?;
+        // Nothing changes before the operation is signed.
+        let mut tree = self.tree.clone();
+        let mut owner_sks = self.owner_sks.clone();
+        owner_sks.insert(update_pk, update_sk);
+        let maybe_key_and_path = tree.encrypt_path(update_id, update_pk, &mut owner_sks, csprng)?;
         if let Some((pcs_key, new_path)) = maybe_key_and_path {
             let predecessors = Vec::from_iter(self.ops_graph.cgka_op_heads.iter().cloned());
             let op = CgkaOperation::Update {
@@ -351,6 +358,8 @@ impl Cgka {
             };
 
             let signed_op = async_signer::try_sign_async::<F, _, _>(signer, op).await?;
+            self.tree = tree;
+            self.owner_sks = owner_sks;
             self.ops_graph.add_local_op(&signed_op);
             self.insert_pcs_key(&pcs_key, Digest::hash(&signed_op));
             Ok((pcs_key, signed_op))
-- 
2.43.0


From 7f5245e286f8a53417ccbfef8f07b9a185f8c3cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:41 +0000
Subject: [PATCH 19/45] fix: announce key operations as they take effect, and
 nothing of a document that could not be made

---
 keyhive_core/src/keyhive.rs            | 36 +++++-----
 keyhive_core/src/principal/document.rs | 48 ++++++++-----
 keyhive_core/src/principal/group.rs    | 95 +++++++++++++++++---------
 3 files changed, 113 insertions(+), 66 deletions(-)

diff --git a/keyhive_core/src/keyhive.rs b/keyhive_core/src/keyhive.rs
index 757502d..a712220 100644
--- a/keyhive_core/src/keyhive.rs
+++ b/keyhive_core/src/keyhive.rs
@@ -554,12 +554,6 @@ impl<
             }
         };
 
-        for cgka_op in &update.cgka_ops {
-            self.event_listener
-                .on_cgka_op(&Arc::new(cgka_op.clone()))
-                .await;
-        }
-
         Ok(update)
     }
 
@@ -579,25 +573,28 @@ impl<
 
         let signer = { self.active.lock().await.signer.clone() };
 
-        // When revoking from a group, collect its individual IDs before the revocation: others
-        // may fall along with the member being revoked.
+        // When revoking from a group, collect everyone it ever had: others may fall along with
+        // the member being revoked, and an earlier call may have stopped part of the way.
         let mut revoked_individual_ids: HashSet<IndividualId> = match resource {
-            Membered::Group(_, group) => group.lock().await.individual_ids().await,
+            Membered::Group(_, group) => group.lock().await.past_individual_ids().await,
             _ => HashSet::new(),
         };
 
-        let mut update = resource
+        let revoked = resource
             .revoke_member(
                 to_revoke,
                 retain_all_other_members,
                 &signer,
                 &mut relevant_docs,
             )
-            .await?;
+            .await;
 
-        // Propagate CGKA removals to docs that contain this group.
+        // Propagate CGKA removals to docs that contain this group. This also applies if the above
+        // stopped part of the way: what it has done so far is in effect.
         // TODO: O(# of docs x `transitive_members()`). We should replace this approach
         // (possibly with a reverse index lookup).
+        let mut cgka_ops = Vec::new();
+        let mut failed = None;
         if let Membered::Group(group_id, group) = resource {
             let remaining = group.lock().await.individual_ids().await;
             revoked_individual_ids.retain(|id| !remaining.contains(id));
@@ -624,20 +621,21 @@ impl<
                         if still_reachable.contains(&id) {
                             continue;
                         }
-                        if let Ok(Some(op)) = locked_doc.remove_cgka_member(id, &signer).await {
-                            update.cgka_ops.push(op);
+                        match locked_doc.remove_cgka_member(id, &signer).await {
+                            Ok(op) => cgka_ops.extend(op),
+                            Err(CgkaError::SigningError(e)) => failed = Some(e),
+                            Err(_) => {}
                         }
                     }
                 }
             }
         }
 
-        for cgka_op in &update.cgka_ops {
-            self.event_listener
-                .on_cgka_op(&Arc::new(cgka_op.clone()))
-                .await;
+        let mut update = revoked?;
+        if let Some(e) = failed {
+            return Err(CgkaError::SigningError(e).into());
         }
-
+        update.cgka_ops.extend(cgka_ops);
         Ok(update)
     }
 
diff --git a/keyhive_core/src/principal/document.rs b/keyhive_core/src/principal/document.rs
index ca7f910..e4de496 100644
--- a/keyhive_core/src/principal/document.rs
+++ b/keyhive_core/src/principal/document.rs
@@ -167,7 +167,7 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
         let mut locked_csprng = csprng.lock().await;
         let (group_result, group_vk) =
             EphemeralSigner::with_signer(&mut *locked_csprng, |verifier, signer| {
-                Group::generate_after_content(
+                Group::generate_unannounced_after_content(
                     signer,
                     verifier,
                     parents,
@@ -212,6 +212,9 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
             .await?;
 
         ops.push(update_op);
+
+        // Nothing can fail from here on
+        group.announce_roots().await;
         for op in ops {
             group.listener.on_cgka_op(&Arc::new(op)).await;
         }
@@ -284,6 +287,7 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
         let mut acc = Vec::new();
         for (id, prekey) in prekeys.iter() {
             if let Some(op) = self.cgka_mut()?.add(*id, *prekey, signer).await? {
+                self.group.listener.on_cgka_op(&Arc::new(op.clone())).await;
                 acc.push(op);
             }
         }
@@ -298,15 +302,11 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
         signer: &S,
         after_other_doc_content: &mut BTreeMap<DocumentId, Vec<T>>,
     ) -> Result<RevokeMemberUpdate<F, S, T, L>, RevokeMemberError> {
-        // Collect the individual IDs from before the revocation: others may fall along with
-        // the member being revoked.
-        let mut ids_to_remove = self.group.individual_ids().await;
+        // Everyone that was ever reachable: those that an earlier call revoked without getting
+        // as far as removing them here are still to be removed.
+        let mut ids_to_remove = self.group.past_individual_ids().await;
 
-        let RevokeMemberUpdate {
-            revocations,
-            redelegations,
-            cgka_ops,
-        } = self
+        let revoked = self
             .group
             .revoke_member(
                 member_id,
@@ -314,27 +314,39 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
                 signer,
                 after_other_doc_content,
             )
-            .await?;
+            .await;
 
         // After revocation, check which individuals are still reachable via
-        // remaining members. Only remove those that are no longer reachable.
+        // remaining members. Only remove those that are no longer reachable. This also applies
+        // if the above stopped part of the way: what it has done so far is in effect.
         let still_reachable = self.group.individual_ids().await;
         ids_to_remove.retain(|id| !still_reachable.contains(id));
 
         // FIXME: We need to check if this has revoked the last member in our group.
-        let mut ops = cgka_ops;
+        let mut ops = Vec::new();
+        let mut failed = None;
         for id in ids_to_remove {
-            match self.cgka_mut()?.remove(id, signer).await {
+            match self.remove_cgka_member(id, signer).await {
                 Ok(op) => ops.extend(op),
                 // Nobody is left to keep the key from
                 Err(CgkaError::RemoveLastMember) => break,
-                Err(e) => return Err(e.into()),
+                Err(e) => failed = Some(e),
             }
         }
+
+        let RevokeMemberUpdate {
+            revocations,
+            redelegations,
+            mut cgka_ops,
+        } = revoked?;
+        if let Some(e) = failed {
+            return Err(e.into());
+        }
+        cgka_ops.extend(ops);
         Ok(RevokeMemberUpdate {
             revocations,
             redelegations,
-            cgka_ops: ops,
+            cgka_ops,
         })
     }
 
@@ -344,7 +356,11 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
         id: IndividualId,
         signer: &S,
     ) -> Result<Option<Signed<CgkaOperation>>, CgkaError> {
-        self.cgka_mut()?.remove(id, signer).await
+        let op = self.cgka_mut()?.remove(id, signer).await?;
+        if let Some(op) = &op {
+            self.group.listener.on_cgka_op(&Arc::new(op.clone())).await;
+        }
+        Ok(op)
     }
 
     pub async fn get_agent_revocations(
diff --git a/keyhive_core/src/principal/group.rs b/keyhive_core/src/principal/group.rs
index d0c8442..7c3039d 100644
--- a/keyhive_core/src/principal/group.rs
+++ b/keyhive_core/src/principal/group.rs
@@ -163,42 +163,49 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
         revocations: Arc<Mutex<RevocationStore<F, S, T, L>>>,
         after_content: BTreeMap<DocumentId, Vec<T>>,
         listener: L,
+    ) -> Result<Self, SigningError> {
+        let group = Self::generate_unannounced_after_content(
+            signer,
+            verifier,
+            parents,
+            delegations,
+            revocations,
+            after_content,
+            listener,
+        )
+        .await?;
+        group.announce_roots().await;
+        Ok(group)
+    }
+
+    /// [`Self::generate_after_content`], without letting anyone know yet: the caller has more to
+    /// do that may fail, and then calls [`Self::announce_roots`].
+    pub(crate) async fn generate_unannounced_after_content(
+        signer: Box<dyn SyncSignerBasic>,
+        verifier: ed25519_dalek::VerifyingKey,
+        parents: NonEmpty<Agent<F, S, T, L>>,
+        delegations: Arc<Mutex<DelegationStore<F, S, T, L>>>,
+        revocations: Arc<Mutex<RevocationStore<F, S, T, L>>>,
+        after_content: BTreeMap<DocumentId, Vec<T>>,
+        listener: L,
     ) -> Result<Self, SigningError> {
         let id = verifier.into();
         let group_id = GroupId(id);
         let mut delegation_heads = DelegationStore::new();
 
-        {
-            let async_listener = Arc::new(&listener);
-
-            let mut futs = FuturesUnordered::new();
-            for parent in parents.iter() {
-                let dlg = try_sign_basic(
-                    &*signer,
-                    verifier,
-                    Delegation {
-                        delegate: parent.dupe(),
-                        can: Access::Admin,
-                        proof: None,
-                        after_revocations: vec![],
-                        after_content: after_content.clone(),
-                    },
-                )?;
-
-                let rc = Arc::new(dlg);
-                delegations.lock().await.insert(rc.dupe());
-                delegation_heads.insert(rc.dupe());
-
-                let listen = async_listener.dupe();
-                futs.push(async move {
-                    listen.on_delegation(&rc).await;
-                    Ok::<(), SigningError>(())
-                });
-            }
-
-            while let Some(res) = futs.next().await {
-                res?;
-            }
+        for parent in parents.iter() {
+            let dlg = try_sign_basic(
+                &*signer,
+                verifier,
+                Delegation {
+                    delegate: parent.dupe(),
+                    can: Access::Admin,
+                    proof: None,
+                    after_revocations: vec![],
+                    after_content: after_content.clone(),
+                },
+            )?;
+            delegation_heads.insert(Arc::new(dlg));
         }
 
         let mut group = Group {
@@ -221,6 +228,16 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
         Ok(group)
     }
 
+    /// Store and announce the delegations this group starts from.
+    pub(crate) async fn announce_roots(&self) {
+        let mut futs = FuturesUnordered::new();
+        for rc in self.state.delegation_heads.values() {
+            self.state.delegations.lock().await.insert(rc.dupe());
+            futs.push(async move { self.listener.on_delegation(rc).await });
+        }
+        while futs.next().await.is_some() {}
+    }
+
     pub fn id(&self) -> Identifier {
         self.group_id().into()
     }
@@ -246,6 +263,22 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
         ids
     }
 
+    /// The individuals behind everyone that this group ever had as a member, current or not.
+    pub(crate) async fn past_individual_ids(&self) -> HashSet<IndividualId> {
+        let mut ids = self.individual_ids().await;
+        let history = MembershipOperation::reverse_topsort(
+            &self.state.delegation_heads,
+            &self.state.revocation_heads,
+        );
+        for (_, op) in history {
+            if let MembershipOperation::Delegation(dlg) = op {
+                let delegate = &dlg.payload().delegate;
+                ids.extend(delegate.individual_ids_except(Some(self.id())).await);
+            }
+        }
+        ids
+    }
+
     pub async fn pick_individual_prekeys(
         &self,
         doc_id: DocumentId,
-- 
2.43.0


From d3c0ecacbc8b4c96a3e114d8602cfa86cf7c2dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:01 +0000
Subject: [PATCH 20/45] fix: see one's own prekeys the way everyone else does

---
 keyhive_core/src/principal/active.rs | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/keyhive_core/src/principal/active.rs b/keyhive_core/src/principal/active.rs
index 4eeda14..d2d492a 100644
--- a/keyhive_core/src/principal/active.rs
+++ b/keyhive_core/src/principal/active.rs
@@ -211,8 +211,8 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: PrekeyListener<F>> Acti
                 .insert_op(KeyOp::Rotate(rot_op.dupe()))
                 .expect("the op we just signed to be valid");
 
-            locked_individual.prekeys.remove(&old_prekey);
-            locked_individual.prekeys.insert(new_public);
+            // As everyone else will see it
+            locked_individual.prekeys = locked_individual.prekey_state.build();
         }
 
         self.listener.on_prekey_rotated(&rot_op).await;
@@ -240,6 +240,13 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: PrekeyListener<F>> Acti
             .await?,
         );
 
+        {
+            self.prekey_pairs
+                .lock()
+                .await
+                .insert(new_public, new_secret);
+        }
+
         {
             let mut locked_individual = self.individual.lock().await;
 
@@ -248,14 +255,8 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: PrekeyListener<F>> Acti
                 .insert_op(KeyOp::Add(op.dupe()))
                 .expect("the op we just signed to be valid");
 
-            locked_individual.prekeys.insert(new_public);
-        }
-
-        {
-            self.prekey_pairs
-                .lock()
-                .await
-                .insert(new_public, new_secret);
+            // As everyone else will see it
+            locked_individual.prekeys = locked_individual.prekey_state.build();
         }
 
         self.listener.on_prekeys_expanded(&op).await;
-- 
2.43.0


From 7553c3f5a8ee3e186d29b0b609a1e01b303dc356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:04 +0000
Subject: [PATCH 21/45] fix: retry pending events when a contact card
 introduces their user

---
 keyhive_core/src/keyhive.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/keyhive_core/src/keyhive.rs b/keyhive_core/src/keyhive.rs
index a712220..8278f77 100644
--- a/keyhive_core/src/keyhive.rs
+++ b/keyhive_core/src/keyhive.rs
@@ -376,6 +376,11 @@ impl<
             }
         }
 
+        // Some events may have been waiting for this user to be known
+        if !self.pending_events.lock().await.is_empty() {
+            self.ingest_unsorted_static_events(Vec::new()).await;
+        }
+
         Ok(result)
     }
 
-- 
2.43.0


From b138c4ba7a6464d75222a99a5e908c3b47d9d362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:35 +0000
Subject: [PATCH 22/45] fix: take concurrent key-group operations into account
 before adding or removing

add and remove looked whether the member is in the tree before replaying
the concurrent operations already merged, so an add or removal could be
skipped, or made of a member no longer there.
---
 beekem/src/cgka.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/beekem/src/cgka.rs b/beekem/src/cgka.rs
index 6c5a3ce..2922ff7 100644
--- a/beekem/src/cgka.rs
+++ b/beekem/src/cgka.rs
@@ -242,12 +242,12 @@ impl Cgka {
         pk: ShareKey,
         signer: &S,
     ) -> Result<Option<Signed<CgkaOperation>>, CgkaError> {
-        if self.tree.contains_id(&id) {
-            return Ok(None);
-        }
         if self.should_replay() {
             self.replay_ops_graph()?;
         }
+        if self.tree.contains_id(&id) {
+            return Ok(None);
+        }
         // Nothing changes before the operation is signed.
         let mut tree = self.tree.clone();
         let leaf_index = tree.push_leaf(id, pk.into());
@@ -288,12 +288,12 @@ impl Cgka {
         id: MemberId,
         signer: &S,
     ) -> Result<Option<Signed<CgkaOperation>>, CgkaError> {
-        if !self.tree.contains_id(&id) {
-            return Ok(None);
-        }
         if self.should_replay() {
             self.replay_ops_graph()?;
         }
+        if !self.tree.contains_id(&id) {
+            return Ok(None);
+        }
         if self.group_size() == 1 {
             return Err(CgkaError::RemoveLastMember);
         }
-- 
2.43.0


From fd80a59e3e4069e76c6a9d71c624d5e879080b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:35 +0000
Subject: [PATCH 23/45] fix: concurrent key-group membership changes of one
 member do not brick the group

Concurrent adds of one member gave it two leaves, concurrent removals of
one member (or of everyone) made every later replay fail, and removals of
a leaf index that differs where the removal is replayed blanked the leaf of
another member.
---
 beekem/src/cgka.rs | 39 +++++++++++++++++++++++++--------------
 beekem/src/tree.rs | 14 +++++++-------
 2 files changed, 32 insertions(+), 21 deletions(-)

diff --git a/beekem/src/cgka.rs b/beekem/src/cgka.rs
index 2922ff7..c9c29b7 100644
--- a/beekem/src/cgka.rs
+++ b/beekem/src/cgka.rs
@@ -421,25 +421,35 @@ impl Cgka {
         self.ops_graph.contains_predecessors(preds)
     }
 
-    /// Apply a [`CgkaOperation`].
+    /// Apply a [`CgkaOperation`], returning the index of the leaf it removed.
     #[instrument(skip_all)]
-    fn apply_operation(&mut self, op: Arc<Signed<CgkaOperation>>) -> Result<(), CgkaError> {
+    fn apply_operation(
+        &mut self,
+        op: Arc<Signed<CgkaOperation>>,
+    ) -> Result<Option<u32>, CgkaError> {
         if self.ops_graph.contains_op_hash(&Digest::hash(&op)) {
-            return Ok(());
+            return Ok(None);
         }
+        let mut removed = None;
         match op.payload {
             CgkaOperation::Add { added_id, pk, .. } => {
-                self.tree.push_leaf(added_id, pk.into());
-            }
-            CgkaOperation::Remove { id, .. } => {
-                self.tree.remove_id(id)?;
+                // The same member may have been added concurrently
+                if !self.tree.contains_id(&added_id) {
+                    self.tree.push_leaf(added_id, pk.into());
+                }
             }
+            CgkaOperation::Remove { id, .. } => match self.tree.remove_id(id) {
+                Ok((leaf_idx, _)) => removed = Some(leaf_idx),
+                // The same member, or everyone else, may have been removed concurrently
+                Err(CgkaError::IdentifierNotFound | CgkaError::RemoveLastMember) => {}
+                Err(e) => return Err(e),
+            },
             CgkaOperation::Update { ref new_path, .. } => {
                 self.tree.apply_path(new_path);
             }
         }
         self.ops_graph.add_op(&op, &op.payload.predecessors());
-        Ok(())
+        Ok(removed)
     }
 
     /// Apply operations grouped into "epochs", where each epoch contains an ordered
@@ -467,16 +477,17 @@ impl Cgka {
                 let mut added_ids = Set::new();
                 let mut removed_ids = Set::new();
                 for op in epoch.iter() {
-                    match op.payload {
-                        CgkaOperation::Add { added_id, .. } => {
-                            added_ids.insert(added_id);
+                    let removed = self.apply_operation(op.clone())?;
+                    match (&op.payload, removed) {
+                        (CgkaOperation::Add { added_id, .. }, _) => {
+                            added_ids.insert(*added_id);
                         }
-                        CgkaOperation::Remove { id, leaf_idx, .. } => {
-                            removed_ids.insert((id, leaf_idx));
+                        // Not necessarily the leaf it had where this was issued
+                        (CgkaOperation::Remove { id, .. }, Some(leaf_idx)) => {
+                            removed_ids.insert((*id, leaf_idx));
                         }
                         _ => {}
                     }
-                    self.apply_operation(op.clone())?;
                 }
                 self.tree
                     .sort_leaves_and_blank_paths_for_concurrent_membership_changes(
diff --git a/beekem/src/tree.rs b/beekem/src/tree.rs
index f5c71f5..32d7719 100644
--- a/beekem/src/tree.rs
+++ b/beekem/src/tree.rs
@@ -112,13 +112,13 @@ impl BeeKem {
     ) {
         let mut leaves_to_sort = Vec::new();
         for (id, idx) in removed_ids {
-            added_ids.remove(&id);
-            let leaf_idx = LeafNodeIndex::new(idx);
-            debug_assert!(self.leaf(leaf_idx).is_none());
-            // We should have already removed this id during merge, but concurrent
-            // updates at other leaves with intersecting paths must be overridden by
-            // this remove.
-            self.blank_leaf_and_path(leaf_idx);
+            if !self.contains_id(&id) {
+                added_ids.remove(&id);
+            }
+            // We should have already removed this id during merge (and another may be at
+            // its leaf by now), but concurrent updates at other leaves with intersecting
+            // paths must be overridden by this remove.
+            self.blank_path(treemath::parent(LeafNodeIndex::new(idx).into()));
         }
         while !added_ids.is_empty() && self.next_leaf_idx.u32() > 0 {
             let leaf_idx = self.next_leaf_idx - 1;
-- 
2.43.0


From 63f6eff720b2cbfbe095dff56fdb9b1189e309d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:35 +0000
Subject: [PATCH 24/45] fix: encrypt to a leaf with concurrent keys instead of
 panicking

---
 beekem/src/tree.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/beekem/src/tree.rs b/beekem/src/tree.rs
index 32d7719..2e2faa5 100644
--- a/beekem/src/tree.rs
+++ b/beekem/src/tree.rs
@@ -459,7 +459,9 @@ impl BeeKem {
             for idx in sibling_resolution {
                 let next_pk = match self.node_key_for_index(idx)? {
                     NodeKey::ShareKey(share_key) => share_key,
-                    _ => panic!("Sibling resolution nodes should have exactly one ShareKey"),
+                    // Only a leaf in a resolution may have concurrent keys. Its member has the
+                    // secrets for all of them.
+                    NodeKey::ConflictKeys(keys) => keys.first,
                 };
                 let encrypted_sk = crate::encrypted::encrypt_secret(
                     self.doc_id.as_bytes(),
-- 
2.43.0


From 3cf7d9fb9f58b81862c38220ad959d2e92d03bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:35 +0000
Subject: [PATCH 25/45] fix: recognise key updates whose path does not fit the
 tree

A path was compared by its length only, so an update made against another
tree shape was applied to the wrong nodes (and indices out of range panicked).
---
 beekem/src/tree.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/beekem/src/tree.rs b/beekem/src/tree.rs
index 2e2faa5..99d17a2 100644
--- a/beekem/src/tree.rs
+++ b/beekem/src/tree.rs
@@ -573,8 +573,14 @@ impl BeeKem {
         let leaf_idx = self
             .leaf_index_for_id(new_path.leaf_id)
             .expect("Id should be present");
-        new_path.path.len() == self.path_length_for(LeafNodeIndex::new(new_path.leaf_idx))
-            && leaf_idx.u32() == new_path.leaf_idx
+        let path = treemath::direct_path((*leaf_idx).into(), self.tree_size);
+        leaf_idx.u32() == new_path.leaf_idx
+            && new_path.path.len() == path.len()
+            && new_path
+                .path
+                .iter()
+                .zip(path)
+                .all(|((idx, _), node)| *idx == node.u32())
     }
 
     /// Growing the tree will add a new root and a new subtree, all blank.
@@ -597,10 +603,6 @@ impl BeeKem {
         idx == treemath::root(self.tree_size)
     }
 
-    fn path_length_for(&self, idx: LeafNodeIndex) -> usize {
-        treemath::direct_path(idx.into(), self.tree_size).len()
-    }
-
     /// Highest non-blank, non-conflict descendants of a node
     fn append_resolution(&self, idx: TreeNodeIndex, acc: &mut Vec<TreeNodeIndex>) {
         if self.should_skip_for_resolution(idx) {
-- 
2.43.0


From 1694d572fe6cb1930dde84c855682fb1d707d55a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:36 +0000
Subject: [PATCH 26/45] fix: a key update that no longer fits the tree blanks
 its path whatever order it is merged in

---
 beekem/src/cgka.rs | 29 +++++++++++++++++++----------
 beekem/src/tree.rs | 20 +++++++++++---------
 2 files changed, 30 insertions(+), 19 deletions(-)

diff --git a/beekem/src/cgka.rs b/beekem/src/cgka.rs
index c9c29b7..a805f14 100644
--- a/beekem/src/cgka.rs
+++ b/beekem/src/cgka.rs
@@ -368,6 +368,11 @@ impl Cgka {
         }
     }
 
+    /// Whether this member currently has a leaf
+    pub fn contains_member(&self, id: &MemberId) -> bool {
+        self.tree.contains_id(id)
+    }
+
     /// The current group size
     pub fn group_size(&self) -> u32 {
         self.tree.member_count()
@@ -421,7 +426,8 @@ impl Cgka {
         self.ops_graph.contains_predecessors(preds)
     }
 
-    /// Apply a [`CgkaOperation`], returning the index of the leaf it removed.
+    /// Apply a [`CgkaOperation`], returning the index of the leaf it removed, or whose path it
+    /// blanked because its own does not fit the tree (any more).
     #[instrument(skip_all)]
     fn apply_operation(
         &mut self,
@@ -430,7 +436,7 @@ impl Cgka {
         if self.ops_graph.contains_op_hash(&Digest::hash(&op)) {
             return Ok(None);
         }
-        let mut removed = None;
+        let mut blanked = None;
         match op.payload {
             CgkaOperation::Add { added_id, pk, .. } => {
                 // The same member may have been added concurrently
@@ -439,17 +445,17 @@ impl Cgka {
                 }
             }
             CgkaOperation::Remove { id, .. } => match self.tree.remove_id(id) {
-                Ok((leaf_idx, _)) => removed = Some(leaf_idx),
+                Ok((leaf_idx, _)) => blanked = Some(leaf_idx),
                 // The same member, or everyone else, may have been removed concurrently
                 Err(CgkaError::IdentifierNotFound | CgkaError::RemoveLastMember) => {}
                 Err(e) => return Err(e),
             },
             CgkaOperation::Update { ref new_path, .. } => {
-                self.tree.apply_path(new_path);
+                blanked = self.tree.apply_path(new_path);
             }
         }
         self.ops_graph.add_op(&op, &op.payload.predecessors());
-        Ok(removed)
+        Ok(blanked)
     }
 
     /// Apply operations grouped into "epochs", where each epoch contains an ordered
@@ -475,16 +481,19 @@ impl Cgka {
                 // An epoch with at least one membership change requires blanking
                 // removed paths and sorting added leaves after all ops are applied.
                 let mut added_ids = Set::new();
-                let mut removed_ids = Set::new();
+                let mut blanked_ids = Set::new();
                 for op in epoch.iter() {
-                    let removed = self.apply_operation(op.clone())?;
-                    match (&op.payload, removed) {
+                    let blanked = self.apply_operation(op.clone())?;
+                    match (&op.payload, blanked) {
                         (CgkaOperation::Add { added_id, .. }, _) => {
                             added_ids.insert(*added_id);
                         }
                         // Not necessarily the leaf it had where this was issued
                         (CgkaOperation::Remove { id, .. }, Some(leaf_idx)) => {
-                            removed_ids.insert((*id, leaf_idx));
+                            blanked_ids.insert((*id, leaf_idx));
+                        }
+                        (CgkaOperation::Update { id, .. }, Some(leaf_idx)) => {
+                            blanked_ids.insert((*id, leaf_idx));
                         }
                         _ => {}
                     }
@@ -492,7 +501,7 @@ impl Cgka {
                 self.tree
                     .sort_leaves_and_blank_paths_for_concurrent_membership_changes(
                         added_ids,
-                        removed_ids,
+                        blanked_ids,
                     );
             }
         }
diff --git a/beekem/src/tree.rs b/beekem/src/tree.rs
index 99d17a2..d70ada9 100644
--- a/beekem/src/tree.rs
+++ b/beekem/src/tree.rs
@@ -108,16 +108,16 @@ impl BeeKem {
     pub fn sort_leaves_and_blank_paths_for_concurrent_membership_changes(
         &mut self,
         mut added_ids: Set<MemberId>,
-        removed_ids: Set<(MemberId, u32)>,
+        blanked_ids: Set<(MemberId, u32)>,
     ) {
         let mut leaves_to_sort = Vec::new();
-        for (id, idx) in removed_ids {
+        for (id, idx) in blanked_ids {
             if !self.contains_id(&id) {
                 added_ids.remove(&id);
             }
-            // We should have already removed this id during merge (and another may be at
-            // its leaf by now), but concurrent updates at other leaves with intersecting
-            // paths must be overridden by this remove.
+            // We should have already removed this id, or blanked its path, during merge (and
+            // another may be at its leaf by now), but concurrent updates at other leaves with
+            // intersecting paths must be overridden by that.
             self.blank_path(treemath::parent(LeafNodeIndex::new(idx).into()));
         }
         while !added_ids.is_empty() && self.next_leaf_idx.u32() > 0 {
@@ -309,12 +309,13 @@ impl BeeKem {
     }
 
     /// Applies a [`PathChange`] representing new public and encrypted secret keys for each
-    /// node on a path.
-    pub fn apply_path(&mut self, new_path: &PathChange) {
+    /// node on a path. Returns the index of the leaf if its path was blanked instead, because this
+    /// one does not fit the tree.
+    pub fn apply_path(&mut self, new_path: &PathChange) -> Option<u32> {
         // If this id has been concurrently removed, it might no longer be present
         // when we try to apply the concurrent update at that id.
         if !self.id_to_leaf_idx.contains_key(&new_path.leaf_id) {
-            return;
+            return None;
         }
         let leaf_idx = *self
             .leaf_index_for_id(new_path.leaf_id)
@@ -328,7 +329,7 @@ impl BeeKem {
             let new_node_key = leaf.pk.merge(&new_path.leaf_pk, &new_path.removed_keys);
             self.insert_leaf_at(leaf_idx, new_path.leaf_id, new_node_key);
             self.blank_path(treemath::parent(leaf_idx.into()));
-            return;
+            return Some(leaf_idx.u32());
         }
 
         let old_leaf = self.leaf(leaf_idx).as_ref().unwrap();
@@ -348,6 +349,7 @@ impl BeeKem {
                 self.insert_inner_node_at(current_idx, node.clone());
             }
         }
+        None
     }
 
     /// Whether the tree currently has a root key.
-- 
2.43.0


From ee31addd57d9e3840e26d5bc5621b1472709f712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:44 +0000
Subject: [PATCH 27/45] fix: who may read decides who is in a document's key
 group

---
 keyhive_core/src/cgka.rs               |  4 ++
 keyhive_core/src/keyhive.rs            | 10 +----
 keyhive_core/src/principal/document.rs | 36 ++++++++++++++---
 keyhive_core/src/principal/group.rs    | 54 +++++++++++++++++---------
 4 files changed, 71 insertions(+), 33 deletions(-)

diff --git a/keyhive_core/src/cgka.rs b/keyhive_core/src/cgka.rs
index 03ae449..808b6c9 100644
--- a/keyhive_core/src/cgka.rs
+++ b/keyhive_core/src/cgka.rs
@@ -194,6 +194,10 @@ impl Cgka {
         self.0.update(new_pk, new_sk, signer, csprng).await
     }
 
+    pub fn contains_member(&self, id: IndividualId) -> bool {
+        self.0.contains_member(&MemberId(id.verifying_key()))
+    }
+
     pub fn group_size(&self) -> u32 {
         self.0.group_size()
     }
diff --git a/keyhive_core/src/keyhive.rs b/keyhive_core/src/keyhive.rs
index 8278f77..82df6a0 100644
--- a/keyhive_core/src/keyhive.rs
+++ b/keyhive_core/src/keyhive.rs
@@ -532,16 +532,8 @@ impl<
                         if !contains_group {
                             continue;
                         }
-                        // Document lock is intentionally dropped before `pick_individual_prekeys`,
-                        // which may lock groups (walking group members to find
-                        // individuals).
-                        let prekeys = update
-                            .delegation
-                            .payload
-                            .delegate
-                            .pick_individual_prekeys(doc_id)
-                            .await;
                         let mut locked_doc = doc.lock().await;
+                        let prekeys = locked_doc.group.pick_individual_prekeys(doc_id).await;
                         let ops = locked_doc
                             .add_cgka_members_from_prekeys(&prekeys, &signer)
                             .await?;
diff --git a/keyhive_core/src/principal/document.rs b/keyhive_core/src/principal/document.rs
index e4de496..a58ade9 100644
--- a/keyhive_core/src/principal/document.rs
+++ b/keyhive_core/src/principal/document.rs
@@ -261,12 +261,7 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
             // transitive document members of the group, but not to the group itself
             // (because the group might not be a document), so we add the member to
             // the group here and add any extra resulting cgka ops to the update.
-            let prekeys = update
-                .delegation
-                .payload
-                .delegate
-                .pick_individual_prekeys_except(self.doc_id(), Some(self.id()))
-                .await;
+            let prekeys = self.group.pick_individual_prekeys(self.doc_id()).await;
             let cgka_ops_for_this_doc =
                 self.add_cgka_members_from_prekeys(&prekeys, signer).await?;
             update.cgka_ops.extend(cgka_ops_for_this_doc);
@@ -350,6 +345,29 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
         })
     }
 
+    /// Bring the [`Cgka`] in line with who may read, before something is encrypted with it: changes
+    /// made concurrently, or where not everything about this document is known, leave it behind.
+    async fn update_cgka_members(&mut self, signer: &S) -> Result<(), CgkaError> {
+        let this = IndividualId(signer.verifying_key().into());
+        let readers = self.group.pick_individual_prekeys(self.doc_id()).await;
+        if !readers.contains_key(&this) || !self.cgka()?.contains_member(this) {
+            return Ok(());
+        }
+        self.add_cgka_members_from_prekeys(&readers, signer).await?;
+        for id in self.group.past_individual_ids().await {
+            if !readers.contains_key(&id) {
+                self.remove_cgka_member(id, signer).await?;
+            }
+        }
+        // Whoever created this document holds the secrets behind its own place in the key group
+        let creator = IndividualId((*self.cgka()?.init_add_op().issuer()).into());
+        if !readers.contains_key(&creator) {
+            self.remove_cgka_member(IndividualId(self.id()), signer)
+                .await?;
+        }
+        Ok(())
+    }
+
     #[instrument(skip_all)]
     pub async fn remove_cgka_member(
         &mut self,
@@ -466,6 +484,9 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
         signer: &S,
         csprng: &mut R,
     ) -> Result<(Signed<CgkaOperation>, ShareKey, ShareSecretKey), EncryptError> {
+        self.update_cgka_members(signer)
+            .await
+            .map_err(EncryptError::UnableToPcsUpdate)?;
         let new_share_secret_key = ShareSecretKey::generate(csprng);
         let new_share_key = new_share_secret_key.share_key();
         let (_, op) = self
@@ -486,6 +507,9 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
         signer: &S,
         csprng: &mut R,
     ) -> Result<(EncryptedContentWithUpdate<T>, SymmetricKey), EncryptError> {
+        self.update_cgka_members(signer)
+            .await
+            .map_err(EncryptError::FailedToMakeAppSecret)?;
         let (app_secret, maybe_update_op) = self
             .cgka_mut()
             .map_err(EncryptError::FailedToMakeAppSecret)?
diff --git a/keyhive_core/src/principal/group.rs b/keyhive_core/src/principal/group.rs
index 7c3039d..243c9e4 100644
--- a/keyhive_core/src/principal/group.rs
+++ b/keyhive_core/src/principal/group.rs
@@ -263,42 +263,60 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
         ids
     }
 
-    /// The individuals behind everyone that this group ever had as a member, current or not.
+    /// The individuals behind everyone that this group, or one nested in it, ever had as a member,
+    /// current or not.
     pub(crate) async fn past_individual_ids(&self) -> HashSet<IndividualId> {
-        let mut ids = self.individual_ids().await;
-        let history = MembershipOperation::reverse_topsort(
-            &self.state.delegation_heads,
-            &self.state.revocation_heads,
-        );
-        for (_, op) in history {
-            if let MembershipOperation::Delegation(dlg) = op {
-                let delegate = &dlg.payload().delegate;
-                ids.extend(delegate.individual_ids_except(Some(self.id())).await);
+        let mut ids = HashSet::new();
+        let mut seen = HashSet::from([self.id()]);
+        let mut explore = self.past_delegates();
+        while let Some(agent) = explore.pop() {
+            if !seen.insert(agent.id()) {
+                continue;
+            }
+            match agent {
+                Agent::Active(id, _) | Agent::Individual(id, _) => {
+                    ids.insert(id);
+                }
+                Agent::Group(_, group) => explore.extend(group.lock().await.past_delegates()),
+                Agent::Document(_, doc) => explore.extend(doc.lock().await.group.past_delegates()),
             }
         }
         ids
     }
 
+    fn past_delegates(&self) -> Vec<Agent<F, S, T, L>> {
+        MembershipOperation::reverse_topsort(
+            &self.state.delegation_heads,
+            &self.state.revocation_heads,
+        )
+        .into_iter()
+        .filter_map(|(_, op)| match op {
+            MembershipOperation::Delegation(dlg) => Some(dlg.payload().delegate.dupe()),
+            MembershipOperation::Revocation(_) => None,
+        })
+        .collect()
+    }
+
+    /// The prekeys to reach everyone with who may read.
     pub async fn pick_individual_prekeys(
         &self,
         doc_id: DocumentId,
     ) -> HashMap<IndividualId, ShareKey> {
         let mut prekeys = HashMap::new();
         let public_id = crate::principal::public::Public.id();
-        for (id, (agent, _access)) in self.transitive_members().await.iter() {
+        for (id, (agent, access)) in self.transitive_members().await.iter() {
+            if !access.is_reader() {
+                continue;
+            }
             // Public must always be added with its single well-known key.
             if *id == public_id {
                 prekeys.insert(
                     IndividualId(public_id),
                     crate::principal::public::Public.share_key(),
                 );
-            } else {
-                prekeys.extend(
-                    agent
-                        .pick_individual_prekeys_except(doc_id, Some(self.id()))
-                        .await
-                        .iter(),
-                );
+            } else if agent.as_membered().is_none() {
+                // The members of groups and documents are listed with the access they have here
+                prekeys.extend(agent.pick_individual_prekeys(doc_id).await.iter());
             }
         }
         prekeys
-- 
2.43.0


From 975bd957281923c5c13f55dd7d706f932daa67a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:48 +0000
Subject: [PATCH 28/45] fix: keep the key group in step with its creator and
 concurrent changes

---
 beekem/src/cgka.rs                     |  7 +++--
 keyhive_core/src/cgka.rs               |  2 +-
 keyhive_core/src/principal/document.rs | 38 ++++++++++++++++++++------
 3 files changed, 35 insertions(+), 12 deletions(-)

diff --git a/beekem/src/cgka.rs b/beekem/src/cgka.rs
index a805f14..98e23c7 100644
--- a/beekem/src/cgka.rs
+++ b/beekem/src/cgka.rs
@@ -369,8 +369,11 @@ impl Cgka {
     }
 
     /// Whether this member currently has a leaf
-    pub fn contains_member(&self, id: &MemberId) -> bool {
-        self.tree.contains_id(id)
+    pub fn contains_member(&mut self, id: &MemberId) -> Result<bool, CgkaError> {
+        if self.should_replay() {
+            self.replay_ops_graph()?;
+        }
+        Ok(self.tree.contains_id(id))
     }
 
     /// The current group size
diff --git a/keyhive_core/src/cgka.rs b/keyhive_core/src/cgka.rs
index 808b6c9..1c60fd4 100644
--- a/keyhive_core/src/cgka.rs
+++ b/keyhive_core/src/cgka.rs
@@ -194,7 +194,7 @@ impl Cgka {
         self.0.update(new_pk, new_sk, signer, csprng).await
     }
 
-    pub fn contains_member(&self, id: IndividualId) -> bool {
+    pub fn contains_member(&mut self, id: IndividualId) -> Result<bool, CgkaError> {
         self.0.contains_member(&MemberId(id.verifying_key()))
     }
 
diff --git a/keyhive_core/src/principal/document.rs b/keyhive_core/src/principal/document.rs
index a58ade9..c8e3c71 100644
--- a/keyhive_core/src/principal/document.rs
+++ b/keyhive_core/src/principal/document.rs
@@ -164,6 +164,10 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
         signer: &S,
         csprng: Arc<Mutex<R>>,
     ) -> Result<Self, GenerateDocError> {
+        let creator = parents.iter().find_map(|parent| match parent {
+            Agent::Active(_, active) => Some(active.dupe()),
+            _ => None,
+        });
         let mut locked_csprng = csprng.lock().await;
         let (group_result, group_vk) =
             EphemeralSigner::with_signer(&mut *locked_csprng, |verifier, signer| {
@@ -194,6 +198,16 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
             .collect();
         let mut owner_sks = ShareKeyMap::new();
         owner_sks.insert(owner_share_key, owner_share_secret_key);
+        if let Some(creator) = creator {
+            // The creator has a place in the key group as itself as well
+            let locked_creator = creator.lock().await;
+            if let Some(prekey) = group_members.get(&locked_creator.id()) {
+                let locked_prekeys = locked_creator.prekey_pairs.lock().await;
+                if let Some(secret) = locked_prekeys.get(prekey) {
+                    owner_sks.insert(*prekey, *secret);
+                }
+            }
+        }
         let mut cgka = Cgka::new(doc_id, owner_id, owner_share_key, signer)
             .await?
             .with_new_owner(owner_id, owner_sks)?;
@@ -279,8 +293,13 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
         prekeys: &HashMap<IndividualId, ShareKey>,
         signer: &S,
     ) -> Result<Vec<Signed<CgkaOperation>>, CgkaError> {
+        let this = IndividualId(signer.verifying_key().into());
         let mut acc = Vec::new();
         for (id, prekey) in prekeys.iter() {
+            // It takes someone else's invitation to learn the secret behind our own place
+            if *id == this {
+                continue;
+            }
             if let Some(op) = self.cgka_mut()?.add(*id, *prekey, signer).await? {
                 self.group.listener.on_cgka_op(&Arc::new(op.clone())).await;
                 acc.push(op);
@@ -350,20 +369,21 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
     async fn update_cgka_members(&mut self, signer: &S) -> Result<(), CgkaError> {
         let this = IndividualId(signer.verifying_key().into());
         let readers = self.group.pick_individual_prekeys(self.doc_id()).await;
-        if !readers.contains_key(&this) || !self.cgka()?.contains_member(this) {
+        if !readers.contains_key(&this) || !self.cgka_mut()?.contains_member(this)? {
             return Ok(());
         }
         self.add_cgka_members_from_prekeys(&readers, signer).await?;
+        let creator = IndividualId((*self.cgka()?.init_add_op().issuer()).into());
         for id in self.group.past_individual_ids().await {
-            if !readers.contains_key(&id) {
-                self.remove_cgka_member(id, signer).await?;
+            if readers.contains_key(&id) {
+                continue;
+            }
+            self.remove_cgka_member(id, signer).await?;
+            if id == creator {
+                // They also hold the secrets behind the document's own place in the key group
+                self.remove_cgka_member(IndividualId(self.id()), signer)
+                    .await?;
             }
-        }
-        // Whoever created this document holds the secrets behind its own place in the key group
-        let creator = IndividualId((*self.cgka()?.init_add_op().issuer()).into());
-        if !readers.contains_key(&creator) {
-            self.remove_cgka_member(IndividualId(self.id()), signer)
-                .await?;
         }
         Ok(())
     }
-- 
2.43.0


From 81aee475d201c1cf7a621995102691246e657526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:36 +0000
Subject: [PATCH 29/45] fix: the creator of a document acts from its own place
 in the key group

---
 keyhive_core/src/principal/document.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/keyhive_core/src/principal/document.rs b/keyhive_core/src/principal/document.rs
index c8e3c71..0cf5a86 100644
--- a/keyhive_core/src/principal/document.rs
+++ b/keyhive_core/src/principal/document.rs
@@ -198,13 +198,14 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
             .collect();
         let mut owner_sks = ShareKeyMap::new();
         owner_sks.insert(owner_share_key, owner_share_secret_key);
+        let mut creator_id = None;
         if let Some(creator) = creator {
-            // The creator has a place in the key group as itself as well
             let locked_creator = creator.lock().await;
             if let Some(prekey) = group_members.get(&locked_creator.id()) {
                 let locked_prekeys = locked_creator.prekey_pairs.lock().await;
                 if let Some(secret) = locked_prekeys.get(prekey) {
                     owner_sks.insert(*prekey, *secret);
+                    creator_id = Some(locked_creator.id());
                 }
             }
         }
@@ -226,6 +227,12 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
             .await?;
 
         ops.push(update_op);
+        if let Some(creator_id) = creator_id {
+            // From now on the creator acts from its own place, as it would after a restart from
+            // the operations alone
+            let owner_sks = cgka.owner_sks().clone();
+            cgka = cgka.with_new_owner(creator_id, owner_sks)?;
+        }
 
         // Nothing can fail from here on
         group.announce_roots().await;
-- 
2.43.0


From 44f180a450a5489cafc3e29a81afc6597cd3cfa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:03 +0000
Subject: [PATCH 30/45] fix: report a causal decryption as complete only when
 it is

---
 keyhive_core/src/principal/document.rs | 29 +++++++++++++++++++--
 keyhive_core/src/store/ciphertext.rs   | 35 ++++++++++++++++++--------
 2 files changed, 52 insertions(+), 12 deletions(-)

diff --git a/keyhive_core/src/principal/document.rs b/keyhive_core/src/principal/document.rs
index 0cf5a86..93ba902 100644
--- a/keyhive_core/src/principal/document.rs
+++ b/keyhive_core/src/principal/document.rs
@@ -628,19 +628,44 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
         })?;
 
         let mut to_decrypt: Vec<(Arc<EncryptedContent<P, T>>, SymmetricKey)> = vec![];
+        let mut cannot = HashMap::new();
         for (digest, symm_key) in entrypoint_envelope.ancestors.iter() {
             if let Some(encrypted) = store
                 .get_ciphertext(digest)
                 .await
                 .map_err(DocCausalDecryptionError::GetCiphertextError)?
             {
-                to_decrypt.push((encrypted, *symm_key));
+                if encrypted.content_ref == *digest {
+                    to_decrypt.push((encrypted, *symm_key));
+                } else {
+                    // Not what we asked for
+                    cannot.insert(
+                        digest.clone(),
+                        ErrorReason::CannotFindCiphertext(digest.clone()),
+                    );
+                }
             } else {
                 acc.next.insert(digest.clone(), *symm_key);
             }
         }
+        if !cannot.is_empty() {
+            return Err(CausalDecryptionError {
+                cannot,
+                progress: acc,
+            }
+            .into());
+        }
 
-        Ok(store.try_causal_decrypt(&mut to_decrypt).await?)
+        match store.try_causal_decrypt(&mut to_decrypt).await {
+            Ok(mut state) => {
+                state.next.extend(acc.next);
+                Ok(state)
+            }
+            Err(mut e) => {
+                e.progress.next.extend(acc.next);
+                Err(e.into())
+            }
+        }
     }
 
     #[instrument(skip_all)]
diff --git a/keyhive_core/src/store/ciphertext.rs b/keyhive_core/src/store/ciphertext.rs
index c9e9f00..83436d2 100644
--- a/keyhive_core/src/store/ciphertext.rs
+++ b/keyhive_core/src/store/ciphertext.rs
@@ -176,7 +176,6 @@ impl<F: FutureForm, Cr: ContentRef, T, S: CiphertextStore<F, Cr, T>> CiphertextS
                     continue;
                 }
 
-                progress.keys.insert(ciphertext.content_ref.clone(), key);
                 let content_ref = ciphertext.content_ref.clone();
 
                 match ciphertext.try_decrypt(key) {
@@ -198,15 +197,25 @@ impl<F: FutureForm, Cr: ContentRef, T, S: CiphertextStore<F, Cr, T>> CiphertextS
                                 continue;
                             }
                             Ok(envelope) => {
+                                progress.keys.insert(content_ref.clone(), key);
+                                let mut has_all_ancestors = true;
                                 for (ancestor_ref, ancestor_key) in envelope.ancestors.iter() {
                                     match self.get_ciphertext(ancestor_ref).await {
                                         Err(e) => {
-                                            seen.remove(&content_ref);
+                                            has_all_ancestors = false;
                                             cannot.insert(
                                                 content_ref.clone(),
                                                 ErrorReason::GetCiphertextError(e),
                                             );
-                                            continue;
+                                        }
+                                        // Not what we asked for
+                                        Ok(Some(other)) if other.content_ref != *ancestor_ref => {
+                                            cannot.insert(
+                                                ancestor_ref.clone(),
+                                                ErrorReason::CannotFindCiphertext(
+                                                    ancestor_ref.clone(),
+                                                ),
+                                            );
                                         }
                                         Ok(None) => {
                                             progress
@@ -219,19 +228,25 @@ impl<F: FutureForm, Cr: ContentRef, T, S: CiphertextStore<F, Cr, T>> CiphertextS
                                     }
                                 }
 
-                                progress
-                                    .complete
-                                    .push((ciphertext.content_ref.clone(), envelope.plaintext));
+                                if has_all_ancestors {
+                                    cannot.remove(&content_ref);
+                                    progress.complete.push((content_ref, envelope.plaintext));
+                                } else {
+                                    seen.remove(&content_ref);
+                                }
                             }
                         }
                     }
                 }
             }
 
-            for id in progress.complete.iter().map(|(id, _)| id) {
-                if let Err(e) = self.mark_decrypted(id).await {
-                    cannot.insert(id.clone(), ErrorReason::MarkDecryptedError(e));
-                };
+            // What could not be decrypted this time is only reachable through what could
+            if cannot.is_empty() {
+                for id in progress.complete.iter().map(|(id, _)| id) {
+                    if let Err(e) = self.mark_decrypted(id).await {
+                        cannot.insert(id.clone(), ErrorReason::MarkDecryptedError(e));
+                    };
+                }
             }
 
             if cannot.is_empty() {
-- 
2.43.0


From f626498e983b107decff4908d8351d280827e18e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:25 +0000
Subject: [PATCH 31/45] fix: do not take the origin of a key from an
 unauthenticated ciphertext

---
 beekem/src/cgka.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/beekem/src/cgka.rs b/beekem/src/cgka.rs
index 98e23c7..6715387 100644
--- a/beekem/src/cgka.rs
+++ b/beekem/src/cgka.rs
@@ -216,9 +216,6 @@ impl Cgka {
     ) -> Result<SymmetricKey, CgkaError> {
         let pcs_key =
             self.pcs_key_from_hashes(&encrypted.pcs_key_hash, &encrypted.pcs_update_op_hash)?;
-        if !self.pcs_keys.contains_key(&encrypted.pcs_key_hash) {
-            self.insert_pcs_key(&pcs_key, encrypted.pcs_update_op_hash);
-        }
         let app_secret = pcs_key.derive_application_secret(
             &encrypted.nonce,
             &encrypted.content_ref,
@@ -548,6 +545,12 @@ impl Cgka {
         if self.has_pcs_key() {
             if let Ok(pcs_key) = self.pcs_key_from_tree_root() {
                 if &Digest::hash(&pcs_key) == pcs_key_hash {
+                    // The root key comes from our own single head. What the ciphertext
+                    // says about its origin is not authenticated, so must not be recorded.
+                    let head = self.ops_graph.cgka_op_heads.iter().next().copied();
+                    if let Some(head) = head {
+                        self.insert_pcs_key(&pcs_key, head);
+                    }
                     return Ok(pcs_key);
                 }
             }
-- 
2.43.0


From e938ac4e558ada6505486f7a094432c715521606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:44 +0000
Subject: [PATCH 32/45] fix: an operation that establishes no key does not
 panic a reader

---
 beekem/src/cgka.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/beekem/src/cgka.rs b/beekem/src/cgka.rs
index 6715387..2b01b95 100644
--- a/beekem/src/cgka.rs
+++ b/beekem/src/cgka.rs
@@ -564,8 +564,10 @@ impl Cgka {
         &mut self,
         op_hash: &Digest<Signed<CgkaOperation>>,
     ) -> Result<PcsKey, CgkaError> {
-        if !self.ops_graph.contains_op_hash(op_hash) {
-            return Err(CgkaError::UnknownPcsKey);
+        // Only a key update establishes a key.
+        match self.ops_graph.cgka_ops.get(op_hash) {
+            Some(op) if matches!(op.payload, CgkaOperation::Update { .. }) => {}
+            _ => return Err(CgkaError::UnknownPcsKey),
         }
         let mut heads = Set::new();
         heads.insert(*op_hash);
-- 
2.43.0


From 849d81e0ac1fe5164b43a3ce4cb3649c8f6af7e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:13 +0000
Subject: [PATCH 33/45] fix: grant again after a revocation without repeating
 the revoked delegation

Revocation heads are forgotten once any later delegation covers them, so a member
that was granted, revoked and granted again could get the very delegation that had
been revoked, which then stayed revoked. A delegation already known is also no
longer announced a second time.
---
 keyhive_core/src/principal/group.rs | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/keyhive_core/src/principal/group.rs b/keyhive_core/src/principal/group.rs
index 243c9e4..8932739 100644
--- a/keyhive_core/src/principal/group.rs
+++ b/keyhive_core/src/principal/group.rs
@@ -23,6 +23,7 @@ use super::{
 };
 use crate::{
     access::Access,
+    crypto::signed_ext::SignedSubjectId,
     listener::{membership::MembershipListener, no_listener::NoListener},
     store::{delegation::DelegationStore, revocation::RevocationStore},
 };
@@ -564,21 +565,38 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
             }
         };
 
+        let mut after_revocations: Vec<_> = self.state.revocation_heads.values().duped().collect();
+        // Granting the same again after it was revoked must not repeat the revoked delegation
+        for revocation in self.state.revocations.lock().await.values() {
+            if revocation.subject_id() == self.id()
+                && revocation.payload.revoke.payload.delegate.id() == member_to_add.id()
+                && !after_revocations.contains(revocation)
+            {
+                after_revocations.push(revocation.dupe());
+            }
+        }
+
         let delegation = keyhive_crypto::signer::async_signer::try_sign_async::<F, _, _>(
             signer,
             Delegation {
                 delegate: member_to_add,
                 can,
                 proof,
-                after_revocations: self.state.revocation_heads.values().duped().collect(),
+                after_revocations,
                 after_content,
             },
         )
         .await?;
 
         let rc = Arc::new(delegation);
+        let is_known = {
+            let locked = self.state.delegations.lock().await;
+            locked.contains_key(&Digest::hash(rc.as_ref()))
+        };
         let _digest = self.receive_delegation(rc.dupe()).await?;
-        self.listener.on_delegation(&rc).await;
+        if !is_known {
+            self.listener.on_delegation(&rc).await;
+        }
 
         Ok(AddMemberUpdate {
             cgka_ops: Vec::new(),
-- 
2.43.0


From a24a62f23bd70f5c390532f1282790faff4b712d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:47 +0000
Subject: [PATCH 34/45] fix: a grant resting on an alternative membership falls
 with that membership

---
 keyhive_core/src/principal/group.rs | 53 +++++++++++++++++++++++++++++
 1 file changed, 53 insertions(+)

diff --git a/keyhive_core/src/principal/group.rs b/keyhive_core/src/principal/group.rs
index 8932739..7ccb3c2 100644
--- a/keyhive_core/src/principal/group.rs
+++ b/keyhive_core/src/principal/group.rs
@@ -929,6 +929,59 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
                 }
             }
         }
+
+        self.drop_ungrounded_members();
+    }
+
+    /// Drop the delegations that no longer rest on anything.
+    ///
+    /// A delegation whose proof was revoked stays in force on another membership of its
+    /// issuer. That membership may in turn be revoked further on, in which case nothing
+    /// leads back to the group itself.
+    fn drop_ungrounded_members(&mut self) {
+        let mut grounded: HashSet<[u8; 64]> = HashSet::new();
+
+        loop {
+            let next: Vec<[u8; 64]> = self
+                .members
+                .values()
+                .flatten()
+                .filter(|dlg| !grounded.contains(&dlg.signature.to_bytes()))
+                .filter(|dlg| {
+                    let by_root = dlg.issuer == self.verifying_key();
+                    let by_proof = dlg
+                        .payload
+                        .proof
+                        .as_ref()
+                        .is_some_and(|proof| grounded.contains(&proof.signature.to_bytes()));
+                    let by_alternative = self.members.get(&dlg.issuer.into()).is_some_and(|alts| {
+                        alts.iter().any(|alt| {
+                            alt.payload.can >= dlg.payload.can
+                                && grounded.contains(&alt.signature.to_bytes())
+                        })
+                    });
+
+                    by_root || by_proof || by_alternative
+                })
+                .map(|dlg| dlg.signature.to_bytes())
+                .collect();
+
+            if next.is_empty() {
+                break;
+            }
+            grounded.extend(next);
+        }
+
+        self.members = std::mem::take(&mut self.members)
+            .into_iter()
+            .filter_map(|(id, dlgs)| {
+                let kept: Vec<_> = dlgs
+                    .into_iter()
+                    .filter(|dlg| grounded.contains(&dlg.signature.to_bytes()))
+                    .collect();
+                NonEmpty::from_vec(kept).map(|kept| (id, kept))
+            })
+            .collect();
     }
 
     pub(crate) fn dummy_from_archive(
-- 
2.43.0


From ad5e496b8163e4958458d4a8f0dc3548ecd8ae41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:22 +0000
Subject: [PATCH 35/45] fix: members of a group revoke no more than the group
 could

---
 keyhive_core/src/principal/group.rs       |  5 +++++
 keyhive_core/src/principal/group/state.rs | 19 +++++++++++--------
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/keyhive_core/src/principal/group.rs b/keyhive_core/src/principal/group.rs
index 7ccb3c2..58bb056 100644
--- a/keyhive_core/src/principal/group.rs
+++ b/keyhive_core/src/principal/group.rs
@@ -712,6 +712,11 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
                             .get_capability(mid)
                             .expect("members have capabilities by definition");
 
+                        if dlg.payload.can < to_revoke.payload.can {
+                            // Members of a group can do no more than the group itself
+                            continue;
+                        }
+
                         if let Some(m) = dlg.payload.delegate.as_membered() {
                             let sub_members = m.transitive_members_except(self.id()).await;
                             if let Some((_, sub_access)) = sub_members.get(&signer_id) {
diff --git a/keyhive_core/src/principal/group/state.rs b/keyhive_core/src/principal/group/state.rs
index fb30e62..5b9b860 100644
--- a/keyhive_core/src/principal/group/state.rs
+++ b/keyhive_core/src/principal/group/state.rs
@@ -222,7 +222,7 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
             // 2. The holder of the proof, revoking it (i.e. leaving) or a descendant of it,
             //    or revoking anything at all if the proof is an Admin delegation.
             // 3. Someone with transitive access through the proof's delegate
-            //    (a group/doc intermediary).
+            //    (a group/doc intermediary) where the intermediary has that access, too.
             let revoke = &revocation.payload.revoke;
             let revoker_id = Identifier::from(revocation.issuer);
             let holds_proof = proof.payload.delegate.id() == revoker_id;
@@ -230,15 +230,18 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
                 && (revocation.issuer == proof.issuer || holds_proof);
             let is_admin = holds_proof && proof.payload.can == Access::Admin;
 
+            let is_outranked = revoke.payload.can > proof.payload.can;
+
             if !is_senior
                 && !is_admin
-                && !is_transitive_member_of(
-                    &proof.payload.delegate,
-                    revoker_id,
-                    revoke.payload.can,
-                    self.id(),
-                )
-                .await
+                && (is_outranked
+                    || !is_transitive_member_of(
+                        &proof.payload.delegate,
+                        revoker_id,
+                        revoke.payload.can,
+                        self.id(),
+                    )
+                    .await)
             {
                 return Err(AddError::InvalidProofChain);
             }
-- 
2.43.0


From 7d8ed99395d8fbbb44c5e86802a77be0095581cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:18 +0000
Subject: [PATCH 36/45] fix: tree indices near the end of the range are
 compared without overflow

---
 beekem/src/treemath.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/beekem/src/treemath.rs b/beekem/src/treemath.rs
index e8d037b..2cd88f3 100644
--- a/beekem/src/treemath.rs
+++ b/beekem/src/treemath.rs
@@ -199,7 +199,12 @@ impl TreeNodeIndex {
 
 impl Ord for TreeNodeIndex {
     fn cmp(&self, other: &TreeNodeIndex) -> Ordering {
-        self.u32().cmp(&other.u32())
+        // A decoded index may be too large for its tree position to fit in a `u32`.
+        let position = |index: &TreeNodeIndex| match index {
+            TreeNodeIndex::Leaf(leaf) => u64::from(leaf.0) * 2,
+            TreeNodeIndex::Inner(inner) => u64::from(inner.0) * 2 + 1,
+        };
+        position(self).cmp(&position(other))
     }
 }
 
-- 
2.43.0


From cf7bbd2441a3ad7cd195412a91e8b349a80a57e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:18 +0000
Subject: [PATCH 37/45] fix: a key operation whose predecessors are missing is
 refused, not asserted

---
 beekem/src/operation.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/beekem/src/operation.rs b/beekem/src/operation.rs
index 2648ba9..2eb566e 100644
--- a/beekem/src/operation.rs
+++ b/beekem/src/operation.rs
@@ -267,7 +267,9 @@ impl CgkaOperationGraph {
         &self,
         heads: &Set<Digest<Signed<CgkaOperation>>>,
     ) -> Result<NonEmpty<CgkaEpoch>, CgkaError> {
-        debug_assert!(heads.iter().all(|head| self.cgka_ops.contains_key(head)));
+        if heads.iter().any(|head| !self.cgka_ops.contains_key(head)) {
+            return Err(CgkaError::OperationNotFound);
+        }
         let mut op_hashes = Vec::new();
         let mut dependencies = TopologicalSort::<Digest<Signed<CgkaOperation>>>::new();
         let mut successors: Map<Digest<Signed<CgkaOperation>>, Set<Digest<Signed<CgkaOperation>>>> =
-- 
2.43.0


From 234a79218bc915f39537f42e5c782802c731f63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:18 +0000
Subject: [PATCH 38/45] fix: a group is built from operations about that group
 only

---
 keyhive_core/src/principal/group.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/keyhive_core/src/principal/group.rs b/keyhive_core/src/principal/group.rs
index 58bb056..f6aa454 100644
--- a/keyhive_core/src/principal/group.rs
+++ b/keyhive_core/src/principal/group.rs
@@ -825,6 +825,12 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
         );
 
         while let Some((_, op)) = ops.pop() {
+            // Causal dependencies may reach into other subjects, whose operations
+            // have no effect on this group.
+            if op.subject_id() != self.id() {
+                continue;
+            }
+
             match op {
                 MembershipOperation::Delegation(d) => {
                     // NOTE: friendly reminder that the topsort already includes all ancestors
-- 
2.43.0


From cba478143f80e57f8310079869f3306bb772990e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:18 +0000
Subject: [PATCH 39/45] fix: merging an archive takes over verified prekeys
 only

---
 keyhive_core/src/keyhive.rs              | 20 +++++++++++---------
 keyhive_core/src/principal/individual.rs | 23 +++++++++++++++++++++++
 2 files changed, 34 insertions(+), 9 deletions(-)

diff --git a/keyhive_core/src/keyhive.rs b/keyhive_core/src/keyhive.rs
index 82df6a0..25f886e 100644
--- a/keyhive_core/src/keyhive.rs
+++ b/keyhive_core/src/keyhive.rs
@@ -2245,27 +2245,29 @@ impl<
         {
             let locked_active = self.active.lock().await;
             {
-                locked_active
-                    .prekey_pairs
-                    .lock()
-                    .await
-                    .extend(archive.active.prekey_pairs);
+                locked_active.prekey_pairs.lock().await.extend(
+                    archive
+                        .active
+                        .prekey_pairs
+                        .into_iter()
+                        .filter(|(pk, sk)| sk.share_key() == *pk),
+                );
             }
             {
                 locked_active
                     .individual
                     .lock()
                     .await
-                    .merge(archive.active.individual);
+                    .merge_verified(archive.active.individual);
             }
         }
 
         for (id, indie) in archive.individuals {
             let mut locked_indies = self.individuals.lock().await;
             if let Some(our_indie) = locked_indies.get_mut(&id) {
-                our_indie.merge_async(indie).await;
-            } else {
-                locked_indies.insert(id, Arc::new(Mutex::new(indie)));
+                our_indie.lock().await.merge_verified(indie);
+            } else if let Some(verified) = indie.into_verified(id) {
+                locked_indies.insert(id, Arc::new(Mutex::new(verified)));
             }
         }
         let events = archive
diff --git a/keyhive_core/src/principal/individual.rs b/keyhive_core/src/principal/individual.rs
index 1c387f7..dbd1730 100644
--- a/keyhive_core/src/principal/individual.rs
+++ b/keyhive_core/src/principal/individual.rs
@@ -130,6 +130,29 @@ impl Individual {
         self.prekey_state.ops()
     }
 
+    /// Merge the prekey operations of another copy of this individual, leaving
+    /// out those that this individual did not sign.
+    pub(crate) fn merge_verified(&mut self, other: Self) {
+        for op in other.prekey_state.ops().values() {
+            if let Err(e) = self.receive_prekey_op(op.as_ref().clone()) {
+                tracing::warn!("Ignoring invalid prekey operation: {:?}", e);
+            }
+        }
+    }
+
+    /// Keep the prekey operations that the individual with this ID signed, if any.
+    pub(crate) fn into_verified(self, id: IndividualId) -> Option<Self> {
+        let initial_op = self
+            .prekey_state
+            .ops()
+            .values()
+            .find(|op| op.verifying_key() == id.verifying_key() && op.try_verify().is_ok())?;
+
+        let mut verified = Self::new(initial_op.as_ref().clone());
+        verified.merge_verified(self);
+        Some(verified)
+    }
+
     #[instrument]
     pub fn rebuild(&mut self) {
         self.prekeys = self.prekey_state.build();
-- 
2.43.0


From 28aac73d24185a4c305e9b2fb9ca6d28a66edaeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:18 +0000
Subject: [PATCH 40/45] fix: the random source is not held while members are
 looked at

---
 keyhive_core/src/keyhive.rs            | 34 +++++++----
 keyhive_core/src/principal/document.rs | 80 +++++++++++++++++++-------
 keyhive_core/src/principal/group.rs    |  9 ++-
 3 files changed, 87 insertions(+), 36 deletions(-)

diff --git a/keyhive_core/src/keyhive.rs b/keyhive_core/src/keyhive.rs
index 25f886e..1f9d888 100644
--- a/keyhive_core/src/keyhive.rs
+++ b/keyhive_core/src/keyhive.rs
@@ -250,9 +250,10 @@ impl<
         &self,
         coparents: Vec<Peer<F, S, T, L>>,
     ) -> Result<Arc<Mutex<Group<F, S, T, L>>>, SigningError> {
+        let active_id = { self.active.lock().await.id() };
         let group = Group::generate(
             NonEmpty {
-                head: Agent::Active(self.active.lock().await.id(), self.active.dupe()),
+                head: Agent::Active(active_id, self.active.dupe()),
                 tail: coparents.into_iter().map(Into::into).collect(),
             },
             self.delegations.dupe(),
@@ -663,10 +664,14 @@ impl<
     ) -> Result<(EncryptedContentWithUpdate<T>, SymmetricKey), EncryptContentError> {
         let signer = { self.active.lock().await.signer.clone() };
         let (result, application_secret_key) = {
-            let mut locked_csprng = self.csprng.lock().await;
-            doc.lock()
+            let mut locked_doc = doc.lock().await;
+            locked_doc
+                .update_cgka_members(&signer)
                 .await
-                .try_encrypt_content_keyed(
+                .map_err(EncryptError::FailedToMakeAppSecret)?;
+            let mut locked_csprng = self.csprng.lock().await;
+            locked_doc
+                .try_encrypt_content_keyed_members_current(
                     content_ref,
                     content,
                     pred_refs,
@@ -726,12 +731,17 @@ impl<
         doc: Arc<Mutex<Document<F, S, T, L>>>,
     ) -> Result<(Signed<CgkaOperation>, ShareKey, ShareSecretKey), EncryptError> {
         let signer = { self.active.lock().await.signer.clone() };
-        let mut locked_csprng = self.csprng.lock().await;
-        let (op, new_share_key, new_share_secret_key) = doc
-            .lock()
-            .await
-            .pcs_update(&signer, &mut *locked_csprng)
-            .await?;
+        let (op, new_share_key, new_share_secret_key) = {
+            let mut locked_doc = doc.lock().await;
+            locked_doc
+                .update_cgka_members(&signer)
+                .await
+                .map_err(EncryptError::UnableToPcsUpdate)?;
+            let mut locked_csprng = self.csprng.lock().await;
+            locked_doc
+                .pcs_update_members_current(&signer, &mut *locked_csprng)
+                .await?
+        };
         self.event_listener.on_cgka_op(&Arc::new(op.clone())).await;
         Ok((op, new_share_key, new_share_secret_key))
     }
@@ -739,8 +749,8 @@ impl<
     #[instrument(skip_all)]
     pub async fn reachable_docs(&self) -> BTreeMap<DocumentId, Ability<F, S, T, L>> {
         let active = self.active.dupe();
-        let locked_active = self.active.lock().await;
-        self.docs_reachable_by_agent(&Agent::Active(locked_active.id(), active))
+        let active_id = { active.lock().await.id() };
+        self.docs_reachable_by_agent(&Agent::Active(active_id, active))
             .await
     }
 
diff --git a/keyhive_core/src/principal/document.rs b/keyhive_core/src/principal/document.rs
index 93ba902..a9b2354 100644
--- a/keyhive_core/src/principal/document.rs
+++ b/keyhive_core/src/principal/document.rs
@@ -168,27 +168,32 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
             Agent::Active(_, active) => Some(active.dupe()),
             _ => None,
         });
-        let mut locked_csprng = csprng.lock().await;
-        let (group_result, group_vk) =
-            EphemeralSigner::with_signer(&mut *locked_csprng, |verifier, signer| {
-                Group::generate_unannounced_after_content(
-                    signer,
-                    verifier,
-                    parents,
-                    delegations,
-                    revocations,
-                    BTreeMap::from_iter([(
-                        DocumentId(verifier.into()),
-                        initial_content_heads.clone().into_iter().collect(),
-                    )]),
-                    listener,
-                )
-            });
+        // Everyone who draws randomness waits for this lock, some of them with the members of the
+        // new document locked: give it back before looking at those
+        let (group_result, group_vk, owner_share_secret_key) = {
+            let mut locked_csprng = csprng.lock().await;
+            let (group_result, group_vk) =
+                EphemeralSigner::with_signer(&mut *locked_csprng, |verifier, signer| {
+                    Group::generate_unannounced_after_content(
+                        signer,
+                        verifier,
+                        parents,
+                        delegations,
+                        revocations,
+                        BTreeMap::from_iter([(
+                            DocumentId(verifier.into()),
+                            initial_content_heads.clone().into_iter().collect(),
+                        )]),
+                        listener,
+                    )
+                });
+            let owner_share_secret_key = ShareSecretKey::generate(&mut *locked_csprng);
+            (group_result, group_vk, owner_share_secret_key)
+        };
 
         let group = group_result.await?;
         let owner_id = IndividualId(group_vk.into());
         let doc_id = DocumentId(group.id());
-        let owner_share_secret_key = ShareSecretKey::generate(&mut *locked_csprng);
         let owner_share_key = owner_share_secret_key.share_key();
         let group_members = group.pick_individual_prekeys(doc_id).await;
         let other_members: Vec<(IndividualId, ShareKey)> = group_members
@@ -217,14 +222,16 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
         if let Some(others) = NonEmpty::from_vec(other_members) {
             ops.extend(cgka.add_multiple(others, signer).await?.iter().cloned());
         }
-        let (_pcs_key, update_op) = cgka
-            .update(
+        let (_pcs_key, update_op) = {
+            let mut locked_csprng = csprng.lock().await;
+            cgka.update(
                 owner_share_key,
                 owner_share_secret_key,
                 signer,
                 &mut *locked_csprng,
             )
-            .await?;
+            .await?
+        };
 
         ops.push(update_op);
         if let Some(creator_id) = creator_id {
@@ -373,7 +380,7 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
 
     /// Bring the [`Cgka`] in line with who may read, before something is encrypted with it: changes
     /// made concurrently, or where not everything about this document is known, leave it behind.
-    async fn update_cgka_members(&mut self, signer: &S) -> Result<(), CgkaError> {
+    pub(crate) async fn update_cgka_members(&mut self, signer: &S) -> Result<(), CgkaError> {
         let this = IndividualId(signer.verifying_key().into());
         let readers = self.group.pick_individual_prekeys(self.doc_id()).await;
         if !readers.contains_key(&this) || !self.cgka_mut()?.contains_member(this)? {
@@ -514,6 +521,15 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
         self.update_cgka_members(signer)
             .await
             .map_err(EncryptError::UnableToPcsUpdate)?;
+        self.pcs_update_members_current(signer, csprng).await
+    }
+
+    /// [`Self::pcs_update`], when [`Self::update_cgka_members`] has just been done.
+    pub(crate) async fn pcs_update_members_current<R: rand::RngCore + rand::CryptoRng>(
+        &mut self,
+        signer: &S,
+        csprng: &mut R,
+    ) -> Result<(Signed<CgkaOperation>, ShareKey, ShareSecretKey), EncryptError> {
         let new_share_secret_key = ShareSecretKey::generate(csprng);
         let new_share_key = new_share_secret_key.share_key();
         let (_, op) = self
@@ -537,6 +553,28 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
         self.update_cgka_members(signer)
             .await
             .map_err(EncryptError::FailedToMakeAppSecret)?;
+        self.try_encrypt_content_keyed_members_current(
+            content_ref,
+            content,
+            pred_refs,
+            signer,
+            csprng,
+        )
+        .await
+    }
+
+    /// [`Self::try_encrypt_content_keyed`], when [`Self::update_cgka_members`] has just been
+    /// done.
+    pub(crate) async fn try_encrypt_content_keyed_members_current<
+        R: rand::CryptoRng + rand::RngCore,
+    >(
+        &mut self,
+        content_ref: &T,
+        content: &[u8],
+        pred_refs: &Vec<T>,
+        signer: &S,
+        csprng: &mut R,
+    ) -> Result<(EncryptedContentWithUpdate<T>, SymmetricKey), EncryptError> {
         let (app_secret, maybe_update_op) = self
             .cgka_mut()
             .map_err(EncryptError::FailedToMakeAppSecret)?
diff --git a/keyhive_core/src/principal/group.rs b/keyhive_core/src/principal/group.rs
index f6aa454..33ba7c1 100644
--- a/keyhive_core/src/principal/group.rs
+++ b/keyhive_core/src/principal/group.rs
@@ -138,8 +138,10 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
         listener: L,
         csprng: Arc<Mutex<R>>,
     ) -> Result<Group<F, S, T, L>, SigningError> {
-        let mut locked_csprng = csprng.lock().await;
-        let (group_result, _vk) =
+        // Everyone who draws randomness waits for this lock, some of them with the members of the
+        // new group locked: give it back before looking at those
+        let (group_result, _vk) = {
+            let mut locked_csprng = csprng.lock().await;
             EphemeralSigner::with_signer(&mut *locked_csprng, |verifier, signer| {
                 Self::generate_after_content(
                     signer,
@@ -150,7 +152,8 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
                     Default::default(),
                     listener,
                 )
-            });
+            })
+        };
 
         group_result.await
     }
-- 
2.43.0


From d3887343d94d22a1380cd5e051068176857d74ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:18 +0000
Subject: [PATCH 41/45] fix: receiving a key operation and listing revocations
 hold no outer lock

---
 keyhive_core/src/keyhive.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/keyhive_core/src/keyhive.rs b/keyhive_core/src/keyhive.rs
index 1f9d888..9872d55 100644
--- a/keyhive_core/src/keyhive.rs
+++ b/keyhive_core/src/keyhive.rs
@@ -1068,9 +1068,15 @@ impl<
         // NOTE: We must include revocations even for agents no longer in the index
         // (i.e., fully revoked agents), so that those revocation events can be
         // synced to the revoked peer.
-        {
+        let all_agent_revocations: Vec<_> = {
             let revocations = self.revocations.lock().await;
-            for (agent_id, agent_revs) in revocations.all_agent_revocations() {
+            revocations
+                .all_agent_revocations()
+                .map(|(agent_id, agent_revs)| (*agent_id, agent_revs.clone()))
+                .collect()
+        };
+        {
+            for (agent_id, agent_revs) in &all_agent_revocations {
                 let identifier: Identifier = (*agent_id).into();
                 let agent_ops = ops.entry(identifier).or_default();
                 let mut visited: HashSet<Digest<MembershipOperation<F, S, T, L>>> =
@@ -1802,11 +1808,13 @@ impl<
         let signed_op = Arc::new(signed_op);
         if let CgkaOperation::Add { added_id, pk, .. } = signed_op.payload {
             let added_id: IndividualId = added_id.into();
-            let locked_active = self.active.lock().await;
-            let active_id = locked_active.id();
+            let (active_id, prekey_pairs) = {
+                let locked_active = self.active.lock().await;
+                (locked_active.id(), locked_active.prekey_pairs.dupe())
+            };
             if active_id == added_id {
                 let sk = {
-                    let locked_prekeys = locked_active.prekey_pairs.lock().await;
+                    let locked_prekeys = prekey_pairs.lock().await;
                     *locked_prekeys
                         .get(&pk)
                         .ok_or(ReceiveCgkaOpError::UnknownInvitePrekey(pk))?
@@ -1831,7 +1839,7 @@ impl<
                 return Ok(());
             }
         }
-        let active_id = self.active.lock().await.id();
+        let active_id = { self.active.lock().await.id() };
         let merged = {
             let mut locked_doc = doc.lock().await;
             let is_init = locked_doc.cgka().is_err();
-- 
2.43.0


From 53dbe0aefabb04efe227fdd245de798e155b8a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:18 +0000
Subject: [PATCH 42/45] fix: an archive written while the node works on is one
 it can start from

---
 keyhive_core/src/keyhive.rs          | 112 +++++++++++++++++++--------
 keyhive_core/src/principal/active.rs |   7 +-
 2 files changed, 86 insertions(+), 33 deletions(-)

diff --git a/keyhive_core/src/keyhive.rs b/keyhive_core/src/keyhive.rs
index 9872d55..226b20a 100644
--- a/keyhive_core/src/keyhive.rs
+++ b/keyhive_core/src/keyhive.rs
@@ -1932,15 +1932,89 @@ impl<
 
     #[instrument(skip_all)]
     pub async fn into_archive(&self) -> Archive<T> {
-        let topsorted_ops = {
-            let delegations = self.delegations.lock().await;
-            let revocations = self.revocations.lock().await;
-            MembershipOperation::<F, S, T, L>::reverse_topsort(&delegations, &revocations)
-                .into_iter()
-                .rev()
-                .map(|(k, v)| (k.coerce(), v.into()))
+        // Everything here may change while it is collected. What is collected first is what may
+        // depend on the rest: events before the operations they turn into, groups before the
+        // members they name, members before the keys they hold.
+        let pending_events: Vec<_> = self
+            .pending_events
+            .lock()
+            .await
+            .iter()
+            .map(|event| event.as_ref().clone())
+            .collect();
+
+        let mut groups = HashMap::new();
+        let mut docs = HashMap::new();
+        let mut delegation_heads = DelegationStore::new();
+        let mut revocation_heads = RevocationStore::new();
+        let mut uncollected: Vec<Membered<F, S, T, L>> = {
+            let locked_groups = self.groups.lock().await;
+            locked_groups
+                .iter()
+                .map(|(id, group)| Membered::Group(*id, group.dupe()))
                 .collect()
         };
+        {
+            let locked_docs = self.docs.lock().await;
+            uncollected.extend(
+                locked_docs
+                    .iter()
+                    .map(|(id, doc)| Membered::Document(*id, doc.dupe())),
+            );
+        }
+        let topsorted_ops = loop {
+            while let Some(membered) = uncollected.pop() {
+                let (dlgs, revs) = match &membered {
+                    Membered::Group(id, group) => {
+                        let locked = group.lock().await;
+                        groups.insert(*id, locked.into_archive());
+                        (
+                            locked.delegation_heads().clone(),
+                            locked.revocation_heads().clone(),
+                        )
+                    }
+                    Membered::Document(id, doc) => {
+                        let locked = doc.lock().await;
+                        docs.insert(*id, locked.into_archive());
+                        (
+                            locked.delegation_heads().clone(),
+                            locked.revocation_heads().clone(),
+                        )
+                    }
+                };
+                for dlg in dlgs.values() {
+                    delegation_heads.insert(dlg.dupe());
+                }
+                for rev in revs.values() {
+                    revocation_heads.insert(rev.dupe());
+                }
+            }
+
+            let ops = MembershipOperation::<F, S, T, L>::reverse_topsort(
+                &delegation_heads,
+                &revocation_heads,
+            );
+            for (_digest, op) in ops.iter() {
+                if let MembershipOperation::Delegation(dlg) = op {
+                    match &dlg.payload.delegate {
+                        Agent::Group(id, group) if !groups.contains_key(id) => {
+                            uncollected.push(Membered::Group(*id, group.dupe()));
+                        }
+                        Agent::Document(id, doc) if !docs.contains_key(id) => {
+                            uncollected.push(Membered::Document(*id, doc.dupe()));
+                        }
+                        _ => {}
+                    }
+                }
+            }
+            if uncollected.is_empty() {
+                break ops
+                    .into_iter()
+                    .rev()
+                    .map(|(k, v)| (k.coerce(), v.into()))
+                    .collect();
+            }
+        };
 
         let mut individuals = HashMap::new();
         {
@@ -1955,30 +2029,6 @@ impl<
             locked_active.into_archive().await
         };
 
-        let mut groups = HashMap::new();
-        {
-            let locked_groups = self.groups.lock().await;
-            for (k, arc) in locked_groups.iter() {
-                groups.insert(*k, arc.lock().await.into_archive());
-            }
-        }
-
-        let mut docs = HashMap::new();
-        {
-            let locked_docs = self.docs.lock().await;
-            for (k, arc) in locked_docs.iter() {
-                docs.insert(*k, arc.lock().await.into_archive());
-            }
-        }
-
-        let pending_events: Vec<_> = self
-            .pending_events
-            .lock()
-            .await
-            .iter()
-            .map(|event| event.as_ref().clone())
-            .collect();
-
         Archive {
             active,
             topsorted_ops,
diff --git a/keyhive_core/src/principal/active.rs b/keyhive_core/src/principal/active.rs
index d2d492a..3e00adb 100644
--- a/keyhive_core/src/principal/active.rs
+++ b/keyhive_core/src/principal/active.rs
@@ -304,9 +304,12 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: PrekeyListener<F>> Acti
 
     /// Serialize for storage.
     pub async fn into_archive(&self) -> ActiveArchive {
+        // Keep the secrets of every prekey that the individual shows
+        let individual = { self.individual.lock().await.clone() };
+        let prekey_pairs = { self.prekey_pairs.lock().await.clone() };
         ActiveArchive {
-            prekey_pairs: self.prekey_pairs.lock().await.clone(),
-            individual: self.individual.lock().await.clone(),
+            prekey_pairs,
+            individual,
         }
     }
 
-- 
2.43.0


From fa6ea71d58b00d5cfb12783d122c4b66e4acfc88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:18 +0000
Subject: [PATCH 43/45] fix: what others left pending during an ingest stays
 pending

---
 keyhive_core/src/keyhive.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/keyhive_core/src/keyhive.rs b/keyhive_core/src/keyhive.rs
index 226b20a..5dd6f16 100644
--- a/keyhive_core/src/keyhive.rs
+++ b/keyhive_core/src/keyhive.rs
@@ -77,7 +77,6 @@ use std::{
     collections::{hash_map::Entry, BTreeMap, HashMap, HashSet},
     fmt::{Debug, Formatter},
     marker::PhantomData,
-    mem,
     sync::Arc,
 };
 use thiserror::Error;
@@ -2410,10 +2409,12 @@ impl<
 
                 let new_pending: Vec<Arc<StaticEvent<T>>> =
                     next_epoch.clone().into_iter().map(Arc::new).collect();
-                drop(mem::replace(
-                    &mut *self.pending_events.lock().await,
-                    new_pending.clone(),
-                ));
+                // Others may have left events here in the meantime
+                let mut locked_pending = self.pending_events.lock().await;
+                let mut settled = replayed_pending;
+                settled.extend(new_pending.iter().map(|e| Digest::hash(e.as_ref())));
+                locked_pending.retain(|e| !settled.contains(&Digest::hash(e.as_ref())));
+                locked_pending.extend(new_pending.iter().cloned());
                 return new_pending;
             }
 
-- 
2.43.0


From 847a89ec7f9bd156cd2597e960eeee7fbf9ff0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:18 +0000
Subject: [PATCH 44/45] fix: two first events about one agent do not replace
 each other's agent

---
 keyhive_core/src/keyhive.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/keyhive_core/src/keyhive.rs b/keyhive_core/src/keyhive.rs
index 5dd6f16..e6cfcdc 100644
--- a/keyhive_core/src/keyhive.rs
+++ b/keyhive_core/src/keyhive.rs
@@ -119,6 +119,9 @@ pub struct Keyhive<
     /// [`StaticEvent`]s that are still awaiting dependencies.
     pending_events: Arc<Mutex<Vec<Arc<StaticEvent<T>>>>>,
 
+    /// Held while what was received decides which agent an identifier stands for.
+    registration: Arc<Mutex<()>>,
+
     /// Observer for [`Event`]s. Intended for running live updates.
     event_listener: L,
 
@@ -198,6 +201,7 @@ impl<
             delegations: Arc::new(Mutex::new(DelegationStore::new())),
             revocations: Arc::new(Mutex::new(RevocationStore::new())),
             pending_events: Arc::new(Mutex::new(Vec::new())),
+            registration: Default::default(),
             ciphertext_store,
             event_listener,
             csprng: Arc::new(Mutex::new(csprng)),
@@ -354,6 +358,7 @@ impl<
                 .unwrap_or(public));
         }
 
+        let registration = self.registration.lock().await;
         let result = if let Some(indie) = self.get_individual(contact_card.id()).await {
             indie
                 .lock()
@@ -366,6 +371,7 @@ impl<
             self.register_individual(new_user.dupe()).await;
             new_user
         };
+        drop(registration);
 
         match contact_card.op() {
             KeyOp::Add(add_op) => {
@@ -413,6 +419,7 @@ impl<
 
     #[instrument(skip_all)]
     pub async fn register_peer(&self, peer: Peer<F, S, T, L>) -> bool {
+        let _registration = self.registration.lock().await;
         if self.get_peer(peer.id()).await.is_some() {
             return false;
         }
@@ -1594,6 +1601,7 @@ impl<
             return Ok(());
         }
         key_op.try_verify()?;
+        let _registration = self.registration.lock().await;
         let agent = if let Some(agent) = self.get_agent(id).await {
             agent
         } else {
@@ -1656,6 +1664,7 @@ impl<
         // TODO add a Verified<T> newtype wapper
         static_dlg.try_verify()?;
 
+        let _registration = self.registration.lock().await;
         let payload = self.static_delegation_to_delegation(static_dlg).await?;
 
         let mut after_revocations = Vec::new();
@@ -2295,6 +2304,7 @@ impl<
             delegations,
             revocations,
             pending_events: Arc::new(Mutex::new(pending_events)),
+            registration: Default::default(),
             csprng,
             ciphertext_store,
             event_listener: listener,
-- 
2.43.0


From 9f613f6716d477009b96709de139abbb380b6f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:19 +0000
Subject: [PATCH 45/45] fix: an event does not keep waiting for one ingested
 meanwhile

---
 keyhive_core/src/keyhive.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/keyhive_core/src/keyhive.rs b/keyhive_core/src/keyhive.rs
index e6cfcdc..4146967 100644
--- a/keyhive_core/src/keyhive.rs
+++ b/keyhive_core/src/keyhive.rs
@@ -119,6 +119,10 @@ pub struct Keyhive<
     /// [`StaticEvent`]s that are still awaiting dependencies.
     pending_events: Arc<Mutex<Vec<Arc<StaticEvent<T>>>>>,
 
+    /// Held by whoever works through what has been received, so that an event which waits for
+    /// one that arrives meanwhile does not keep waiting.
+    ingestion: Arc<Mutex<()>>,
+
     /// Held while what was received decides which agent an identifier stands for.
     registration: Arc<Mutex<()>>,
 
@@ -201,6 +205,7 @@ impl<
             delegations: Arc::new(Mutex::new(DelegationStore::new())),
             revocations: Arc::new(Mutex::new(RevocationStore::new())),
             pending_events: Arc::new(Mutex::new(Vec::new())),
+            ingestion: Default::default(),
             registration: Default::default(),
             ciphertext_store,
             event_listener,
@@ -383,7 +388,11 @@ impl<
         }
 
         // Some events may have been waiting for this user to be known
-        if !self.pending_events.lock().await.is_empty() {
+        let waiting = {
+            let _ingestion = self.ingestion.lock().await;
+            !self.pending_events.lock().await.is_empty()
+        };
+        if waiting {
             self.ingest_unsorted_static_events(Vec::new()).await;
         }
 
@@ -2304,6 +2313,7 @@ impl<
             delegations,
             revocations,
             pending_events: Arc::new(Mutex::new(pending_events)),
+            ingestion: Default::default(),
             registration: Default::default(),
             csprng,
             ciphertext_store,
@@ -2371,6 +2381,7 @@ impl<
         // FIXME: Some errors might not be recoverable on future attempts
         tracing::debug!("Keyhive::ingest_unsorted_static_events()");
         use std::collections::{HashMap, HashSet};
+        let _ingestion = self.ingestion.lock().await;
         let mut replayed_pending: HashSet<Digest<StaticEvent<T>>> = HashSet::new();
         for event in self.pending_events.as_ref().lock().await.iter() {
             replayed_pending.insert(Digest::hash(event.as_ref()));
-- 
2.43.0

