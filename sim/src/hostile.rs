//! R01: whatever can be put on the wire, a node returns from every call and goes on serving.
//!
//! Hostile material is anything that decodes: forgeries, altered copies of anything seen, and
//! anything at all under the valid signature of an outsider or of a user turned hostile, including
//! key operations that make no sense. It is handed to the node through every way in there is.
use crate::attack::{attacker_key, forge, forge_prekey, sign};
use crate::det::{mix3, Prng};
use crate::plan::*;
use crate::seams::*;
use crate::world::*;
use beekem::{
    encrypted::EncryptedContent,
    id::{MemberId, TreeId},
    operation::CgkaOperation,
};
use keyhive_core::{
    access::Access,
    archive::Archive,
    contact_card::ContactCard,
    principal::{
        document::id::DocumentId,
        group::{delegation::StaticDelegation, revocation::StaticRevocation},
        individual::op::{add_key::AddKeyOp, rotate_key::RotateKeyOp, KeyOp},
        membered::Membered,
    },
};
use keyhive_crypto::{digest::Digest, share_key::ShareKey, signed::Signed};
use serde::{de::DeserializeOwned, Serialize};
use std::collections::BTreeMap;
use std::sync::Arc;

/// Alter an encoding: anything from a single bit to whole fields.
pub fn mutate(b: &mut Vec<u8>, other: &[u8], r: &mut Prng) {
    for _ in 0..1 + r.usize(3) {
        if b.is_empty() {
            return;
        }
        match r.below(10) {
            0 => {
                let i = r.usize(b.len());
                b[i] ^= 1 << r.below(8);
            }
            1..=4 => {
                // something that looks like a small number: a tag, an index or a length
                let at: Vec<usize> = (0..b.len().saturating_sub(3))
                    .filter(|i| b[i + 1..i + 4] == [0, 0, 0])
                    .collect();
                if at.is_empty() {
                    continue;
                }
                let i = *r.pick(&at);
                let old = u32::from_le_bytes(b[i..i + 4].try_into().unwrap());
                let v = match r.below(6) {
                    0 => 0,
                    1 => old.wrapping_add(1),
                    2 => old.wrapping_sub(1),
                    3 => r.u32() % 20,
                    4 => r.u32() % 5000,
                    _ => u32::MAX - r.u32() % 3,
                };
                b[i..i + 4].copy_from_slice(&v.to_le_bytes());
            }
            5 | 6 if b.len() >= 32 && other.len() >= 32 => {
                let (i, j) = (r.usize(b.len() - 31), r.usize(other.len() - 31));
                b[i..i + 32].copy_from_slice(&other[j..j + 32]);
            }
            7 if b.len() >= 32 => {
                let i = r.usize(b.len() - 31);
                let v = *r.pick(&[0u8, 1, 0xff]);
                b[i..i + 32].fill(v);
            }
            8 if b.len() >= 64 => {
                let (i, j) = (r.usize(b.len() - 31), r.usize(b.len() - 31));
                let w: Vec<u8> = b[i..i + 32].to_vec();
                b[j..j + 32].copy_from_slice(&w);
            }
            _ => {
                let (i, k) = (r.usize(b.len()), 1 + r.usize(40));
                let e = (i + k).min(b.len());
                if r.chance(1, 2) {
                    b.drain(i..e);
                } else {
                    let w: Vec<u8> = b[i..e].to_vec();
                    b.splice(i..i, w);
                }
            }
        }
    }
}

fn altered<P: Serialize + DeserializeOwned>(p: &P, other: &[u8], r: &mut Prng) -> Option<P> {
    let orig = bincode::serialize(p).expect("encodes");
    for _ in 0..6 {
        let mut b = orig.clone();
        mutate(&mut b, other, r);
        if let Ok(x) = bincode::deserialize(&b) {
            return Some(x);
        }
    }
    None
}

/// Alter the payload and sign the result with the attacker's own key.
fn resigned<P: Serialize + DeserializeOwned + std::fmt::Debug>(
    s: &Signed<P>,
    other: &[u8],
    key: &ed25519_dalek::SigningKey,
    r: &mut Prng,
) -> Option<Signed<P>> {
    Some(sign(key, altered(&s.payload, other, r)?))
}

fn share_key(r: &mut Prng) -> ShareKey {
    let b = match r.below(4) {
        // points of low order
        0 => [0; 32],
        1 => {
            let mut b = [0; 32];
            b[0] = 1;
            b
        }
        _ => r.bytes32(),
    };
    ShareKey::from(x25519_dalek::PublicKey::from(b))
}

impl World {
    /// One piece of hostile traffic.
    fn hostile_event(
        &self,
        kind: u32,
        key: &ed25519_dalek::SigningKey,
        r: &mut Prng,
    ) -> Option<(Sev, &'static str)> {
        let any = r.pick_opt(&self.pool)?;
        let other = bincode::serialize(&r.pick_opt(&self.pool)?.ev).expect("encodes");
        match kind % 10 {
            0 => forge(self, r.u32(), key, r),
            1 => forge_prekey(self, r.u32(), key, r)?.pop(),
            2 | 3 => Some((altered(&any.ev, &other, r)?, "altered event")),
            4 | 5 => Some((
                match &any.ev {
                    Sev::PrekeysExpanded(s) => {
                        Sev::PrekeysExpanded(Box::new(resigned(s, &other, key, r)?))
                    }
                    Sev::PrekeyRotated(s) => {
                        Sev::PrekeyRotated(Box::new(resigned(s, &other, key, r)?))
                    }
                    Sev::CgkaOperation(s) => {
                        Sev::CgkaOperation(Box::new(resigned(s, &other, key, r)?))
                    }
                    Sev::Delegated(s) => Sev::Delegated(resigned(s, &other, key, r)?),
                    Sev::Revoked(s) => Sev::Revoked(resigned(s, &other, key, r)?),
                },
                "altered event, signed by the attacker",
            )),
            6 | 7 => self.hostile_cgka(key, r),
            8 => self.hostile_grant(key, r),
            _ => {
                let (a, b) = (share_key(r), share_key(r));
                Some((
                    if r.chance(1, 2) {
                        Sev::PrekeysExpanded(Box::new(sign(key, AddKeyOp { share_key: a })))
                    } else {
                        let old = r
                            .pick_opt(
                                &self
                                    .pool
                                    .iter()
                                    .filter_map(|p| match &p.ev {
                                        Sev::PrekeysExpanded(a) => Some(a.payload.share_key),
                                        Sev::PrekeyRotated(a) => Some(a.payload.new),
                                        _ => None,
                                    })
                                    .collect::<Vec<_>>(),
                            )
                            .copied()
                            .unwrap_or(b);
                        Sev::PrekeyRotated(Box::new(sign(key, RotateKeyOp { old, new: a })))
                    },
                    "own prekey that is none",
                ))
            }
        }
    }

    /// A key operation nobody has authorised, or that makes no sense, under a valid signature.
    fn hostile_cgka(
        &self,
        key: &ed25519_dalek::SigningKey,
        r: &mut Prng,
    ) -> Option<(Sev, &'static str)> {
        let all: Vec<&Signed<CgkaOperation>> = self
            .pool
            .iter()
            .filter_map(|p| match &p.ev {
                Sev::CgkaOperation(o) => Some(o.as_ref()),
                _ => None,
            })
            .collect();
        let like = *r.pick_opt(&all)?;
        let doc_id: TreeId = *like.payload.doc_id();
        let same: Vec<Digest<Signed<CgkaOperation>>> = all
            .iter()
            .filter(|o| *o.payload.doc_id() == doc_id)
            .map(|o| Digest::hash(*o))
            .collect();
        let mut preds = vec![];
        match r.below(4) {
            0 => {}
            1 => preds.push(Digest::hash(like)),
            _ => {
                for _ in 0..1 + r.usize(3) {
                    preds.push(*r.pick(&same));
                }
            }
        }
        let idx = match r.below(6) {
            0 => u32::MAX - r.u32() % 2,
            1 => 1 << r.below(31),
            2 => r.u32() % 3000,
            _ => r.u32() % 9,
        };
        let ids = self.agent_ids();
        let who = MemberId(ident(r.pick(&ids)).0);
        let me = MemberId(key.verifying_key());
        let who = if r.chance(1, 2) { who } else { me };
        let op = match r.below(3) {
            0 => CgkaOperation::Add {
                added_id: who,
                pk: share_key(r),
                leaf_index: idx,
                predecessors: preds.clone(),
                add_predecessors: if r.chance(1, 2) { preds } else { vec![] },
                doc_id,
            },
            1 => CgkaOperation::Remove {
                id: who,
                leaf_idx: idx,
                removed_keys: (0..r.below(3)).map(|_| share_key(r)).collect(),
                predecessors: preds,
                doc_id,
            },
            _ => {
                let paths: Vec<_> = all
                    .iter()
                    .filter_map(|o| match &o.payload {
                        CgkaOperation::Update { new_path, .. } => Some(new_path.clone()),
                        _ => None,
                    })
                    .collect();
                let mut p = r.pick_opt(&paths)?.clone();
                if r.chance(1, 2) {
                    p.leaf_id = who;
                }
                match r.below(7) {
                    0 => p.leaf_idx = idx,
                    1 => p.path.truncate(r.usize(p.path.len() + 1)),
                    2 => {
                        let x = r.pick_opt(&p.path)?.clone();
                        for _ in 0..1 + r.usize(8) {
                            p.path.push(x.clone());
                        }
                    }
                    3 => {
                        let k = r.usize(p.path.len().max(1));
                        p.path.get_mut(k)?.0 = idx;
                    }
                    4 => r.shuffle(&mut p.path),
                    5 => p.path = r.pick_opt(&paths)?.path.clone(),
                    _ => p.removed_keys.push(share_key(r)),
                }
                CgkaOperation::Update {
                    id: who,
                    new_path: p,
                    predecessors: preds,
                    doc_id,
                }
            }
        };
        Some((
            Sev::CgkaOperation(Box::new(sign(key, op))),
            "key operation out of nowhere",
        ))
    }

    /// Delegations and revocations with whatever in them: other subjects' proofs, revocations as
    /// what they come after, the attacker's own groups holding everybody and each other.
    fn hostile_grant(
        &self,
        key: &ed25519_dalek::SigningKey,
        r: &mut Prng,
    ) -> Option<(Sev, &'static str)> {
        let dl: Vec<Signed<StaticDelegation<T>>> = self
            .pool
            .iter()
            .filter_map(|p| match &p.ev {
                Sev::Delegated(d) => Some(d.clone()),
                _ => None,
            })
            .collect();
        let rv: Vec<Signed<StaticRevocation<T>>> = self
            .pool
            .iter()
            .filter_map(|p| match &p.ev {
                Sev::Revoked(d) => Some(d.clone()),
                _ => None,
            })
            .collect();
        let mut content: BTreeMap<DocumentId, Vec<T>> = BTreeMap::new();
        if r.chance(1, 3) {
            let ids = self.agent_ids();
            content.insert(DocumentId::from(ident(r.pick(&ids))), vec![r.bytes32()]);
        }
        let dlg = |p: &Signed<StaticDelegation<T>>| -> Digest<Signed<StaticDelegation<T>>> {
            Digest::hash(p)
        };
        let mut ids = self.agent_ids();
        ids.push(key.verifying_key().to_bytes());
        ids.push(keyhive_core::principal::public::Public.id().to_bytes());
        Some(if r.chance(2, 3) {
            let s = StaticDelegation::<T> {
                can: *r.pick(&[Access::Relay, Access::Read, Access::Edit, Access::Admin]),
                proof: if r.chance(1, 2) {
                    r.pick_opt(&dl).map(dlg)
                } else {
                    None
                },
                delegate: ident(r.pick(&ids)),
                after_revocations: if r.chance(1, 3) {
                    r.pick_opt(&rv).map(Digest::hash).into_iter().collect()
                } else {
                    vec![]
                },
                after_content: content,
            };
            (Sev::Delegated(sign(key, s)), "delegation out of nowhere")
        } else {
            let s = StaticRevocation::<T> {
                revoke: dlg(r.pick_opt(&dl)?),
                proof: if r.chance(2, 3) {
                    r.pick_opt(&dl).map(dlg)
                } else {
                    None
                },
                after_content: content,
            };
            (Sev::Revoked(sign(key, s)), "revocation out of nowhere")
        })
    }

    pub async fn r01_attack(&mut self, n: usize, s: &Step) -> Res {
        let mut r = self.plan.rng(s);
        let key = if r.chance(1, 6) {
            keyhive_core_public_key()
        } else {
            attacker_key(self, s)
        };
        self.stats.nontrivial += 1;
        match s.c % 16 {
            0..=10 => {
                let mut ps = vec![];
                for _ in 0..1 + r.usize(4) {
                    let kind = s.d.wrapping_add(r.u32());
                    let Some((ev, what)) = self.hostile_event(kind, &key, &mut r) else {
                        continue;
                    };
                    // what a node cannot decode never reaches it
                    let b = bincode::serialize(&ev).expect("encodes");
                    let Ok(ev) = bincode::deserialize::<Sev>(&b) else {
                        continue;
                    };
                    let p = self.add_pool(ev, usize::MAX, false);
                    self.log(|| format!("hostile {p}: {what}"));
                    self.stats.hit(&format!("hostile:{what}"));
                    ps.push(p);
                }
                if s.a % 4 == 0 {
                    // the other ways in
                    let kh = self.nodes[n].kh.clone();
                    for p in ps {
                        let ev = self.pool[p].ev.clone();
                        match (s.a >> 4) % 3 {
                            0 => {
                                let _ = kh.receive_static_event(ev).await;
                            }
                            1 => kh.inject_pending_events(vec![ev]).await,
                            _ => {
                                let _ = kh.static_event_to_event(ev).await;
                            }
                        }
                        self.collect(n, false);
                    }
                    return Ok(());
                }
                self.deliver(n, &ps, s.a).await?;
            }
            11 | 12 => {
                // contact cards
                let card = if r.chance(1, 2) {
                    let other = bincode::serialize(&r.pick(&self.pool).ev).expect("encodes");
                    let u = r.usize(self.nodes.len());
                    let c = self.nodes[u].kh.get_existing_contact_card().await;
                    altered(&c, &other, &mut r)
                } else {
                    let v: Vec<KeyOp> = self
                        .pool
                        .iter()
                        .filter_map(|p| match &p.ev {
                            Sev::PrekeysExpanded(a) => Some(KeyOp::Add(Arc::new((**a).clone()))),
                            Sev::PrekeyRotated(a) => Some(KeyOp::Rotate(Arc::new((**a).clone()))),
                            _ => None,
                        })
                        .collect();
                    r.pick_opt(&v).and_then(|o| {
                        bincode::deserialize::<ContactCard>(&bincode::serialize(o).ok()?).ok()
                    })
                };
                if let Some(c) = card {
                    self.stats.hit("hostile:contact card");
                    let ok = self.nodes[n].kh.receive_contact_card(&c).await.is_ok();
                    self.log(|| format!("hostile contact card to U{n}: {ok}"));
                    self.collect(n, false);
                }
            }
            13 => {
                // somebody's archive, altered
                let u = r.usize(self.nodes.len());
                let orig = self.archive_bytes(u).await;
                let other = bincode::serialize(&r.pick(&self.pool).ev).expect("encodes");
                for _ in 0..6 {
                    let mut b = orig.clone();
                    mutate(&mut b, &other, &mut r);
                    let Ok(a) = bincode::deserialize::<Archive<T>>(&b) else {
                        continue;
                    };
                    self.stats.hit("hostile:archive");
                    let node = &self.nodes[u];
                    let made = Kh::try_from_archive(
                        &a,
                        SimSigner {
                            key: node.signer.key.clone(),
                            faults: Default::default(),
                        },
                        SimStore::default(),
                        SimListener::default(),
                        Arc::new(futures::lock::Mutex::new(SimRng::new(r.u64()))),
                    )
                    .await;
                    self.log(|| format!("altered archive of U{u}: {}", made.is_ok()));
                    if let Ok(kh) = made {
                        // its key groups hold what nobody could have sent
                        self.use_everything(&kh, false, &mut r).await;
                        self.stats.hit("hostile:archive-accepted");
                    }
                    let kh = self.nodes[n].kh.clone();
                    let took = kh.ingest_archive(a).await.is_ok();
                    self.log(|| format!("altered archive of U{u} into U{n}: {took}"));
                    self.collect(n, false);
                    break;
                }
            }
            _ => {
                // ciphertexts
                if self.cts.is_empty() {
                    return Ok(());
                }
                let c = r.usize(self.cts.len());
                let other = bincode::serialize(&r.pick(&self.cts).enc).expect("encodes");
                let Some(e) = altered::<EncryptedContent<Vec<u8>, T>>(
                    &self.cts[c].enc.clone(),
                    &other,
                    &mut r,
                ) else {
                    return Ok(());
                };
                self.stats.hit("hostile:ciphertext");
                let kh = self.nodes[n].kh.clone();
                if let Some(doc) = kh
                    .get_document(DocumentId::from(ident(&self.cts[c].doc)))
                    .await
                {
                    let a = kh.try_decrypt_content(doc.clone(), &e).await.is_ok();
                    self.nodes[n].store.put(Arc::new(e.clone())).await;
                    let b = kh.try_causal_decrypt_content(doc, &e).await.is_ok();
                    self.log(|| format!("hostile ciphertext c{c} at U{n}: {a} {b}"));
                }
            }
        }
        Ok(())
    }

    /// Every question a node can be asked, and every change it can be asked for, on everything it
    /// knows. Errors are fine; not coming back is not.
    pub async fn use_everything(&self, kh: &Kh, keys: bool, r: &mut Prng) {
        let mut ids = self.agent_ids();
        ids.push(keyhive_core::principal::public::Public.id().to_bytes());
        for id in &ids {
            let Some(ag) = kh.get_agent(ident(id)).await else {
                continue;
            };
            let _ = kh.static_events_for_agent(&ag).await;
            let _ = kh.docs_reachable_by_agent(&ag).await;
            let _ = kh.membered_reachable_by_agent(&ag).await;
        }
        let _ = kh.membership_ops_for_all_agents().await;
        let _ = kh.reachable_prekey_ops_for_all_agents().await;
        let _ = kh.cgka_ops_for_all_agents().await;
        let _ = kh.reachable_docs().await;
        let _ = kh.stats().await;
        let _ = node_view(kh).await;
        let docs: Vec<_> = {
            let d = kh.documents().lock().await;
            let mut v: Vec<_> = d.iter().map(|(k, d)| (*k, d.clone())).collect();
            v.sort_by_key(|x| x.0.to_bytes());
            v
        };
        for (id, doc) in &docs {
            let _ = kh.cgka_ops_for_doc(id).await;
            if !keys {
                continue;
            }
            let _ = kh.try_pcs_key_hash(doc.clone()).await;
            for c in self.cts.iter().filter(|c| c.doc == id.to_bytes()).take(4) {
                let _ = kh.try_decrypt_content(doc.clone(), &c.enc).await;
                let _ = kh.try_causal_decrypt_content(doc.clone(), &c.enc).await;
            }
            match r.below(4) {
                0 => {
                    let _ = kh.force_pcs_update(doc.clone()).await;
                }
                1 => {
                    let _ = kh
                        .try_encrypt_content(doc.clone(), &r.bytes32(), &vec![], b"x")
                        .await;
                }
                2 => {
                    let who = *r.pick(&ids);
                    if let Some(ag) = kh.get_agent(ident(&who)).await {
                        let m = Membered::Document(*id, doc.clone());
                        let _ = kh.add_member(ag, &m, acc(r.u32()), &[]).await;
                    }
                }
                _ => {
                    let who = *r.pick(&ids);
                    let m = Membered::Document(*id, doc.clone());
                    let _ = kh.revoke_member(ident(&who), r.chance(1, 2), &m).await;
                }
            }
        }
    }

    /// After all that: the node's honest users are served as ever.
    pub async fn r01_serves(&mut self, n: usize) -> Res {
        let mut r = Prng::new(mix3(self.seed, 0x5e41e, self.step_id as u64 * 64 + n as u64));
        // asked on a copy, so that the questions change nothing
        let bytes = self.archive_bytes(n).await;
        let copy = self.twin_from(n, &bytes, 0x401 + n as u64).await?;
        self.use_everything(&copy, true, &mut r).await;

        self.restart_now(n).await?;
        let kh = self.nodes[n].kh.clone();
        self.reseed(n);
        // a user nobody has ever heard of joins through it
        let user = self.stranger(&mut r).await?;
        let fail = |what: &str, e: String| -> Res {
            viol(
                "no-service",
                format!("U{n}, after hostile input, cannot serve a new user: {what}: {e}"),
            )
        };
        let card = user.get_existing_contact_card().await;
        if let Err(e) = kh.receive_contact_card(&card).await {
            return fail("its contact card is refused", format!("{e:?}"));
        }
        let own = kh.get_existing_contact_card().await;
        if let Err(e) = user.receive_contact_card(&own).await {
            return fail("the node's contact card is refused", format!("{e:?}"));
        }
        let uid = user.id();
        let group = match kh.generate_group(vec![]).await {
            Ok(g) => g,
            Err(e) => return fail("no new group", format!("{e:?}")),
        };
        let gid = group.lock().await.group_id();
        let doc = match kh.generate_doc(vec![], nonempty::NonEmpty::new(r.bytes32())).await {
            Ok(d) => d,
            Err(e) => return fail("no new document", format!("{e:?}")),
        };
        let did = doc.lock().await.doc_id();
        let Some(ag) = kh.get_agent(uid.into()).await else {
            return fail("it is not known", String::new());
        };
        let gm = Membered::Group(gid, group.clone());
        if let Err(e) = kh.add_member(ag.clone(), &gm, Access::Edit, &[]).await {
            return fail("not added to a group", format!("{e:?}"));
        }
        let Some(gag) = kh.get_agent(gid.into()).await else {
            return fail("the group is not known", String::new());
        };
        let dm = Membered::Document(did, doc.clone());
        if let Err(e) = kh.add_member(gag, &dm, Access::Read, &[]).await {
            return fail("the group is not added to a document", format!("{e:?}"));
        }
        let refs = r.bytes32();
        let enc = match kh
            .try_encrypt_content(doc.clone(), &refs, &vec![], b"for the new user")
            .await
        {
            Ok(e) => e,
            Err(e) => return fail("nothing can be encrypted", format!("{e:?}")),
        };
        let evs = kh.static_events_for_agent(&ag).await;
        let left = user
            .ingest_unsorted_static_events(evs.into_values().collect())
            .await;
        let _ = left;
        let Some(theirs) = user.get_document(did).await else {
            return fail("it never hears of the document", String::new());
        };
        match user.try_decrypt_content(theirs.clone(), enc.encrypted_content()).await {
            Ok(p) if p == b"for the new user" => {}
            x => return fail("it cannot read", format!("{x:?}")),
        }
        // and the way back
        let (op, _, _) = match user.force_pcs_update(theirs.clone()).await {
            Ok(x) => x,
            Err(e) => return fail("it cannot update its key", format!("{e:?}")),
        };
        let enc = match user
            .try_encrypt_content(theirs, &r.bytes32(), &vec![refs], b"an answer")
            .await
        {
            Ok(e) => e,
            Err(e) => return fail("it cannot encrypt", format!("{e:?}")),
        };
        let mut back = vec![Sev::CgkaOperation(Box::new(op))];
        if let Some(o) = enc.update_op() {
            back.push(Sev::CgkaOperation(Box::new(o.clone())));
        }
        kh.ingest_unsorted_static_events(back).await;
        match kh.try_decrypt_content(doc.clone(), enc.encrypted_content()).await {
            Ok(p) if p == b"an answer" => {}
            x => return fail("the answer cannot be read", format!("{x:?}")),
        }
        if let Err(e) = kh.revoke_member(uid.into(), true, &gm).await {
            return fail("it cannot be removed again", format!("{e:?}"));
        }
        if kh.reachable_members(dm).await.contains_key(&uid.into()) {
            return fail("it stays a member after it was removed", String::new());
        }
        self.collect(n, true);
        self.stats.nontrivial += 1;
        Ok(())
    }

    async fn stranger(&mut self, r: &mut Prng) -> Res<Kh> {
        Kh::generate(
            SimSigner {
                key: std::rc::Rc::new(signing_key(r.u64(), 77)),
                faults: Default::default(),
            },
            SimStore::default(),
            SimListener::default(),
            SimRng::new(r.u64()),
        )
        .await
        .map_err(|e| Violation {
            kind: "generate-failed".into(),
            detail: format!("{e:?}"),
        })
    }
}

fn keyhive_core_public_key() -> ed25519_dalek::SigningKey {
    keyhive_core::principal::public::Public.signing_key()
}
