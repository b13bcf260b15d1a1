//! Everything a node can be asked about, in comparable form; twins of a node; the restart,
//! early-arrival, redelivery and sync properties (D01-D03, S01-S03).
use crate::det::{mix3, Prng};
use crate::plan::*;
use crate::seams::*;
use crate::world::*;
use keyhive_core::principal::{agent::Agent, document::id::DocumentId};
use keyhive_crypto::digest::Digest;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Prekeys {
    pub ops: BTreeSet<Key>,
    pub current: BTreeSet<Key>,
}

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct CgkaSnap {
    pub ops: BTreeSet<Key>,
    pub size: u32,
    pub has_key: bool,
}

/// All that a node reports.
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Snap {
    pub view: View,
    pub pending: BTreeSet<Key>,
    pub prekeys: BTreeMap<Id, Prekeys>,
    pub cgka: BTreeMap<Id, CgkaSnap>,
    pub sync: BTreeMap<Id, BTreeSet<Key>>,
    pub caps: BTreeMap<Id, String>,
    pub secrets: u64,
    pub stats: String,
    pub archive_len: usize,
}

#[derive(Clone, Copy, PartialEq)]
pub enum Depth {
    /// membership, pending events, key operations and prekeys
    State,
    /// and what every peer would be sent, and archive size
    Full,
}

pub async fn prekeys_of(kh: &Kh, id: &Id) -> Option<Prekeys> {
    let ind = if kh.id().to_bytes() == *id {
        kh.individual().await
    } else {
        kh.get_individual(ind_id(id)).await?
    };
    let l = ind.lock().await;
    let mut p = Prekeys::default();
    for o in l.prekey_ops().values() {
        p.ops.insert(ev_key(&key_op_event(o)));
    }
    // the current set as it is archived (the public query returns one of them at a time)
    let bytes = bincode::serialize(&*l).expect("individual serialises");
    let (_, cur): (
        keyhive_core::principal::individual::id::IndividualId,
        Vec<keyhive_crypto::share_key::ShareKey>,
    ) = bincode::deserialize_from(&bytes[..]).expect("archived individual");
    p.current = cur.iter().map(|k| k.to_bytes()).collect();
    let picked = l.pick_prekey(doc_id_for(7)).to_bytes();
    assert!(p.current.contains(&picked), "picked prekey is not current");
    Some(p)
}

pub async fn cgka_of(kh: &Kh, id: &Id) -> Option<CgkaSnap> {
    let d = DocumentId::from(ident(id));
    let doc = kh.get_document(d).await?;
    let ops = match kh.cgka_ops_for_doc(&d).await {
        Ok(Some(o)) => o,
        _ => vec![],
    };
    let l = doc.lock().await;
    let Ok(c) = l.cgka() else {
        return Some(CgkaSnap::default());
    };
    Some(CgkaSnap {
        ops: ops
            .iter()
            .map(|o| ev_key(&Sev::CgkaOperation(Box::new((**o).clone()))))
            .collect(),
        // concurrent membership changes are applied to the tree lazily, on next use
        size: if c.has_pcs_key() { c.group_size() } else { 0 },
        has_key: c.has_pcs_key(),
    })
}

pub async fn sync_set(kh: &Kh, ag: &SAgent) -> BTreeSet<Key> {
    kh.static_events_for_agent(ag)
        .await
        .keys()
        .map(|k| *k.raw.as_bytes())
        .collect()
}

impl World {
    pub async fn snap_of(&self, kh: &Kh, depth: Depth) -> Snap {
        let mut s = Snap {
            view: node_view(kh).await,
            pending: pending_keys(kh).await,
            ..Default::default()
        };
        for n in &self.nodes {
            if let Some(p) = prekeys_of(kh, &n.id).await {
                s.prekeys.insert(n.id, p);
            }
        }
        for m in &self.mem {
            if let Some(c) = cgka_of(kh, &m.id).await {
                s.cgka.insert(m.id, c);
            }
        }
        let sec = kh.export_prekey_secrets().await.expect("export");
        s.secrets = u64::from_le_bytes(blake3::hash(&sec).as_bytes()[..8].try_into().unwrap());
        s.stats = format!("{:?}", kh.stats().await);
        if depth == Depth::Full {
            for id in self.agent_ids() {
                if let Some(ag) = kh.get_agent(ident(&id)).await {
                    let kind = match &ag {
                        Agent::Active(..) => "self",
                        Agent::Individual(..) => "user",
                        Agent::Group(..) => "group",
                        Agent::Document(..) => "doc",
                    };
                    s.caps.insert(id, kind.into());
                    s.sync.insert(id, sync_set(kh, &ag).await);
                }
            }
            s.archive_len = bincode::serialize(&kh.into_archive().await)
                .expect("archive serialises")
                .len();
        }
        s
    }

    pub async fn snap(&self, n: usize, depth: Depth) -> Snap {
        self.snap_of(&self.nodes[n].kh, depth).await
    }

    fn keyset(&self, a: &BTreeSet<Key>, b: &BTreeSet<Key>) -> String {
        let f = |x: &BTreeSet<Key>, y: &BTreeSet<Key>| {
            x.difference(y)
                .map(|k| match self.pool_ix.get(k) {
                    Some(i) => format!("{}#{i}", self.pool[*i].kind()),
                    None => format!("?{}", hx(k)),
                })
                .collect::<Vec<_>>()
                .join(" ")
        };
        format!("only before: [{}] only after: [{}]", f(a, b), f(b, a))
    }

    pub fn same_snap(&self, kind: &str, a: &str, x: &Snap, b: &str, y: &Snap) -> Res {
        if let Err(v) = self.same_view(a, &x.view, b, &y.view) {
            return viol(&format!("{kind}:{}", v.kind), v.detail);
        }
        if x.pending != y.pending {
            return viol(
                &format!("{kind}:pending"),
                format!(
                    "pending events differ between {a} and {b}: {}",
                    self.keyset(&x.pending, &y.pending)
                ),
            );
        }
        for (id, p) in &x.prekeys {
            match y.prekeys.get(id) {
                None => {
                    return viol(
                        &format!("{kind}:prekeys"),
                        format!("{} is known to {a} but not to {b}", self.name(id)),
                    )
                }
                Some(q) if q.ops != p.ops => {
                    return viol(
                        &format!("{kind}:prekeys"),
                        format!(
                            "prekey events of {} differ between {a} and {b}: {}",
                            self.name(id),
                            self.keyset(&p.ops, &q.ops)
                        ),
                    )
                }
                Some(q) if q.current != p.current => {
                    return viol(
                        &format!("{kind}:prekeys"),
                        format!(
                            "current prekeys of {} differ between {a} ({}) and {b} ({})",
                            self.name(id),
                            p.current.len(),
                            q.current.len()
                        ),
                    )
                }
                _ => {}
            }
        }
        if x.prekeys.len() != y.prekeys.len() {
            return viol(
                &format!("{kind}:prekeys"),
                format!("{b} knows users that {a} does not"),
            );
        }
        for (id, p) in &x.cgka {
            match y.cgka.get(id) {
                Some(q) if q == p => {}
                Some(q) => {
                    return viol(
                        &format!("{kind}:cgka"),
                        format!("key group of {} differs between {a} (size {}, key {}) and {b} (size {}, key {}): {}", self.name(id), p.size, p.has_key, q.size, q.has_key, self.keyset(&p.ops, &q.ops)),
                    )
                }
                None => return viol(&format!("{kind}:cgka"), format!("key group of {} is missing at {b}", self.name(id))),
            }
        }
        if x.secrets != y.secrets {
            return viol(
                &format!("{kind}:secrets"),
                format!("prekey secrets differ between {a} and {b}"),
            );
        }
        if x.caps != y.caps {
            return viol(
                &format!("{kind}:agents"),
                format!(
                    "known agents differ between {a} and {b}: {:?} / {:?}",
                    x.caps
                        .iter()
                        .map(|(i, k)| format!("{}={k}", self.name(i)))
                        .collect::<Vec<_>>(),
                    y.caps
                        .iter()
                        .map(|(i, k)| format!("{}={k}", self.name(i)))
                        .collect::<Vec<_>>()
                ),
            );
        }
        for (id, p) in &x.sync {
            let q = &y.sync[id];
            if p != q {
                return viol(
                    &format!("{kind}:sync"),
                    format!(
                        "events for {} differ between {a} and {b}: {}",
                        self.name(id),
                        self.keyset(p, q)
                    ),
                );
            }
        }
        if x.stats != y.stats {
            return viol(
                &format!("{kind}:stats"),
                format!(
                    "statistics differ between {a} and {b}: {} / {}",
                    x.stats, y.stats
                ),
            );
        }
        if x.archive_len != y.archive_len {
            return viol(
                &format!("{kind}:growth"),
                format!(
                    "archive size differs between {a} ({}) and {b} ({})",
                    x.archive_len, y.archive_len
                ),
            );
        }
        Ok(())
    }

    /// An independent copy of a node, made from its archive (same identity and keys).
    pub async fn twin(&self, n: usize, tag: u64) -> Res<Kh> {
        let bytes = self.archive_bytes(n).await;
        self.twin_from(n, &bytes, tag).await
    }
    pub async fn twin_from(&self, n: usize, bytes: &[u8], tag: u64) -> Res<Kh> {
        let a = bincode::deserialize(bytes).map_err(|e| Violation {
            kind: "archive-unreadable".into(),
            detail: e.to_string(),
        })?;
        let signer = SimSigner {
            key: self.nodes[n].signer.key.clone(),
            faults: Default::default(),
        };
        Kh::try_from_archive(
            &a,
            signer,
            SimStore::default(),
            SimListener::default(),
            Arc::new(futures::lock::Mutex::new(SimRng::new(mix3(
                self.seed, tag, n as u64,
            )))),
        )
        .await
        .map_err(|e| Violation {
            kind: "archive-refused".into(),
            detail: format!("U{n} cannot restart from its own archive: {e}"),
        })
    }

    /// A new installation for user `n`: same identity and prekey secrets, nothing else.
    pub async fn fresh_install(&self, n: usize, tag: u64) -> Res<Kh> {
        let signer = SimSigner {
            key: self.nodes[n].signer.key.clone(),
            faults: Default::default(),
        };
        let kh = Kh::generate(
            signer,
            SimStore::default(),
            SimListener::default(),
            SimRng::new(mix3(self.seed, tag, n as u64 + 77)),
        )
        .await
        .map_err(|e| Violation {
            kind: "generate-failed".into(),
            detail: format!("{e:?}"),
        })?;
        let sec = self.nodes[n]
            .kh
            .export_prekey_secrets()
            .await
            .expect("export");
        kh.import_prekey_secrets(&sec)
            .await
            .map_err(|e| Violation {
                kind: "import-secrets-failed".into(),
                detail: e.to_string(),
            })?;
        Ok(kh)
    }

    /// Which of the world's ciphertexts this node can decrypt correctly.
    pub async fn readable(&self, kh: &Kh) -> BTreeSet<usize> {
        let mut out = BTreeSet::new();
        for (i, c) in self.cts.iter().enumerate() {
            if let Some(doc) = kh.get_document(DocumentId::from(ident(&c.doc))).await {
                if let Ok(p) = kh.try_decrypt_content(doc, &c.enc).await {
                    if p == c.plain {
                        out.insert(i);
                    }
                }
            }
        }
        out
    }

    // ---- D01 -----------------------------------------------------------------------------

    pub async fn d01_restart(&mut self, n: usize) -> Res {
        // decrypting caches keys, so it comes first
        let read_before = self.readable(&self.nodes[n].kh).await;
        let before = self.snap(n, Depth::Full).await;
        self.restart_now(n).await?;
        let after = self.snap(n, Depth::Full).await;
        self.same_snap(
            "restart",
            &format!("U{n} before the restart"),
            &before,
            "after",
            &after,
        )?;
        let read_after = self.readable(&self.nodes[n].kh).await;
        if let Some(c) = read_before.difference(&read_after).next() {
            return viol(
                "restart:decrypt",
                format!("U{n} could decrypt c{c} before the restart and cannot after it"),
            );
        }
        if before.view.m.values().any(|m| m.members.len() > 1) || !before.pending.is_empty() {
            self.stats.nontrivial += 1;
        }
        if !before.pending.is_empty() {
            self.stats.hit("probe:restart-with-pending");
        }
        if before.view.m.values().any(|m| !m.revoked.is_empty()) {
            self.stats.hit("probe:restart-with-revocations");
        }
        if !read_before.is_empty() {
            self.stats.hit("probe:restart-with-readable-content");
        }
        Ok(())
    }

    /// Come back from an old archive: the node must be exactly the one that was saved.
    pub async fn d01_stale(&mut self, n: usize) -> Res {
        let Some(s) = self.nodes[n].saved.clone() else {
            return Ok(());
        };
        self.restart_stale(n).await?;
        let v = node_view(&self.nodes[n].kh).await;
        self.same_view(
            &format!("U{n} when saved"),
            &s.view,
            "restarted from it",
            &v,
        )
        .map_err(|v| Violation {
            kind: format!("restart:{}", v.kind),
            detail: v.detail,
        })?;
        let again = self.archive_bytes(n).await;
        if again.len() != s.bytes.len() {
            return viol("restart:archive", format!("U{n}: an archive taken right after a restart has {} bytes, the one it started from {}", again.len(), s.bytes.len()));
        }
        self.stats.nontrivial += 1;
        Ok(())
    }

    // ---- D02 -----------------------------------------------------------------------------

    /// Has the node taken this event up?
    pub async fn applied(&self, kh: &Kh, p: usize) -> bool {
        let ev = &self.pool[p].ev;
        match ev {
            Sev::Delegated(d) => kh
                .get_membership_operation(&Digest::hash(d).coerce())
                .await
                .is_some(),
            Sev::Revoked(d) => kh
                .get_membership_operation(&Digest::hash(d).coerce())
                .await
                .is_some(),
            Sev::CgkaOperation(o) => match cgka_of(kh, o.payload.doc_id().as_bytes()).await {
                Some(c) => c.ops.contains(&self.pool[p].key),
                None => false,
            },
            Sev::PrekeysExpanded(a) => self.has_prekey_op(kh, &a.issuer.to_bytes(), p).await,
            Sev::PrekeyRotated(a) => self.has_prekey_op(kh, &a.issuer.to_bytes(), p).await,
        }
    }
    async fn has_prekey_op(&self, kh: &Kh, id: &Id, p: usize) -> bool {
        let Some(ind) = (if kh.id().to_bytes() == *id {
            Some(kh.individual().await)
        } else {
            kh.get_individual(ind_id(id)).await
        }) else {
            return false;
        };
        let l = ind.lock().await;
        let k = self.pool[p].key;
        let found = l
            .prekey_ops()
            .values()
            .any(|o| ev_key(&key_op_event(o)) == k);
        found
    }

    /// Every honest event handed to this node is in effect or visibly pending.
    pub async fn d02_nothing_lost(&mut self, n: usize) -> Res {
        let pend = pending_keys(&self.nodes[n].kh).await;
        let got: Vec<usize> = self.nodes[n]
            .got
            .iter()
            .copied()
            .filter(|p| self.pool[*p].honest)
            .collect();
        for p in got {
            if pend.contains(&self.pool[p].key) {
                continue;
            }
            if !self.applied(&self.nodes[n].kh, p).await {
                return viol(
                    "event-lost",
                    format!(
                        "U{n} was given {}#{p} and it is neither in effect nor pending",
                        self.pool[p].kind()
                    ),
                );
            }
        }
        if !pend.is_empty() {
            self.stats.nontrivial += 1;
            self.stats.hit("probe:checked-with-pending");
        }
        Ok(())
    }

    pub async fn d02_all_applied(&mut self) -> Res {
        for n in 0..self.nodes.len() {
            if self.nodes[n].lossy {
                continue;
            }
            self.d02_nothing_lost(n).await?;
            let pend = pending_keys(&self.nodes[n].kh).await;
            for p in 0..self.pool.len() {
                if self.pool[p].honest && pend.contains(&self.pool[p].key) {
                    return viol(
                        "event-stuck",
                        format!(
                            "U{n} has received everything and {}#{p} (by U{}) is still pending",
                            self.pool[p].kind(),
                            self.pool[p].origin
                        ),
                    );
                }
            }
        }
        Ok(())
    }

    // ---- D03 -----------------------------------------------------------------------------

    /// Redeliver what the node has, in the step's own order and batching, mixed with `fresh`.
    pub async fn d03_redeliver(&mut self, n: usize, s: &Step, r: &mut Prng) -> Res {
        let have: Vec<usize> = self.nodes[n].got.iter().copied().collect();
        if have.is_empty() {
            return Ok(());
        }
        let mut evs: Vec<usize> = match s.a % 3 {
            0 => have.clone(),
            _ => (0..1 + s.b as usize % 30).map(|_| *r.pick(&have)).collect(),
        };
        r.shuffle(&mut evs);
        let fresh: Vec<usize> = if s.c % 3 == 0 {
            let miss = self.missing(n);
            miss.into_iter().filter(|_| r.chance(1, 2)).collect()
        } else {
            vec![]
        };
        self.stats.hit("fault:redelivery");
        if fresh.is_empty() {
            let mut before = self.snap(n, Depth::Full).await;
            if s.d % 4 == 0 {
                // an invitation may remember its key once more; a third delivery adds nothing
                self.deliver(n, &evs, s.b).await?;
                let len = self.snap(n, Depth::Full).await.archive_len;
                before.archive_len = len;
            } else {
                before.archive_len = 0;
            }
            for _ in 0..1 + s.d % 2 {
                self.deliver(n, &evs, s.b).await?;
            }
            let mut after = self.snap(n, Depth::Full).await;
            if before.archive_len == 0 {
                after.archive_len = 0;
            }
            self.stats.nontrivial += 1;
            self.same_snap(
                "redelivery",
                &format!("U{n} before"),
                &before,
                "after redelivery",
                &after,
            )
        } else {
            // the twin gets only the new events
            let twin = self.twin(n, s.id as u64).await?;
            let mut mixed = evs.clone();
            mixed.extend(fresh.iter().copied());
            r.shuffle(&mut mixed);
            self.deliver(n, &mixed, s.b).await?;
            let es: Vec<Sev> = fresh.iter().map(|i| self.pool[*i].ev.clone()).collect();
            twin.ingest_unsorted_static_events(es).await;
            let mut a = self.snap(n, Depth::Full).await;
            let mut b = self.snap_of(&twin, Depth::Full).await;
            a.archive_len = 0;
            b.archive_len = 0;
            self.stats.nontrivial += 1;
            self.stats.hit("probe:redelivery-mixed-with-new");
            self.same_snap(
                "redelivery",
                &format!("U{n} given old and new events"),
                &a,
                "its twin given only the new",
                &b,
            )
        }
    }

    // ---- S01, S02 ------------------------------------------------------------------------

    /// What node n offers user p, and what p makes of it. `fresh`: p on a new installation.
    pub async fn s01_offer(&mut self, n: usize, p: usize, fresh: bool, tag: u64) -> Res {
        if n == p {
            return Ok(());
        }
        let pid = self.nodes[p].id;
        let kh = self.nodes[n].kh.clone();
        let Some(ag) = kh.get_agent(ident(&pid)).await else {
            return Ok(());
        };
        let reach = kh.membered_reachable_by_agent(&ag).await;
        let offered = kh.static_events_for_agent(&ag).await;
        let peer = if fresh {
            self.fresh_install(p, tag).await?
        } else {
            self.twin(p, tag).await?
        };
        let mut evs: Vec<(Key, Sev)> = offered
            .into_iter()
            .map(|(k, v)| (*k.raw.as_bytes(), v))
            .collect();
        evs.sort_by_key(|e| e.0);
        if evs.iter().any(|(k, v)| *k != ev_key(v)) {
            return viol(
                "offer-digest",
                format!("U{n} offers U{p} an event under a digest that is not its own"),
            );
        }
        let mut r = Prng::new(mix3(self.seed, tag, 0x501));
        r.shuffle(&mut evs);
        let keys: BTreeSet<Key> = evs.iter().map(|e| e.0).collect();
        peer.ingest_unsorted_static_events(evs.into_iter().map(|e| e.1).collect())
            .await;
        let pend = pending_keys(&peer).await;
        let stuck: Vec<String> = pend
            .iter()
            .filter(|k| keys.contains(*k))
            .map(|k| {
                self.pool_ix
                    .get(k)
                    .map(|i| format!("{}#{i}", self.pool[*i].kind()))
                    .unwrap_or_else(|| hx(k))
            })
            .collect();
        let who = if fresh {
            format!("a new installation of U{p}")
        } else {
            format!("U{p}")
        };
        if !stuck.is_empty() {
            return viol(
                "offer-incomplete",
                format!(
                    "{who} cannot apply what U{n} offers it; pending: {}",
                    stuck.join(" ")
                ),
            );
        }
        // the peer may already know more than the sender
        let ahead = !fresh && !self.nodes[p].got.is_subset(&self.nodes[n].got);
        let a = node_view(&kh).await;
        let b = node_view(&peer).await;
        if !reach.is_empty() {
            self.stats.nontrivial += 1;
        }
        for (id, (_, acc)) in reach.iter() {
            let id = id.to_bytes();
            let Some(y) = b.m.get(&id) else {
                return viol("offer-missing", format!("U{n} knows U{p} has {acc:?} in {} but {who} does not know it after taking U{n}'s events", self.name(&id)));
            };
            if ahead {
                continue;
            }
            let x = &a.m[&id];
            if x.members != y.members {
                return viol(
                    "offer-members",
                    format!(
                        "{} at U{n}: {}; at {who} after taking U{n}'s events: {}",
                        self.name(&id),
                        self.short(x),
                        self.short(y)
                    ),
                );
            }
            if x.reach != y.reach {
                return viol(
                    "offer-access",
                    format!(
                        "{} at U{n}: {:?}; at {who}: {:?}",
                        self.name(&id),
                        self.names(&x.reach),
                        self.names(&y.reach)
                    ),
                );
            }
            if x.revoked != y.revoked {
                return viol("offer-revoked", format!("revoked members of {} differ between U{n} and {who} after taking U{n}'s events", self.name(&id)));
            }
            if x.is_doc {
                let ca = cgka_of(&kh, &id).await.unwrap_or_default();
                let cb = cgka_of(&peer, &id).await.unwrap_or_default();
                if let Some(k) = ca.ops.difference(&cb.ops).next() {
                    return viol(
                        "offer-keys",
                        format!(
                            "{who} lacks key operation {} of {} after taking U{n}'s events",
                            self.pool_ix
                                .get(k)
                                .map(|i| i.to_string())
                                .unwrap_or_default(),
                            self.name(&id)
                        ),
                    );
                }
            }
        }
        Ok(())
    }

    /// The bulk queries against the per-agent ones.
    pub async fn s01_bulk(&mut self, n: usize) -> Res {
        let kh = self.nodes[n].kh.clone();
        let mem = kh.membership_ops_for_all_agents().await;
        let pre = kh.reachable_prekey_ops_for_all_agents().await;
        let cg = kh.cgka_ops_for_all_agents().await;
        let public = keyhive_core::principal::public::Public.id().to_bytes();
        for aid in self.agent_ids().into_iter().chain([public]) {
            let Some(ag) = kh.get_agent(ident(&aid)).await else {
                continue;
            };
            let i = ident(&aid);
            let one: BTreeSet<Key> = kh
                .membership_ops_for_agent(&ag)
                .await
                .keys()
                .map(|k| *k.raw.as_bytes())
                .collect();
            let bulk: BTreeSet<Key> = mem
                .ops_for_agent(&i)
                .map(|it| it.map(|(k, _)| *k.raw.as_bytes()).collect())
                .unwrap_or_default();
            if one != bulk {
                return viol(
                    "bulk-membership",
                    format!(
                        "U{n}: membership events for {}: per agent {}, bulk {}; {}",
                        self.name(&aid),
                        one.len(),
                        bulk.len(),
                        self.memset(&one, &bulk)
                    ),
                );
            }
            let one: BTreeSet<Key> = kh
                .cgka_ops_reachable_by_agent(&ag)
                .await
                .iter()
                .map(|o| *Digest::hash(o.as_ref()).raw.as_bytes())
                .collect();
            let bulk: BTreeSet<Key> = cg
                .ops_for_agent(&i)
                .map(|it| {
                    it.map(|o| *Digest::hash(o.as_ref()).raw.as_bytes())
                        .collect()
                })
                .unwrap_or_default();
            if one != bulk {
                return viol(
                    "bulk-cgka",
                    format!(
                        "U{n}: key operations for {}: per agent {}, bulk {}",
                        self.name(&aid),
                        one.len(),
                        bulk.len()
                    ),
                );
            }
            let one: BTreeSet<Key> = kh
                .reachable_prekey_ops_for_agent(&ag)
                .await
                .values()
                .flatten()
                .map(|o| ev_key(&key_op_event(o)))
                .collect();
            let bulk: BTreeSet<Key> = pre
                .ops_for_agent(&i)
                .map(|it| it.map(|o| ev_key(&key_op_event(o))).collect())
                .unwrap_or_default();
            // a group or document is nobody's peer unless it is a member of something
            let peer = self.nodes.iter().any(|x| x.id == aid) || pre.index.contains_key(&i);
            if peer && one != bulk {
                return viol(
                    "bulk-prekeys",
                    format!(
                        "U{n}: prekey events for {}: per agent {}, bulk {}; {}",
                        self.name(&aid),
                        one.len(),
                        bulk.len(),
                        self.keyset(&one, &bulk)
                    ),
                );
            }
        }
        Ok(())
    }
    fn memset(&self, a: &BTreeSet<Key>, b: &BTreeSet<Key>) -> String {
        // membership operations are keyed by their own digest
        let by: BTreeMap<Key, usize> = self
            .pool
            .iter()
            .enumerate()
            .filter_map(|(i, p)| match &p.ev {
                Sev::Delegated(d) => Some((*Digest::hash(d).raw.as_bytes(), i)),
                Sev::Revoked(d) => Some((*Digest::hash(d).raw.as_bytes(), i)),
                _ => None,
            })
            .collect();
        let f = |x: &BTreeSet<Key>, y: &BTreeSet<Key>| {
            x.difference(y)
                .map(|k| {
                    by.get(k)
                        .map(|i| format!("{}#{i}", self.pool[*i].kind()))
                        .unwrap_or("?".into())
                })
                .collect::<Vec<_>>()
                .join(" ")
        };
        format!("only per agent: [{}] only bulk: [{}]", f(a, b), f(b, a))
    }
}
