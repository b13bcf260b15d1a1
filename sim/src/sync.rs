//! What nodes tell each other: who is offered what (S02), the announced stream (S03), and the
//! published prekeys of users (P01).
use crate::det::{mix3, Prng};
use crate::model::{self, Ops};
use crate::plan::*;
use crate::seams::*;
use crate::snap::*;
use crate::world::*;
use keyhive_core::access::Access;
use keyhive_core::contact_card::ContactCard;
use keyhive_crypto::digest::Digest;
use std::collections::{BTreeMap, BTreeSet};

/// Who an event is about: the group, document or user.
#[derive(Clone, Debug, PartialEq)]
pub enum About {
    Membership(Id),
    Keys(Id),
    Prekeys(Id),
    Unknown,
}

impl World {
    pub fn about(&self, ev: &Sev, ops: &Ops) -> About {
        match ev {
            Sev::PrekeysExpanded(o) => About::Prekeys(o.issuer.to_bytes()),
            Sev::PrekeyRotated(o) => About::Prekeys(o.issuer.to_bytes()),
            Sev::CgkaOperation(o) => About::Keys(o.payload.doc_id().to_bytes()),
            Sev::Delegated(d) => match ops
                .dlgs
                .values()
                .find(|x| x.sig == d.signature.to_bytes())
                .and_then(|d| d.subject)
            {
                Some(s) => About::Membership(s),
                None => About::Unknown,
            },
            Sev::Revoked(r) => match ops
                .revs
                .values()
                .find(|x| x.sig == r.signature.to_bytes())
                .and_then(|r| ops.dlgs.get(&r.revoke))
                .and_then(|d| d.subject)
            {
                Some(s) => About::Membership(s),
                None => About::Unknown,
            },
        }
    }

    /// S02: everything node n would send to each agent it knows.
    pub async fn s02_disclosure(&mut self, n: usize) -> Res {
        let kh = self.nodes[n].kh.clone();
        let view = node_view(&kh).await;
        let direct: BTreeMap<Id, BTreeMap<Id, Access>> = view
            .m
            .iter()
            .map(|(id, m)| {
                (
                    *id,
                    m.members
                        .iter()
                        .map(|(i, ds)| (*i, ds.iter().map(|d| d.1).max().unwrap()))
                        .collect(),
                )
            })
            .collect();
        let ops = Ops::from_pool(self.pool.iter().map(|p| &p.ev));
        // subject -> everyone ever granted anything in it, and who was ever revoked from it
        let mut granted: BTreeMap<Id, BTreeSet<Id>> = BTreeMap::new();
        for d in ops.dlgs.values() {
            if let Some(s) = d.subject {
                granted.entry(s).or_default().insert(d.delegate);
            }
        }
        let mut revoked: BTreeMap<Id, BTreeSet<Id>> = BTreeMap::new();
        for r in ops.revs.values() {
            if let Some(d) = ops.dlgs.get(&r.revoke) {
                if let Some(s) = d.subject {
                    revoked.entry(s).or_default().insert(d.delegate);
                }
            }
        }
        let bulk_m = kh.membership_ops_for_all_agents().await;
        let bulk_c = kh.cgka_ops_for_all_agents().await;
        let public = keyhive_core::principal::public::Public.id().to_bytes();
        for aid in self.agent_ids().into_iter().chain([public]) {
            let Some(ag) = kh.get_agent(ident(&aid)).await else {
                continue;
            };
            let reach: BTreeSet<Id> = view
                .m
                .keys()
                .filter(|m| model::reach_from(&direct, m).contains_key(&aid))
                .copied()
                .collect();
            let mut own: BTreeSet<Id> = reach.clone();
            for (s, who) in &revoked {
                if who.contains(&aid) || who.iter().any(|w| reach.contains(w)) {
                    own.insert(*s);
                }
            }
            // what those depend on: the groups and documents nested in them
            let mut closure = own.clone();
            let mut st: Vec<Id> = own.iter().copied().collect();
            while let Some(s) = st.pop() {
                for d in granted.get(&s).into_iter().flatten() {
                    if granted.contains_key(d) && closure.insert(*d) {
                        st.push(*d);
                    }
                }
            }
            if own.is_empty() {
                self.stats.hit("probe:stranger");
            } else if closure.len() < view.m.len() {
                self.stats.nontrivial += 1;
            }
            let mut people: BTreeSet<Id> = closure.iter().copied().collect();
            people.extend([aid, self.nodes[n].id]);
            for s in &closure {
                people.extend(granted.get(s).into_iter().flatten());
            }
            let offered = kh.static_events_for_agent(&ag).await;
            for ev in offered.values() {
                match self.about(ev, &ops) {
                    About::Membership(s) if closure.contains(&s) => {}
                    About::Keys(d) if own.contains(&d) => {}
                    About::Prekeys(u) if people.contains(&u) => {}
                    what => {
                        let what = match what {
                            About::Membership(s) => {
                                format!("a membership event of {}", self.name(&s))
                            }
                            About::Keys(s) => format!("a key event of {}", self.name(&s)),
                            About::Prekeys(s) => format!("a prekey of {}", self.name(&s)),
                            About::Unknown => "an event about nothing known".into(),
                        };
                        return viol("over-disclosure", format!("U{n} offers {} {what}; it reaches {:?} and was revoked from or depends on {:?}", self.name(&aid), reach.iter().map(|x| self.name(x)).collect::<Vec<_>>(), closure.difference(&reach).map(|x| self.name(x)).collect::<Vec<_>>()));
                    }
                }
            }
            let i = ident(&aid);
            for (_, o) in bulk_m.ops_for_agent(&i).into_iter().flatten() {
                let s = o.subject_id().to_bytes();
                if !closure.contains(&s) {
                    return viol(
                        "over-disclosure-bulk",
                        format!(
                            "U{n}'s bulk query gives {} a membership event of {}",
                            self.name(&aid),
                            self.name(&s)
                        ),
                    );
                }
            }
            for o in bulk_c.ops_for_agent(&i).into_iter().flatten() {
                let d = o.payload.doc_id().to_bytes();
                if !own.contains(&d) {
                    return viol(
                        "over-disclosure-bulk",
                        format!(
                            "U{n}'s bulk query gives {} a key event of {}",
                            self.name(&aid),
                            self.name(&d)
                        ),
                    );
                }
            }
        }
        Ok(())
    }

    // ---- S03 -----------------------------------------------------------------------------

    /// Everything node n holds, by event digest, excluding what is pending.
    pub async fn held(&self, kh: &Kh) -> BTreeMap<Key, Sev> {
        let mut out: BTreeMap<Key, Sev> = BTreeMap::new();
        let all = kh.membership_ops_for_all_agents().await;
        for m in all.ops.values() {
            for o in m.values() {
                let e: Sev = keyhive_core::event::Event::from(o.clone()).into();
                out.insert(ev_key(&e), e);
            }
        }
        for m in &self.mem {
            for o in kh
                .cgka_ops_for_doc(&keyhive_core::principal::document::id::DocumentId::from(
                    ident(&m.id),
                ))
                .await
                .ok()
                .flatten()
                .into_iter()
                .flatten()
            {
                let e = Sev::CgkaOperation(Box::new((*o).clone()));
                out.insert(ev_key(&e), e);
            }
        }
        let pre = kh.reachable_prekey_ops_for_all_agents().await;
        // Public's keys are constants known to everyone
        let public = ident(&keyhive_core::principal::public::Public.id().to_bytes());
        for o in pre
            .ops
            .iter()
            .filter(|(id, _)| **id != public)
            .flat_map(|(_, v)| v)
        {
            let e = key_op_event(o);
            out.insert(ev_key(&e), e);
        }
        out
    }

    pub async fn s03_stream(&mut self, n: usize) -> Res {
        let me = self.nodes[n].id;
        let kh = self.nodes[n].kh.clone();
        // exactly once, and signed
        let mut once: BTreeSet<usize> = BTreeSet::new();
        for (p, local, _) in self.nodes[n].announced.clone() {
            if !local {
                continue;
            }
            if !once.insert(p) {
                return viol(
                    "announced-twice",
                    format!(
                        "U{n} announced its own {}#{p} more than once",
                        self.pool[p].kind()
                    ),
                );
            }
            if !verifies(&self.pool[p].ev) {
                return viol(
                    "announced-unsigned",
                    format!(
                        "U{n} announced {}#{p} with a signature that does not verify",
                        self.pool[p].kind()
                    ),
                );
            }
        }
        // in effect
        let held = self.held(&kh).await;
        let pend = pending_keys(&kh).await;
        for p in &once {
            if !held.contains_key(&self.pool[*p].key) {
                return viol(
                    "announced-not-in-effect",
                    format!(
                        "U{n} announced {}#{p}{}, which is not part of its own state",
                        self.pool[*p].kind(),
                        if pend.contains(&self.pool[*p].key) {
                            " (pending)"
                        } else {
                            ""
                        }
                    ),
                );
            }
        }
        // complete
        let got = self.nodes[n].got.clone();
        for (k, e) in &held {
            let known = self.pool_ix.get(k).is_some_and(|i| got.contains(i));
            if !known {
                let kind = PoolEv {
                    ev: e.clone(),
                    key: *k,
                    origin: n,
                    step: 0,
                    honest: true,
                }
                .kind();
                return viol(
                    "change-not-announced",
                    format!("U{n} holds a {kind} event that it neither announced nor received"),
                );
            }
        }
        if once
            .iter()
            .any(|p| !matches!(self.pool[*p].ev, Sev::PrekeysExpanded(_)))
        {
            self.stats.nontrivial += 1;
        }
        // a second node fed that stream, in order, reports the same
        let seed = mix3(self.seed, 0x503, n as u64 + 16 * self.step_id as u64);
        let obs = Kh::generate(
            SimSigner {
                key: std::rc::Rc::new(signing_key(seed, 11)),
                faults: Default::default(),
            },
            SimStore::default(),
            SimListener::default(),
            SimRng::new(seed),
        )
        .await
        .map_err(|e| Violation {
            kind: "generate-failed".into(),
            detail: format!("{e:?}"),
        })?;
        let evs: Vec<Sev> = self.nodes[n]
            .got
            .iter()
            .map(|p| self.pool[*p].ev.clone())
            .collect();
        let mut r = Prng::new(seed);
        let mut i = 0;
        while i < evs.len() {
            let k = 1 + r.usize(8);
            obs.ingest_unsorted_static_events(evs[i..(i + k).min(evs.len())].to_vec())
                .await;
            i += k;
        }
        let (a, b) = (self.view(n).await, node_view(&obs).await);
        self.same_view(
            &format!("U{n}"),
            &a,
            &format!("a node fed U{n}'s stream"),
            &b,
        )?;
        for m in self.mem.clone() {
            if let (Some(x), Some(y)) = (cgka_of(&kh, &m.id).await, cgka_of(&obs, &m.id).await) {
                if x.ops != y.ops {
                    return viol("stream-keys", format!("key operations of {} differ between U{n} ({}) and a node fed its stream ({})", self.name(&m.id), x.ops.len(), y.ops.len()));
                }
            }
        }
        let (a, b) = (prekeys_of(&kh, &me).await, prekeys_of(&obs, &me).await);
        if a != b {
            return viol(
                "stream-prekeys",
                format!("prekeys of U{n} differ between it and a node fed its stream"),
            );
        }
        Ok(())
    }

    /// Run one local operation with the signer failing at its k-th call (S03, A02).
    pub async fn with_sign_fault(&mut self, n: usize, k: u64, inner: &Step) -> Res {
        let f = self.nodes[n].signer.faults.clone();
        f.sign_fail_at.set(Some(f.sign_calls.get() + k));
        let before = f.sign_failed.get();
        self.log(|| format!("U{n}: signing call {k} of the next operation fails"));
        let r = self.exec_step(inner).await;
        f.sign_fail_at.set(None);
        if f.sign_failed.get() > before {
            self.stats.hit("fault:signing-failed");
        }
        r
    }

    // ---- P01 -----------------------------------------------------------------------------

    /// Current prekeys by definition: published and not rotated away.
    pub fn model_prekeys(&self, n: usize, u: &Id) -> (BTreeSet<Key>, BTreeSet<Key>, BTreeSet<Key>) {
        let (mut all, mut old, mut evs) = (BTreeSet::new(), BTreeSet::new(), BTreeSet::new());
        for p in &self.nodes[n].got {
            let e = &self.pool[*p];
            if !verifies(&e.ev) {
                continue;
            }
            match &e.ev {
                Sev::PrekeysExpanded(o) if o.issuer.to_bytes() == *u => {
                    all.insert(o.payload.share_key.to_bytes());
                    evs.insert(e.key);
                }
                Sev::PrekeyRotated(o) if o.issuer.to_bytes() == *u => {
                    all.insert(o.payload.new.to_bytes());
                    old.insert(o.payload.old.to_bytes());
                    evs.insert(e.key);
                }
                _ => {}
            }
        }
        let cur: BTreeSet<Key> = all.difference(&old).copied().collect();
        if cur.is_empty() {
            // rotations in a circle: nothing is left, so everything stays usable
            return (all.clone(), BTreeSet::new(), evs);
        }
        (cur, old, evs)
    }

    pub async fn p01_check(&mut self, n: usize) -> Res {
        let kh = self.nodes[n].kh.clone();
        for u in 0..self.nodes.len() {
            let uid = self.nodes[u].id;
            let (want, old, evs) = self.model_prekeys(n, &uid);
            let got = prekeys_of(&kh, &uid).await;
            let Some(got) = got else {
                if !evs.is_empty() {
                    return viol(
                        "prekeys-unknown",
                        format!(
                            "U{n} received {} prekey events of U{u} and does not know the user",
                            evs.len()
                        ),
                    );
                }
                continue;
            };
            if got.ops != evs {
                return viol(
                    "prekey-events",
                    format!(
                        "U{n} holds {} prekey events of U{u}; it received {}",
                        got.ops.len(),
                        evs.len()
                    ),
                );
            }
            if got.current != want {
                return viol("prekeys-current", format!("U{n} has {} current prekeys of U{u}; the events leave {} (rotated away but current: {}, current but missing: {})", got.current.len(), want.len(), got.current.difference(&want).count(), want.difference(&got.current).count()));
            }
            if !old.is_empty() || evs.len() > 8 {
                self.stats.nontrivial += 1;
            }
            // what is chosen for documents
            let ind = if u == n {
                kh.individual().await
            } else {
                kh.get_individual(ind_id(&uid)).await.unwrap()
            };
            let l = ind.lock().await;
            for i in 0..6u64 {
                let k = l
                    .pick_prekey(doc_id_for(mix3(self.seed, i, self.step_id as u64)))
                    .to_bytes();
                if !want.contains(&k) {
                    return viol(
                        "prekey-picked",
                        format!("U{n} picks a prekey of U{u} that is not current"),
                    );
                }
            }
        }
        // the owner holds every secret
        let sec = kh.export_prekey_secrets().await.expect("export");
        let have: BTreeMap<
            keyhive_crypto::share_key::ShareKey,
            keyhive_crypto::share_key::ShareSecretKey,
        > = bincode::deserialize(&sec).map_err(|e| Violation {
            kind: "export-unreadable".into(),
            detail: e.to_string(),
        })?;
        for (k, s) in &have {
            if s.share_key() != *k {
                return viol(
                    "prekey-secret-wrong",
                    format!("U{n} files a prekey secret under a public key that is not its own"),
                );
            }
        }
        let mine = prekeys_of(&kh, &self.nodes[n].id).await.unwrap();
        if !self.nodes[n].lossy {
            for k in &mine.current {
                if !have.keys().any(|h| h.to_bytes() == *k) {
                    return viol(
                        "prekey-secret-missing",
                        format!("U{n} publishes a current prekey whose secret it does not hold"),
                    );
                }
            }
        }
        // a contact card carries a current prekey, is properly signed, and teaches its reader
        let card = kh.get_existing_contact_card().await;
        self.card_teaches(n, &card).await
    }

    /// Every node, and nodes fed everything in other orders, agree about every user.
    pub async fn check_prekeys_agree(&mut self, observers: u64) -> Res {
        let all: Vec<usize> = (0..self.pool.len()).collect();
        let mut kh: Vec<(String, Kh)> = self
            .nodes
            .iter()
            .map(|n| (format!("U{}", n.idx), n.kh.clone()))
            .collect();
        for o in 0..observers {
            let k = self
                .observer(mix3(self.step_id as u64, o, 0x9e), &all)
                .await?;
            kh.push((format!("observer{o}"), k));
        }
        for u in 0..self.nodes.len() {
            let uid = self.nodes[u].id;
            let first = prekeys_of(&kh[0].1, &uid).await;
            for (name, k) in &kh[1..] {
                let p = prekeys_of(k, &uid).await;
                if p != first {
                    return viol("prekeys-diverged", format!("the prekeys of U{u} differ between U0 and {name}, which received the same events"));
                }
            }
        }
        Ok(())
    }

    pub async fn card_teaches(&mut self, n: usize, card: &ContactCard) -> Res {
        let id = self.nodes[n].id;
        if card.id().to_bytes() != id {
            return viol(
                "card-issuer",
                format!("U{n}'s contact card is for somebody else"),
            );
        }
        let seed = mix3(self.seed, 0xca4d, n as u64 + 64 * self.step_id as u64);
        let fresh = Kh::generate(
            SimSigner {
                key: std::rc::Rc::new(signing_key(seed, 12)),
                faults: Default::default(),
            },
            SimStore::default(),
            SimListener::default(),
            SimRng::new(seed),
        )
        .await
        .map_err(|e| Violation {
            kind: "generate-failed".into(),
            detail: format!("{e:?}"),
        })?;
        if let Err(e) = fresh.receive_contact_card(card).await {
            return viol(
                "card-refused",
                format!("a new node refused U{n}'s contact card: {e:?}"),
            );
        }
        let key = ev_key(&key_op_event(card.op()));
        let Some(p) = prekeys_of(&fresh, &id).await else {
            return viol(
                "card-ignored",
                format!("a new node does not know U{n} after taking its contact card"),
            );
        };
        if p.ops != BTreeSet::from([key]) || p.current.len() != 1 {
            return viol("card-state", format!("after U{n}'s contact card a new node holds {} prekey events and {} current prekeys of it", p.ops.len(), p.current.len()));
        }
        // the rest arriving as events gives the same state as never having had the card
        let evs: Vec<Sev> = self.nodes[n]
            .got
            .iter()
            .map(|p| self.pool[*p].ev.clone())
            .filter(|e| matches!(e, Sev::PrekeysExpanded(_) | Sev::PrekeyRotated(_)))
            .collect();
        let mut r = Prng::new(seed);
        let mut evs = evs;
        r.shuffle(&mut evs);
        fresh.ingest_unsorted_static_events(evs).await;
        let a = prekeys_of(&fresh, &id).await;
        let b = prekeys_of(&self.nodes[n].kh, &id).await;
        if a != b {
            return viol("card-diverged", format!("prekeys of U{n} differ between it and a node that started from its contact card"));
        }
        Ok(())
    }

    /// Grants made now never use a prekey that the granting node knows to be rotated away.
    pub async fn p01_grants(&mut self, n: usize, from: usize) -> Res {
        for p in from..self.pool.len() {
            let ev = self.pool[p].ev.clone();
            if self.pool[p].origin != n {
                continue;
            }
            if let Sev::CgkaOperation(o) = &ev {
                if let beekem::operation::CgkaOperation::Add { added_id, pk, .. } = &o.payload {
                    let uid = added_id.to_bytes();
                    let Some(u) = self.nodes.iter().position(|x| x.id == uid) else {
                        continue;
                    };
                    let (cur, _, _) = self.model_prekeys(n, &uid);
                    self.stats.hit("probe:grant-prekey");
                    if !cur.contains(&pk.to_bytes()) {
                        return viol(
                            "grant-uses-retired-prekey",
                            format!("U{n} invited U{u} with a prekey that is not current"),
                        );
                    }
                }
            }
        }
        Ok(())
    }
}

pub fn verifies(e: &Sev) -> bool {
    match e {
        Sev::PrekeysExpanded(o) => o.try_verify().is_ok(),
        Sev::PrekeyRotated(o) => o.try_verify().is_ok(),
        Sev::CgkaOperation(o) => o.try_verify().is_ok(),
        Sev::Delegated(o) => o.try_verify().is_ok(),
        Sev::Revoked(o) => o.try_verify().is_ok(),
    }
}

pub fn digest_of<X: serde::Serialize>(x: &X) -> Key {
    *Digest::hash(x).raw.as_bytes()
}
