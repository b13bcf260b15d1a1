//! A01: tasks that share a node and are suspended at every lock and seam, in seeded order.
//!
//! A burst starts several of the node's operations at once and lets the scheduler interleave them.
//! All must finish; what reported success must be in the node's own report and on its wire; what
//! was handed in must be in effect or pending; and afterwards the node must agree with everyone.
use crate::det::{mix3, Prng};
use crate::exec::{self, Outcome, Task};
use crate::plan::*;
use crate::seams::*;
use crate::world::*;
use beekem::encrypted::EncryptedContent;
use keyhive_core::{
    access::Access,
    contact_card::ContactCard,
    event::Event,
    principal::group::id::GroupId,
};
use keyhive_crypto::symmetric_key::SymmetricKey;
use nonempty::NonEmpty;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

/// What a task of a burst left behind.
#[derive(Default)]
pub struct Out {
    pub ok: bool,
    pub note: String,
    /// events the call itself reported as its effect
    pub evs: Vec<Sev>,
    pub enc: Option<(EncryptedContent<Vec<u8>, T>, SymmetricKey)>,
    pub made: Option<(Id, bool)>,
    pub archive: Option<Vec<u8>>,
    pub wrong: Option<String>,
}
type Cell<X> = Rc<RefCell<X>>;

pub struct Started<'a> {
    pub what: String,
    pub task: Task<'a>,
    pub out: Cell<Out>,
    /// what was handed in
    pub given: Vec<usize>,
    /// for an encryption: the document, ref, plaintext and predecessors
    pub ct: Option<(usize, T, Vec<u8>, Vec<T>)>,
}

impl World {
    /// Could authority over `m` come to be held through a group while a burst is under way?
    fn may_be_mediated(&self, m: usize) -> bool {
        let id = self.mem[m].id;
        (0..self.mem.len()).any(|i| i != m && self.nests(&self.mem[i].id, &id))
    }

    /// Start one operation of node n, without running it.
    pub async fn start_op(&mut self, n: usize, op: Op, s: &Step, salt: u64) -> Option<Started<'static>> {
        let kh = self.nodes[n].kh.clone();
        let mut r = Prng::new(mix3(self.seed, s.id as u64, salt));
        let out: Cell<Out> = Default::default();
        let o = out.clone();
        let mut given = vec![];
        let mut ct = None;
        let (what, task): (String, Task<'static>) = match op {
            Op::Add => {
                let m = self.pick_known(n, r.u32()).await?;
                if self.cfg.scenario % 2 == 0 && self.may_be_mediated(m) {
                    return None;
                }
                let res = self.membered(n, m).await?;
                let ids = self.agent_ids();
                let ag = *r.pick(&ids);
                let mid = self.mem[m].id;
                if self.cfg.scenario % 2 == 0
                    && self.mem.iter().any(|x| x.id == ag)
                    && self.planned_edges.iter().any(|e| e.0 == mid)
                {
                    return None;
                }
                if let Some(g) = self.mem.iter().position(|x| x.id == ag) {
                    if self.nests(&self.mem[m].id, &ag)
                        || (self.mem[g].is_doc && !self.cfg.docs_nested)
                        || (!self.mem[g].is_doc && !self.cfg.groups_nested)
                        || (self.cfg.scenario % 2 == 1 && self.has_revocations(g))
                    {
                        return None;
                    }
                }
                let agent = self.agent(n, &ag).await?;
                self.planned_edges.push((self.mem[m].id, ag));
                let can = acc(r.u32());
                let what = format!("add {} to {} as {can:?}", self.name(&ag), self.name(&self.mem[m].id));
                (
                    what,
                    Box::pin(async move {
                        let x = kh.add_member(agent, &res, can, &[]).await;
                        let mut o = o.borrow_mut();
                        match x {
                            Ok(u) => {
                                o.ok = true;
                                o.evs.push(Event::Delegated(u.delegation).into());
                                o.evs.extend(
                                    u.cgka_ops.into_iter().map(|c| Sev::CgkaOperation(Box::new(c))),
                                );
                            }
                            Err(e) => o.note = e.to_string(),
                        }
                    }),
                )
            }
            Op::Revoke => {
                let m = self.pick_known(n, r.u32()).await?;
                if self.cfg.scenario % 2 == 0 && self.may_be_mediated(m) {
                    return None;
                }
                let mid = self.mem[m].id;
                self.planned_edges.push((mid, mid));
                if self.cfg.scenario % 2 == 1 && self.is_intermediary(m) {
                    return None;
                }
                let res = self.membered(n, m).await?;
                let mut ids: Vec<Id> = res.members().await.keys().map(|k| k.to_bytes()).collect();
                ids.sort();
                let who = *r.pick_opt(&ids)?;
                if self.cfg.scenario % 2 == 0
                    && ((self.direct_access(n, m).await < Some(Access::Admin)
                        && ids.iter().any(|i| self.mem.iter().any(|x| x.id == *i)))
                        || who == self.nodes[n].id)
                {
                    return None;
                }
                let retain = r.chance(1, 2);
                let what = format!("revoke {} from {} retain={retain}", self.name(&who), self.name(&self.mem[m].id));
                (
                    what,
                    Box::pin(async move {
                        let x = kh.revoke_member(ident(&who), retain, &res).await;
                        let mut o = o.borrow_mut();
                        match x {
                            Ok(u) => {
                                o.ok = true;
                                for x in u.revocations() {
                                    o.evs.push(Event::Revoked(x.clone()).into());
                                }
                                for x in u.redelegations() {
                                    o.evs.push(Event::Delegated(x.clone()).into());
                                }
                                for c in u.cgka_ops() {
                                    o.evs.push(Sev::CgkaOperation(Box::new(c.clone())));
                                }
                            }
                            Err(e) => o.note = e.to_string(),
                        }
                    }),
                )
            }
            Op::Expand => (
                "expand".into(),
                Box::pin(async move {
                    if let Ok(x) = kh.expand_prekeys().await {
                        let mut o = o.borrow_mut();
                        o.ok = true;
                        o.evs.push(Sev::PrekeysExpanded(Box::new((*x).clone())));
                    }
                }),
            ),
            Op::Rotate => {
                let old = self.pick_key(n, r.u32()).await;
                (
                    "rotate".into(),
                    Box::pin(async move {
                        if let Ok(x) = kh.rotate_prekey(old).await {
                            let mut o = o.borrow_mut();
                            o.ok = true;
                            o.evs.push(Sev::PrekeyRotated(Box::new((*x).clone())));
                        }
                    }),
                )
            }
            Op::Card if r.chance(1, 2) => (
                "hand out a contact card".into(),
                Box::pin(async move {
                    let c: Option<ContactCard> = if r.chance(1, 2) {
                        kh.contact_card().await.ok()
                    } else {
                        Some(kh.get_existing_contact_card().await)
                    };
                    if let Some(c) = c {
                        let mut o = o.borrow_mut();
                        o.ok = true;
                        o.evs.push(key_op_event(c.op()));
                    }
                }),
            ),
            Op::Card => {
                let from = r.usize(self.nodes.len());
                if from == n {
                    return None;
                }
                let card = self.nodes[from].kh.clone().get_existing_contact_card().await;
                let p = self.add_pool(key_op_event(card.op()), from, true);
                given.push(p);
                (
                    format!("take the contact card of U{from}"),
                    Box::pin(async move {
                        let x = kh.receive_contact_card(&card).await;
                        let mut o = o.borrow_mut();
                        match x {
                            Ok(_) => o.ok = true,
                            Err(e) => o.wrong = Some(format!("refused a contact card: {e}")),
                        }
                    }),
                )
            }
            Op::Encrypt => {
                let m = self.pick_known_doc(n, r.u32()).await?;
                let doc = self.doc(n, m).await?;
                let body = format!("burst content {} {salt} by U{n}", s.id).into_bytes();
                let cr = Prng::new(mix3(self.seed, 0xbc0de ^ salt, s.id as u64)).bytes32();
                let known: Vec<T> = self
                    .cts
                    .iter()
                    .filter(|c| c.doc == self.mem[m].id)
                    .map(|c| c.r)
                    .collect();
                let preds: Vec<T> = r.pick_opt(&known).copied().into_iter().collect();
                ct = Some((m, cr, body.clone(), preds.clone()));
                (
                    format!("encrypt in {}", self.name(&self.mem[m].id)),
                    Box::pin(async move {
                        let x = kh.try_encrypt_content_keyed(doc, &cr, &preds, &body).await;
                        let mut o = o.borrow_mut();
                        match x {
                            Ok((e, k)) => {
                                o.ok = true;
                                o.enc = Some((e.encrypted_content().clone(), k));
                                o.evs.extend(
                                    e.update_op().map(|c| Sev::CgkaOperation(Box::new(c.clone()))),
                                );
                            }
                            Err(e) => o.note = e.to_string(),
                        }
                    }),
                )
            }
            Op::Pcs => {
                let m = self.pick_known_doc(n, r.u32()).await?;
                let doc = self.doc(n, m).await?;
                (
                    format!("update keys of {}", self.name(&self.mem[m].id)),
                    Box::pin(async move {
                        let x = kh.force_pcs_update(doc).await;
                        let mut o = o.borrow_mut();
                        match x {
                            Ok((c, _, _)) => {
                                o.ok = true;
                                o.evs.push(Sev::CgkaOperation(Box::new(c)));
                            }
                            Err(e) => o.note = e.to_string(),
                        }
                    }),
                )
            }
            Op::NewDoc | Op::NewGroup => {
                let is_doc = op == Op::NewDoc;
                let mut peers = vec![];
                if r.chance(1, 2) {
                    let who = r.usize(self.nodes.len());
                    if who != n {
                        peers.extend(kh.get_peer(ident(&self.nodes[who].id)).await);
                    }
                }
                let head: T = r.bytes32();
                (
                    if is_doc { "new document" } else { "new group" }.into(),
                    Box::pin(async move {
                        let made = if is_doc {
                            match kh.generate_doc(peers, NonEmpty::new(head)).await {
                                Ok(d) => Some(d.lock().await.doc_id().to_bytes()),
                                Err(_) => None,
                            }
                        } else {
                            match kh.generate_group(peers).await {
                                Ok(d) => Some(d.lock().await.group_id().to_bytes()),
                                Err(_) => None,
                            }
                        };
                        let mut o = o.borrow_mut();
                        o.ok = made.is_some();
                        o.made = made.map(|i| (i, is_doc));
                    }),
                )
            }
            Op::Gossip | Op::Redeliver => {
                let mut all: Vec<usize> = if op == Op::Gossip {
                    self.missing(n)
                } else {
                    self.nodes[n].got.iter().copied().collect()
                };
                all.retain(|p| self.pool[*p].honest);
                r.shuffle(&mut all);
                all.truncate(1 + r.usize(12));
                if all.is_empty() {
                    return None;
                }
                let evs: Vec<Sev> = all.iter().map(|p| self.pool[*p].ev.clone()).collect();
                given = all;
                let single = r.chance(1, 3);
                (
                    format!("ingest {given:?}"),
                    Box::pin(async move {
                        if single {
                            for e in evs {
                                kh.ingest_unsorted_static_events(vec![e]).await;
                            }
                        } else {
                            kh.ingest_unsorted_static_events(evs).await;
                        }
                        o.borrow_mut().ok = true;
                    }),
                )
            }
            Op::Sync => {
                let ids = self.agent_ids();
                let ag = self.agent(n, r.pick(&ids)).await?;
                let k = r.below(6);
                (
                    format!("query {k}"),
                    Box::pin(async move {
                        match k {
                            0 => drop(kh.static_events_for_agent(&ag).await),
                            1 => drop(kh.membership_ops_for_all_agents().await),
                            2 => drop(kh.reachable_prekey_ops_for_all_agents().await),
                            3 => drop(kh.cgka_ops_for_all_agents().await),
                            4 => {
                                drop(kh.reachable_docs().await);
                                drop(kh.membered_reachable_by_agent(&ag).await);
                            }
                            _ => drop(kh.stats().await),
                        }
                        o.borrow_mut().ok = true;
                    }),
                )
            }
            Op::Check => {
                let m = self.pick_known(n, r.u32()).await?;
                let res = self.membered(n, m).await?;
                (
                    format!("members of {}", self.name(&self.mem[m].id)),
                    Box::pin(async move {
                        drop(kh.reachable_members(res).await);
                        o.borrow_mut().ok = true;
                    }),
                )
            }
            Op::Read => {
                if self.cts.is_empty() {
                    return None;
                }
                let c = r.usize(self.cts.len());
                let doc = self.doc_of(n, &self.cts[c].doc.clone()).await?;
                let (enc, plain) = (self.cts[c].enc.clone(), self.cts[c].plain.clone());
                (
                    format!("decrypt c{c}"),
                    Box::pin(async move {
                        let x = kh.try_decrypt_content(doc, &enc).await;
                        let mut o = o.borrow_mut();
                        match x {
                            Ok(b) => {
                                o.ok = true;
                                if b != plain {
                                    o.wrong = Some("decrypted to something else".into());
                                }
                            }
                            Err(e) => o.note = e.to_string(),
                        }
                    }),
                )
            }
            Op::Save => (
                "archive".into(),
                Box::pin(async move {
                    let a = kh.into_archive().await;
                    let mut o = o.borrow_mut();
                    o.ok = true;
                    o.archive = Some(bincode::serialize(&a).expect("archive encodes"));
                }),
            ),
            _ => return None,
        };
        Some(Started {
            what,
            task,
            out,
            given,
            ct,
        })
    }

    /// Readers of each document, as node n reports them.
    async fn readers_of(&self, n: usize) -> BTreeMap<usize, BTreeMap<Id, Access>> {
        let mut v = BTreeMap::new();
        for m in self.docs() {
            if let Some(x) = self.membered(n, m).await {
                let reach = self.nodes[n].kh.reachable_members(x).await;
                v.insert(
                    m,
                    reach
                        .into_iter()
                        .map(|(k, (_, a))| (k.to_bytes(), a))
                        .collect(),
                );
            }
        }
        v
    }

    pub async fn a01_burst(&mut self, n: usize, s: &Step) -> Res {
        self.reseed(n);
        let kinds: &[(Op, u32)] = &[
            (Op::Gossip, 10),
            (Op::Redeliver, 2),
            (Op::Add, 10),
            (Op::Revoke, 6),
            (Op::Encrypt, 8),
            (Op::Pcs, 4),
            (Op::Expand, 3),
            (Op::Rotate, 3),
            (Op::Card, 3),
            (Op::NewGroup, 2),
            (Op::NewDoc, 2),
            (Op::Sync, 5),
            (Op::Check, 3),
            (Op::Read, 3),
            (Op::Save, 2),
        ];
        let ws: Vec<u32> = kinds.iter().map(|k| k.1).collect();
        let mut r = Prng::new(mix3(self.seed, 0xb0057, s.id as u64));
        let k = 2 + (s.c as usize % 5);
        let before = self.readers_of(n).await;
        let got_before = self.nodes[n].got.clone();
        let mut all = vec![];
        self.planned_edges.clear();
        for j in 0..k {
            let op = kinds[r.weighted(&ws)].0;
            if let Some(x) = self.start_op(n, op, s, j as u64 + 1).await {
                all.push(x);
            }
        }
        if all.len() < 2 {
            return Ok(());
        }
        self.stats.hit("burst");
        let names: Vec<String> = all.iter().map(|a| a.what.clone()).collect();
        self.log(|| format!("U{n} at once: {}", names.join("; ")));
        let mut tasks = vec![];
        let mut rest = vec![];
        for a in all {
            self.stats.hit("burst-tasks");
            tasks.push(Some(a.task));
            rest.push((a.what, a.out, a.given, a.ct));
        }
        let mut sr = Prng::new(mix3(self.seed, 0x5c4ed, s.id as u64));
        let (outcome, h, _) = exec::run_tasks(tasks, &mut sr, &[]);
        self.stats.mark(h);
        match outcome {
            Outcome::AllDone => {}
            Outcome::Deadlock(live) => {
                let who: Vec<&str> = live.iter().map(|i| rest[*i].0.as_str()).collect();
                return viol(
                    "deadlock",
                    format!("U{n}: these wait for each other for ever: {}", who.join("; ")),
                );
            }
            Outcome::Livelock => {
                return viol("livelock", format!("U{n}: no end to {}", names.join("; ")))
            }
        }
        for (what, out, _, _) in &rest {
            let o = out.borrow();
            if let Some(w) = &o.wrong {
                return viol("wrong-result", format!("U{n}: {what}: {w}"));
            }
            let (ok, note) = (o.ok, o.note.clone());
            drop(o);
            self.log(|| format!("  {what}: {}", if ok { "ok".to_string() } else { note }));
        }
        for (_, out, given, _) in &rest {
            for g in given {
                self.nodes[n].got.insert(*g);
            }
            if let Some((id, is_doc)) = out.borrow().made {
                let step = self.step_id;
                self.mem.push(MemRef {
                    id,
                    is_doc,
                    creator: n,
                    step,
                });
            }
        }
        let told: BTreeSet<usize> = self.collect(n, true).into_iter().collect();
        let kh = self.nodes[n].kh.clone();
        let held = self.held(&kh).await;
        for (what, out, _, _) in &rest {
            let evs = std::mem::take(&mut out.borrow_mut().evs);
            for e in evs {
                let key = ev_key(&e);
                let known = self.pool_ix.get(&key).copied();
                if !held.contains_key(&key) {
                    return viol("success-without-effect", format!("U{n}: {what} reported success, but the node does not hold what it reported to have done"));
                }
                if !known.is_some_and(|p| told.contains(&p) || self.nodes[n].got.contains(&p)) {
                    return viol(
                        "success-not-announced",
                        format!("U{n}: {what} reported success without announcing all it did"),
                    );
                }
            }
            if let Some((id, is_doc)) = out.borrow().made {
                let i = ident(&id);
                let there = if is_doc {
                    kh.get_document(i.into()).await.is_some()
                } else {
                    kh.get_group(GroupId::new(i)).await.is_some()
                };
                if !there {
                    return viol("success-without-effect", format!("U{n}: {what} reported success, but the node does not know it"));
                }
            }
        }
        self.d02_nothing_lost(n).await?;
        let v = self.view(n).await;
        let p = self.pending(n).await;
        self.check_against_model(n, &v, &p)?;
        let after = self.readers_of(n).await;
        // a reader revoked and admitted again in one burst may not be one in between
        let revoked = told
            .iter()
            .copied()
            .chain(rest.iter().flat_map(|x| x.2.iter().copied()))
            .any(|p| !got_before.contains(&p) && matches!(self.pool[p].ev, Sev::Revoked(_)));
        for (_, out, _, ct) in rest {
            let o = std::mem::take(&mut *out.borrow_mut());
            if let (Some((enc, key)), Some((m, r, plain, preds))) = (o.enc, ct) {
                if enc.try_decrypt(key).ok().as_ref() != Some(&plain) {
                    return viol("reported-key-wrong", format!("U{n}: the key reported with a ciphertext does not decrypt it"));
                }
                // a reader both before and after was one when it happened
                let reach = before
                    .get(&m)
                    .into_iter()
                    .flatten()
                    .filter(|(i, a)| {
                        !revoked
                            && **a >= Access::Read
                            && after
                                .get(&m)
                                .and_then(|x| x.get(*i))
                                .is_some_and(|a| *a >= Access::Read)
                    })
                    .map(|(i, a)| (*i, *a))
                    .collect();
                self.cts.push(Ct {
                    pend: p.clone(),
                    upto: self.pool.len(),
                    key: Some(key),
                    parents: vec![],
                    payload: vec![],
                    doc: self.mem[m].id,
                    r,
                    enc,
                    plain,
                    preds,
                    by: n,
                    step: self.step_id,
                    reach,
                    base: self.nodes[n].got.clone(),
                });
            }
            if let Some(a) = o.archive {
                // an archive written in the middle is one the node can start from
                let t = self.twin_from(n, &a, 0xa1 + s.id as u64).await?;
                let upto: Vec<usize> = self.nodes[n].got.iter().copied().collect();
                let evs: Vec<Sev> = upto.iter().map(|p| self.pool[*p].ev.clone()).collect();
                t.ingest_unsorted_static_events(evs).await;
                let tv = node_view(&t).await;
                self.same_view(
                    &format!("U{n}"),
                    &v,
                    "the node started from an archive written meanwhile and caught up",
                    &tv,
                )?;
                self.stats.hit("probe:archive-mid-burst");
            }
        }
        self.stats.nontrivial += 1;
        Ok(())
    }
}

