//! Invariants evaluated while runs proceed and when they end.
use crate::model::{self, Ops};
use crate::seams::*;
use crate::world::*;
use keyhive_core::access::Access;
use std::collections::{BTreeMap, BTreeSet};

impl World {
    pub async fn view(&mut self, n: usize) -> View {
        let v = node_view(&self.nodes[n].kh).await;
        self.stats.states.insert(v.hash());
        v
    }

    pub async fn pending(&self, n: usize) -> BTreeSet<usize> {
        let k = pending_keys(&self.nodes[n].kh).await;
        k.iter()
            .filter_map(|k| self.pool_ix.get(k))
            .copied()
            .collect()
    }

    /// Would the oracle of this run's property have something to reject here?
    pub fn interesting(&self, n: usize, v: &View) -> bool {
        match self.plan.prop.as_str() {
            "M03" => v.m.values().any(|m| m.reach.len() > m.members.len()),
            "M04" => self.nodes[n]
                .got
                .iter()
                .any(|p| matches!(self.pool[*p].ev, Sev::Revoked(_))),
            "M05" => self.nodes[n].got.iter().any(|p| !self.pool[*p].honest),
            _ => v.m.values().any(|m| m.members.len() > 1),
        }
    }

    pub fn short(&self, m: &MView) -> String {
        m.members
            .iter()
            .map(|(i, d)| {
                format!(
                    "{}:{}",
                    self.name(i),
                    d.iter()
                        .map(|(s, a)| format!("{a:?}@{}", hx(s)))
                        .collect::<Vec<_>>()
                        .join("+")
                )
            })
            .collect::<Vec<_>>()
            .join(" ")
    }

    /// M02/M04/M05: everything node n reports is granted by what it has applied, everything
    /// certainly granted is reported, nothing certainly revoked or unauthorised is reported.
    pub fn check_against_model(&self, n: usize, view: &View, pend: &BTreeSet<usize>) -> Res {
        let applied: Vec<usize> = self.nodes[n]
            .got
            .iter()
            .copied()
            .filter(|p| !pend.contains(p))
            .collect();
        let ops = Ops::from_pool(applied.iter().map(|p| &self.pool[*p].ev));
        self.check_view(&format!("U{n}"), view, &ops)
    }

    pub fn check_view(&self, who: &str, view: &View, ops: &Ops) -> Res {
        let v = model::judge(ops);
        let by_sig: BTreeMap<(Id, Sig), &model::Dlg> = ops
            .dlgs
            .values()
            .map(|d| ((d.delegate, d.sig), d))
            .collect();
        for (id, m) in &view.m {
            for (mem, ds) in &m.members {
                for (sig, can) in ds {
                    let Some(d) = by_sig.get(&(*mem, *sig)) else {
                        return viol(
                            "grant-from-nowhere",
                            format!(
                                "{who} reports {} in {} by a delegation it never received",
                                self.name(mem),
                                self.name(id)
                            ),
                        );
                    };
                    if d.subject != Some(*id) || d.can != *can {
                        return viol(
                            "grant-misreported",
                            format!("{who} reports {} in {} with {can:?}; the delegation says {:?} in {:?}", self.name(mem), self.name(id), d.can, d.subject.map(|s| self.name(&s))),
                        );
                    }
                    if v.dead.contains(&d.key) {
                        let why = if v.valid[&d.key] == model::Tri::No {
                            "was never authorised"
                        } else if v.firm.iter().any(|r| ops.revs[r].revoke == d.key) {
                            "has been revoked by someone entitled to"
                        } else {
                            "rests only on revoked authority"
                        };
                        return viol(
                            "dead-grant-in-force",
                            format!(
                                "{who} reports {} in {} with {can:?}, but the delegation {why}",
                                self.name(mem),
                                self.name(id)
                            ),
                        );
                    }
                }
            }
        }
        for k in &v.live {
            let d = &ops.dlgs[k];
            let s = d.subject.unwrap();
            let Some(m) = view.m.get(&s) else {
                return viol(
                    "grant-lost",
                    format!(
                        "{who} does not know {} although it applied a valid delegation for it",
                        self.name(&s)
                    ),
                );
            };
            let ok = m
                .members
                .get(&d.delegate)
                .is_some_and(|x| x.contains(&(d.sig, d.can)));
            if !ok {
                return viol(
                    "grant-lost",
                    format!("{who} does not report {} in {} with {:?}, although the delegation is valid and nothing entitled has revoked it (reports: {})", self.name(&d.delegate), self.name(&s), d.can, self.short(m)),
                );
            }
        }
        Ok(())
    }

    /// M04: what a successful revocation does at the node that made it.
    pub fn revoke_effect(
        &mut self,
        n: usize,
        m: usize,
        who: &Id,
        retain: bool,
        before: &MView,
        after: &MView,
    ) -> Res {
        let subject = self.name(&self.mem[m].id);
        if after.members.contains_key(who) {
            return viol(
                "revoked-still-member",
                format!(
                    "U{n} revoked {} from {subject} and still reports it as a member: {}",
                    self.name(who),
                    self.short(after)
                ),
            );
        }
        let best = |v: &MView, i: &Id| v.members.get(i).and_then(|ds| ds.iter().map(|d| d.1).max());
        if retain {
            self.stats.hit("probe:revoke-retaining");
            for i in before.members.keys().filter(|i| *i != who) {
                if best(after, i) < best(before, i) {
                    return viol(
                        "retained-lost-access",
                        format!("U{n} revoked {} from {subject}, keeping the others; {} had {:?} and now has {:?}", self.name(who), self.name(i), best(before, i), best(after, i)),
                    );
                }
            }
        } else {
            self.stats.hit("probe:revoke-cascading");
            let ops = Ops::from_pool(self.pool.iter().filter(|p| p.honest).map(|p| &p.ev));
            for (i, ds) in before.members.iter().filter(|(i, _)| *i != who) {
                let rests = ds.iter().all(|(sig, _)| {
                    let Some(d) = ops.dlgs.values().find(|d| d.sig == *sig) else {
                        return false;
                    };
                    let through = d.lineage.iter().any(|l| ops.dlgs[l].delegate == *who);
                    // someone on the chain may have other authority of their own
                    let others = std::iter::once(d)
                        .chain(d.lineage.iter().map(|l| &ops.dlgs[l]))
                        .any(|x| {
                            x.issuer != self.mem[m].id && after.members.contains_key(&x.issuer)
                        })
                        || d.lineage.iter().any(|l| {
                            ops.dlgs[l].delegate != *who
                                && after.members.contains_key(&ops.dlgs[l].delegate)
                        });
                    let direct = std::iter::once(d)
                        .chain(d.lineage.iter().map(|l| &ops.dlgs[l]))
                        .all(|x| match x.proof {
                            None => true,
                            Some(p) => x.issuer == ops.dlgs[&p].delegate,
                        });
                    through && direct && !others
                });
                if rests {
                    self.stats.hit("probe:cascade-victim");
                    if after.members.contains_key(i) {
                        return viol(
                            "cascade-incomplete",
                            format!("U{n} revoked {} from {subject}, keeping nobody; {} had access only through it and still is a member: {}", self.name(who), self.name(i), self.short(after)),
                        );
                    }
                }
            }
        }
        Ok(())
    }

    pub fn same_view(&self, a: &str, va: &View, b: &str, vb: &View) -> Res {
        let ids: BTreeSet<&Id> = va.m.keys().chain(vb.m.keys()).collect();
        for id in ids {
            match (va.m.get(id), vb.m.get(id)) {
                (Some(x), Some(y)) => {
                    if x.is_doc != y.is_doc {
                        return viol(
                            "diverged-kind",
                            format!("{} is a document at one of {a}, {b} only", self.name(id)),
                        );
                    }
                    if x.members != y.members {
                        return viol(
                            "diverged-members",
                            format!(
                                "{} has different members at {a} ({}) and {b} ({})",
                                self.name(id),
                                self.short(x),
                                self.short(y)
                            ),
                        );
                    }
                    if x.revoked != y.revoked {
                        return viol(
                            "diverged-revoked",
                            format!(
                                "{} has different revoked members at {a} ({:?}) and {b} ({:?})",
                                self.name(id),
                                x.revoked.keys().map(|k| self.name(k)).collect::<Vec<_>>(),
                                y.revoked.keys().map(|k| self.name(k)).collect::<Vec<_>>()
                            ),
                        );
                    }
                    if x.reach != y.reach {
                        return viol(
                            "diverged-access",
                            format!(
                                "{} has different transitive access at {a} and {b}",
                                self.name(id)
                            ),
                        );
                    }
                }
                _ => {
                    return viol(
                        "diverged-known",
                        format!("{} is known at only one of {a}, {b}", self.name(id)),
                    )
                }
            }
        }
        Ok(())
    }

    /// M03 on one node.
    pub async fn check_reach(&self, n: usize, view: &View) -> Res {
        let direct: BTreeMap<Id, BTreeMap<Id, Access>> = view
            .m
            .iter()
            .map(|(id, m)| {
                (
                    *id,
                    m.members
                        .iter()
                        .map(|(i, ds)| (*i, ds.iter().map(|d| d.1).max().unwrap()))
                        .collect(),
                )
            })
            .collect();
        let mut want: BTreeMap<Id, BTreeMap<Id, Access>> = BTreeMap::new();
        for (id, m) in &view.m {
            let w = model::reach_from(&direct, id);
            if w != m.reach {
                for (i, a) in &w {
                    if m.reach.get(i) != Some(a) {
                        return viol(
                            "transitive-access",
                            format!(
                                "U{n}: {} should have {a:?} in {}, reported {:?}",
                                self.name(i),
                                self.name(id),
                                m.reach.get(i)
                            ),
                        );
                    }
                }
                for (i, a) in &m.reach {
                    if !w.contains_key(i) {
                        return viol(
                            "transitive-access",
                            format!(
                                "U{n}: {} should have no access in {}, reported {a:?}",
                                self.name(i),
                                self.name(id)
                            ),
                        );
                    }
                }
            }
            want.insert(*id, w);
        }
        let kh = &self.nodes[n].kh;
        for aid in self.agent_ids() {
            let Some(ag) = kh.get_agent(ident(&aid)).await else {
                continue;
            };
            let docs = kh.docs_reachable_by_agent(&ag).await;
            let mems = kh.membered_reachable_by_agent(&ag).await;
            let got_docs: BTreeMap<Id, Access> =
                docs.iter().map(|(d, a)| (d.to_bytes(), a.can())).collect();
            let got_mem: BTreeMap<Id, Access> =
                mems.iter().map(|(d, (_, a))| (d.to_bytes(), *a)).collect();
            let mut want_docs = BTreeMap::new();
            let mut want_mem = BTreeMap::new();
            for (id, w) in &want {
                if let Some(a) = w.get(&aid) {
                    want_mem.insert(*id, *a);
                    if view.m[id].is_doc {
                        want_docs.insert(*id, *a);
                    }
                }
            }
            if got_docs != want_docs {
                return viol(
                    "reachable-docs",
                    format!(
                        "U{n}: documents reachable by {}: reported {:?}, expected {:?}",
                        self.name(&aid),
                        self.names(&got_docs),
                        self.names(&want_docs)
                    ),
                );
            }
            if got_mem != want_mem {
                return viol(
                    "reachable-membered",
                    format!(
                        "U{n}: groups and documents reachable by {}: reported {:?}, expected {:?}",
                        self.name(&aid),
                        self.names(&got_mem),
                        self.names(&want_mem)
                    ),
                );
            }
            if aid == self.nodes[n].id {
                let own: BTreeMap<Id, Access> = kh
                    .reachable_docs()
                    .await
                    .iter()
                    .map(|(d, a)| (d.to_bytes(), a.can()))
                    .collect();
                if own != want_docs {
                    return viol(
                        "reachable-docs",
                        format!(
                            "U{n}: own reachable documents: reported {:?}, expected {:?}",
                            self.names(&own),
                            self.names(&want_docs)
                        ),
                    );
                }
            }
        }
        Ok(())
    }

    pub fn names(&self, m: &BTreeMap<Id, Access>) -> Vec<String> {
        m.iter()
            .map(|(i, a)| format!("{}={a:?}", self.name(i)))
            .collect()
    }

    /// A fresh node fed the whole honest pool (or a subset) in a seeded order and batching.
    pub async fn observer(&mut self, tag: u64, evs: &[usize]) -> Res<Kh> {
        let seed = crate::det::mix3(self.seed, 0x0b5, tag);
        let signer = SimSigner {
            key: std::rc::Rc::new(signing_key(seed, 9)),
            faults: Default::default(),
        };
        let kh = Kh::generate(
            signer,
            SimStore::default(),
            SimListener::default(),
            SimRng::new(seed),
        )
        .await
        .map_err(|e| Violation {
            kind: "generate-failed".into(),
            detail: format!("{e:?}"),
        })?;
        let mut r = crate::det::Prng::new(seed);
        let mut order = evs.to_vec();
        match tag % 4 {
            0 => r.shuffle(&mut order),
            1 => order.reverse(),
            2 => {
                r.shuffle(&mut order);
                let k = order.len() / 3;
                let again: Vec<usize> = (0..k).map(|_| *r.pick(&order)).collect();
                order.extend(again);
                r.shuffle(&mut order);
            }
            _ => {}
        }
        let whole = r.chance(1, 3);
        let mut i = 0;
        while i < order.len() {
            let k = if whole { order.len() } else { 1 + r.usize(6) };
            let b: Vec<Sev> = order[i..(i + k).min(order.len())]
                .iter()
                .map(|p| self.pool[*p].ev.clone())
                .collect();
            self.stats.add("delivered-events", b.len() as u64);
            kh.ingest_unsorted_static_events(b).await;
            i += k;
        }
        Ok(kh)
    }

    /// M01: nodes with the same events agree exactly, whatever the order.
    pub async fn check_convergence(&mut self, observers: u64) -> Res {
        let mut views = vec![];
        for n in 0..self.nodes.len() {
            views.push(self.view(n).await);
        }
        if views[0].m.values().any(|m| m.members.len() > 1) {
            self.stats.nontrivial += 1;
        }
        for n in 1..views.len() {
            self.same_view("U0", &views[0], &format!("U{n}"), &views[n])?;
        }
        let all: Vec<usize> = (0..self.pool.len()).collect();
        for o in 0..observers {
            let tag = crate::det::mix3(self.step_id as u64, o, 3);
            let kh = self.observer(tag, &all).await?;
            let v = node_view(&kh).await;
            self.same_view("U0", &views[0], &format!("observer{o}"), &v)?;
        }
        Ok(())
    }
}
