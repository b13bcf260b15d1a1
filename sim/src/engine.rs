//! Generic execution of plan steps against a World.
use crate::attack;
use crate::det::{mix3, Prng};
use crate::plan::*;
use crate::world::*;
use keyhive_core::access::Access;

impl World {
    /// (node, membered) pairs where the node knows the membered and is a direct member
    pub async fn direct_access(&self, n: usize, m: usize) -> Option<Access> {
        let x = self.membered(n, m).await?;
        let id = ident(&self.nodes[n].id);
        x.get_capability(&id).await.map(|d| d.payload().can())
    }

    /// Has `m` ever been a delegate of anything (so that grants may be mediated through it)?
    pub fn is_intermediary(&self, m: usize) -> bool {
        let id = self.mem[m].id;
        self.grant_edges().iter().any(|(_, d)| *d == id)
    }
    pub fn has_revocations(&self, m: usize) -> bool {
        let id = self.mem[m].id;
        let o = crate::model::Ops::from_pool(self.pool.iter().filter(|p| p.honest).map(|p| &p.ev));
        o.revs
            .values()
            .any(|r| o.dlgs.get(&r.revoke).and_then(|d| d.subject) == Some(id))
    }

    /// Membered objects known to node n.
    pub async fn known(&self, n: usize) -> Vec<usize> {
        let mut v = vec![];
        for m in 0..self.mem.len() {
            if self.membered(n, m).await.is_some() {
                v.push(m);
            }
        }
        v
    }
    pub async fn pick_known(&self, n: usize, x: u32) -> Option<usize> {
        let v = self.known(n).await;
        if v.is_empty() {
            None
        } else {
            Some(v[x as usize % v.len()])
        }
    }
    pub async fn pick_known_doc(&self, n: usize, x: u32) -> Option<usize> {
        let v: Vec<usize> = self
            .known(n)
            .await
            .into_iter()
            .filter(|m| self.mem[*m].is_doc)
            .collect();
        if v.is_empty() {
            None
        } else {
            Some(v[x as usize % v.len()])
        }
    }

    fn pick_agent(&self, x: u32, nest: bool) -> Option<Id> {
        let users = self.nodes.len() as u32;
        if self.cfg.public_pct > 0 && (x >> 8) % 100 < self.cfg.public_pct {
            return Some(keyhive_core::principal::public::Public.id().to_bytes());
        }
        if nest && !self.mem.is_empty() && x % 3 == 0 {
            let i = (x / 3) as usize % self.mem.len();
            if (self.mem[i].is_doc && !self.cfg.docs_nested)
                || (!self.mem[i].is_doc && !self.cfg.groups_nested)
            {
                return None;
            }
            return Some(self.mem[i].id);
        }
        Some(self.nodes[(x % users) as usize].id)
    }

    /// Should this user's change to `m` be skipped because it would rest on authority held only
    /// through a group in a run that also revokes inside groups (see DESIGN.md, known findings)?
    pub async fn mediated(&self, n: usize, m: usize) -> bool {
        self.direct_access(n, m).await.is_none() && self.membered(n, m).await.is_some()
    }

    pub async fn exec_step(&mut self, s: &Step) -> Res {
        let mut r = Prng::new(mix3(self.seed, 0x57e9, s.id as u64));
        let n = self.nix(s.n);
        let mut did = true;
        match s.op {
            Op::NewGroup | Op::NewDoc => {
                let mut co = vec![];
                if s.a % 4 == 0 {
                    if let Some(a) = self.pick_agent(s.b, s.c % 3 == 0) {
                        if a != self.nodes[n].id {
                            co.push(a);
                        }
                    }
                }
                did = self.op_new(n, s.op == Op::NewDoc, co).await?;
            }
            Op::Add => {
                let Some(m) = self.pick_known(n, s.a).await else {
                    return Ok(());
                };
                let nest = self.cfg.groups_nested || self.cfg.docs_nested;
                let Some(ag) = self.pick_agent(s.b, nest) else {
                    return Ok(());
                };
                // grants mediated through groups and revocations inside those groups are
                // exercised in different runs
                if self.mediated(n, m).await && self.cfg.scenario % 2 == 0 {
                    return Ok(());
                }
                if self.cfg.scenario % 2 == 1 {
                    if let Some(mi) = self.mem.iter().position(|x| x.id == ag) {
                        if self.has_revocations(mi) {
                            return Ok(());
                        }
                    }
                }
                did = self.op_add(n, m, ag, acc(s.c)).await?;
            }
            Op::Revoke => {
                let Some(m) = self.pick_known(n, s.a).await else {
                    return Ok(());
                };
                if self.mediated(n, m).await && self.cfg.scenario % 2 == 0 {
                    return Ok(());
                }
                if self.cfg.scenario % 2 == 1 && self.is_intermediary(m) {
                    return Ok(());
                }
                let Some(x) = self.membered(n, m).await else {
                    return Ok(());
                };
                let mut ids: Vec<Id> = x.members().await.keys().map(|k| k.to_bytes()).collect();
                ids.sort();
                if ids.is_empty() {
                    return Ok(());
                }
                if self.cfg.scenario % 2 == 0
                    && self.direct_access(n, m).await < Some(Access::Admin)
                    && ids.iter().any(|i| self.mem.iter().any(|x| x.id == *i))
                {
                    // short of Admin, a revocation may come to rest on a nested group
                    return Ok(());
                }
                let who = ids[s.b as usize % ids.len()];
                if who == self.nodes[n].id && self.cfg.scenario % 2 == 0 {
                    // leaving, with a way back in through a group: what follows is mediated
                    for id in ids.iter().filter(|i| **i != who) {
                        if let Some(g) = self.mem.iter().position(|x| x.id == *id) {
                            if let Some(g) = self.membered(n, g).await {
                                if self.nodes[n]
                                    .kh
                                    .reachable_members(g)
                                    .await
                                    .contains_key(&ident(&who))
                                {
                                    return Ok(());
                                }
                            }
                        }
                    }
                }
                let retain = self.cfg.retain_only || s.c % 2 == 0;
                did = self.op_revoke(n, m, who, retain).await?;
            }
            Op::Expand => {
                did = self.op_expand(n).await?;
            }
            Op::Rotate => {
                did = self.op_rotate(n, s.a).await?;
            }
            Op::Card => {
                let to = self.nix(s.a);
                did = self.op_card(n, to, s.b % 2 == 0).await?;
            }
            Op::Pcs => {
                let Some(m) = self.pick_known_doc(n, s.a).await else {
                    return Ok(());
                };
                did = self.op_pcs(n, m).await?;
            }
            Op::Encrypt => {
                let Some(m) = self.pick_known_doc(n, s.a).await else {
                    return Ok(());
                };
                let body = format!("content {} by U{n} in {m}", s.id).into_bytes();
                let mine: Vec<_> = self
                    .cts
                    .iter()
                    .filter(|c| c.doc == self.mem[m].id)
                    .map(|c| c.r)
                    .collect();
                let mut preds = vec![];
                if !mine.is_empty() && s.b % 3 != 0 {
                    preds.push(mine[s.c as usize % mine.len()]);
                }
                did = self.op_encrypt(n, m, body, preds).await?.is_some();
            }
            Op::Sync => {
                let to = self.nix(s.a);
                if to != n {
                    let tid = self.nodes[to].id;
                    if let Some(evs) = self.offer(n, &tid).await {
                        self.send(n, to, evs, &mut r);
                        self.stats.hit("net:sync");
                    }
                }
            }
            Op::Gossip => {
                let to = self.nix(s.a);
                if to != n {
                    let have: Vec<usize> = self.nodes[n]
                        .got
                        .iter()
                        .copied()
                        .filter(|p| s.b % 4 == 0 || !self.nodes[to].got.contains(p))
                        .collect();
                    let keep = 1 + s.c as u64 % 4;
                    let evs: Vec<usize> = have
                        .into_iter()
                        .filter(|_| keep == 4 || r.chance(keep, 4))
                        .collect();
                    self.log(|| format!("U{n} gossips {} events to U{to}", evs.len()));
                    self.send(n, to, evs, &mut r);
                    self.stats.hit("net:gossip");
                }
            }
            Op::Redeliver => {
                let have: Vec<usize> = self.nodes[n].got.iter().copied().collect();
                if have.is_empty() {
                    return Ok(());
                }
                let k = 1 + s.a as usize % 12;
                let mut evs: Vec<usize> = (0..k).map(|_| *r.pick(&have)).collect();
                r.shuffle(&mut evs);
                self.stats.hit("fault:redelivery");
                self.deliver(n, &evs, s.b).await?;
            }
            Op::SyncAll => {
                self.exchange_all(&mut r).await?;
            }
            Op::Partition => {
                let k = self.nodes.len();
                for i in 0..k {
                    for j in i + 1..k {
                        if (s.a >> (i % 16)) & 1 != (s.a >> (j % 16)) & 1 {
                            self.blocked.insert((i, j));
                        }
                    }
                }
                self.stats.hit("fault:partition");
                self.log(|| "partition".into());
            }
            Op::Heal => {
                self.blocked.clear();
                self.log(|| "heal".into());
            }
            Op::Save => self.save(n).await?,
            Op::Restart => self.restart_now(n).await?,
            Op::CrashStale => {
                did = self.restart_stale(n).await?;
            }
            Op::Attack if self.plan.prop == "P01" => {
                let key = attack::attacker_key(self, s);
                let Some(evs) = attack::forge_prekey(self, s.c, &key, &mut r) else {
                    return Ok(());
                };
                let mut ps = vec![];
                for (ev, what) in evs {
                    let p = self.add_pool(ev, usize::MAX, false);
                    self.log(|| format!("attack {p}: {what}"));
                    self.stats.hit(&format!("attack:{what}"));
                    ps.push(p);
                }
                if let Some(u) = self
                    .nodes
                    .iter()
                    .position(|x| x.id == key.verifying_key().to_bytes())
                {
                    self.nodes[u].lossy = true;
                }
                r.shuffle(&mut ps);
                self.deliver(n, &ps, s.a).await?;
            }
            Op::Attack => {
                let key = attack::attacker_key(self, s);
                if let Some((ev, what)) = attack::forge(self, s.c, &key, &mut r) {
                    let fresh = !self.pool_ix.contains_key(&ev_key(&ev));
                    let p = self.add_pool(ev, usize::MAX, false);
                    if fresh {
                        self.log(|| format!("attack {p}: {what}"));
                        self.stats.hit(&format!("attack:{what}"));
                    }
                    let mut evs = vec![p];
                    if s.d % 3 == 0 {
                        // hide it among honest events
                        let have: Vec<usize> = (0..self.pool.len()).collect();
                        for _ in 0..1 + s.d % 5 {
                            evs.push(*r.pick(&have));
                        }
                        r.shuffle(&mut evs);
                    }
                    self.deliver(n, &evs, s.a).await?;
                } else {
                    did = false;
                }
            }
            _ => {}
        }
        self.stats.mark(mix3(
            s.op as u64,
            n as u64,
            did as u64 + 2 * self.pool.len() as u64,
        ));
        Ok(())
    }
}
