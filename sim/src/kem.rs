//! The key-agreement layer on its own (K01, and the removed-member half of K03): many members,
//! each with its own `Cgka`, exchanging operations over a simulated network in any causal order.
use crate::det::{mix3, Prng};
use crate::plan::*;
use crate::seams::*;
use crate::world::*;
use beekem::cgka::Cgka;
use beekem::error::CgkaError;
use beekem::id::{MemberId, TreeId};
use beekem::keys::ShareKeyMap;
use beekem::operation::CgkaOperation;
use beekem::pcs_key::PcsKey;
use future_form::Local;
use keyhive_crypto::digest::Digest;
use keyhive_crypto::share_key::{ShareKey, ShareSecretKey};
use keyhive_crypto::signed::Signed;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

pub struct KOp {
    pub op: Arc<Signed<CgkaOperation>>,
    pub author: usize,
    /// everything it depends on, itself included
    pub past: BTreeSet<usize>,
    /// for updates: the key its author derived and who was in the group then
    pub key: Option<PcsKey>,
    pub members: BTreeSet<usize>,
}

pub struct KMem {
    pub id: MemberId,
    pub signer: SimSigner,
    pub rng: SimRng,
    pub prekeys: Vec<(ShareKey, ShareSecretKey)>,
    pub cg: Option<Cgka>,
    pub had: BTreeSet<usize>,
}

pub struct Kem<'a> {
    pub w: &'a mut World,
    pub tree: TreeId,
    pub mem: Vec<KMem>,
    pub ops: Vec<KOp>,
    pub ix: BTreeMap<Vec<u8>, usize>,
    /// also check what those outside the group can derive (K03)
    pub secrecy: bool,
}

fn dig(op: &Signed<CgkaOperation>) -> Vec<u8> {
    Digest::hash(op).as_slice().to_vec()
}

impl<'a> Kem<'a> {
    pub async fn new(w: &'a mut World, secrecy: bool) -> Result<Kem<'a>, Violation> {
        let seed = w.seed;
        let k = w.cfg.nodes as usize;
        let mut mem = vec![];
        for i in 0..k {
            let key = signing_key(seed, 100 + i as u64);
            let mut rng = SimRng::new(mix3(seed, 0x6e6, i as u64));
            let prekeys = (0..3)
                .map(|_| {
                    let sk = ShareSecretKey::generate(&mut rng);
                    (sk.share_key(), sk)
                })
                .collect();
            mem.push(KMem {
                id: MemberId(key.verifying_key()),
                signer: SimSigner {
                    key: std::rc::Rc::new(key),
                    faults: Default::default(),
                },
                rng,
                prekeys,
                cg: None,
                had: BTreeSet::new(),
            });
        }
        let tree = TreeId(signing_key(seed, 99).verifying_key());
        let mut me = Kem {
            w,
            tree,
            mem,
            ops: vec![],
            ix: BTreeMap::new(),
            secrecy,
        };
        let (pk, _) = me.mem[0].prekeys[0];
        let sks = me.sks(0);
        let cg = Cgka::new::<Local, _>(tree, me.mem[0].id, pk, &me.mem[0].signer)
            .await
            .and_then(|c| c.with_new_owner(me.mem[0].id, sks))
            .map_err(|e| Violation {
                kind: "new-failed".into(),
                detail: format!("{e:?}"),
            })?;
        let init = Arc::new(cg.init_add_op());
        me.mem[0].cg = Some(cg);
        me.record(0, init, None, BTreeSet::from([0]));
        Ok(me)
    }

    fn sks(&self, i: usize) -> ShareKeyMap {
        let mut m = ShareKeyMap::new();
        for (pk, sk) in &self.mem[i].prekeys {
            m.insert(*pk, *sk);
        }
        m
    }

    fn record(
        &mut self,
        author: usize,
        op: Arc<Signed<CgkaOperation>>,
        key: Option<PcsKey>,
        members: BTreeSet<usize>,
    ) -> usize {
        let i = self.ops.len();
        let mut past = BTreeSet::from([i]);
        for p in op.payload.predecessors() {
            if let Some(j) = self.ix.get(p.as_slice()) {
                past.extend(self.ops[*j].past.iter().copied());
            }
        }
        self.ix.insert(dig(&op), i);
        self.ops.push(KOp {
            op,
            author,
            past,
            key,
            members,
        });
        self.mem[author].had.insert(i);
        i
    }

    /// Who is in the group as `cg` sees it (asked of a copy, through the operations themselves).
    pub async fn group(&self, i: usize) -> BTreeSet<usize> {
        let mut out = BTreeSet::new();
        let Some(cg) = &self.mem[i].cg else {
            return out;
        };
        let mut c = cg.clone();
        let mut rng = SimRng::new(mix3(self.w.seed, 0x96b, i as u64));
        let sk = ShareSecretKey::generate(&mut rng);
        let signer = SimSigner {
            key: self.mem[i].signer.key.clone(),
            faults: Default::default(),
        };
        // lets the copy settle concurrent operations first
        let _ = c
            .update::<Local, _, _>(sk.share_key(), sk, &signer, &mut rng)
            .await;
        for (j, m) in self.mem.iter().enumerate() {
            if matches!(
                c.add::<Local, _>(m.id, sk.share_key(), &signer).await,
                Ok(None)
            ) {
                out.insert(j);
            }
        }
        out
    }

    /// By definition: in if some addition has no removal after or beside it, out if every addition
    /// has a removal after it; in between, the library decides.
    fn model(&self, had: &BTreeSet<usize>) -> (BTreeSet<usize>, BTreeSet<usize>) {
        let (mut inn, mut out) = (BTreeSet::new(), BTreeSet::new());
        for (j, m) in self.mem.iter().enumerate() {
            let adds: Vec<usize> = had.iter().copied().filter(|o| matches!(&self.ops[*o].op.payload, CgkaOperation::Add { added_id, .. } if *added_id == m.id)).collect();
            let rems: Vec<usize> = had.iter().copied().filter(|o| matches!(&self.ops[*o].op.payload, CgkaOperation::Remove { id, .. } if *id == m.id)).collect();
            if adds
                .iter()
                .any(|a| rems.iter().all(|r| self.ops[*a].past.contains(r)))
            {
                inn.insert(j);
            }
            if adds
                .iter()
                .all(|a| rems.iter().any(|r| self.ops[*r].past.contains(a)))
            {
                out.insert(j);
            }
        }
        (inn, out)
    }

    /// Give member `to` the operations `evs`, in this order.
    pub fn deliver(&mut self, to: usize, evs: &[usize]) -> Res {
        for o in evs {
            let op = self.ops[*o].op.clone();
            let ready = self.ops[*o]
                .past
                .iter()
                .all(|p| p == o || self.mem[to].had.contains(p));
            if self.mem[to].cg.is_none() {
                if *o != 0 {
                    continue;
                }
                let CgkaOperation::Add { added_id, pk, .. } = op.payload else {
                    unreachable!()
                };
                let sks = self.sks(to);
                let cg = Cgka::new_from_init_add(self.tree, added_id, pk, (*op).clone())
                    .and_then(|c| c.with_new_owner(self.mem[to].id, sks))
                    .map_err(|e| Violation {
                        kind: "join-failed".into(),
                        detail: format!("{e:?}"),
                    })?;
                self.mem[to].cg = Some(cg);
                self.mem[to].had.insert(0);
                continue;
            }
            let had = self.mem[to].had.contains(o);
            let r = self.mem[to]
                .cg
                .as_mut()
                .unwrap()
                .merge_concurrent_operation(op);
            match r {
                Ok(true) if !had && ready => {
                    self.mem[to].had.insert(*o);
                }
                Ok(false) if had => {}
                Err(CgkaError::OutOfOrderOperation) if !ready && !had => {
                    self.w.stats.hit("fault:early-operation");
                }
                r => {
                    return viol(
                        "merge-result",
                        format!(
                            "M{to} gets operation {o} ({}; {}) and answers {r:?}",
                            if had { "again" } else { "new" },
                            if ready {
                                "its predecessors are there"
                            } else {
                                "a predecessor is missing"
                            }
                        ),
                    )
                }
            }
        }
        Ok(())
    }

    fn closure_order(&self, evs: &BTreeSet<usize>, r: &mut Prng) -> Vec<usize> {
        // a random causal order
        let mut left: BTreeSet<usize> = evs.clone();
        let mut out = vec![];
        while !left.is_empty() {
            let ready: Vec<usize> = left
                .iter()
                .copied()
                .filter(|o| {
                    self.ops[*o]
                        .past
                        .iter()
                        .all(|p| p == o || !left.contains(p))
                })
                .collect();
            let x = *r.pick(&ready);
            left.remove(&x);
            out.push(x);
        }
        out
    }

    pub async fn local(&mut self, s: &Step, n: usize) -> Res {
        let step = s.id;
        self.mem[n].rng.reseed(self.w.seed, step as u64, n as u64);
        let Some(cg) = &self.mem[n].cg else {
            return Ok(());
        };
        let mut cg = cg.clone();
        let before = cg.clone();
        let group = self.group(n).await;
        if !group.contains(&n) {
            return Ok(());
        }
        let signer = self.mem[n].signer.clone();
        let fails = self.mem[n].signer.faults.sign_failed.get();
        match s.op {
            Op::Add => {
                let x = s.a as usize % self.mem.len();
                if x == n {
                    return Ok(());
                }
                let (pk, _) = self.mem[x].prekeys[s.b as usize % 3];
                match cg.add::<Local, _>(self.mem[x].id, pk, &signer).await {
                    Ok(Some(op)) => {
                        let i = self.record(n, Arc::new(op), None, BTreeSet::new());
                        self.w.log(|| format!("{i}: M{n} adds M{x}"));
                        if group.contains(&x) {
                            return viol(
                                "added-twice",
                                format!("M{n} adds M{x}, who it has in the group already"),
                            );
                        }
                    }
                    Ok(None) => {
                        if !group.contains(&x) {
                            return viol(
                                "add-refused",
                                format!("M{n} cannot add M{x}, who is not in the group"),
                            );
                        }
                    }
                    Err(CgkaError::SigningError(_)) if signer.faults.sign_failed.get() > fails => {
                        cg = before
                    }
                    Err(e) => return viol("add-failed", format!("M{n} adding M{x}: {e:?}")),
                }
            }
            Op::Revoke => {
                let v: Vec<usize> = group.iter().copied().collect();
                let x = v[s.a as usize % v.len()];
                if v.len() == 1 {
                    return Ok(());
                }
                match cg.remove::<Local, _>(self.mem[x].id, &signer).await {
                    Ok(Some(op)) => {
                        let i = self.record(n, Arc::new(op), None, BTreeSet::new());
                        self.w.log(|| format!("{i}: M{n} removes M{x}"));
                    }
                    Err(CgkaError::SigningError(_)) if signer.faults.sign_failed.get() > fails => {
                        cg = before
                    }
                    r => return viol("remove-failed", format!("M{n} removing M{x}: {r:?}")),
                }
            }
            _ => {
                let mut rng = self.mem[n].rng.clone();
                let sk = ShareSecretKey::generate(&mut rng);
                match cg
                    .update::<Local, _, _>(sk.share_key(), sk, &signer, &mut rng)
                    .await
                {
                    Ok((key, op)) => {
                        let g = group.clone();
                        let i = self.record(n, Arc::new(op), Some(key), g);
                        self.w.log(|| format!("{i}: M{n} updates; group {group:?}"));
                        let now = cg.pcs_key_from_tree_root();
                        if !matches!(&now, Ok(k) if *k == key) {
                            return viol("own-update", format!("after M{n}'s own update {i} it has {} instead of the key it was told", shape(&now)));
                        }
                    }
                    Err(CgkaError::SigningError(_)) if signer.faults.sign_failed.get() > fails => {
                        cg = before
                    }
                    Err(e) => {
                        return viol(
                            "update-failed",
                            format!(
                            "M{n} is in the group {group:?} and cannot establish a secret: {e:?}"
                        ),
                        )
                    }
                }
            }
        }
        self.mem[n].cg = Some(cg);
        Ok(())
    }

    /// What member i can and cannot derive.
    pub async fn check_member(&mut self, i: usize) -> Res {
        let Some(cg) = self.mem[i].cg.clone() else {
            return Ok(());
        };
        let group = self.group(i).await;
        let (inn, out) = self.model(&self.mem[i].had);
        // removals of each other never leave the group empty: the library lets one survive
        let rems: Vec<usize> = self.mem[i]
            .had
            .iter()
            .copied()
            .filter(|o| matches!(self.ops[*o].op.payload, CgkaOperation::Remove { .. }))
            .collect();
        let crossed = rems.iter().any(|a| {
            rems.iter()
                .any(|b| a != b && !self.ops[*a].past.contains(b) && !self.ops[*b].past.contains(a))
        });
        if !inn.is_subset(&group) || group.intersection(&out).count() > crossed as usize {
            return viol(
                "group",
                format!("M{i} has the group {group:?}; it must contain {inn:?} and not {out:?}"),
            );
        }
        for o in self.mem[i].had.clone() {
            let op = &self.ops[o];
            let Some(key) = op.key else { continue };
            let mut c = cg.clone();
            let got = c.secret(&Digest::hash(&key), &Digest::hash(&*op.op));
            if op.members.contains(&i) {
                if op.members.len() > 1 && op.author != i {
                    self.w.stats.nontrivial += 1;
                }
                if !matches!(&got, Ok(k) if *k == key) {
                    return viol(
                        "past-secret",
                        format!(
                            "M{i} was in the group {:?} at M{}'s update {o} and derives {} for it",
                            op.members,
                            op.author,
                            shape(&got)
                        ),
                    );
                }
            } else if self.secrecy {
                self.w.stats.nontrivial += 1;
                if matches!(&got, Ok(k) if *k == key) {
                    return viol("secret-leaked", format!("M{i} was not in the group {:?} at M{}'s update {o} and derives its secret", op.members, op.author));
                }
            }
        }
        Ok(())
    }

    /// Members that have applied the same operations agree on the present secret.
    pub async fn check_agree(&mut self) -> Res {
        for i in 0..self.mem.len() {
            for j in 0..i {
                let (a, b) = (&self.mem[i], &self.mem[j]);
                let (Some(x), Some(y)) = (&a.cg, &b.cg) else {
                    continue;
                };
                if a.had != b.had {
                    continue;
                }
                let (mut x, mut y) = (x.clone(), y.clone());
                let (ga, gb) = (self.group(i).await, self.group(j).await);
                if ga != gb {
                    return viol(
                        "group-differs",
                        format!(
                            "after the same operations M{i} has the group {ga:?} and M{j} {gb:?}"
                        ),
                    );
                }
                if x.has_pcs_key() != y.has_pcs_key() {
                    return viol(
                        "has-key-differs",
                        format!(
                            "after the same operations M{i} {} and M{j} {}",
                            tell(x.has_pcs_key()),
                            tell(y.has_pcs_key())
                        ),
                    );
                }
                if ga.contains(&i) && ga.contains(&j) && x.has_pcs_key() {
                    self.w.stats.nontrivial += 1;
                    let (ka, kb) = (x.pcs_key_from_tree_root(), y.pcs_key_from_tree_root());
                    match (&ka, &kb) {
                        (Ok(p), Ok(q)) if p == q => {}
                        _ => {
                            return viol(
                                "secret-differs",
                                format!(
                                    "after the same operations M{i} derives {} and M{j} {}{}",
                                    shape(&ka),
                                    shape(&kb),
                                    if ka.is_ok() && kb.is_ok() {
                                        ", different"
                                    } else {
                                        ""
                                    }
                                ),
                            )
                        }
                    }
                }
                match (x.ops(), y.ops()) {
                    (Ok(p), Ok(q)) if p == q => {}
                    _ => {
                        return viol(
                            "order-differs",
                            format!("M{i} and M{j} order the same operations differently"),
                        )
                    }
                }
            }
        }
        Ok(())
    }

    /// Any member can establish a fresh secret that every other current member then derives.
    pub async fn check_progress(&mut self, n: usize) -> Res {
        let Some(cg) = &self.mem[n].cg else {
            return Ok(());
        };
        let mut c = cg.clone();
        let group = self.group(n).await;
        if !group.contains(&n) {
            return Ok(());
        }
        let mut rng = SimRng::new(mix3(self.w.seed, 0x9609, n as u64));
        let sk = ShareSecretKey::generate(&mut rng);
        let signer = SimSigner {
            key: self.mem[n].signer.key.clone(),
            faults: Default::default(),
        };
        let (key, op) = match c
            .update::<Local, _, _>(sk.share_key(), sk, &signer, &mut rng)
            .await
        {
            Ok(x) => x,
            Err(e) => {
                return viol(
                    "update-failed",
                    format!("M{n} is in the group {group:?} and cannot establish a secret: {e:?}"),
                )
            }
        };
        let op = Arc::new(op);
        for j in 0..self.mem.len() {
            if j == n || !self.mem[n].had.is_subset(&self.mem[j].had) {
                continue;
            }
            let Some(cg) = &self.mem[j].cg else { continue };
            let same = self.mem[n].had == self.mem[j].had;
            let mut c = cg.clone();
            match c.merge_concurrent_operation(op.clone()) {
                Ok(true) => {}
                r => {
                    return viol(
                        "merge-result",
                        format!("M{j} gets M{n}'s fresh update and answers {r:?}"),
                    )
                }
            }
            if group.contains(&j) {
                self.w.stats.nontrivial += 1;
                let now = if same {
                    c.pcs_key_from_tree_root()
                } else {
                    c.secret(&Digest::hash(&key), &Digest::hash(&*op))
                };
                if !matches!(&now, Ok(k) if *k == key) {
                    return viol("fresh-secret", format!("M{n} establishes a secret in the group {group:?} and M{j} derives {}{}", shape(&now), if now.is_ok() { " (another)" } else { "" }));
                }
            } else if self.secrecy {
                let now = c.secret(&Digest::hash(&key), &Digest::hash(&*op));
                if matches!(&now, Ok(k) if *k == key) {
                    return viol(
                        "secret-leaked",
                        format!(
                            "M{n} establishes a secret in the group {group:?} and M{j} derives it"
                        ),
                    );
                }
            }
        }
        Ok(())
    }

    pub async fn run(&mut self) -> Res {
        let steps = self.w.plan.steps.clone();
        for s in &steps {
            self.w.step_id = s.id;
            self.w.tick += 1;
            self.w.stats.ticks += 1;
            let mut r = self.w.plan.rng(s);
            let k = self.mem.len();
            let n = s.n as usize % k;
            match s.op {
                Op::Add | Op::Revoke | Op::Pcs => self.local(s, n).await?,
                Op::SignFault => {
                    let f = self.mem[n].signer.faults.clone();
                    f.sign_fail_at.set(Some(f.sign_calls.get()));
                    let mut i = s.clone();
                    i.op = [Op::Add, Op::Revoke, Op::Pcs][s.c as usize % 3];
                    let b = f.sign_failed.get();
                    self.local(&i, n).await?;
                    f.sign_fail_at.set(None);
                    if f.sign_failed.get() > b {
                        self.w.stats.hit("fault:signing-failed");
                    }
                }
                Op::Gossip => {
                    let to = s.a as usize % k;
                    if to == n {
                        continue;
                    }
                    let miss: BTreeSet<usize> = self.mem[n]
                        .had
                        .difference(&self.mem[to].had)
                        .copied()
                        .collect();
                    let mut evs = self.closure_order(&miss, &mut r);
                    match s.b % 4 {
                        0 => {
                            r.shuffle(&mut evs);
                            self.w.stats.hit("fault:reordered");
                        }
                        1 => {
                            evs.truncate(1 + s.c as usize % 4);
                            self.w.stats.hit("fault:partial-delivery");
                        }
                        2 => {
                            evs.retain(|_| r.chance(3, 4));
                            self.w.stats.hit("fault:lost");
                        }
                        _ => {}
                    }
                    self.w.stats.hit("net:gossip");
                    self.w.log(|| format!("M{n} -> M{to}: {evs:?}"));
                    self.deliver(to, &evs)?;
                }
                Op::Redeliver => {
                    let have: Vec<usize> = self.mem[n].had.iter().copied().collect();
                    if !have.is_empty() {
                        let evs: Vec<usize> = (0..1 + s.a % 6).map(|_| *r.pick(&have)).collect();
                        self.w.stats.hit("fault:redelivery");
                        self.deliver(n, &evs)?;
                    }
                }
                Op::Restart => {
                    if let Some(cg) = &self.mem[n].cg {
                        let b = bincode::serialize(cg).map_err(|e| Violation {
                            kind: "save-failed".into(),
                            detail: e.to_string(),
                        })?;
                        let c: Cgka = bincode::deserialize(&b).map_err(|e| Violation {
                            kind: "load-failed".into(),
                            detail: e.to_string(),
                        })?;
                        self.mem[n].cg = Some(c);
                        self.w.stats.hit("fault:restart");
                        self.w.log(|| format!("M{n} restarts"));
                    }
                }
                Op::SyncAll => {
                    let a: Vec<usize> = (0..k).filter(|i| (s.a >> i) & 1 == 1).collect();
                    let all: BTreeSet<usize> = a
                        .iter()
                        .flat_map(|i| self.mem[*i].had.iter().copied())
                        .collect();
                    for i in a {
                        let miss: BTreeSet<usize> =
                            all.difference(&self.mem[i].had).copied().collect();
                        let evs = self.closure_order(&miss, &mut r);
                        self.deliver(i, &evs)?;
                    }
                    self.check_agree().await?;
                }
                Op::Check => {
                    self.check_member(n).await?;
                    self.check_progress(n).await?;
                    self.check_agree().await?;
                }
                _ => {}
            }
            self.w
                .stats
                .mark(mix3(s.op as u64, n as u64, self.ops.len() as u64));
        }
        self.w.step_id = 1_000_000;
        let mut r = Prng::new(mix3(self.w.seed, 0xe4d, 7));
        let all: BTreeSet<usize> = (0..self.ops.len()).collect();
        for i in 0..self.mem.len() {
            let miss: BTreeSet<usize> = all.difference(&self.mem[i].had).copied().collect();
            let evs = self.closure_order(&miss, &mut r);
            self.deliver(i, &evs)?;
        }
        self.check_agree().await?;
        for i in 0..self.mem.len() {
            self.check_member(i).await?;
            self.check_progress(i).await?;
        }
        Ok(())
    }
}

fn tell(b: bool) -> &'static str {
    if b {
        "has a secret"
    } else {
        "has none"
    }
}

fn shape(r: &Result<PcsKey, CgkaError>) -> String {
    match r {
        Ok(_) => "a secret".into(),
        Err(e) => format!("nothing ({e:?})"),
    }
}
