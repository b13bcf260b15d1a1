//! Reference model of membership, computed from the signed operations alone and independent of
//! the library's materialisation. Concurrency makes some outcomes a policy choice, so the model
//! is three-valued: a grant is certainly in force, certainly not, or open. Nodes must report
//! every certain grant, no certainly-dead one, and agree with each other on the open ones.
use crate::seams::*;
use crate::world::{Id, Key, Sig};
use keyhive_core::access::Access;
use keyhive_crypto::digest::Digest;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub enum Tri {
    No,
    Maybe,
    Yes,
}
use Tri::*;

#[derive(Clone, Debug)]
pub struct Dlg {
    pub key: Key,
    pub sig: Sig,
    pub sig_ok: bool,
    pub issuer: Id,
    pub delegate: Id,
    pub can: Access,
    pub proof: Option<Key>,
    pub after: Vec<Key>,
    /// None: dependencies missing
    pub subject: Option<Id>,
    /// proof chain, nearest first
    pub lineage: Vec<Key>,
}

#[derive(Clone, Debug)]
pub struct Rev {
    pub key: Key,
    pub sig: Sig,
    pub sig_ok: bool,
    pub issuer: Id,
    pub revoke: Key,
    pub proof: Option<Key>,
    pub subject: Option<Id>,
}

#[derive(Clone, Debug, Default)]
pub struct Ops {
    pub dlgs: BTreeMap<Key, Dlg>,
    pub revs: BTreeMap<Key, Rev>,
}

fn dkey(d: &Digest<impl serde::Serialize>) -> Key {
    *d.raw.as_bytes()
}

impl Ops {
    pub fn from_pool<'a>(evs: impl Iterator<Item = &'a Sev>) -> Ops {
        let mut o = Ops::default();
        for e in evs {
            match e {
                Sev::Delegated(d) => {
                    let key = *Digest::hash(d).raw.as_bytes();
                    o.dlgs.insert(
                        key,
                        Dlg {
                            key,
                            sig: d.signature.to_bytes(),
                            sig_ok: d.try_verify().is_ok(),
                            issuer: d.issuer.to_bytes(),
                            delegate: d.payload.delegate.to_bytes(),
                            can: d.payload.can,
                            proof: d.payload.proof.map(|p| dkey(&p)),
                            after: d.payload.after_revocations.iter().map(dkey).collect(),
                            subject: None,
                            lineage: vec![],
                        },
                    );
                }
                Sev::Revoked(r) => {
                    let key = *Digest::hash(r).raw.as_bytes();
                    o.revs.insert(
                        key,
                        Rev {
                            key,
                            sig: r.signature.to_bytes(),
                            sig_ok: r.try_verify().is_ok(),
                            issuer: r.issuer.to_bytes(),
                            revoke: dkey(&r.payload.revoke),
                            proof: r.payload.proof.map(|p| dkey(&p)),
                            subject: None,
                        },
                    );
                }
                _ => {}
            }
        }
        let keys: Vec<Key> = o.dlgs.keys().copied().collect();
        for k in keys {
            let mut lin = vec![];
            let mut cur = k;
            let subject = loop {
                match o.dlgs.get(&cur) {
                    None => break None,
                    Some(d) => match d.proof {
                        None => break Some(d.issuer),
                        Some(p) => {
                            if lin.contains(&p) || lin.len() > 1000 {
                                break None;
                            }
                            lin.push(p);
                            cur = p;
                        }
                    },
                }
            };
            let d = o.dlgs.get_mut(&k).unwrap();
            d.subject = subject;
            d.lineage = lin;
        }
        let rk: Vec<Key> = o.revs.keys().copied().collect();
        for k in rk {
            let s = {
                let r = &o.revs[&k];
                let a = o.dlgs.get(&r.revoke).and_then(|d| d.subject);
                match r.proof {
                    None => a,
                    Some(p) => match o.dlgs.get(&p).and_then(|d| d.subject) {
                        Some(ps) if Some(ps) == a => a,
                        _ => None,
                    },
                }
            };
            o.revs.get_mut(&k).unwrap().subject = s;
        }
        o
    }

    pub fn subjects(&self) -> BTreeSet<Id> {
        self.dlgs.values().filter_map(|d| d.subject).collect()
    }
}

/// Verdicts over a set of operations.
pub struct Verdicts {
    /// is the chain of the delegation authorised (ignoring revocations)?
    pub valid: BTreeMap<Key, Tri>,
    /// was the revoker entitled (ignoring revocations of the revoker)?
    pub entitled: BTreeMap<Key, Tri>,
    pub firm: BTreeSet<Key>,
    /// certainly in force
    pub live: BTreeSet<Key>,
    /// certainly not in force
    pub dead: BTreeSet<Key>,
}

pub fn judge(o: &Ops) -> Verdicts {
    // delegations that some revocation in the set names, whoever signed it
    let hit: BTreeSet<Key> = o.revs.values().map(|r| r.revoke).collect();
    let untouched =
        |d: &Dlg| -> bool { !hit.contains(&d.key) && d.lineage.iter().all(|l| !hit.contains(l)) };

    // best authority an individual can possibly hold in `subject`, over every delegation ever
    // made (an upper bound), as a fixpoint over nesting
    let upper = |subject: &Id, who: &Id, valid: &BTreeMap<Key, Tri>, only: Tri| -> Option<Access> {
        let mut best: BTreeMap<Id, Access> = BTreeMap::new();
        let mut todo: Vec<(Id, Access)> = vec![(*subject, Access::Admin)];
        let mut seen: BTreeSet<(Id, Access)> = BTreeSet::new();
        while let Some((s, cap)) = todo.pop() {
            if !seen.insert((s, cap)) {
                continue;
            }
            for d in o.dlgs.values().filter(|d| d.subject == Some(s)) {
                if valid.get(&d.key).copied().unwrap_or(No) < only {
                    continue;
                }
                if only == Yes && !untouched(d) {
                    continue;
                }
                let a = cap.min(d.can);
                let e = best.entry(d.delegate).or_insert(a);
                if *e < a {
                    *e = a;
                }
                todo.push((d.delegate, a));
            }
        }
        best.get(who).copied()
    };

    // start from structural checks, then settle mediated links by fixpoint
    let mut valid: BTreeMap<Key, Tri> = BTreeMap::new();
    for d in o.dlgs.values() {
        let structurally = d.sig_ok
            && match (d.subject, d.proof) {
                (None, _) => false,
                (Some(s), None) => d.issuer == s,
                (Some(_), Some(_)) => d.lineage.iter().all(|l| {
                    let p = &o.dlgs[l];
                    p.sig_ok && p.can >= d.can
                }),
            };
        valid.insert(d.key, if structurally { Yes } else { No });
    }
    // links: (d, proof) must have issuer(d) == delegate(proof) or d issued by a member of it
    for only in [Maybe, Yes] {
        loop {
            let mut next = valid.clone();
            let mut changed = false;
            for d in o.dlgs.values() {
                if valid[&d.key] == No || (only == Yes && valid[&d.key] != Yes) {
                    continue;
                }
                let Some(p) = d.proof else { continue };
                let p = &o.dlgs[&p];
                let mut v = valid[&p.key].min(valid[&d.key]);
                if d.issuer != p.delegate {
                    // mediated by a group or document
                    let have = upper(&p.delegate, &d.issuer, &valid, only);
                    if have.map(|h| h >= d.can) != Some(true) {
                        v = v.min(if only == Maybe { No } else { Maybe });
                    }
                }
                if v != valid[&d.key] {
                    next.insert(d.key, v);
                    changed = true;
                }
            }
            valid = next;
            if !changed {
                break;
            }
        }
    }

    let mut entitled = BTreeMap::new();
    for r in o.revs.values() {
        let e = (|| {
            let Some(s) = r.subject else { return No };
            if !r.sig_ok {
                return No;
            }
            let t = &o.dlgs[&r.revoke];
            let tv = valid[&t.key];
            match r.proof {
                None => {
                    if r.issuer == s {
                        tv
                    } else {
                        No
                    }
                }
                Some(p) => {
                    let p = &o.dlgs[&p];
                    let pv = valid[&p.key].min(tv);
                    let below = t.key == p.key || t.lineage.contains(&p.key);
                    if r.issuer == p.issuer && below {
                        return pv;
                    }
                    if r.issuer == p.delegate && p.can >= t.can {
                        return if below || p.can == Access::Admin {
                            pv
                        } else {
                            No
                        };
                    }
                    if upper(&p.delegate, &r.issuer, &valid, Yes).map(|h| h >= t.can) == Some(true)
                        && p.can >= t.can
                    {
                        return pv.min(if below { Yes } else { Maybe }).min(Maybe);
                    }
                    if upper(&p.delegate, &r.issuer, &valid, Maybe).map(|h| h >= t.can)
                        == Some(true)
                        && p.can >= t.can
                    {
                        return pv.min(Maybe);
                    }
                    No
                }
            }
        })();
        entitled.insert(r.key, e);
    }

    // a revocation is firm when nothing that revokes the authority it rests on can undo it
    let mut firm = BTreeSet::new();
    for r in o.revs.values() {
        if entitled[&r.key] != Yes {
            continue;
        }
        let mut links: Vec<Key> = vec![];
        if let Some(p) = r.proof {
            links.push(p);
            links.extend(o.dlgs[&p].lineage.iter().copied());
        }
        // what someone admitted by the group itself has revoked stays revoked when they leave
        let by_founder =
            links.len() <= 1 && r.proof.is_none_or(|p| o.dlgs[&p].delegate == r.issuer);
        if by_founder || links.iter().all(|l| *l == r.revoke || !hit.contains(l)) {
            firm.insert(r.key);
        }
    }

    let mut dead: BTreeSet<Key> = o
        .dlgs
        .values()
        .filter(|d| valid[&d.key] == No)
        .map(|d| d.key)
        .collect();
    for r in &firm {
        dead.insert(o.revs[r].revoke);
    }
    // grants whose whole authority is gone: proof dead, and the issuer holds (and might hold)
    // nothing else in the subject
    loop {
        let mut more = vec![];
        for d in o.dlgs.values() {
            if dead.contains(&d.key) {
                continue;
            }
            let (Some(p), Some(s)) = (d.proof, d.subject) else {
                continue;
            };
            if !dead.contains(&p) {
                continue;
            }
            let p = &o.dlgs[&p];
            let could = |who: &Id| {
                *who == s
                    || o.dlgs.values().any(|x| {
                        x.subject == Some(s) && x.delegate == *who && !dead.contains(&x.key)
                    })
            };
            // anyone mediating keeps it open
            if d.issuer != p.delegate || could(&d.issuer) {
                continue;
            }
            more.push(d.key);
        }
        if more.is_empty() {
            break;
        }
        dead.extend(more);
    }

    let live: BTreeSet<Key> = o
        .dlgs
        .values()
        .filter(|d| {
            valid[&d.key] == Yes
                && std::iter::once(&d.key).chain(d.lineage.iter()).all(|l| {
                    o.revs
                        .values()
                        .all(|r| r.revoke != *l || entitled[&r.key] == No)
                })
        })
        .map(|d| d.key)
        .collect();

    Verdicts {
        valid,
        entitled,
        firm,
        live,
        dead,
    }
}

/// Highest access over all paths of the lowest access on the path.
pub fn reach_from(
    direct: &BTreeMap<Id, BTreeMap<Id, Access>>,
    subject: &Id,
) -> BTreeMap<Id, Access> {
    let mut best: BTreeMap<Id, Access> = BTreeMap::new();
    let mut todo: Vec<(Id, Access)> = vec![(*subject, Access::Admin)];
    while let Some((s, cap)) = todo.pop() {
        let Some(ms) = direct.get(&s) else { continue };
        for (m, a) in ms {
            let v = cap.min(*a);
            if m == subject {
                continue;
            }
            if best.get(m).is_none_or(|b| *b < v) {
                best.insert(*m, v);
                todo.push((*m, v));
            }
        }
    }
    best
}
