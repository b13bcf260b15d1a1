//! Hostile peers: they hold real keys, see every event, and send whatever they can sign or forge.
use crate::det::{mix3, Prng};
use crate::model::Ops;
use crate::plan::*;
use crate::seams::*;
use crate::world::*;
use ed25519_dalek::Signer as _;
use keyhive_core::{
    access::Access,
    principal::{
        group::{delegation::StaticDelegation, revocation::StaticRevocation},
        individual::op::{add_key::AddKeyOp, rotate_key::RotateKeyOp},
    },
};
use keyhive_crypto::{digest::Digest, share_key::ShareKey, signed::Signed};
use std::collections::BTreeMap;

pub fn sign<P: serde::Serialize + std::fmt::Debug>(
    k: &ed25519_dalek::SigningKey,
    p: P,
) -> Signed<P> {
    let b = bincode::serialize(&p).expect("serialise");
    let sig = k.sign(&b);
    Signed::new(p, k.verifying_key(), sig)
}
pub fn dg<P: serde::Serialize>(k: &Key) -> Digest<P> {
    Digest::from(*k)
}

pub const ATTACKS: u32 = 18;

fn flip(sig: &ed25519_dalek::Signature, r: &mut Prng) -> ed25519_dalek::Signature {
    let mut b = sig.to_bytes();
    let i = r.usize(63);
    b[i] ^= 1 << r.below(8);
    ed25519_dalek::Signature::from_bytes(&b)
}

/// Hostile prekey traffic: forgeries in somebody else's name, and a user's own nonsense
/// (rotations in a circle, rotations of keys that never existed).
pub fn forge_prekey(
    w: &World,
    kind: u32,
    key: &ed25519_dalek::SigningKey,
    r: &mut Prng,
) -> Option<Vec<(Sev, &'static str)>> {
    let me: Id = key.verifying_key().to_bytes();
    match kind % 4 {
        0 => forge(w, 13, key, r).map(|x| vec![x]),
        1 => forge(w, 14, key, r).map(|x| vec![x]),
        2 => {
            let mut mine: Vec<ShareKey> = w
                .pool
                .iter()
                .filter_map(|p| match &p.ev {
                    Sev::PrekeysExpanded(a) if a.issuer.to_bytes() == me => {
                        Some(a.payload.share_key)
                    }
                    Sev::PrekeyRotated(a) if a.issuer.to_bytes() == me => Some(a.payload.new),
                    _ => None,
                })
                .collect();
            mine.push(ShareKey::from(x25519_dalek::PublicKey::from(r.bytes32())));
            r.shuffle(&mut mine);
            let k = 1 + r.usize(mine.len());
            Some(
                (0..k)
                    .map(|i| {
                        let s = sign(
                            key,
                            RotateKeyOp {
                                old: mine[i],
                                new: mine[(i + 1) % k],
                            },
                        );
                        (Sev::PrekeyRotated(Box::new(s)), "own rotations in a circle")
                    })
                    .collect(),
            )
        }
        _ => {
            let old = ShareKey::from(x25519_dalek::PublicKey::from(r.bytes32()));
            let new = ShareKey::from(x25519_dalek::PublicKey::from(r.bytes32()));
            Some(vec![(
                Sev::PrekeyRotated(Box::new(sign(key, RotateKeyOp { old, new }))),
                "rotation of a key never published",
            )])
        }
    }
}

/// Forge one event. `key` is the attacker's key, `me` its identity.
pub fn forge(
    w: &World,
    kind: u32,
    key: &ed25519_dalek::SigningKey,
    r: &mut Prng,
) -> Option<(Sev, &'static str)> {
    let me: Id = key.verifying_key().to_bytes();
    let ops = Ops::from_pool(w.pool.iter().filter(|p| p.honest).map(|p| &p.ev));
    let dl: Vec<_> = ops.dlgs.values().cloned().collect();
    let raw_d = |k: &Key| -> Option<Signed<StaticDelegation<T>>> {
        w.pool.iter().find_map(|p| match &p.ev {
            Sev::Delegated(d) if *Digest::hash(d).raw.as_bytes() == *k => Some(d.clone()),
            _ => None,
        })
    };
    let raw_r: Vec<Signed<StaticRevocation<T>>> = w
        .pool
        .iter()
        .filter_map(|p| match &p.ev {
            Sev::Revoked(d) if p.honest => Some(d.clone()),
            _ => None,
        })
        .collect();
    let mine: Vec<_> = dl.iter().filter(|d| d.delegate == me).cloned().collect();
    let mk = |delegate: &Id, can: Access, proof: Option<Key>| StaticDelegation::<T> {
        can,
        proof: proof.map(|p| dg(&p)),
        delegate: ident(delegate),
        after_revocations: vec![],
        after_content: BTreeMap::new(),
    };
    let ev = match kind % ATTACKS {
        0 => {
            let d = raw_d(&r.pick_opt(&dl)?.key)?;
            let s = flip(&d.signature, r);
            (
                Sev::Delegated(Signed::new(d.payload, d.issuer, s)),
                "delegation with a damaged signature",
            )
        }
        1 => {
            let p = r.pick_opt(&dl)?;
            (
                Sev::Delegated(sign(key, mk(&me, p.can, Some(p.key)))),
                "self-grant resting on someone else's delegation",
            )
        }
        2 => {
            let p = r.pick_opt(&mine)?;
            if p.can == Access::Admin {
                return None;
            }
            let ids = w.agent_ids();
            let to = *r.pick(&ids);
            (
                Sev::Delegated(sign(key, mk(&to, Access::Admin, Some(p.key)))),
                "escalation beyond own access",
            )
        }
        3 => {
            let t = r.pick_opt(&dl)?;
            let s = StaticRevocation::<T> {
                revoke: dg(&t.key),
                proof: Some(dg(&t.key)),
                after_content: BTreeMap::new(),
            };
            (
                Sev::Revoked(sign(key, s)),
                "revocation resting on the revoked delegation itself",
            )
        }
        4 => {
            let t = r.pick_opt(&dl)?;
            let s = StaticRevocation::<T> {
                revoke: dg(&t.key),
                proof: None,
                after_content: BTreeMap::new(),
            };
            (Sev::Revoked(sign(key, s)), "revocation without authority")
        }
        5 => {
            // an ancestor of the target, held by somebody else, as the authority
            let t = r.pick_opt(&dl)?;
            let a = r.pick_opt(&t.lineage)?;
            let s = StaticRevocation::<T> {
                revoke: dg(&t.key),
                proof: Some(dg(a)),
                after_content: BTreeMap::new(),
            };
            (
                Sev::Revoked(sign(key, s)),
                "revocation resting on an ancestor held by someone else",
            )
        }
        6 => {
            // claim to be issued by the honest issuer, signed by the attacker
            let d = raw_d(&r.pick_opt(&dl)?.key)?;
            let mut p = d.payload.clone();
            p.can = Access::Admin;
            p.delegate = ident(&me);
            let s = sign(key, p);
            (
                Sev::Delegated(Signed::new(s.payload, d.issuer, s.signature)),
                "delegation signed by the wrong key",
            )
        }
        7 => {
            let d = raw_d(&r.pick_opt(&dl)?.key)?;
            let mut p = d.payload.clone();
            p.can = if p.can == Access::Admin {
                Access::Edit
            } else {
                Access::Admin
            };
            (
                Sev::Delegated(Signed::new(p, d.issuer, d.signature)),
                "altered access under an old signature",
            )
        }
        8 => {
            let d = raw_d(&r.pick_opt(&dl)?.key)?;
            let mut p = d.payload.clone();
            p.delegate = ident(&me);
            (
                Sev::Delegated(Signed::new(p, d.issuer, d.signature)),
                "altered delegate under an old signature",
            )
        }
        9 => {
            let x = r.pick_opt(&raw_r)?.clone();
            let t = r.pick_opt(&dl)?;
            let mut p = x.payload.clone();
            p.revoke = dg(&t.key);
            (
                Sev::Revoked(Signed::new(p, x.issuer, x.signature)),
                "revocation retargeted under an old signature",
            )
        }
        10 => {
            // authority from another group or document
            let p = r.pick_opt(&mine)?;
            let t = r.pick_opt(&dl)?;
            if t.subject == p.subject {
                return None;
            }
            let s = StaticRevocation::<T> {
                revoke: dg(&t.key),
                proof: Some(dg(&p.key)),
                after_content: BTreeMap::new(),
            };
            (
                Sev::Revoked(sign(key, s)),
                "revocation resting on authority elsewhere",
            )
        }
        11 => {
            let x = r.pick_opt(&raw_r)?.clone();
            let s = flip(&x.signature, r);
            (
                Sev::Revoked(Signed::new(x.payload, x.issuer, s)),
                "revocation with a damaged signature",
            )
        }
        12 => {
            // a root delegation not signed by the group's own key
            let p = r.pick_opt(&dl)?;
            let s = sign(key, mk(&me, Access::Admin, None));
            let subj = ed25519_dalek::VerifyingKey::from_bytes(&p.subject?).ok()?;
            (
                Sev::Delegated(Signed::new(s.payload, subj, s.signature)),
                "forged root delegation",
            )
        }
        13 => {
            // prekey for somebody else
            let v = &w.nodes[r.usize(w.nodes.len())];
            if v.id == me {
                return None;
            }
            let vk = ed25519_dalek::VerifyingKey::from_bytes(&v.id).ok()?;
            let s = sign(
                key,
                AddKeyOp {
                    share_key: ShareKey::from(x25519_dalek::PublicKey::from(r.bytes32())),
                },
            );
            (
                Sev::PrekeysExpanded(Box::new(Signed::new(s.payload, vk, s.signature))),
                "forged prekey",
            )
        }
        14 => {
            let v = &w.nodes[r.usize(w.nodes.len())];
            if v.id == me {
                return None;
            }
            let vk = ed25519_dalek::VerifyingKey::from_bytes(&v.id).ok()?;
            let old = w
                .pool
                .iter()
                .filter(|p| p.origin == v.idx && p.honest)
                .find_map(|p| match &p.ev {
                    Sev::PrekeysExpanded(a) => Some(a.payload.share_key),
                    _ => None,
                })?;
            let new = ShareKey::from(x25519_dalek::PublicKey::from(r.bytes32()));
            let s = sign(key, RotateKeyOp { old, new });
            (
                Sev::PrekeyRotated(Box::new(Signed::new(s.payload, vk, s.signature))),
                "forged prekey rotation",
            )
        }
        15 | 16 => {
            // someone who has been revoked keeps granting from what they once had
            let gone: Vec<_> = mine
                .iter()
                .filter(|d| ops.revs.values().any(|r| r.revoke == d.key))
                .cloned()
                .collect();
            let p = r.pick_opt(&gone)?;
            let ids = w.agent_ids();
            let to = *r.pick(&ids);
            (
                Sev::Delegated(sign(key, mk(&to, p.can, Some(p.key)))),
                "grant by someone revoked",
            )
        }
        _ => {
            // a read-only member acting as an administrator: revoke a peer with own delegation
            let p = r.pick_opt(&mine)?;
            let same: Vec<_> = dl
                .iter()
                .filter(|d| d.subject == p.subject && d.can > p.can)
                .cloned()
                .collect();
            let t = r.pick_opt(&same)?;
            let s = StaticRevocation::<T> {
                revoke: dg(&t.key),
                proof: Some(dg(&p.key)),
                after_content: BTreeMap::new(),
            };
            (
                Sev::Revoked(sign(key, s)),
                "revocation by a member with less access",
            )
        }
    };
    Some(ev)
}

impl Prng {
    pub fn pick_opt<'a, A>(&mut self, xs: &'a [A]) -> Option<&'a A> {
        if xs.is_empty() {
            None
        } else {
            Some(self.pick(xs))
        }
    }
}

/// The attacker behind a step: an outsider, or one of the users' own keys turned hostile.
pub fn attacker_key(w: &World, s: &Step) -> ed25519_dalek::SigningKey {
    let who = s.b % (w.nodes.len() as u32 + 2);
    if (who as usize) < w.nodes.len() {
        (*w.nodes[who as usize].signer.key).clone()
    } else {
        signing_key(mix3(w.seed, 0xbad, 0), 5000 + who as u64)
    }
}
