//! Content encryption: who can decrypt what (K02, K03).
use crate::model::Ops;
use crate::seams::*;
use crate::world::*;
use beekem::operation::CgkaOperation;
use beekem::pcs_key::PcsKey;
use keyhive_core::access::Access;
use keyhive_core::principal::document::id::DocumentId;
use keyhive_core::principal::public::Public;
use keyhive_crypto::digest::Digest;
use keyhive_crypto::share_key::{ShareKey, ShareSecretKey};
use keyhive_crypto::siv::Siv;
use serde::Deserialize;
use std::collections::{BTreeMap, BTreeSet};

// What an update operation carries, read straight off the wire.
#[derive(Deserialize)]
struct WireStore {
    versions: Vec<WireVersion>,
}
#[derive(Deserialize)]
#[allow(dead_code)]
enum WireIdx {
    Leaf(u32),
    Inner(u32),
}
#[derive(Deserialize)]
struct WireVersion {
    pk: ShareKey,
    sk: Vec<(WireIdx, WireSecret)>,
    encrypter_pk: ShareKey,
}
#[derive(Deserialize)]
struct WireSecret {
    nonce: Siv,
    ciphertext: Vec<u8>,
    paired_pk: ShareKey,
}

pub type Sks = BTreeMap<ShareKey, ShareSecretKey>;

/// Everything that can be computed from some secret keys and the given updates.
pub fn derivable<'a>(known: &Sks, ops: impl Iterator<Item = &'a CgkaOperation>) -> Sks {
    let mut known = known.clone();
    let mut stores: Vec<WireVersion> = vec![];
    for op in ops {
        if let CgkaOperation::Update { new_path, .. } = op {
            for (_, inner) in &new_path.path {
                let b = bincode::serialize(inner).expect("serialise path");
                let w: WireStore = bincode::deserialize(&b).expect("read path");
                stores.extend(w.versions);
            }
        }
    }
    let open =
        |s: &WireSecret, mine: &ShareSecretKey, other: &ShareKey| -> Option<ShareSecretKey> {
            let key = mine.derive_symmetric_key(other);
            let mut b = s.ciphertext.clone();
            key.try_decrypt(s.nonce, &mut b).ok()?;
            Some(ShareSecretKey::force_from_bytes(b.try_into().ok()?))
        };
    loop {
        let mut grew = false;
        stores.retain(|v| {
            if known.contains_key(&v.pk) {
                return false;
            }
            for (_, s) in &v.sk {
                let mut got = None;
                if let Some(sk) = known.get(&s.paired_pk) {
                    got = open(s, sk, &v.encrypter_pk);
                }
                if got.is_none() {
                    if let Some(sk) = known.get(&v.encrypter_pk) {
                        got = open(s, sk, &s.paired_pk);
                    }
                }
                if let Some(sk) = got {
                    known.insert(sk.share_key(), sk);
                    grew = true;
                    return false;
                }
            }
            true
        });
        if !grew {
            return known;
        }
    }
}

impl World {
    /// Every secret key node n holds right now.
    pub async fn hoard(&mut self, n: usize) {
        let kh = self.nodes[n].kh.clone();
        let mut all: Sks = bincode::deserialize(&kh.export_prekey_secrets().await.expect("export"))
            .expect("prekey secrets");
        let docs: Vec<_> = kh.documents().lock().await.values().cloned().collect();
        for d in docs {
            if let Ok(c) = d.lock().await.cgka() {
                let m: Sks = bincode::deserialize(&bincode::serialize(c.owner_sks()).expect("sks"))
                    .expect("sks");
                all.extend(m);
            }
        }
        // what anyone knows is not a secret of this node's
        all.remove(&Public.share_key());
        self.hoards.entry(n).or_default().extend(all);
    }

    /// K02: whoever the encrypting node knew as a reader can read, once it has what that node had.
    pub async fn k02_readers(&mut self, only: Option<usize>) -> Res {
        for c in 0..self.cts.len() {
            for n in 0..self.nodes.len() {
                if only.is_some_and(|o| o != n) || self.nodes[n].lossy {
                    continue;
                }
                let ct = &self.cts[c];
                let reader = |i: &Id| ct.reach.get(i).is_some_and(|a| *a >= Access::Read);
                let id = self.nodes[n].id;
                if !reader(&self.nodes[ct.by].id)
                    || !reader(&id)
                    || !ct.base.is_subset(&self.nodes[n].got)
                {
                    continue;
                }
                let r = self.decrypt(n, c).await;
                let ct = &self.cts[c];
                if n != ct.by {
                    self.stats.nontrivial += 1;
                    self.stats.hit("probe:reader-decrypts");
                }
                match r {
                    Some(Ok(b)) if b == ct.plain => {}
                    r => {
                        let what = match r {
                            None => "does not know the document".to_string(),
                            Some(Ok(_)) => "gets different content".into(),
                            Some(Err(e)) => format!("cannot decrypt it: {e}"),
                        };
                        return viol(
                            "reader-cannot-read",
                            format!("U{n} was known as a reader of {} ({:?}) when U{} encrypted c{c} at step {}, has every event that node had, and {what}", self.name(&ct.doc), ct.reach.get(&id).unwrap(), ct.by, ct.step),
                        );
                    }
                }
            }
        }
        Ok(())
    }

    /// Every reader encrypts something for every document it knows.
    pub async fn encrypt_everywhere(&mut self) -> Res {
        for n in 0..self.nodes.len() {
            for m in self.docs() {
                self.step_id += 1;
                if self.membered(n, m).await.is_none() {
                    continue;
                }
                let ok = self
                    .op_encrypt(
                        n,
                        m,
                        format!("late content {} by U{n} in {m}", self.step_id).into_bytes(),
                        vec![],
                    )
                    .await?
                    .is_some();
                let id = ident(&self.nodes[n].id);
                let x = self.membered(n, m).await.unwrap();
                let reads = self.nodes[n]
                    .kh
                    .reachable_members(x)
                    .await
                    .get(&id)
                    .is_some_and(|(_, a)| *a >= Access::Read);
                if reads {
                    self.stats.hit(if ok {
                        "probe:late-encrypt"
                    } else {
                        "probe:late-encrypt-refused"
                    });
                }
            }
        }
        Ok(())
    }

    /// Who certainly must not be able to read ciphertext c, as far as the encrypting node could know.
    fn outsiders(&self, c: usize) -> Vec<(usize, &'static str)> {
        let ct = &self.cts[c];
        let can = |i: &Id| ct.reach.get(i).copied();
        let public = Public.id().to_bytes();
        if can(&self.nodes[ct.by].id) < Some(Access::Read) {
            return vec![];
        }
        let walk = |ops: &Ops, least: Access| -> BTreeSet<Id> {
            let mut seen = BTreeSet::from([ct.doc]);
            loop {
                let k = seen.len();
                for d in ops.dlgs.values() {
                    if d.can >= least && d.subject.is_some_and(|s| seen.contains(&s)) {
                        seen.insert(d.delegate);
                    }
                }
                if seen.len() == k {
                    return seen;
                }
            }
        };
        // anyone that any grant made so far, known to the encrypting node or not, could make a reader
        let maybe = walk(
            &Ops::from_pool(
                self.pool[..ct.upto]
                    .iter()
                    .filter(|p| p.honest)
                    .map(|p| &p.ev),
            ),
            Access::Read,
        );
        // anyone that was a member of any kind as far as the encrypting node knew
        let past = walk(
            &Ops::from_pool(
                ct.base
                    .iter()
                    .filter(|p| !ct.pend.contains(p))
                    .map(|p| &self.pool[*p].ev),
            ),
            Access::Relay,
        );
        let public_reads = can(&public) >= Some(Access::Read)
            || (maybe.contains(&public) && !past.contains(&public));
        if public_reads {
            return vec![];
        }
        let mut out = vec![];
        for (n, node) in self.nodes.iter().enumerate() {
            if can(&node.id) >= Some(Access::Read) {
                continue;
            }
            if can(&node.id) == Some(Access::Relay) {
                out.push((n, "had relay access only"));
            } else if past.contains(&node.id) {
                out.push((n, "had lost its access, as the encrypting node knew,"));
            } else if !maybe.contains(&node.id) {
                out.push((n, "had never been given read access"));
            }
        }
        out
    }

    /// K03: outsiders cannot decrypt, with the library or with anything computable from what they hold.
    pub async fn k03_outsiders(&mut self, only: Option<usize>) -> Res {
        if self.cts.is_empty() {
            return Ok(());
        }
        for n in 0..self.nodes.len() {
            self.hoard(n).await;
        }
        let mut power: BTreeMap<(usize, Id), BTreeSet<Vec<u8>>> = BTreeMap::new();
        for c in 0..self.cts.len() {
            for (n, why) in self.outsiders(c) {
                if only.is_some_and(|o| o != n) {
                    continue;
                }
                self.stats.nontrivial += 1;
                self.stats.hit("probe:outsider-tries");
                let r = self.decrypt(n, c).await;
                let ct = &self.cts[c];
                let doc = ct.doc;
                if let Some(Ok(b)) = r {
                    return viol(
                        "outsider-reads",
                        format!(
                            "U{n} {why} when U{} encrypted c{c} in {} at step {}, and decrypts it{}",
                            ct.by,
                            self.name(&doc),
                            ct.step,
                            if b == ct.plain { "" } else { " (to something else)" }
                        ),
                    );
                }
                let key = *ct.enc.pcs_key_hash.raw.as_bytes();
                let hoard = self.hoards.get(&n).cloned().unwrap_or_default();
                let pool = &self.pool;
                let keys = power.entry((n, doc)).or_insert_with(|| {
                    let ops = pool.iter().filter_map(|p| match &p.ev {
                        Sev::CgkaOperation(o) if o.payload.doc_id().0.to_bytes() == doc => {
                            Some(&o.payload)
                        }
                        _ => None,
                    });
                    derivable(&hoard, ops)
                        .values()
                        .map(|s| Digest::hash(&PcsKey::new(*s)).raw.as_bytes().to_vec())
                        .collect()
                });
                if keys.contains(key.as_slice()) {
                    let ct = &self.cts[c];
                    return viol(
                        "outsider-derives-key",
                        format!("U{n} {why} when U{} encrypted c{c} in {} at step {}; from its own keys and the published events it can compute the key that c{c} is encrypted with", ct.by, self.name(&ct.doc), ct.step),
                    );
                }
            }
        }
        Ok(())
    }

    pub async fn doc_of(&self, n: usize, doc: &Id) -> Option<SDoc> {
        self.nodes[n]
            .kh
            .get_document(DocumentId::from(ident(doc)))
            .await
    }
}
