//! Ciphertexts that are damaged, relabelled or missing (K04), and whole histories (K05).
use crate::det::Prng;
use crate::plan::Step;
use crate::seams::*;
use crate::world::*;
use beekem::encrypted::EncryptedContent;
use keyhive_core::crypto::envelope::Envelope;
use keyhive_core::principal::document::{id::DocumentId, DocCausalDecryptionError};
use keyhive_core::store::ciphertext::{
    memory::MemoryCiphertextStore, CausalDecryptionState, CiphertextStoreExt, ErrorReason,
};
use keyhive_crypto::{digest::Digest, siv::Siv, symmetric_key::SymmetricKey};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::marker::PhantomData;
use std::sync::Arc;

type Enc = EncryptedContent<Vec<u8>, T>;
type Causal = CausalDecryptionState<T, Vec<u8>>;

/// What a caller of causal decryption on one node has been told so far.
#[derive(Default)]
pub struct Told {
    /// content it was given
    pub content: BTreeSet<usize>,
    /// keys for what was missing at the time
    pub keys: BTreeMap<usize, SymmetricKey>,
    /// heads it asked for
    pub heads: BTreeSet<usize>,
    /// ciphertexts delivered to its storage
    pub stored: BTreeSet<usize>,
}

fn junk<X: serde::Serialize>(b: [u8; 32]) -> Digest<X> {
    Digest {
        raw: b.into(),
        _phantom: PhantomData,
    }
}

impl World {
    // ---- K04 ------------------------------------------------------------------------------

    pub async fn k04_damage(&mut self, n: usize, s: &Step) -> Res {
        if self.cts.is_empty() {
            return Ok(());
        }
        let mut r = self.plan.rng(s);
        let mut c = s.a as usize % self.cts.len();
        if r.chance(1, 2) {
            // the latest this node has what it takes to read
            let got = &self.nodes[n].got;
            c = (0..self.cts.len())
                .rev()
                .find(|c| self.cts[*c].base.is_subset(got))
                .unwrap_or(c);
        }
        let o = s.b as usize % self.cts.len();
        let mut e: Enc = self.cts[c].enc.clone();
        let other: Enc = self.cts[o].enc.clone();
        let mut doc = self.cts[c].doc;
        let some_op: Option<Digest<_>> = {
            let v: Vec<_> = self
                .pool
                .iter()
                .filter_map(|p| match &p.ev {
                    Sev::CgkaOperation(op) if op.payload.doc_id().0.to_bytes() == doc => {
                        Some(Digest::hash(op.as_ref()))
                    }
                    _ => None,
                })
                .collect();
            if v.is_empty() {
                None
            } else {
                Some(v[r.usize(v.len())])
            }
        };
        let mut what: Vec<&'static str> = vec![];
        for _ in 0..1 + r.usize(2) {
            what.push(match r.below(14) {
                0 if !e.ciphertext.is_empty() => {
                    let i = r.usize(e.ciphertext.len());
                    e.ciphertext[i] ^= 1 << r.below(8);
                    "bit flip in the ciphertext"
                }
                1 => {
                    let l = e.ciphertext.len();
                    e.ciphertext.truncate(if r.chance(1, 2) {
                        r.usize(l + 1)
                    } else {
                        l.saturating_sub(1 + r.usize(16))
                    });
                    "truncated ciphertext"
                }
                2 => {
                    let k = 1 + r.usize(20);
                    e.ciphertext.extend(r.bytes32().into_iter().take(k));
                    "extended ciphertext"
                }
                3 => {
                    let mut b: [u8; 24] = e.nonce.into();
                    b[r.usize(24)] ^= 1 << r.below(8);
                    e.nonce = Siv::from(b);
                    "bit flip in the nonce"
                }
                4 => {
                    e.pcs_key_hash = junk(r.bytes32());
                    "random key hash"
                }
                5 | 6 => {
                    e.pcs_update_op_hash = junk(r.bytes32());
                    "random operation hash"
                }
                7 | 8 if some_op.is_some() => {
                    e.pcs_update_op_hash = some_op.unwrap();
                    "another operation's hash"
                }
                9 => {
                    e.content_ref = if r.chance(1, 2) {
                        other.content_ref
                    } else {
                        r.bytes32()
                    };
                    "another content reference"
                }
                10 => {
                    e.pred_refs = if r.chance(1, 2) {
                        other.pred_refs
                    } else {
                        junk(r.bytes32())
                    };
                    "other predecessors"
                }
                11 => {
                    e.ciphertext = other.ciphertext.clone();
                    "another ciphertext"
                }
                12 => {
                    e.pcs_key_hash = other.pcs_key_hash;
                    e.pcs_update_op_hash = other.pcs_update_op_hash;
                    if r.chance(1, 2) {
                        e.nonce = other.nonce;
                    }
                    "another ciphertext's key"
                }
                _ => {
                    let docs = self.docs();
                    doc = self.mem[docs[r.usize(docs.len())]].id;
                    "another document"
                }
            });
        }
        let Some(d) = self.nodes[n]
            .kh
            .get_document(DocumentId::from(ident(&doc)))
            .await
        else {
            return Ok(());
        };
        let kh = self.nodes[n].kh.clone();
        let res = match r.below(3) {
            0 => kh.try_decrypt_content_keyed(d, &e).await.map(|(b, _)| b),
            _ => kh.try_decrypt_content(d, &e).await,
        };
        self.stats.hit("fault:damaged-ciphertext");
        self.stats.nontrivial += 1;
        self.log(|| {
            format!(
                "U{n} reads c{c} with {} -> {:?}",
                what.join(" and "),
                res.as_ref().map(|b| b.len()).map_err(|e| format!("{e:?}"))
            )
        });
        if let Ok(b) = res {
            self.stats.hit("probe:damaged-yet-read");
            let orig = self.cts.iter().find(|x| x.r == e.content_ref);
            if orig.is_none_or(|x| x.plain != b) {
                return viol(
                    "damaged-ciphertext-read",
                    format!("U{n} was given c{c} with {} and decrypted it to something that was never encrypted under that reference", what.join(" and ")),
                );
            }
        }
        if r.chance(1, 4) {
            self.k04_sealed(&mut r, doc)?;
        }
        if r.chance(1, 3) {
            if let Some(m) = self.mem.iter().position(|x| x.id == doc) {
                self.op_encrypt(n, m, format!("after damage {}", s.id).into_bytes(), vec![])
                    .await?;
            }
        }
        Ok(())
    }

    /// A sealed blob either opens to what was sealed or not at all.
    fn k04_sealed(&mut self, r: &mut Prng, doc: Id) -> Res {
        let key = SymmetricKey::from(r.bytes32());
        let len = r.usize(40);
        let plain: Vec<u8> = (0..len).map(|_| r.u32() as u8).collect();
        let blob = key.try_seal(&plain, &doc).expect("seal");
        let mut bad = blob.clone();
        match r.below(4) {
            0 => bad.truncate(r.usize(bad.len())),
            1 => bad.push(r.u32() as u8),
            2 => {}
            _ => {
                let i = r.usize(bad.len());
                bad[i] ^= 1 << r.below(8);
            }
        }
        self.stats.hit("probe:sealed");
        match key.try_open(&bad) {
            Ok(p) if p != plain => viol(
                "damaged-seal-opens",
                "a damaged sealed blob opened to something else than was sealed".into(),
            ),
            Err(_) if bad == blob => viol(
                "seal-does-not-open",
                "an undamaged sealed blob does not open".into(),
            ),
            _ => Ok(()),
        }
    }

    // ---- K05 ------------------------------------------------------------------------------

    /// Encrypt an envelope pointing at some of what this node could already read.
    pub async fn k05_encrypt(&mut self, n: usize, s: &Step) -> Res {
        let docs = self.readable_docs(n).await;
        if docs.is_empty() {
            return Ok(());
        }
        let m = docs[s.a as usize % docs.len()];
        let mut r = self.plan.rng(s);
        let doc = self.mem[m].id;
        // newest first, mostly the current heads
        let mut known: Vec<(usize, SymmetricKey)> = vec![];
        for c in (0..self.cts.len()).rev() {
            if self.cts[c].doc != doc || known.len() >= 6 {
                continue;
            }
            let direct =
                self.cts[c].by == n || self.told.get(&n).is_some_and(|t| t.content.contains(&c));
            if direct || matches!(self.decrypt(n, c).await, Some(Ok(_))) {
                if let Some(k) = self.cts[c].key {
                    known.push((c, k));
                }
            }
        }
        let covered: BTreeSet<usize> = known
            .iter()
            .flat_map(|(c, _)| self.cts[*c].parents.clone())
            .collect();
        let mut ancestors: HashMap<T, SymmetricKey> = HashMap::new();
        let mut parents = vec![];
        for (c, k) in &known {
            let p = if covered.contains(c) { 1 } else { 6 };
            if r.chance(p, 8) && parents.len() < 4 {
                ancestors.insert(self.cts[*c].r, *k);
                parents.push(*c);
            }
        }
        let payload = format!("entry {} by U{n}", s.id).into_bytes();
        let refs: Vec<T> = parents.iter().map(|p| self.cts[*p].r).collect();
        let body = bincode::serialize(&Envelope::<T, Vec<u8>> {
            plaintext: payload.clone(),
            ancestors,
        })
        .expect("envelope");
        if let Some(c) = self.op_encrypt(n, m, body, refs).await? {
            self.cts[c].parents = parents;
            self.cts[c].payload = payload;
        }
        Ok(())
    }

    /// Documents that this node takes itself for a reader of.
    pub async fn readable_docs(&self, n: usize) -> Vec<usize> {
        let me = ident(&self.nodes[n].id);
        let mut out = vec![];
        for m in self.docs() {
            if let Some(x) = self.membered(n, m).await {
                let all = self.nodes[n].kh.reachable_members(x).await;
                if all
                    .get(&me)
                    .is_some_and(|(_, a)| *a >= keyhive_core::access::Access::Read)
                {
                    out.push(m);
                }
            }
        }
        out
    }

    fn history(&self, c: usize) -> BTreeSet<usize> {
        let mut out = BTreeSet::new();
        let mut todo = self.cts[c].parents.clone();
        while let Some(x) = todo.pop() {
            if out.insert(x) {
                todo.extend(self.cts[x].parents.iter());
            }
        }
        out
    }

    fn by_ref(&self, r: &T) -> Option<usize> {
        self.cts.iter().position(|c| c.r == *r)
    }

    /// Judge what one call reported, and remember it as its caller would.
    fn k05_report(
        &mut self,
        n: usize,
        from: &BTreeSet<usize>,
        p: &Causal,
        absent: &BTreeSet<T>,
        how: &str,
    ) -> Res {
        let mut seen = BTreeSet::new();
        let bad = |what: String| viol::<()>("causal-report-wrong", format!("U{n} {how}: {what}"));
        for (r, b) in &p.complete {
            let Some(c) = self.by_ref(r).filter(|c| from.contains(c)) else {
                return bad("reports content that is no ancestor of what was asked for".into());
            };
            if !seen.insert(c) {
                return bad(format!("reports c{c} twice"));
            }
            if *b != self.cts[c].payload {
                return bad(format!("reports content for c{c} that was never encrypted"));
            }
        }
        for (which, m) in [("used", &p.keys), ("missing", &p.next)] {
            for (r, k) in m {
                let Some(c) = self.by_ref(r).filter(|c| from.contains(c)) else {
                    return bad(format!("lists a {which} key for something that is no ancestor of what was asked for"));
                };
                if Some(*k) != self.cts[c].key {
                    return bad(format!("lists a {which} key for c{c} that does not work"));
                }
                if which == "missing" && !absent.contains(r) {
                    return bad(format!("names c{c} as missing, which it is not"));
                }
            }
        }
        for c in &seen {
            if !p.keys.contains_key(&self.cts[*c].r) {
                return bad(format!("reports c{c} without its key"));
            }
        }
        let told = self.told.entry(n).or_default();
        told.content.extend(seen.iter());
        for (r, k) in &p.next {
            let c = self.cts.iter().position(|c| c.r == *r).unwrap();
            told.keys.insert(c, *k);
        }
        Ok(())
    }

    /// One call from a head. Returns whether it got as far as reading that head.
    async fn k05_call(&mut self, n: usize, c: usize, calm: bool) -> Res<bool> {
        let doc = self.cts[c].doc;
        let Some(d) = self.nodes[n]
            .kh
            .get_document(DocumentId::from(ident(&doc)))
            .await
        else {
            return Ok(false);
        };
        let kh = self.nodes[n].kh.clone();
        let store = self.nodes[n].store.clone();
        store.0.borrow_mut().absent.clear();
        let marked_before: BTreeSet<T> = store.0.borrow().marked.iter().copied().collect();
        let res = kh
            .try_causal_decrypt_content(d, &self.cts[c].enc.clone())
            .await;
        let absent: BTreeSet<T> = store.0.borrow().absent.iter().copied().collect();
        let hist = self.history(c);
        let how = format!("decrypts the history of c{c}");
        match res {
            Ok(p) => {
                self.log(|| {
                    format!(
                        "U{n} {how}: {} entries, {} missing",
                        p.complete.len(),
                        p.next.len()
                    )
                });
                self.k05_report(n, &hist, &p, &absent, &how)?;
                // everything that a reported entry or the head points to is accounted for
                let got: BTreeSet<usize> = p
                    .complete
                    .iter()
                    .filter_map(|(r, _)| self.by_ref(r))
                    .collect();
                let next: BTreeSet<usize> = p.next.keys().filter_map(|r| self.by_ref(r)).collect();
                for x in got.iter().chain([&c]) {
                    for a in &self.cts[*x].parents {
                        if !got.contains(a) && !next.contains(a) {
                            return viol("causal-entry-lost", format!("U{n} {how}: succeeds, but c{a}, which c{x} points to, is neither reported nor named as missing"));
                        }
                    }
                }
                if !hist.is_empty() {
                    self.stats.nontrivial += 1;
                    self.stats.hit("probe:causal-complete");
                    self.stats.add("probe:causal-entries", got.len() as u64);
                }
                self.told.entry(n).or_default().heads.insert(c);
                Ok(true)
            }
            Err(DocCausalDecryptionError::CausalDecryptionError(e)) => {
                self.stats.hit("probe:causal-partial");
                self.log(|| {
                    format!(
                        "U{n} {how}: {} entries, {} missing, {} failed",
                        e.progress.complete.len(),
                        e.progress.next.len(),
                        e.cannot.len()
                    )
                });
                self.k05_report(n, &hist, &e.progress, &absent, &how)?;
                for (r, why) in &e.cannot {
                    if !self.by_ref(r).is_some_and(|x| hist.contains(&x) || x == c) {
                        return viol("causal-report-wrong", format!("U{n} {how}: blames something that is no ancestor of what was asked for"));
                    }
                    if matches!(why, ErrorReason::GetCiphertextError(_))
                        && e.progress.complete.iter().any(|(x, _)| x == r)
                    {
                        return viol(
                            "causal-report-wrong",
                            format!("U{n} {how}: reports an entry both as complete and as failed"),
                        );
                    }
                }
                if calm {
                    return viol(
                        "causal-fails",
                        format!("U{n} {how}: fails with working storage: {e}"),
                    );
                }
                self.told.entry(n).or_default().heads.insert(c);
                Ok(true)
            }
            Err(DocCausalDecryptionError::GetCiphertextError(_)) if !calm => {
                self.stats.hit("probe:causal-failed");
                let marked: BTreeSet<T> = store.0.borrow().marked.iter().copied().collect();
                if marked != marked_before {
                    return viol(
                        "causal-entry-lost",
                        format!(
                            "U{n} {how}: fails without a result, yet marked entries as decrypted"
                        ),
                    );
                }
                self.told.entry(n).or_default().heads.insert(c);
                Ok(true)
            }
            Err(DocCausalDecryptionError::EntrypointDecryptError(_)) => Ok(false),
            Err(e) => viol("causal-fails", format!("U{n} {how}: {e:?}")),
        }
    }

    /// Continue from keys that were reported for what was missing, as far as it is stored by now.
    async fn k05_follow(&mut self, n: usize) -> Res<bool> {
        let store = self.nodes[n].store.clone();
        let known: Vec<(usize, SymmetricKey)> = self
            .told
            .get(&n)
            .map(|t| {
                t.keys
                    .iter()
                    .filter(|(c, _)| !t.content.contains(c))
                    .map(|(c, k)| (*c, *k))
                    .collect()
            })
            .unwrap_or_default();
        let mut todo = vec![];
        let mut from = BTreeSet::new();
        for (c, k) in known {
            if let Some(e) = store.really(&self.cts[c].r).await {
                todo.push((e, k));
                from.insert(c);
                from.extend(self.history(c));
            }
        }
        if todo.is_empty() {
            return Ok(false);
        }
        let before = self.told[&n].content.len();
        store.0.borrow_mut().absent.clear();
        let res = CiphertextStoreExt::<future_form::Local, T, Vec<u8>>::try_causal_decrypt(
            &store, &mut todo,
        )
        .await;
        let absent: BTreeSet<T> = store.0.borrow().absent.iter().copied().collect();
        match res {
            Ok(p) => self.k05_report(n, &from, &p, &absent, "follows the keys it was given")?,
            Err(e) => {
                return viol(
                    "causal-fails",
                    format!("U{n} follows the keys it was given: fails with working storage: {e}"),
                )
            }
        }
        self.stats.hit("probe:causal-followed");
        Ok(self.told[&n].content.len() > before)
    }

    pub async fn k05_causal(&mut self, n: usize, s: &Step) -> Res {
        let mut r = self.plan.rng(s);
        let with: BTreeSet<Id> = self.cts.iter().map(|c| c.doc).collect();
        let docs: Vec<Id> = self
            .readable_docs(n)
            .await
            .into_iter()
            .map(|m| self.mem[m].id)
            .filter(|d| with.contains(d))
            .collect();
        if docs.is_empty() {
            return Ok(());
        }
        let doc = docs[s.a as usize % docs.len()];
        let mine: Vec<usize> = (0..self.cts.len())
            .filter(|c| self.cts[*c].doc == doc)
            .collect();
        // mostly recent entries
        let c = if r.chance(3, 4) {
            mine[mine.len() - 1 - r.usize(mine.len().min(3))]
        } else {
            mine[r.usize(mine.len())]
        };
        let store = self.nodes[n].store.clone();
        let hist: Vec<usize> = self.history(c).into_iter().collect();
        let some = *r.pick(&[30, 70, 95, 100]);
        for a in &hist {
            let t = self.told.entry(n).or_default();
            if !t.stored.contains(a) && r.chance(some, 100) {
                t.stored.insert(*a);
                store.put(Arc::new(self.cts[*a].enc.clone())).await;
            }
        }
        let mut calm = true;
        if !hist.is_empty() && r.chance(2, 3) {
            let mut st = store.0.borrow_mut();
            for _ in 0..1 + r.usize(3) {
                calm = false;
                let a = self.cts[hist[r.usize(hist.len())]].r;
                let b = self.cts[mine[r.usize(mine.len())]].r;
                match r.below(7) {
                    0 => {
                        let at = st.reads + r.below(6);
                        st.fail_reads.push(at);
                    }
                    1 => {
                        st.get_faults.insert(a, ReadFault::Error);
                    }
                    2 => {
                        st.get_faults.insert(a, ReadFault::Missing);
                    }
                    3 => {
                        st.get_faults.insert(a, ReadFault::Damage(r.usize(1000)));
                    }
                    4 => {
                        st.get_faults.insert(a, ReadFault::Truncate(r.usize(1000)));
                    }
                    5 => {
                        st.get_faults.insert(a, ReadFault::Swap(b));
                    }
                    _ => st.mark_fail.push(a),
                }
            }
        }
        self.k05_call(n, c, calm).await?;
        store.no_faults();
        if r.chance(1, 3) {
            self.k05_follow(n).await?;
        }
        Ok(())
    }

    /// With working storage that has everything, whoever got into a history gets all of it.
    pub async fn k05_recover(&mut self) -> Res {
        for n in 0..self.nodes.len() {
            let Some(t) = self.told.get(&n) else { continue };
            let heads: Vec<usize> = t.heads.iter().copied().collect();
            let store = self.nodes[n].store.clone();
            store.no_faults();
            for c in &heads {
                for a in self.history(*c) {
                    if self.told.get_mut(&n).unwrap().stored.insert(a) {
                        store.put(Arc::new(self.cts[a].enc.clone())).await;
                    }
                }
            }
            for c in &heads {
                self.k05_call(n, *c, true).await?;
            }
            while self.k05_follow(n).await? {}
            for c in &heads {
                for a in self.history(*c) {
                    if !self.told[&n].content.contains(&a) {
                        return viol(
                            "causal-entry-lost",
                            format!("U{n} has c{c} and working storage that was given its whole history, but c{a} cannot be recovered any more"),
                        );
                    }
                }
                self.stats.nontrivial += 1;
                self.stats.hit("probe:causal-recovered");
            }
        }
        Ok(())
    }

    pub fn k05_stores(&mut self) {
        for n in 0..self.nodes.len() {
            let mode = (self.cfg.k as usize >> n) % 3;
            let mut s = self.nodes[n].store.0.borrow_mut();
            s.remove_on_mark = mode != 0;
            if mode == 2 {
                s.mem = Some(MemoryCiphertextStore::new());
            }
        }
    }
}
