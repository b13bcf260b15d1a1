//! The simulated deployment: several users, each with one node running the real library, a
//! network that loses, repeats, reorders, delays and partitions, and durable storage.
use crate::det::{mix3, Prng};
use crate::plan::*;
use crate::seams::*;
use beekem::encrypted::EncryptedContent;
use keyhive_core::{
    access::Access,
    archive::Archive,
    contact_card::ContactCard,
    principal::{
        agent::Agent, document::id::DocumentId, group::id::GroupId, identifier::Identifier,
        individual::id::IndividualId, individual::op::KeyOp, membered::Membered, peer::Peer,
    },
};
use keyhive_crypto::{
    digest::Digest, share_key::ShareKey, signed::Signed, symmetric_key::SymmetricKey,
};
use nonempty::NonEmpty;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;
use std::sync::Arc;

pub type Id = [u8; 32];
pub type Key = [u8; 32];
pub type Sig = [u8; 64];
pub type SAgent = Agent<future_form::Local, SimSigner, T, SimListener>;
pub type SMembered = Membered<future_form::Local, SimSigner, T, SimListener>;
pub type SPeer = Peer<future_form::Local, SimSigner, T, SimListener>;
pub type SDoc = Arc<
    futures::lock::Mutex<
        keyhive_core::principal::document::Document<future_form::Local, SimSigner, T, SimListener>,
    >,
>;

pub fn ident(id: &Id) -> Identifier {
    Identifier(ed25519_dalek::VerifyingKey::from_bytes(id).expect("valid key"))
}
pub fn ev_key(e: &Sev) -> Key {
    *Digest::hash(e).raw.as_bytes()
}
pub fn hx(id: &[u8]) -> String {
    id.iter().take(4).map(|b| format!("{b:02x}")).collect()
}
pub fn acc(i: u32) -> Access {
    match i % 4 {
        0 => Access::Relay,
        1 => Access::Read,
        2 => Access::Edit,
        _ => Access::Admin,
    }
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub kind: String,
    pub detail: String,
}
pub type Res<O = ()> = Result<O, Violation>;
pub fn viol<O>(kind: &str, detail: String) -> Res<O> {
    Err(Violation {
        kind: kind.into(),
        detail,
    })
}

#[derive(Clone)]
pub struct PoolEv {
    pub ev: Sev,
    pub key: Key,
    pub origin: usize,
    pub step: u32,
    pub honest: bool,
}

impl PoolEv {
    pub fn kind(&self) -> &'static str {
        match &self.ev {
            Sev::PrekeysExpanded(_) => "prekey-add",
            Sev::PrekeyRotated(_) => "prekey-rotate",
            Sev::CgkaOperation(_) => "cgka",
            Sev::Delegated(_) => "delegation",
            Sev::Revoked(_) => "revocation",
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct MemRef {
    pub id: Id,
    pub is_doc: bool,
    pub creator: usize,
    pub step: u32,
}

#[derive(Clone)]
pub struct Saved {
    pub bytes: Vec<u8>,
    pub got: BTreeSet<usize>,
    pub view: View,
    pub step: u32,
}

pub struct Node {
    pub idx: usize,
    pub id: Id,
    pub signer: SimSigner,
    pub store: SimStore,
    pub listener: SimListener,
    pub rng: SimRng,
    pub kh: Kh,
    pub got: BTreeSet<usize>,
    pub saved: Option<Saved>,
    /// has restarted from an archive older than its last own operation
    pub lossy: bool,
    /// everything this node announced, in order: (pool index, during a local operation, step)
    pub announced: Vec<(usize, bool, u32)>,
}

pub struct Ct {
    pub doc: Id,
    pub r: T,
    pub enc: EncryptedContent<Vec<u8>, T>,
    pub plain: Vec<u8>,
    pub preds: Vec<T>,
    pub by: usize,
    pub step: u32,
    /// agents (individuals) the encrypting node reported, with access, at that moment
    pub reach: BTreeMap<Id, Access>,
    /// what the encrypting node had received at that moment (including the update it emitted)
    pub base: BTreeSet<usize>,
    /// what of that was still pending there
    pub pend: BTreeSet<usize>,
    /// how many events existed anywhere
    pub upto: usize,
    /// the key it was encrypted with, as the library reported it
    pub key: Option<SymmetricKey>,
    /// (K05) what its envelope points to
    pub parents: Vec<usize>,
    /// (K05) the envelope's own payload
    pub payload: Vec<u8>,
}

pub struct Packet {
    pub from: usize,
    pub to: usize,
    pub evs: Vec<usize>,
    pub due: u32,
    pub mode: u32,
}

#[derive(Default, Clone)]
pub struct Stats {
    pub counts: BTreeMap<String, u64>,
    pub states: BTreeSet<u64>,
    pub shape: u64,
    /// how often an oracle compared something that mattered to the property
    pub nontrivial: u64,
    pub ticks: u64,
}
impl Stats {
    pub fn hit(&mut self, k: &str) {
        *self.counts.entry(k.to_string()).or_default() += 1;
    }
    pub fn add(&mut self, k: &str, n: u64) {
        if n > 0 {
            *self.counts.entry(k.to_string()).or_default() += n;
        }
    }
    pub fn mark(&mut self, h: u64) {
        self.shape = crate::det::mix2(self.shape, h);
    }
}

pub struct World {
    pub plan: Plan,
    pub cfg: Cfg,
    pub seed: u64,
    pub nodes: Vec<Node>,
    pub pool: Vec<PoolEv>,
    pub pool_ix: BTreeMap<Key, usize>,
    pub mem: Vec<MemRef>,
    /// grants in the making within a burst (subject, delegate)
    pub planned_edges: Vec<(Id, Id)>,
    pub cts: Vec<Ct>,
    pub net: Vec<Packet>,
    pub blocked: BTreeSet<(usize, usize)>,
    pub stats: Stats,
    pub step_id: u32,
    pub tick: u32,
    pub trace: Vec<String>,
    pub tracing: bool,
    /// every secret key each node was ever seen to hold
    pub hoards: BTreeMap<usize, crate::secret::Sks>,
    /// (K05) what causal decryption has reported on each node
    pub told: BTreeMap<usize, crate::damage::Told>,
}

pub fn signing_key(seed: u64, idx: u64) -> ed25519_dalek::SigningKey {
    let mut r = Prng::new(mix3(seed, 0x5179, idx));
    ed25519_dalek::SigningKey::from_bytes(&r.bytes32())
}

/// Everything a node reports about membership.
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct MView {
    pub is_doc: bool,
    /// member -> set of (delegation signature, access)
    pub members: BTreeMap<Id, BTreeSet<(Sig, Access)>>,
    pub revoked: BTreeMap<Id, Access>,
    pub reach: BTreeMap<Id, Access>,
}
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct View {
    pub m: BTreeMap<Id, MView>,
}

impl View {
    pub fn hash(&self) -> u64 {
        let mut h = blake3::Hasher::new();
        for (id, m) in &self.m {
            h.update(id);
            h.update(&[m.is_doc as u8]);
            for (i, d) in &m.members {
                h.update(i);
                for (s, a) in d {
                    h.update(s);
                    h.update(&[*a as u8]);
                }
            }
            for (i, a) in &m.revoked {
                h.update(i);
                h.update(&[*a as u8, 77]);
            }
        }
        u64::from_le_bytes(h.finalize().as_bytes()[..8].try_into().unwrap())
    }
}

pub fn dlg_of(
    e: &Sev,
) -> Option<&Signed<keyhive_core::principal::group::delegation::StaticDelegation<T>>> {
    match e {
        Sev::Delegated(d) => Some(d),
        _ => None,
    }
}

pub async fn membered_view(m: &SMembered) -> MView {
    let mut mv = MView::default();
    for (mid, dlgs) in m.members().await.iter() {
        mv.members.insert(
            mid.to_bytes(),
            dlgs.iter()
                .map(|d| (d.signature.to_bytes(), d.payload().can()))
                .collect(),
        );
    }
    let rev = match m {
        Membered::Group(_, g) => g.lock().await.revoked_members(),
        Membered::Document(_, d) => d.lock().await.revoked_members(),
    };
    for (mid, (_, a)) in rev {
        mv.revoked.insert(mid.to_bytes(), a);
    }
    mv
}

pub async fn node_view(kh: &Kh) -> View {
    let mut v = View::default();
    let groups: Vec<_> = kh
        .groups()
        .lock()
        .await
        .iter()
        .map(|(k, g)| (*k, g.clone()))
        .collect();
    let docs: Vec<_> = kh
        .documents()
        .lock()
        .await
        .iter()
        .map(|(k, g)| (*k, g.clone()))
        .collect();
    let mut all: Vec<(Id, bool, SMembered)> = vec![];
    for (k, g) in groups {
        all.push((k.to_bytes(), false, Membered::Group(k, g)));
    }
    for (k, d) in docs {
        all.push((k.to_bytes(), true, Membered::Document(k, d)));
    }
    for (id, is_doc, m) in all {
        let mut mv = membered_view(&m).await;
        mv.is_doc = is_doc;
        for (mid, (_, a)) in kh.reachable_members(m).await {
            mv.reach.insert(mid.to_bytes(), a);
        }
        v.m.insert(id, mv);
    }
    v
}

pub async fn pending_keys(kh: &Kh) -> BTreeSet<Key> {
    kh.pending_event_hashes()
        .await
        .iter()
        .map(|d| *d.raw.as_bytes())
        .collect()
}

impl World {
    pub fn new(plan: &Plan) -> Self {
        World {
            plan: plan.clone(),
            cfg: plan.cfg.clone(),
            seed: plan.seed,
            nodes: vec![],
            pool: vec![],
            pool_ix: Default::default(),
            mem: vec![],
            planned_edges: vec![],
            cts: vec![],
            net: vec![],
            blocked: Default::default(),
            stats: Default::default(),
            step_id: 0,
            tick: 0,
            trace: vec![],
            tracing: std::env::var("KHSIM_TRACE").is_ok(),
            hoards: Default::default(),
            told: Default::default(),
        }
    }

    pub fn log(&mut self, f: impl FnOnce() -> String) {
        if self.tracing {
            let s = f();
            eprintln!("[{:>3}] {s}", self.step_id);
            self.trace.push(s);
        }
    }

    /// Hash over every event of the run and who has received it.
    pub fn log_hash(&self) -> u64 {
        let mut h = blake3::Hasher::new();
        for p in &self.pool {
            h.update(&p.key);
        }
        for n in &self.nodes {
            h.update(&n.id);
            for g in &n.got {
                h.update(&g.to_le_bytes());
            }
        }
        for c in &self.cts {
            h.update(&c.enc.ciphertext);
        }
        u64::from_le_bytes(h.finalize().as_bytes()[..8].try_into().unwrap())
    }

    pub fn name(&self, id: &Id) -> String {
        if let Some(n) = self.nodes.iter().find(|n| n.id == *id) {
            return format!("U{}", n.idx);
        }
        if let Some(i) = self.mem.iter().position(|m| m.id == *id) {
            return format!("{}{}", if self.mem[i].is_doc { "D" } else { "G" }, i);
        }
        if *id == keyhive_core::principal::public::Public.id().to_bytes() {
            return "Public".into();
        }
        hx(id)
    }

    pub async fn spawn_node(&mut self, key_ix: u64) -> Res<usize> {
        let idx = self.nodes.len();
        let key = Rc::new(signing_key(self.seed, key_ix));
        let signer = SimSigner {
            key,
            faults: Default::default(),
        };
        let store = SimStore::default();
        let listener = SimListener::default();
        let rng = SimRng::new(mix3(self.seed, 0xa11ce, key_ix));
        let kh = Kh::generate(signer.clone(), store.clone(), listener.clone(), rng.clone())
            .await
            .map_err(|e| Violation {
                kind: "generate-failed".into(),
                detail: format!("{e:?}"),
            })?;
        let id = kh.id().to_bytes();
        self.nodes.push(Node {
            idx,
            id,
            signer,
            store,
            listener,
            rng,
            kh,
            got: Default::default(),
            saved: None,
            lossy: false,
            announced: vec![],
        });
        self.collect(idx, true);
        // the initial prekeys are not announced; publish them the way an application does
        let ind = self.nodes[idx].kh.individual().await;
        let ops: Vec<Sev> = {
            let l = ind.lock().await;
            let mut v: Vec<Sev> = l.prekey_ops().values().map(|o| key_op_event(o)).collect();
            v.sort_by_key(ev_key);
            v
        };
        for e in ops {
            let p = self.add_pool(e, idx, true);
            self.nodes[idx].got.insert(p);
        }
        Ok(idx)
    }

    pub async fn start(&mut self) -> Res {
        for i in 0..self.cfg.nodes {
            self.spawn_node(i as u64).await?;
        }
        if self.cfg.introduced {
            for n in 0..self.nodes.len() {
                let evs: Vec<usize> = (0..self.pool.len())
                    .filter(|p| self.pool[*p].origin != n)
                    .collect();
                self.deliver(n, &evs, 0).await?;
            }
        }
        Ok(())
    }

    pub fn add_pool(&mut self, ev: Sev, origin: usize, honest: bool) -> usize {
        let key = ev_key(&ev);
        if let Some(i) = self.pool_ix.get(&key) {
            return *i;
        }
        let i = self.pool.len();
        if self.tracing {
            if let Sev::CgkaOperation(op) = &ev {
                use beekem::operation::CgkaOperation as C;
                let short = |b: &[u8]| {
                    b[..4]
                        .iter()
                        .map(|x| format!("{x:02x}"))
                        .collect::<String>()
                };
                let what = match op.payload() {
                    C::Add {
                        added_id,
                        leaf_index,
                        ..
                    } => format!("adds {} at {leaf_index}", short(&added_id.to_bytes())),
                    C::Remove { id, leaf_idx, .. } => {
                        format!("removes {} at {leaf_idx}", short(&id.to_bytes()))
                    }
                    C::Update { id, new_path, .. } => {
                        format!("updates {} at {}", short(&id.to_bytes()), new_path.leaf_idx)
                    }
                };
                // (not `predecessors()`: making a hash set here would change the run)
                let (C::Add { predecessors, .. }
                | C::Remove { predecessors, .. }
                | C::Update { predecessors, .. }) = op.payload();
                let after: BTreeSet<String> = predecessors
                    .iter()
                    .map(|d| {
                        let pos = self.pool.iter().position(|p| matches!(&p.ev, Sev::CgkaOperation(o) if Digest::hash(o.as_ref()) == *d));
                        pos.map_or("?".into(), |p| p.to_string())
                    })
                    .collect();
                let line = format!(
                    "  cgka#{i} in {} by U{origin} {what} after {}",
                    short(op.payload().doc_id().as_bytes()),
                    after.into_iter().collect::<Vec<_>>().join(",")
                );
                self.log(|| line);
            }
        }
        self.pool.push(PoolEv {
            ev,
            key,
            origin,
            step: self.step_id,
            honest,
        });
        self.pool_ix.insert(key, i);
        i
    }

    /// Drain a node's listener into the pool. Returns the pool indices announced.
    pub fn collect(&mut self, n: usize, local: bool) -> Vec<usize> {
        let evs = self.nodes[n].listener.drain();
        let mut out = vec![];
        for e in evs {
            let p = self.add_pool(e, n, true);
            if local {
                self.nodes[n].got.insert(p);
            }
            self.nodes[n]
                .announced
                .push((p, local, self.step_id as u32));
            out.push(p);
        }
        out
    }

    pub fn reseed(&self, n: usize) {
        self.nodes[n]
            .rng
            .reseed(self.seed, self.step_id as u64, n as u64);
    }

    // ---- resolution of abstract indices --------------------------------------------------

    pub fn nix(&self, x: u32) -> usize {
        x as usize % self.nodes.len()
    }
    pub fn mix(&self, x: u32) -> Option<usize> {
        if self.mem.is_empty() {
            None
        } else {
            Some(x as usize % self.mem.len())
        }
    }
    pub fn docs(&self) -> Vec<usize> {
        (0..self.mem.len())
            .filter(|i| self.mem[*i].is_doc)
            .collect()
    }
    pub fn dix(&self, x: u32) -> Option<usize> {
        let d = self.docs();
        if d.is_empty() {
            None
        } else {
            Some(d[x as usize % d.len()])
        }
    }
    /// all agent identities in the world: users first, then groups and documents
    pub fn agent_ids(&self) -> Vec<Id> {
        self.nodes
            .iter()
            .map(|n| n.id)
            .chain(self.mem.iter().map(|m| m.id))
            .collect()
    }

    pub async fn membered(&self, n: usize, m: usize) -> Option<SMembered> {
        let kh = &self.nodes[n].kh;
        let id = ident(&self.mem[m].id);
        if let Some(g) = kh.get_group(GroupId::new(id)).await {
            return Some(Membered::Group(GroupId::new(id), g));
        }
        let d = DocumentId::from(id);
        kh.get_document(d).await.map(|x| Membered::Document(d, x))
    }
    pub async fn agent(&self, n: usize, id: &Id) -> Option<SAgent> {
        self.nodes[n].kh.get_agent(ident(id)).await
    }
    pub async fn doc(&self, n: usize, m: usize) -> Option<SDoc> {
        self.nodes[n]
            .kh
            .get_document(DocumentId::from(ident(&self.mem[m].id)))
            .await
    }

    // ---- local operations ----------------------------------------------------------------

    pub async fn op_new(&mut self, n: usize, is_doc: bool, coparents: Vec<Id>) -> Res<bool> {
        self.reseed(n);
        let kh = self.nodes[n].kh.clone();
        let mut peers: Vec<SPeer> = vec![];
        for c in &coparents {
            if let Some(p) = kh.get_peer(ident(c)).await {
                peers.push(p);
            }
        }
        let id = if is_doc {
            let r = mix3(self.seed, self.step_id as u64, 0xd0c);
            let mut h = [0u8; 32];
            h[..8].copy_from_slice(&r.to_le_bytes());
            match kh.generate_doc(peers, NonEmpty::new(h)).await {
                Ok(d) => d.lock().await.doc_id().to_bytes(),
                Err(e) => {
                    self.collect(n, true);
                    self.log(|| format!("U{n} new doc failed: {e:?}"));
                    return Ok(false);
                }
            }
        } else {
            match kh.generate_group(peers).await {
                Ok(g) => g.lock().await.group_id().to_bytes(),
                Err(e) => {
                    self.collect(n, true);
                    self.log(|| format!("U{n} new group failed: {e:?}"));
                    return Ok(false);
                }
            }
        };
        let step = self.step_id;
        self.mem.push(MemRef {
            id,
            is_doc,
            creator: n,
            step,
        });
        self.collect(n, true);
        self.stats
            .hit(if is_doc { "op:new-doc" } else { "op:new-group" });
        let i = self.mem.len() - 1;
        self.log(|| {
            format!(
                "U{n} new {}{} with {:?}",
                if is_doc { "D" } else { "G" },
                i,
                coparents.iter().map(|c| hx(c)).collect::<Vec<_>>()
            )
        });
        Ok(true)
    }

    /// Would adding `agent` to membered `m` close a cycle, as far as the world knows?
    pub fn nests(&self, m: &Id, agent: &Id) -> bool {
        // edges: delegation subject -> delegate, over the whole pool
        if m == agent {
            return true;
        }
        let mut adj: BTreeMap<Id, BTreeSet<Id>> = BTreeMap::new();
        for (s, d) in self.grant_edges() {
            adj.entry(s).or_default().insert(d);
        }
        for (s, d) in &self.planned_edges {
            adj.entry(*s).or_default().insert(*d);
        }
        let mut seen = BTreeSet::new();
        let mut st = vec![*agent];
        while let Some(x) = st.pop() {
            if x == *m {
                return true;
            }
            if seen.insert(x) {
                if let Some(a) = adj.get(&x) {
                    st.extend(a.iter().copied());
                }
            }
        }
        false
    }

    /// (subject, delegate) of every delegation in the pool.
    pub fn grant_edges(&self) -> Vec<(Id, Id)> {
        let model = crate::model::Ops::from_pool(self.pool.iter().map(|p| &p.ev));
        model
            .dlgs
            .values()
            .filter_map(|d| d.subject.map(|s| (s, d.delegate)))
            .collect()
    }

    pub async fn op_add(&mut self, n: usize, m: usize, agent: Id, can: Access) -> Res<bool> {
        self.op_add_res(n, m, agent, can).await.map(|x| x.is_some())
    }

    /// Ok(None): not applicable or refused; Ok(Some(())) success
    pub async fn op_add_res(
        &mut self,
        n: usize,
        m: usize,
        agent: Id,
        can: Access,
    ) -> Res<Option<()>> {
        self.reseed(n);
        let kh = self.nodes[n].kh.clone();
        let Some(res) = self.membered(n, m).await else {
            return Ok(None);
        };
        let Some(ag) = self.agent(n, &agent).await else {
            return Ok(None);
        };
        let is_mem = self.mem.iter().any(|x| x.id == agent);
        if is_mem && !self.cfg.cycles && self.nests(&self.mem[m].id, &agent) {
            return Ok(None);
        }
        let r = kh.add_member(ag, &res, can, &[]).await;
        let got = self.collect(n, true);
        let nm = (self.name(&self.mem[m].id), self.name(&agent));
        match r {
            Ok(u) => {
                self.stats.hit("op:add");
                self.log(|| format!("U{n} add {} to {} as {can:?}", nm.1, nm.0));
                if matches!(self.plan.prop.as_str(), "M02" | "M04") {
                    let now = membered_view(&res).await;
                    let has = now
                        .members
                        .get(&agent)
                        .is_some_and(|ds| ds.iter().any(|(_, a)| *a >= can));
                    // a grant on authority that someone has revoked, standing on another leg
                    // for now, is contested: the order of the operations settles it
                    let sig = u.delegation.signature.to_bytes();
                    let o = crate::model::Ops::from_pool(self.pool.iter().map(|p| &p.ev));
                    let contested = o.dlgs.values().filter(|d| d.sig == sig).any(|d| {
                        o.revs
                            .values()
                            .any(|r| r.revoke == d.key || d.lineage.contains(&r.revoke))
                    });
                    if !has && contested {
                        self.stats.hit("op:add-contested");
                    }
                    let has = has || contested;
                    if !has {
                        return viol(
                            "grant-without-effect",
                            format!(
                                "U{n} granted {} {can:?} on {} and reported success, but does \
                                 not report that access",
                                nm.1, nm.0
                            ),
                        );
                    }
                }
                Ok(Some(()))
            }
            Err(e) => {
                self.stats.hit("op:add-refused");
                self.log(|| format!("U{n} add {} to {} as {can:?} refused: {e}", nm.1, nm.0));
                let _ = got;
                Ok(None)
            }
        }
    }

    pub async fn op_revoke(&mut self, n: usize, m: usize, who: Id, retain: bool) -> Res<bool> {
        self.reseed(n);
        let kh = self.nodes[n].kh.clone();
        let Some(res) = self.membered(n, m).await else {
            return Ok(false);
        };
        let before = if self.plan.prop == "M04" {
            Some(membered_view(&res).await)
        } else {
            None
        };
        let r = kh.revoke_member(ident(&who), retain, &res).await;
        self.collect(n, true);
        let nm = (self.name(&self.mem[m].id), self.name(&who));
        match r {
            Ok(u) if !u.revocations().is_empty() => {
                self.log(|| {
                    format!(
                        "U{n} revoke {} from {} retain={retain} ({} revocations, {} redelegations)",
                        nm.1,
                        nm.0,
                        u.revocations().len(),
                        u.redelegations().len()
                    )
                });
                if let Some(b) = before {
                    let a = membered_view(&res).await;
                    self.revoke_effect(n, m, &who, retain, &b, &a)?;
                }
                self.stats.hit("op:revoke");
                Ok(true)
            }
            Ok(_) => {
                self.log(|| format!("U{n} revoke {} from {}: nothing to revoke", nm.1, nm.0));
                Ok(false)
            }
            Err(e) => {
                self.stats.hit("op:revoke-refused");
                self.log(|| format!("U{n} revoke {} from {} refused: {e:?}", nm.1, nm.0));
                Ok(false)
            }
        }
    }

    pub async fn op_expand(&mut self, n: usize) -> Res<bool> {
        self.reseed(n);
        let kh = self.nodes[n].kh.clone();
        let r = kh.expand_prekeys().await;
        self.collect(n, true);
        self.stats.hit("op:expand");
        self.log(|| format!("U{n} expand prekeys ok={}", r.is_ok()));
        Ok(r.is_ok())
    }

    pub async fn op_rotate(&mut self, n: usize, which: u32) -> Res<bool> {
        self.reseed(n);
        let kh = self.nodes[n].kh.clone();
        let mut old = self.pick_key(n, which).await;
        if self.plan.prop == "P01" {
            // any own key: current, already rotated away, or (rarely) one never published
            let mine: Vec<ShareKey> = self
                .pool
                .iter()
                .filter(|p| p.origin == n)
                .filter_map(|p| match &p.ev {
                    Sev::PrekeysExpanded(o) => Some(o.payload.share_key),
                    Sev::PrekeyRotated(o) => Some(o.payload.new),
                    _ => None,
                })
                .collect();
            if which % 16 == 15 {
                old = ShareKey::from(x25519_dalek::PublicKey::from(
                    Prng::new(which as u64).bytes32(),
                ));
            } else if which % 3 == 0 && !mine.is_empty() {
                old = mine[(which / 3) as usize % mine.len()];
            }
        }
        let r = kh.rotate_prekey(old).await;
        self.collect(n, true);
        self.stats.hit("op:rotate");
        self.log(|| format!("U{n} rotate prekey ok={}", r.is_ok()));
        Ok(r.is_ok())
    }

    pub async fn pick_key(&self, n: usize, which: u32) -> ShareKey {
        let ind = self.nodes[n].kh.individual().await;
        let l = ind.lock().await;
        *l.pick_prekey(doc_id_for(which as u64))
    }

    /// Hand over a contact card out of band.
    pub async fn op_card(&mut self, from: usize, to: usize, fresh: bool) -> Res<bool> {
        if from == to {
            return Ok(false);
        }
        self.reseed(from);
        let kh = self.nodes[from].kh.clone();
        let card: ContactCard = if fresh {
            match kh.contact_card().await {
                Ok(c) => c,
                Err(_) => {
                    self.collect(from, true);
                    return Ok(false);
                }
            }
        } else {
            kh.get_existing_contact_card().await
        };
        self.collect(from, true);
        let p = self.add_pool(key_op_event(card.op()), from, true);
        let r = self.nodes[to].kh.clone().receive_contact_card(&card).await;
        self.collect(to, false);
        if r.is_ok() {
            self.nodes[to].got.insert(p);
        }
        self.stats.hit("op:card");
        self.log(|| {
            format!(
                "U{from} contact card to U{to} fresh={fresh} ok={}",
                r.is_ok()
            )
        });
        match r {
            Ok(_) => Ok(true),
            Err(e) => viol(
                "card-refused",
                format!("U{to} refused the contact card of U{from}: {e:?}"),
            ),
        }
    }

    pub async fn op_pcs(&mut self, n: usize, m: usize) -> Res<bool> {
        self.reseed(n);
        let Some(doc) = self.doc(n, m).await else {
            return Ok(false);
        };
        let kh = self.nodes[n].kh.clone();
        let r = kh.force_pcs_update(doc).await;
        self.collect(n, true);
        self.log(|| {
            format!(
                "U{n} pcs update D{m} {:?}",
                r.as_ref().map(|_| ()).map_err(|e| e.to_string())
            )
        });
        if r.is_ok() {
            self.stats.hit("op:pcs-update");
        }
        Ok(r.is_ok())
    }

    pub async fn op_encrypt(
        &mut self,
        n: usize,
        m: usize,
        body: Vec<u8>,
        preds: Vec<T>,
    ) -> Res<Option<usize>> {
        self.reseed(n);
        let Some(doc) = self.doc(n, m).await else {
            return Ok(None);
        };
        let kh = self.nodes[n].kh.clone();
        let reach: BTreeMap<Id, Access> = kh
            .reachable_members(Membered::Document(
                DocumentId::from(ident(&self.mem[m].id)),
                doc.clone(),
            ))
            .await
            .into_iter()
            .map(|(k, (_, a))| (k.to_bytes(), a))
            .collect();
        let mut r = Prng::new(mix3(self.seed, 0xc0de, self.step_id as u64)).bytes32();
        r[0] = self.cts.len() as u8;
        let res = if self.step_id % 2 == 0 || self.plan.prop == "K05" {
            kh.try_encrypt_content_keyed(doc, &r, &preds, &body)
                .await
                .map(|(e, k)| (e, Some(k)))
        } else {
            kh.try_encrypt_content(doc, &r, &preds, &body)
                .await
                .map(|e| (e, None))
        };
        self.collect(n, true);
        match res {
            Ok((e, key)) => {
                if let Some(k) = key {
                    if e.encrypted_content().try_decrypt(k).ok().as_ref() != Some(&body) {
                        return viol("reported-key-wrong", format!("U{n} encrypted in {}: the key reported along with the ciphertext does not decrypt it", self.name(&self.mem[m].id)));
                    }
                }
                // (for S03 the announcement alone must be enough)
                if let Some(op) = e.update_op().filter(|_| self.plan.prop != "S03") {
                    let p = self.add_pool(Sev::CgkaOperation(Box::new(op.clone())), n, true);
                    self.nodes[n].got.insert(p);
                }
                self.stats.hit("op:encrypt");
                let base = self.nodes[n].got.clone();
                let step = self.step_id;
                let pend = self.pending(n).await;
                let upto = self.pool.len();
                self.cts.push(Ct {
                    pend,
                    upto,
                    key,
                    parents: vec![],
                    payload: vec![],
                    doc: self.mem[m].id,
                    r,
                    enc: e.encrypted_content().clone(),
                    plain: body,
                    preds,
                    by: n,
                    step,
                    reach,
                    base,
                });
                let c = self.cts.len() - 1;
                self.log(|| format!("U{n} encrypt c{c} in D{m}"));
                Ok(Some(c))
            }
            Err(e) => {
                self.stats.hit("op:encrypt-refused");
                self.log(|| format!("U{n} encrypt in D{m} failed: {e:?}"));
                Ok(None)
            }
        }
    }

    pub async fn decrypt(&self, n: usize, c: usize) -> Option<Result<Vec<u8>, String>> {
        let ct = &self.cts[c];
        let doc = self.nodes[n]
            .kh
            .get_document(DocumentId::from(ident(&ct.doc)))
            .await?;
        Some(
            self.nodes[n]
                .kh
                .try_decrypt_content(doc, &ct.enc)
                .await
                .map_err(|e| format!("{e:?}")),
        )
    }

    // ---- delivery ------------------------------------------------------------------------

    /// Hand events to a node's ingest entry points. mode 0: one batch; 1: each alone through
    /// ingest; 2: random sub-batches.
    pub async fn deliver(&mut self, n: usize, evs: &[usize], mode: u32) -> Res {
        if evs.is_empty() {
            return Ok(());
        }
        self.nodes[n]
            .rng
            .reseed(self.seed, 0xde11 ^ self.step_id as u64, n as u64);
        let kh = self.nodes[n].kh.clone();
        let batches: Vec<Vec<usize>> = match mode % 3 {
            0 => vec![evs.to_vec()],
            1 => evs.iter().map(|e| vec![*e]).collect(),
            _ => {
                let mut r = Prng::new(mix3(self.seed, self.step_id as u64, evs.len() as u64));
                let mut out = vec![vec![]];
                for e in evs {
                    if !out.last().unwrap().is_empty() && r.chance(1, 3) {
                        out.push(vec![]);
                    }
                    out.last_mut().unwrap().push(*e);
                }
                out
            }
        };
        for b in batches {
            let es: Vec<Sev> = b.iter().map(|i| self.pool[*i].ev.clone()).collect();
            self.stats.add("delivered-events", es.len() as u64);
            let pend = kh.ingest_unsorted_static_events(es).await;
            let np = pend.len();
            for i in &b {
                self.nodes[n].got.insert(*i);
            }
            self.collect(n, false);
            if self.tracing {
                let d: Vec<String> = b
                    .iter()
                    .map(|i| format!("{}#{}", self.pool[*i].kind(), i))
                    .collect();
                let pd: Vec<String> = pend
                    .iter()
                    .map(|e| {
                        self.pool_ix
                            .get(&ev_key(e))
                            .map(|i| i.to_string())
                            .unwrap_or("?".into())
                    })
                    .collect();
                self.log(|| format!("U{n} <- {} (pending {np}: {})", d.join(" "), pd.join(",")));
            }
        }
        Ok(())
    }

    pub fn missing(&self, n: usize) -> Vec<usize> {
        (0..self.pool.len())
            .filter(|p| !self.nodes[n].got.contains(p))
            .collect()
    }

    /// What `from` offers `to` through the library's own query.
    pub async fn offer(&mut self, from: usize, to_id: &Id) -> Option<Vec<usize>> {
        let kh = self.nodes[from].kh.clone();
        let ag = kh.get_agent(ident(to_id)).await?;
        let evs = kh.static_events_for_agent(&ag).await;
        let mut es: Vec<(Key, Sev)> = evs
            .into_iter()
            .map(|(k, v)| (*k.raw.as_bytes(), v))
            .collect();
        es.sort_by_key(|e| e.0);
        Some(
            es.into_iter()
                .map(|(_, e)| self.add_pool(e, from, true))
                .collect(),
        )
    }

    /// Put packets on the simulated network, applying loss, duplication, delay and splitting.
    pub fn send(&mut self, from: usize, to: usize, mut evs: Vec<usize>, r: &mut Prng) {
        if from == to || evs.is_empty() {
            return;
        }
        if self.blocked.contains(&(from.min(to), from.max(to))) {
            self.stats.hit("fault:partition-drop");
            return;
        }
        r.shuffle(&mut evs);
        let mut parts: Vec<Vec<usize>> = vec![evs];
        if r.chance(self.cfg.split_pct as u64, 100) {
            let whole = parts.pop().unwrap();
            let mut k = 1 + r.usize(4);
            let mut cur = vec![];
            for e in whole {
                cur.push(e);
                if k > 0 && r.chance(1, 3) {
                    parts.push(std::mem::take(&mut cur));
                    k -= 1;
                }
            }
            if !cur.is_empty() {
                parts.push(cur);
            }
            self.stats.hit("fault:split");
        }
        for p in parts {
            if r.chance(self.cfg.drop_pct as u64, 100) {
                self.stats.hit("fault:loss");
                continue;
            }
            let copies = if r.chance(self.cfg.dup_pct as u64, 100) {
                self.stats.hit("fault:duplicate");
                2
            } else {
                1
            };
            for _ in 0..copies {
                let d = r.below(self.cfg.delay_max as u64 + 1) as u32;
                if d > 0 {
                    self.stats.hit("fault:delay");
                }
                let mode = if r.chance(self.cfg.single_pct as u64, 100) {
                    1
                } else {
                    0
                };
                self.net.push(Packet {
                    from,
                    to,
                    evs: p.clone(),
                    due: self.tick + d,
                    mode,
                });
            }
        }
    }

    /// Deliver what is due, in seeded order.
    pub async fn pump(&mut self, r: &mut Prng) -> Res {
        loop {
            let due: Vec<usize> = (0..self.net.len())
                .filter(|i| self.net[*i].due <= self.tick)
                .collect();
            if due.is_empty() {
                return Ok(());
            }
            let at = *r.pick(&due);
            if due.len() > 1 && at != due[0] {
                self.stats.hit("fault:reorder");
            }
            let p = self.net.remove(at);
            self.deliver(p.to, &p.evs, p.mode).await?;
        }
    }

    pub async fn flush(&mut self, r: &mut Prng) -> Res {
        self.blocked.clear();
        self.tick += 1000;
        self.pump(r).await
    }

    /// Every node gets every event it has not got, in its own seeded order and batching.
    pub async fn exchange_all(&mut self, r: &mut Prng) -> Res {
        for _ in 0..6 {
            let mut any = false;
            for n in 0..self.nodes.len() {
                let mut miss = self.missing(n);
                if miss.is_empty() {
                    continue;
                }
                any = true;
                r.shuffle(&mut miss);
                let mode = r.u32() % 3;
                self.deliver(n, &miss, mode).await?;
            }
            if !any {
                break;
            }
        }
        Ok(())
    }

    // ---- crash and restart ---------------------------------------------------------------

    pub async fn archive_bytes(&self, n: usize) -> Vec<u8> {
        let a = self.nodes[n].kh.into_archive().await;
        bincode::serialize(&a).expect("archive serialises")
    }

    pub async fn save(&mut self, n: usize) -> Res {
        let bytes = self.archive_bytes(n).await;
        let view = node_view(&self.nodes[n].kh).await;
        let got = self.nodes[n].got.clone();
        let step = self.step_id;
        self.nodes[n].saved = Some(Saved {
            bytes,
            got,
            view,
            step,
        });
        Ok(())
    }

    pub async fn load(&mut self, n: usize, bytes: &[u8]) -> Res {
        let a: Archive<T> = bincode::deserialize(bytes).map_err(|e| Violation {
            kind: "archive-unreadable".into(),
            detail: e.to_string(),
        })?;
        let listener = SimListener::default();
        let node = &mut self.nodes[n];
        let kh = Kh::try_from_archive(
            &a,
            node.signer.clone(),
            node.store.clone(),
            listener.clone(),
            Arc::new(futures::lock::Mutex::new(node.rng.clone())),
        )
        .await
        .map_err(|e| Violation {
            kind: "archive-refused".into(),
            detail: format!("U{n} cannot restart from its own archive: {e}"),
        })?;
        node.kh = kh;
        node.listener = listener;
        Ok(())
    }

    /// Crash now and come back from an archive taken at this instant.
    pub async fn restart_now(&mut self, n: usize) -> Res {
        let bytes = self.archive_bytes(n).await;
        self.load(n, &bytes).await?;
        self.stats.hit("fault:crash-restart");
        self.log(|| format!("U{n} restarted from a current archive"));
        Ok(())
    }

    /// Crash and come back from the last saved archive: everything since is lost.
    pub async fn restart_stale(&mut self, n: usize) -> Res<bool> {
        let Some(s) = self.nodes[n].saved.clone() else {
            return Ok(false);
        };
        self.load(n, &s.bytes).await?;
        if s.got != self.nodes[n].got {
            let lost_own = self.nodes[n]
                .got
                .difference(&s.got)
                .any(|p| self.pool[*p].origin == n);
            if lost_own {
                self.nodes[n].lossy = true;
            }
        }
        self.nodes[n].got = s.got;
        self.stats.hit("fault:crash-stale");
        self.log(|| format!("U{n} crashed back to the archive of step {}", s.step));
        Ok(true)
    }
}

pub fn doc_id_for(x: u64) -> DocumentId {
    let k = ed25519_dalek::SigningKey::from_bytes(&Prng::new(mix3(x, 0xd1d, 1)).bytes32());
    DocumentId::from(Identifier(k.verifying_key()))
}

pub fn key_op_event(o: &KeyOp) -> Sev {
    match o {
        KeyOp::Add(a) => Sev::PrekeysExpanded(Box::new((**a).clone())),
        KeyOp::Rotate(a) => Sev::PrekeyRotated(Box::new((**a).clone())),
    }
}

pub fn ind_id(id: &Id) -> IndividualId {
    IndividualId::from(ident(id))
}
