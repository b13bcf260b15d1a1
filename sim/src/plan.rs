//! A plan is the complete input of one simulated run: swarm configuration plus a list of steps.
//! Steps hold abstract indices that are resolved against the state they meet, so deleting or
//! simplifying any step leaves a valid plan; that is what the minimiser does.
use crate::det::{mix3, Prng};
use serde::{Deserialize, Serialize};

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Serialize, Deserialize)]
pub enum Op {
    NewGroup,
    NewDoc,
    Add,
    Revoke,
    Expand,
    Rotate,
    Card,
    Encrypt,
    Pcs,
    Sync,
    SyncAll,
    Gossip,
    Redeliver,
    Partition,
    Heal,
    Save,
    Restart,
    CrashStale,
    Attack,
    SignFault,
    Abandon,
    Burst,
    Fork,
    Read,
    Causal,
    StoreFault,
    Damage,
    Check,
    Ingest,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Step {
    /// Stable identity: random choices inside a step depend on (seed, id) only.
    pub id: u32,
    pub op: Op,
    pub n: u32,
    pub a: u32,
    pub b: u32,
    pub c: u32,
    pub d: u32,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Default)]
#[serde(default)]
pub struct Cfg {
    pub nodes: u32,
    /// everyone knows everyone's prekeys from the start
    pub introduced: bool,
    pub groups_nested: bool,
    pub docs_nested: bool,
    pub cycles: bool,
    pub retain_only: bool,
    pub drop_pct: u32,
    pub dup_pct: u32,
    pub delay_max: u32,
    pub split_pct: u32,
    pub single_pct: u32,
    pub yield_pct: u32,
    pub public_pct: u32,
    /// scenario number for properties that have several
    pub scenario: u32,
    pub k: u32,
    /// simulate the key-agreement layer on its own
    pub kem: bool,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Plan {
    pub prop: String,
    pub seed: u64,
    pub cfg: Cfg,
    pub steps: Vec<Step>,
}

impl Plan {
    pub fn rng(&self, step: &Step) -> Prng {
        Prng::new(mix3(self.seed, 0x57e9, step.id as u64))
    }
}

pub fn gen_steps(r: &mut Prng, count: usize, weights: &[(Op, u32)]) -> Vec<Step> {
    let ws: Vec<u32> = weights.iter().map(|w| w.1).collect();
    (0..count)
        .map(|i| Step {
            id: i as u32 + 1,
            op: weights[r.weighted(&ws)].0,
            n: r.u32(),
            a: r.u32(),
            b: r.u32(),
            c: r.u32(),
            d: r.u32(),
        })
        .collect()
}

/// Swarm: each listed operation keeps, halves, doubles or loses its weight for this run.
pub fn swarm(r: &mut Prng, ws: &[(Op, u32)], never_drop: &[Op]) -> Vec<(Op, u32)> {
    ws.iter()
        .map(|(o, w)| {
            let f = match r.below(8) {
                0 if !never_drop.contains(o) => 0,
                1 => w.div_ceil(2),
                2 => w * 2,
                3 => w * 4,
                _ => *w,
            };
            (*o, f)
        })
        .collect()
}
