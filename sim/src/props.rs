//! Per-property workloads: how plans are generated and what is asserted while they run.
use crate::det::{mix3, Prng};
use crate::plan::*;
use crate::world::*;

pub const ALL: &[&str] = &[
    "M01", "M02", "M03", "M04", "M05", "D01", "D02", "D03", "S01", "S02", "S03", "P01", "K01",
    "K02", "K03", "K04", "K05", "R01", "A01",
];

fn base_cfg(r: &mut Prng) -> Cfg {
    Cfg {
        nodes: 2 + r.u32() % 4,
        introduced: r.chance(3, 4),
        groups_nested: r.chance(2, 3),
        docs_nested: r.chance(1, 5),
        cycles: r.chance(1, 6),
        retain_only: r.chance(1, 4),
        drop_pct: *r.pick(&[0, 0, 10, 30]),
        dup_pct: *r.pick(&[0, 10, 30]),
        delay_max: *r.pick(&[0, 1, 4, 12]),
        split_pct: *r.pick(&[0, 30, 80]),
        single_pct: *r.pick(&[0, 30, 100]),
        yield_pct: *r.pick(&[0, 0, 10]),
        public_pct: 0,
        scenario: (r.u32() % 2) as u32,
        k: r.u32(),
        kem: false,
    }
}

const MEMBERSHIP: &[(Op, u32)] = &[
    (Op::NewGroup, 4),
    (Op::NewDoc, 2),
    (Op::Add, 18),
    (Op::Revoke, 8),
    (Op::Expand, 1),
    (Op::Rotate, 1),
    (Op::Card, 2),
    (Op::Sync, 6),
    (Op::Gossip, 14),
    (Op::Redeliver, 3),
    (Op::SyncAll, 1),
    (Op::Partition, 1),
    (Op::Heal, 1),
    (Op::Restart, 1),
    (Op::Check, 2),
];

pub fn plan(prop: &str, seed: u64) -> Plan {
    let mut r = Prng::new(mix3(
        seed,
        0x91a4,
        prop.bytes().fold(0u64, |a, b| a * 131 + b as u64),
    ));
    let mut cfg = base_cfg(&mut r);
    let mut ws: Vec<(Op, u32)> = MEMBERSHIP.to_vec();
    let mut len = 12 + r.usize(50);
    let kem = prop == "K01" || (prop == "K03" && r.chance(1, 3));
    cfg.kem = kem;
    match prop {
        "M01" => {
            ws.push((Op::SyncAll, 1));
        }
        "M02" => {}
        "M03" => {
            cfg.groups_nested = true;
            cfg.docs_nested = r.chance(1, 2);
            ws.push((Op::NewGroup, 6));
            ws.push((Op::Add, 14));
        }
        "M04" => {
            ws.push((Op::Revoke, 8));
            ws.push((Op::Redeliver, 4));
            ws.push((Op::Restart, 1));
        }
        "M05" => {
            ws.push((Op::Attack, 20));
        }
        "D01" => {
            ws.extend([
                (Op::Restart, 10),
                (Op::Save, 4),
                (Op::CrashStale, 3),
                (Op::Encrypt, 6),
                (Op::Pcs, 2),
                (Op::Expand, 3),
                (Op::Rotate, 3),
            ]);
            cfg.single_pct = *r.pick(&[0, 30, 100]);
        }
        "D02" => {
            ws.extend([
                (Op::Restart, 3),
                (Op::Attack, 5),
                (Op::Encrypt, 3),
                (Op::Pcs, 3),
                (Op::Gossip, 14),
                (Op::Rotate, 2),
                (Op::Expand, 2),
            ]);
            cfg.introduced = r.chance(1, 2);
        }
        "D03" => {
            ws.extend([
                (Op::Redeliver, 8),
                (Op::Encrypt, 3),
                (Op::Pcs, 3),
                (Op::Attack, 2),
                (Op::Rotate, 2),
            ]);
        }
        "S01" => {
            ws.extend([
                (Op::Check, 10),
                (Op::Sync, 10),
                (Op::Encrypt, 2),
                (Op::Pcs, 2),
                (Op::Rotate, 2),
                (Op::Expand, 2),
            ]);
            cfg.introduced = r.chance(1, 2);
        }
        "S02" => {
            cfg.nodes = 3 + r.u32() % 4;
            ws.extend([
                (Op::Check, 12),
                (Op::Sync, 6),
                (Op::NewDoc, 4),
                (Op::NewGroup, 4),
                (Op::Encrypt, 4),
                (Op::Pcs, 3),
                (Op::Revoke, 6),
            ]);
        }
        "S03" => {
            ws.extend([
                (Op::Encrypt, 6),
                (Op::Pcs, 5),
                (Op::Rotate, 3),
                (Op::Expand, 3),
                (Op::NewDoc, 4),
                (Op::SignFault, 8),
                (Op::Sync, 8),
            ]);
        }
        "P01" => {
            cfg.nodes = 2 + r.u32() % 3;
            let many = *r.pick(&[2, 8, 30]);
            ws = vec![
                (Op::Expand, many),
                (Op::Rotate, 12),
                (Op::Card, 6),
                (Op::Gossip, 12),
                (Op::Sync, 4),
                (Op::Redeliver, 3),
                (Op::Restart, 2),
                (Op::Save, 2),
                (Op::CrashStale, 1),
                (Op::Check, 6),
                (Op::NewDoc, 3),
                (Op::Add, 6),
                (Op::Attack, 4),
                (Op::SignFault, 2),
            ];
            len = 15 + r.usize(90);
        }
        "K01" => {
            kem_plan(&mut r, &mut cfg, &mut ws, &mut len);
        }
        "K03" if kem => {
            kem_plan(&mut r, &mut cfg, &mut ws, &mut len);
        }
        "A01" => {
            ws = vec![
                (Op::NewGroup, 2),
                (Op::NewDoc, 1),
                (Op::Add, 14),
                (Op::Revoke, 2),
                (Op::Sync, 5),
                (Op::Gossip, 10),
                (Op::SyncAll, 4),
                (Op::Restart, 1),
                (Op::Encrypt, 4),
                (Op::Burst, 26),
            ];
            len = 12 + r.usize(40);
            cfg.introduced = r.chance(5, 6);
            cfg.docs_nested = r.chance(1, 3);
            // circles of groups deadlock by design of the nested locks (see DESIGN.md)
            cfg.cycles = false;
            cfg.yield_pct = *r.pick(&[3, 10, 30, 60]);
            cfg.single_pct = *r.pick(&[0, 30]);
        }
        "K02" | "K03" => {
            ws = vec![
                (Op::NewGroup, 2),
                (Op::NewDoc, 1),
                (Op::Add, 18),
                (Op::Revoke, 6),
                (Op::Expand, 1),
                (Op::Rotate, 3),
                (Op::Card, 1),
                (Op::Sync, 8),
                (Op::Gossip, 14),
                (Op::Redeliver, 1),
                (Op::SyncAll, 4),
                (Op::Partition, 1),
                (Op::Heal, 1),
                (Op::Restart, 2),
                (Op::Check, 4),
                (Op::Encrypt, 16),
                (Op::Pcs, 6),
            ];
            len = 20 + r.usize(60);
            cfg.introduced = r.chance(9, 10);
            cfg.docs_nested = r.chance(1, 3);
            cfg.public_pct = *r.pick(&[0, 0, 10]);
        }
        "R01" => {
            ws.extend([
                (Op::Attack, 45),
                (Op::Encrypt, 6),
                (Op::Pcs, 4),
                (Op::Redeliver, 3),
                (Op::Rotate, 1),
            ]);
            len = 12 + r.usize(70);
            cfg.nodes = 2 + r.u32() % 3;
            cfg.introduced = r.chance(4, 5);
            cfg.docs_nested = r.chance(1, 3);
            cfg.public_pct = *r.pick(&[0, 0, 15]);
        }
        "K04" | "K05" => {
            ws = vec![
                (Op::NewGroup, 1),
                (Op::NewDoc, 1),
                (Op::Add, 10),
                (Op::Revoke, 3),
                (Op::Rotate, 2),
                (Op::Sync, 8),
                (Op::Gossip, 10),
                (Op::SyncAll, 5),
                (Op::Restart, 2),
                (Op::Encrypt, 20),
                (Op::Pcs, 4),
            ];
            if prop == "K04" {
                ws.extend([(Op::Damage, 24), (Op::Check, 3)]);
            } else {
                ws.push((Op::Causal, 16));
            }
            len = 20 + r.usize(60);
            cfg.introduced = true;
            cfg.docs_nested = false;
            cfg.public_pct = *r.pick(&[0, 0, 0, 10]);
        }
        _ => {
            len = 20;
        }
    }
    let ws = swarm(
        &mut r,
        &ws,
        &[
            Op::Add,
            Op::NewGroup,
            Op::Gossip,
            Op::Attack,
            Op::Damage,
            Op::Causal,
            Op::Burst,
        ],
    );
    let mut steps = gen_steps(&mut r, len, &ws);
    if kem {
        // most runs start from a group of several
        for s in steps.iter_mut().take(r.usize(6)) {
            s.op = Op::Add;
            s.n = 0;
        }
        return Plan {
            prop: prop.into(),
            seed,
            cfg,
            steps,
        };
    }
    if matches!(prop, "K04" | "K05") {
        // a document that is shared
        let n = steps[0].n;
        for (i, s) in steps.iter_mut().take(6).enumerate() {
            s.op = match i {
                0 => Op::NewDoc,
                5 => Op::SyncAll,
                _ => Op::Add,
            };
            s.n = n;
            s.c |= 1;
        }
        return Plan {
            prop: prop.into(),
            seed,
            cfg,
            steps,
        };
    }
    if prop != "P01" && r.chance(1, 3) {
        rounds(&mut r, &mut cfg, &ws, &mut steps);
        return Plan {
            prop: prop.into(),
            seed,
            cfg,
            steps,
        };
    }
    // every run starts with something to act on
    for (i, s) in steps.iter_mut().take(2).enumerate() {
        s.op = if i == 0 || r.chance(1, 2) {
            Op::NewGroup
        } else {
            Op::NewDoc
        };
    }
    Plan {
        prop: prop.into(),
        seed,
        cfg,
        steps,
    }
}

/// Rounds of concurrent operations on little shared state: everyone acts on what everyone knew at
/// the end of the round before.
fn rounds(r: &mut Prng, cfg: &mut Cfg, ws: &[(Op, u32)], steps: &mut [Step]) {
    cfg.nodes = 3 + r.u32() % 4;
    cfg.introduced = true;
    let admins = 1 + r.usize(cfg.nodes as usize);
    let doc = r.chance(1, 2);
    let second = r.chance(1, 3);
    let heavy: Vec<(Op, u32)> = ws
        .iter()
        .filter(|(o, _)| {
            !matches!(
                o,
                Op::NewGroup
                    | Op::NewDoc
                    | Op::Gossip
                    | Op::Sync
                    | Op::SyncAll
                    | Op::Partition
                    | Op::Card
            )
        })
        .map(|(o, w)| (*o, if *o == Op::Revoke { (w * 3).max(8) } else { *w }))
        .collect();
    let hw: Vec<u32> = heavy.iter().map(|x| x.1).collect();
    let mut width = 0;
    for (i, s) in steps.iter_mut().enumerate() {
        if i == 0 || (i == 1 && second) {
            s.op = if doc && i == 0 {
                Op::NewDoc
            } else {
                Op::NewGroup
            };
            s.n = 0;
            s.a |= 1;
            continue;
        }
        let setup = i - 1 - second as usize;
        if setup < cfg.nodes as usize - 1 {
            s.op = Op::Add;
            s.n = 0;
            // (never a multiple of three: a user, not a group)
            let who = 1 + setup as u32;
            s.b = (0..3u32)
                .map(|k| who + k * cfg.nodes)
                .find(|b| b % 3 != 0)
                .unwrap_or(who);
            if setup < admins {
                s.c |= 3;
            }
            continue;
        }
        if width == 0 {
            s.op = if r.chance(4, 5) {
                Op::SyncAll
            } else {
                Op::Gossip
            };
            width = 2 + r.usize(4);
            continue;
        }
        width -= 1;
        s.op = heavy[r.weighted(&hw)].0;
        if s.op == Op::Add && r.chance(1, 2) {
            s.c |= 3;
        }
    }
}

fn kem_plan(r: &mut Prng, cfg: &mut Cfg, ws: &mut Vec<(Op, u32)>, len: &mut usize) {
    cfg.nodes = *r.pick(&[2, 3, 3, 4, 5, 6, 8, 11]);
    *ws = vec![
        (Op::Add, 12),
        (Op::Revoke, 5),
        (Op::Pcs, 10),
        (Op::Gossip, 22),
        (Op::Redeliver, 2),
        (Op::SyncAll, 3),
        (Op::Restart, 2),
        (Op::SignFault, 2),
        (Op::Check, 3),
    ];
    *len = 10 + r.usize(70);
}

pub async fn run_prop(w: &mut World) -> Res {
    if w.cfg.kem {
        let secrecy = w.plan.prop == "K03";
        return crate::kem::Kem::new(w, secrecy).await?.run().await;
    }
    drive(w).await
}

pub async fn drive(w: &mut World) -> Res {
    w.start().await?;
    if w.plan.prop == "K05" {
        w.k05_stores();
    }
    let steps = w.plan.steps.clone();
    let prop = w.plan.prop.clone();
    let mut pr = Prng::new(mix3(w.seed, 0x9a3b, 1));
    for s in &steps {
        w.step_id = s.id;
        w.tick += 1;
        w.stats.ticks += 1;
        w.pump(&mut pr).await?;
        let pool_before = w.pool.len();
        match (prop.as_str(), s.op) {
            ("D01", Op::Restart) => {
                let n = w.nix(s.n);
                w.d01_restart(n).await?
            }
            ("D01", Op::CrashStale) => {
                let n = w.nix(s.n);
                w.d01_stale(n).await?
            }
            (_, Op::SignFault) => {
                let n = w.nix(s.n);
                let mut inner = s.clone();
                let can: &[Op] = match prop.as_str() {
                    "P01" => &[Op::Expand, Op::Rotate, Op::Card],
                    _ => &[
                        Op::Add,
                        Op::Add,
                        Op::Revoke,
                        Op::Revoke,
                        Op::NewDoc,
                        Op::NewGroup,
                        Op::Encrypt,
                        Op::Pcs,
                        Op::Rotate,
                        Op::Expand,
                    ],
                };
                inner.op = can[(s.d >> 8) as usize % can.len()];
                w.with_sign_fault(n, (s.d % 8) as u64 / 2, &inner).await?
            }
            ("K04", Op::Damage) => {
                let n = w.nix(s.n);
                w.k04_damage(n, s).await?
            }
            ("A01", Op::Burst) => {
                let n = w.nix(s.n);
                w.a01_burst(n, s).await?
            }
            ("R01", Op::Attack) => {
                let n = w.nix(s.n);
                w.r01_attack(n, s).await?
            }
            ("K05", Op::Encrypt) => {
                let n = w.nix(s.n);
                w.k05_encrypt(n, s).await?
            }
            ("K05", Op::Causal) => {
                let n = w.nix(s.n);
                w.k05_causal(n, s).await?
            }
            ("D03", Op::Redeliver) => {
                let n = w.nix(s.n);
                let mut r = w.plan.rng(s);
                w.d03_redeliver(n, s, &mut r).await?
            }
            _ => w.exec_step(s).await?,
        }
        if prop == "P01" {
            let n = w.nix(s.n);
            w.p01_grants(n, pool_before).await?;
        }
        after_step(w, &prop, s).await?;
    }
    w.step_id = 1_000_000;
    at_end(w, &prop, &mut pr).await
}

async fn check_all_nodes(w: &mut World, model: bool, reach: bool) -> Res {
    for n in 0..w.nodes.len() {
        check_node(w, n, model, reach).await?;
    }
    Ok(())
}

async fn check_node(w: &mut World, n: usize, model: bool, reach: bool) -> Res {
    let v = w.view(n).await;
    if w.interesting(n, &v) {
        w.stats.nontrivial += 1;
    }
    if model {
        let p = w.pending(n).await;
        w.check_against_model(n, &v, &p)?;
    }
    if reach {
        w.check_reach(n, &v).await?;
    }
    Ok(())
}

async fn after_step(w: &mut World, prop: &str, s: &Step) -> Res {
    match (prop, s.op) {
        ("M01", Op::SyncAll) => w.check_convergence(1).await,
        (
            "M02" | "M04" | "M05",
            Op::Check | Op::Revoke | Op::Restart | Op::Attack | Op::SyncAll,
        ) => {
            let n = w.nix(s.n);
            check_node(w, n, true, false).await
        }
        ("M03", Op::Check | Op::Add | Op::SyncAll) => {
            let n = w.nix(s.n);
            check_node(w, n, false, true).await
        }
        ("D02", _) => {
            let n = w.nix(s.n);
            w.d02_nothing_lost(n).await
        }
        ("S01", Op::Check) => {
            let (n, p) = (w.nix(s.n), w.nix(s.a));
            w.s01_offer(n, p, s.b % 2 == 0, s.id as u64).await?;
            if s.c % 2 == 0 {
                w.s01_bulk(n).await?;
            }
            Ok(())
        }
        ("S02", Op::Check | Op::Revoke) => {
            let n = w.nix(s.n);
            w.s02_disclosure(n).await
        }
        ("S03", Op::Check | Op::SignFault) => {
            let n = w.nix(s.n);
            w.s03_stream(n).await
        }
        ("K04", Op::Check | Op::SyncAll) => {
            let n = w.nix(s.n);
            w.k02_readers(Some(n)).await
        }
        ("K02", Op::Check | Op::Restart | Op::SyncAll) => {
            let n = w.nix(s.n);
            w.k02_readers(Some(n)).await
        }
        ("K03", Op::Check | Op::SyncAll) => {
            let n = w.nix(s.n);
            w.k03_outsiders(Some(n)).await
        }
        ("P01", Op::Check | Op::Card | Op::Redeliver | Op::Restart) => {
            let n = w.nix(s.n);
            w.p01_check(n).await
        }
        _ => Ok(()),
    }
}

async fn at_end(w: &mut World, prop: &str, pr: &mut Prng) -> Res {
    match prop {
        "M01" => {
            w.flush(pr).await?;
            w.exchange_all(pr).await?;
            w.check_convergence(3).await
        }
        "M02" | "M04" | "M05" => {
            check_all_nodes(w, true, false).await?;
            w.flush(pr).await?;
            w.exchange_all(pr).await?;
            check_all_nodes(w, true, false).await
        }
        "M03" => {
            check_all_nodes(w, false, true).await?;
            w.flush(pr).await?;
            w.exchange_all(pr).await?;
            check_all_nodes(w, false, true).await
        }
        "D01" => {
            for n in 0..w.nodes.len() {
                w.d01_restart(n).await?;
            }
            w.flush(pr).await?;
            w.exchange_all(pr).await?;
            for n in 0..w.nodes.len() {
                w.d01_restart(n).await?;
            }
            w.check_convergence(1).await
        }
        "D02" => {
            w.flush(pr).await?;
            w.exchange_all(pr).await?;
            w.d02_all_applied().await
        }
        "D03" => {
            w.flush(pr).await?;
            w.exchange_all(pr).await?;
            for n in 0..w.nodes.len() {
                let s = Step {
                    id: 900_000 + n as u32,
                    op: Op::Redeliver,
                    n: n as u32,
                    a: 0,
                    b: pr.u32(),
                    c: 1,
                    d: pr.u32(),
                };
                w.d03_redeliver(n, &s, pr).await?;
            }
            Ok(())
        }
        "S01" => {
            w.flush(pr).await?;
            for n in 0..w.nodes.len() {
                w.s01_bulk(n).await?;
                for p in 0..w.nodes.len() {
                    w.s01_offer(n, p, true, 7000 + p as u64).await?;
                    w.s01_offer(n, p, false, 8000 + p as u64).await?;
                }
            }
            Ok(())
        }
        "S02" => {
            w.flush(pr).await?;
            for n in 0..w.nodes.len() {
                w.s02_disclosure(n).await?;
            }
            w.exchange_all(pr).await?;
            for n in 0..w.nodes.len() {
                w.s02_disclosure(n).await?;
            }
            Ok(())
        }
        "S03" => {
            for n in 0..w.nodes.len() {
                w.s03_stream(n).await?;
            }
            w.flush(pr).await?;
            for n in 0..w.nodes.len() {
                w.s03_stream(n).await?;
            }
            Ok(())
        }
        "K02" => {
            w.k02_readers(None).await?;
            w.flush(pr).await?;
            w.exchange_all(pr).await?;
            w.k02_readers(None).await?;
            w.encrypt_everywhere().await?;
            w.exchange_all(pr).await?;
            w.k02_readers(None).await?;
            for n in 0..w.nodes.len() {
                w.restart_now(n).await?;
            }
            w.k02_readers(None).await
        }
        "K04" => {
            // (before everyone has everything: what was cached wrongly must not show)
            w.encrypt_everywhere().await?;
            w.exchange_all(pr).await?;
            w.k02_readers(None).await?;
            for n in 0..w.nodes.len() {
                w.restart_now(n).await?;
            }
            w.encrypt_everywhere().await?;
            w.exchange_all(pr).await?;
            w.k02_readers(None).await
        }
        "R01" => {
            w.flush(pr).await?;
            w.exchange_all(pr).await?;
            for n in 0..w.nodes.len() {
                w.r01_serves(n).await?;
            }
            Ok(())
        }
        "A01" => {
            w.flush(pr).await?;
            w.exchange_all(pr).await?;
            w.check_convergence(2).await?;
            w.d02_all_applied().await?;
            w.k02_readers(None).await
        }
        "K05" => {
            w.flush(pr).await?;
            w.exchange_all(pr).await?;
            w.k05_recover().await
        }
        "K03" => {
            w.k03_outsiders(None).await?;
            w.flush(pr).await?;
            w.exchange_all(pr).await?;
            w.encrypt_everywhere().await?;
            w.exchange_all(pr).await?;
            w.k03_outsiders(None).await
        }
        "P01" => {
            for n in 0..w.nodes.len() {
                w.p01_check(n).await?;
            }
            w.flush(pr).await?;
            w.exchange_all(pr).await?;
            for n in 0..w.nodes.len() {
                w.p01_check(n).await?;
            }
            w.check_prekeys_agree(3).await
        }
        _ => Ok(()),
    }
}

/// Minimised plans committed under /verif/corpus/<property>/: histories that once failed.
pub fn corpus(prop: &str) -> Vec<(String, Plan)> {
    let mut v = vec![];
    if let Ok(rd) = std::fs::read_dir(format!("{}/corpus/{prop}", crate::check::VERIF)) {
        for e in rd.flatten() {
            let name = e.file_name().to_string_lossy().to_string();
            if name.ends_with(".json") {
                let p: Plan =
                    serde_json::from_slice(&std::fs::read(e.path()).expect("corpus file"))
                        .expect("corpus plan");
                v.push((name, p));
            }
        }
    }
    v.sort_by(|a, b| a.0.cmp(&b.0));
    v
}

pub struct Describe {
    pub rule: String,
    pub real: Vec<&'static str>,
    pub stub: Vec<&'static str>,
    pub assumptions: Vec<&'static str>,
}

pub fn describe(prop: &str) -> Describe {
    let what = match prop {
        "M01" => "at least two nodes and an observer compared after receiving the same events with at least one group with two or more members",
        "M02" => "a node's report compared with the reference model with at least one non-root grant in it",
        "M03" => "reachability compared on a membership graph with at least one nested group or document",
        "M04" => "a node's report compared with the reference model while at least one revocation was applied",
        "M05" => "a node's report compared with the reference model after at least one hostile event was delivered to it",
        "K01" => "replicas of one key group with the same operations compared after at least two concurrent operations, or a replica's membership, secret or operation order checked against the model",
        "K02" => "a user known as a reader to the node that encrypted, holding its events, was asked to decrypt what another node encrypted",
        "K03" => "a user without read access tried to decrypt, or to derive the key from everything it ever held and every published operation",
        "K04" => "a ciphertext damaged, spliced or mislabelled was opened by a reader, and honest content was read afterwards",
        "K05" => "a causal decryption was compared with the model of which keys lead to which ciphertexts, some of them missing, unreadable or mislabelled",
        "A01" => "at least two tasks were interleaved on one node and its report, wire and ciphertexts compared afterwards",
        "R01" => "hostile events, contact cards, archives or ciphertexts were handed to a node, or a node that had received some served a user new to it",
        _ => "the property's oracle compared something it could have rejected",
    };
    Describe {
        rule: format!("one run = one seeded plan (swarm configuration, operations, faults and delivery schedule) executed in the simulator; non-trivial: {what}; distinct: by schedule hash"),
        real: vec!["keyhive_core", "keyhive_crypto", "beekem"],
        stub: vec!["signer (real ed25519, with injected suspension and failure)", "ciphertext store", "event listener", "random numbers (seeded ChaCha12)", "network", "async executor and mutex suspension points", "std hash-map keys (seeded)"],
        assumptions: vec![
            "signatures and hashes are not broken by the simulated attacker",
            "the wire format of events is bincode as the library uses it",
            "sampling: a clean batch is evidence, not proof",
        ],
    }
}
