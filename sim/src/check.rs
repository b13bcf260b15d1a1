//! The command the checks run: worker processes execute seeded runs, the parent watches them for
//! crashes and hangs, minimises the first failure, replays it in a fresh process and writes the
//! evidence.
use crate::det::{mix2, mix3};
use crate::plan::*;
use crate::props;
use crate::run::{self, RunOut};
use crate::world::Violation;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::os::unix::fs::FileExt;
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

pub const VERIF: &str = "/verif";
/// A run that takes this long (the slowest take a second or two) is hung.
const HANG: Duration = Duration::from_secs(90);

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Replay {
    pub property: String,
    pub kind: String,
    pub detail: String,
    pub seed: u64,
    pub original_steps: usize,
    pub plan: Plan,
    pub trace: Vec<String>,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Found {
    pub seed: u64,
    pub kind: String,
    pub detail: String,
}

#[derive(Serialize, Deserialize, Default)]
pub struct Tally {
    pub runs: u64,
    pub counts: BTreeMap<String, u64>,
    pub states: BTreeSet<u64>,
    pub shapes: BTreeSet<u64>,
    pub nontrivial: BTreeSet<u64>,
    pub ticks: u64,
    pub polls: u64,
    pub yields: u64,
    pub steps: u64,
    pub found: Option<Found>,
    pub digest: u64,
}

impl Tally {
    pub fn take(&mut self, plan: &Plan, o: RunOut) {
        self.runs += 1;
        self.steps += plan.steps.len() as u64;
        self.digest ^= mix2(plan.seed, o.digest());
        let s = o.stats;
        for (k, v) in s.counts {
            *self.counts.entry(k).or_default() += v;
        }
        if self.states.len() < 2_000_000 {
            self.states.extend(s.states);
        }
        self.shapes.insert(s.shape);
        if s.nontrivial > 0 {
            self.nontrivial.insert(s.shape);
        }
        self.ticks += s.ticks;
        self.polls += o.polls;
        self.yields += o.yields;
    }
    pub fn merge(&mut self, o: Tally) {
        self.runs += o.runs;
        self.steps += o.steps;
        for (k, v) in o.counts {
            *self.counts.entry(k).or_default() += v;
        }
        self.states.extend(o.states);
        self.shapes.extend(o.shapes);
        self.nontrivial.extend(o.nontrivial);
        self.ticks += o.ticks;
        self.polls += o.polls;
        self.yields += o.yields;
        self.digest ^= o.digest;
        if let Some(f) = o.found {
            if self.found.as_ref().is_none_or(|g| f.seed < g.seed) {
                self.found = Some(f);
            }
        }
    }
}

pub fn run_seed(base: u64, i: u64) -> u64 {
    mix3(base, 0x5eed, i) >> 12
}

/// khsim worker PROP BASE FROM STRIDE COUNT SECS OUT
pub fn worker(a: &[String]) {
    let prop = &a[0];
    let n = |i: usize| a[i].parse::<u64>().expect("number");
    let (base, from, stride, count, secs) = (n(1), n(2), n(3), n(4), n(5));
    let out = &a[6];
    let cur = std::fs::File::create(format!("{out}.cur")).expect("cur file");
    let t0 = Instant::now();
    let mut t = Tally::default();
    let mut i = from;
    while i < count && t0.elapsed() < Duration::from_secs(secs) {
        let seed = run_seed(base, i);
        let mut b = seed.to_le_bytes().to_vec();
        b.extend((t.runs + 1).to_le_bytes());
        let _ = cur.write_all_at(&b, 0);
        let p = props::plan(prop, seed);
        let o = run::execute(&p);
        let v = o.violation.clone();
        t.take(&p, o);
        if let Some(v) = v {
            t.found = Some(Found {
                seed,
                kind: v.kind,
                detail: v.detail,
            });
            break;
        }
        i += stride;
    }
    std::fs::write(out, serde_json::to_vec(&t).expect("json")).expect("out file");
}

struct Kid {
    child: Child,
    out: String,
    last: (u64, u64),
    since: Instant,
    done: bool,
}

impl Kid {
    fn cur(&self) -> Option<(u64, u64)> {
        let b = std::fs::read(format!("{}.cur", self.out)).ok()?;
        if b.len() < 16 {
            return None;
        }
        Some((
            u64::from_le_bytes(b[..8].try_into().unwrap()),
            u64::from_le_bytes(b[8..16].try_into().unwrap()),
        ))
    }
}

fn me() -> Command {
    Command::new(std::env::current_exe().expect("own path"))
}

fn scratch() -> String {
    let d = format!("{VERIF}/evidence/.scratch-{}", std::process::id());
    std::fs::create_dir_all(&d).expect("scratch dir");
    d
}

pub fn workers() -> u64 {
    std::env::var("KHSIM_WORKERS")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or_else(|| {
            std::thread::available_parallelism()
                .map(|n| n.get() as u64)
                .unwrap_or(4)
                .clamp(1, 16)
        })
}

/// Run `count` seeds (or as many as fit in `secs`) over worker processes.
pub fn batch(prop: &str, base: u64, count: u64, secs: u64, dir: &str) -> Tally {
    let k = workers();
    let mut kids: Vec<Kid> = (0..k)
        .map(|j| {
            let out = format!("{dir}/w{j}.json");
            let child = me()
                .args([
                    "worker",
                    prop,
                    &base.to_string(),
                    &j.to_string(),
                    &k.to_string(),
                    &count.to_string(),
                    &secs.to_string(),
                    &out,
                ])
                .stdin(Stdio::null())
                .stdout(Stdio::null())
                .stderr(Stdio::null())
                .spawn()
                .expect("spawn worker");
            Kid {
                child,
                out,
                last: (0, 0),
                since: Instant::now(),
                done: false,
            }
        })
        .collect();
    let mut total = Tally::default();
    let mut stop = false;
    loop {
        let mut live = false;
        for kid in kids.iter_mut().filter(|k| !k.done) {
            match kid.child.try_wait() {
                Ok(Some(st)) => {
                    kid.done = true;
                    let t: Option<Tally> = std::fs::read(&kid.out)
                        .ok()
                        .and_then(|b| serde_json::from_slice(&b).ok());
                    match t {
                        Some(t) if st.success() => {
                            stop |= t.found.is_some();
                            total.merge(t);
                        }
                        _ => {
                            if let Some((seed, runs)) = kid.cur() {
                                total.merge(Tally {
                                    runs,
                                    found: Some(Found {
                                        seed,
                                        kind: "process died".into(),
                                        detail: format!(
                                            "the process running this seed ended with {st}"
                                        ),
                                    }),
                                    ..Default::default()
                                });
                                stop = true;
                            } else {
                                eprintln!("worker ended with {st} before its first run");
                                std::process::exit(2);
                            }
                        }
                    }
                }
                Ok(None) => {
                    live = true;
                    if let Some(c) = kid.cur() {
                        if c != kid.last {
                            kid.last = c;
                            kid.since = Instant::now();
                        } else if kid.since.elapsed() > HANG {
                            let _ = kid.child.kill();
                            let _ = kid.child.wait();
                            kid.done = true;
                            total.merge(Tally {
                                runs: c.1,
                                found: Some(Found {
                                    seed: c.0,
                                    kind: "hang".into(),
                                    detail: format!(
                                        "the run did not end within {} s",
                                        HANG.as_secs()
                                    ),
                                }),
                                ..Default::default()
                            });
                            stop = true;
                        }
                    }
                }
                Err(e) => {
                    eprintln!("worker lost: {e}");
                    std::process::exit(2);
                }
            }
        }
        if stop {
            for kid in kids.iter_mut().filter(|k| !k.done) {
                let _ = kid.child.kill();
                let _ = kid.child.wait();
            }
            return total;
        }
        if !live {
            return total;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
}

fn process_fatal(kind: &str) -> bool {
    kind == "hang" || kind == "process died"
}

/// Run one plan in a process of its own; what happened, as a violation kind.
pub fn run_apart(plan: &Plan, dir: &str, limit: Duration) -> Option<Found> {
    let f = format!("{dir}/apart.json");
    std::fs::write(&f, serde_json::to_vec(plan).expect("json")).expect("write");
    let mut c = me()
        .args(["one", &f, &format!("{f}.out")])
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .spawn()
        .expect("spawn");
    let _ = std::fs::remove_file(format!("{f}.out"));
    let t0 = Instant::now();
    loop {
        match c.try_wait() {
            Ok(Some(st)) => {
                if st.success() {
                    let b = std::fs::read(format!("{f}.out")).ok()?;
                    return serde_json::from_slice::<Option<Found>>(&b).ok().flatten();
                }
                return Some(Found {
                    seed: plan.seed,
                    kind: "process died".into(),
                    detail: format!("the process ended with {st}"),
                });
            }
            Ok(None) => {
                if t0.elapsed() > limit {
                    let _ = c.kill();
                    let _ = c.wait();
                    return Some(Found {
                        seed: plan.seed,
                        kind: "hang".into(),
                        detail: format!("no end after {} s", limit.as_secs()),
                    });
                }
            }
            Err(_) => return None,
        }
        std::thread::sleep(Duration::from_millis(5));
    }
}

/// khsim one PLAN OUT
pub fn one(a: &[String]) {
    let p: Plan = serde_json::from_slice(&std::fs::read(&a[0]).expect("plan")).expect("plan json");
    let o = run::execute(&p);
    let f = o.violation.map(|v| Found {
        seed: p.seed,
        kind: v.kind,
        detail: v.detail,
    });
    std::fs::write(&a[1], serde_json::to_vec(&f).expect("json")).expect("out");
}

/// khsim shrinker PROP SEED KIND SECS OUT
pub fn shrinker(a: &[String]) {
    let plan = props::plan(&a[0], a[1].parse().expect("seed"));
    let secs: f64 = a[3].parse().expect("secs");
    let kind = a[2].clone();
    let out = a[4].clone();
    let dir = format!("{out}.d");
    std::fs::create_dir_all(&dir).expect("dir");
    let (best, _) = if process_fatal(&kind) {
        run::shrink_with(&plan, secs, |p| {
            run_apart(p, &dir, Duration::from_secs(10)).is_some_and(|f| f.kind == kind)
        })
    } else {
        run::shrink(&plan, &kind, secs)
    };
    std::fs::write(&out, serde_json::to_vec(&best).expect("json")).expect("out");
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Known {
    pub property: String,
    pub id: String,
    pub what: String,
    /// committed plan (under /verif/known/) whose run shows it
    #[serde(default)]
    pub plan: Option<String>,
    /// kind of violation the plan produces
    #[serde(default)]
    pub kind: Option<String>,
    /// "fixed: property=<id> <commit> <what failed>" entries carry this and suppress nothing
    #[serde(default)]
    pub fixed: Option<String>,
}

pub fn known() -> Vec<Known> {
    let f = format!("{VERIF}/known_findings.json");
    match std::fs::read(&f) {
        Ok(b) => serde_json::from_slice(&b).unwrap_or_else(|e| {
            eprintln!("{f}: {e}");
            std::process::exit(2)
        }),
        Err(_) => vec![],
    }
}

fn write_replay(prop: &str, found: &Found, plan: &Plan, orig: usize) -> String {
    let dir = format!("{VERIF}/evidence/replays");
    std::fs::create_dir_all(&dir).expect("dir");
    let path = format!("{dir}/{prop}-{}.json", found.seed);
    let trace = trace_of(plan);
    let r = Replay {
        property: prop.into(),
        kind: found.kind.clone(),
        detail: found.detail.clone(),
        seed: found.seed,
        original_steps: orig,
        plan: plan.clone(),
        trace,
    };
    std::fs::write(&path, serde_json::to_vec_pretty(&r).expect("json")).expect("replay file");
    path
}

fn trace_of(plan: &Plan) -> Vec<String> {
    let f = format!("{}/trace.json", scratch());
    std::fs::write(&f, serde_json::to_vec(plan).expect("json")).expect("write");
    let o = me()
        .args(["one", &f, &format!("{f}.out")])
        .env("KHSIM_TRACE", "1")
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::piped())
        .spawn();
    let Ok(mut c) = o else { return vec![] };
    let t0 = Instant::now();
    let mut err = c.stderr.take().expect("piped");
    let h = std::thread::spawn(move || {
        let mut s = String::new();
        let _ = std::io::Read::read_to_string(&mut err, &mut s);
        s
    });
    while t0.elapsed() < Duration::from_secs(15) {
        if let Ok(Some(_)) = c.try_wait() {
            break;
        }
        std::thread::sleep(Duration::from_millis(10));
    }
    let _ = c.kill();
    let _ = c.wait();
    h.join()
        .unwrap_or_default()
        .lines()
        .filter(|l| l.starts_with('['))
        .take(400)
        .map(|l| l.to_string())
        .collect()
}

/// khsim replay FILE: exit 1 and the VIOLATION line when it reproduces.
pub fn replay(path: &str) -> i32 {
    let b = std::fs::read(path).expect("replay file");
    let (prop, kind, plan) = match serde_json::from_slice::<Replay>(&b) {
        Ok(r) => (r.property, Some(r.kind), r.plan),
        Err(_) => {
            let p: Plan = serde_json::from_slice(&b).expect("a replay file or a plan");
            (p.prop.clone(), None, p)
        }
    };
    let d = scratch();
    let f = run_apart(&plan, &d, HANG);
    let _ = std::fs::remove_dir_all(&d);
    match f {
        Some(f) => {
            println!("{}: {}", f.kind, f.detail);
            if kind.is_some_and(|k| k != f.kind) {
                println!("(a different kind of violation from the one recorded)");
            }
            println!("VIOLATION property={prop} replay={path}");
            1
        }
        None => {
            println!("no violation");
            0
        }
    }
}

pub fn check(prop: &str, tier: &str) -> i32 {
    let t0 = Instant::now();
    let base: u64 = std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(1);
    if !props::ALL.contains(&prop) {
        eprintln!("unknown property {prop}");
        return 2;
    }
    let quick = tier != "thorough";
    let secs: u64 = std::env::var("KHSIM_SECS")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(if quick { 70 } else { 720 });
    println!(
        "property {prop} tier {tier} VERIF_SEED={base} workers={}",
        workers()
    );
    let dir = scratch();
    let mut bad: Option<(Found, String)> = None;
    let mut known_hit = vec![];
    for k in known()
        .into_iter()
        .filter(|k| k.property == prop && k.fixed.is_none())
    {
        let Some(pf) = &k.plan else { continue };
        let plan: Plan = serde_json::from_slice(
            &std::fs::read(format!("{VERIF}/known/{pf}")).expect("known plan"),
        )
        .expect("plan json");
        match run_apart(&plan, &dir, HANG) {
            Some(f) if Some(&f.kind) == k.kind.as_ref() => {
                println!("KNOWN-FINDING: property={prop} {} [{}]", k.what, k.id);
                known_hit.push(k.id.clone());
            }
            Some(f) => {
                // something else went wrong in this scenario: report it as itself
                let p = write_replay(prop, &f, &plan, plan.steps.len());
                bad = Some((f, p));
            }
            None => println!("note: known finding {} did not show", k.id),
        }
    }
    let mut t = Tally::default();
    // regression plans: minimised histories of every defect and planted bug met so far
    let mut corpus = 0u64;
    if bad.is_none() {
        for (name, plan) in props::corpus(prop) {
            corpus += 1;
            if let Some(f) = run_apart(&plan, &dir, HANG) {
                println!("corpus plan {name} fails");
                let p = write_replay(prop, &f, &plan, plan.steps.len());
                bad = Some((f, p));
                break;
            }
        }
    }
    if bad.is_none() {
        let cap = if quick { 200_000 } else { 100_000_000 };
        t = batch(prop, base, cap, secs, &dir);
        if let Some(f) = t.found.clone() {
            println!("seed {} violates: {}: {}", f.seed, f.kind, f.detail);
            let orig = props::plan(prop, f.seed);
            let out = format!("{dir}/shrunk.json");
            let limit = if quick { 60.0 } else { 200.0 };
            let mut best = orig.clone();
            if let Ok(mut c) = me()
                .args([
                    "shrinker",
                    prop,
                    &f.seed.to_string(),
                    &f.kind,
                    &limit.to_string(),
                    &out,
                ])
                .stdin(Stdio::null())
                .stdout(Stdio::null())
                .stderr(Stdio::null())
                .spawn()
            {
                let s0 = Instant::now();
                while s0.elapsed() < Duration::from_secs_f64(limit + 60.0) {
                    if let Ok(Some(_)) = c.try_wait() {
                        break;
                    }
                    std::thread::sleep(Duration::from_millis(20));
                }
                let _ = c.kill();
                let _ = c.wait();
                if let Some(p) = std::fs::read(&out)
                    .ok()
                    .and_then(|b| serde_json::from_slice::<Plan>(&b).ok())
                {
                    best = p;
                }
            }
            // the minimised plan has to fail the same way in a fresh process
            let again = run_apart(&best, &dir, HANG);
            let (plan, found) = match again {
                Some(g) if g.kind == f.kind => (best, Found { seed: f.seed, ..g }),
                _ => (orig.clone(), f.clone()),
            };
            let p = write_replay(prop, &found, &plan, orig.steps.len());
            bad = Some((found, p));
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    let wall = t0.elapsed().as_secs_f64();
    write_evidence(
        prop,
        tier,
        base,
        &t,
        wall,
        bad.as_ref().map(|b| b.1.as_str()),
        &known_hit,
        corpus,
    );
    println!(
        "{} runs ({} distinct, {} non-trivial), {} membership states, {} simulated ticks, {:.0} s",
        t.runs,
        t.shapes.len(),
        t.nontrivial.len(),
        t.states.len(),
        t.ticks,
        wall
    );
    match bad {
        Some((f, p)) => {
            println!("{}: {}", f.kind, f.detail);
            println!("VIOLATION property={prop} replay={p}");
            1
        }
        None => 0,
    }
}

fn write_evidence(
    prop: &str,
    tier: &str,
    base: u64,
    t: &Tally,
    wall: f64,
    replay: Option<&str>,
    known: &[String],
    corpus: u64,
) {
    let mut faults = BTreeMap::new();
    let mut ops = BTreeMap::new();
    let mut probes = BTreeMap::new();
    for (k, v) in &t.counts {
        if k.starts_with("fault:") || k.starts_with("attack:") {
            faults.insert(k.clone(), *v);
        } else if k.starts_with("op:") || k.starts_with("net:") || k == "delivered-events" {
            ops.insert(k.clone(), *v);
        } else {
            probes.insert(k.clone(), *v);
        }
    }
    let samples: Vec<_> = (0..3)
        .map(|i| {
            let p = props::plan(prop, run_seed(base, i));
            serde_json::json!({"seed": p.seed, "cfg": p.cfg, "steps": p.steps.iter().take(12).map(|s| format!("{:?} n={} a={} b={} c={}", s.op, s.n % 8, s.a % 16, s.b % 16, s.c % 16)).collect::<Vec<_>>(), "step_count": p.steps.len()})
        })
        .collect();
    let d = props::describe(prop);
    let w = wall.max(0.001);
    let ev = serde_json::json!({
        "property": prop,
        "tier": if tier == "thorough" { "thorough" } else { "quick" },
        "seed": base,
        "level": "exploration",
        "coverage": {
            "evaluations": t.runs,
            "distinct_nontrivial": t.nontrivial.len(),
            "rule": d.rule,
            "samples": samples,
            "runs_per_hour": (t.runs as f64 / w * 3600.0) as u64,
            "seeds_per_hour": (t.runs as f64 / w * 3600.0) as u64,
            "simulated_ticks": t.ticks,
            "plan_steps": t.steps,
            "task_polls": t.polls,
            "forced_suspensions": t.yields,
            "faults_injected": faults,
            "operations": ops,
            "probes": probes,
            "distinct_schedules": t.shapes.len(),
            "distinct_membership_states": t.states.len(),
            "state_measure": "distinct schedules: hash over the sequence of (operation, node, outcome, number of events) of a run; membership states: hash over everything a node reports about membership",
            "real_components": d.real,
            "stubbed_components": d.stub,
            "regression_plans": corpus,
            "known_findings_shown": known,
            "replay": replay,
            "run_digest": format!("{:016x}", t.digest),
        },
        "assumptions": d.assumptions,
        "wall_s": wall,
        "violations": if replay.is_some() { 1 } else { 0 },
    });
    let dir = format!("{VERIF}/evidence");
    std::fs::create_dir_all(&dir).expect("evidence dir");
    std::fs::write(
        format!("{dir}/{prop}.json"),
        serde_json::to_vec_pretty(&ev).expect("json"),
    )
    .expect("evidence");
}

/// khsim determinism PROP COUNT: prints one digest per seed; two invocations must agree.
pub fn determinism(a: &[String]) {
    let props: Vec<String> = if a[0] == "all" {
        props::ALL.iter().map(|s| s.to_string()).collect()
    } else {
        vec![a[0].clone()]
    };
    let count: u64 = a[1].parse().expect("count");
    let threads: usize = a.get(2).and_then(|s| s.parse().ok()).unwrap_or(8);
    for prop in props {
        let next = std::sync::atomic::AtomicU64::new(0);
        let out = std::sync::Mutex::new(BTreeMap::new());
        std::thread::scope(|s| {
            for _ in 0..threads {
                s.spawn(|| loop {
                    let i = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                    if i >= count {
                        break;
                    }
                    let p = props::plan(&prop, run_seed(77, i));
                    let o = run::execute(&p);
                    let v = o.violation.as_ref().map(|v: &Violation| v.kind.clone());
                    out.lock().unwrap().insert(i, (o.digest(), v));
                });
            }
        });
        for (i, (d, v)) in out.into_inner().unwrap() {
            println!("{prop} {i} {d:016x} {v:?}");
        }
    }
}
