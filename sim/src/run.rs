//! Executing plans: one fresh thread per run, panics turned into violations, shrinking.
use crate::det;
use crate::exec;
use crate::plan::*;
use crate::props;
use crate::world::*;
use std::cell::RefCell;
use std::time::Instant;

thread_local! {
    static PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

pub struct RunOut {
    pub violation: Option<Violation>,
    pub stats: Stats,
    pub polls: u64,
    pub yields: u64,
    pub log: u64,
}

impl RunOut {
    /// Fingerprint of everything observable about the run.
    pub fn digest(&self) -> u64 {
        let mut h = blake3::Hasher::new();
        h.update(
            format!(
                "{:?} {:?} {} {} {} {} {}",
                self.stats.counts,
                self.stats.states,
                self.stats.shape,
                self.stats.ticks,
                self.polls,
                self.yields,
                self.log
            )
            .as_bytes(),
        );
        if let Some(v) = &self.violation {
            h.update(v.kind.as_bytes());
            h.update(v.detail.as_bytes());
        }
        u64::from_le_bytes(h.finalize().as_bytes()[..8].try_into().unwrap())
    }
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        if std::env::var("KHSIM_BT").is_ok() {
            eprintln!(
                "{msg} at {loc}\n{}",
                std::backtrace::Backtrace::force_capture()
            );
        }
        PANIC.with(|p| {
            let mut p = p.borrow_mut();
            if p.is_none() {
                *p = Some((msg, loc));
            }
        });
    }));
}

fn exec_here(plan: &Plan) -> RunOut {
    det::seed_thread(det::mix2(plan.seed, 0x7a5d));
    PANIC.with(|p| *p.borrow_mut() = None);
    let p2 = plan.clone();
    let (y0, p0) = (exec::yields(), exec::polls());
    let mut w = World::new(&p2);
    if std::env::var("KHSIM_LOCKS").is_ok() {
        exec::trace_locks();
    }
    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        if plan.cfg.yield_pct > 0 {
            exec::set_yield(Some((
                det::Prng::new(det::mix2(plan.seed, 0x71e1d)),
                plan.cfg.yield_pct as u64,
                100,
            )));
        } else {
            exec::set_yield(None);
        }
        exec::run(props::run_prop(&mut w))
    }));
    exec::set_yield(None);
    let violation = match res {
        Ok(Ok(())) => None,
        Ok(Err(v)) => Some(v),
        Err(_) => {
            let (m, l) = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            let kind = if m.starts_with("DEADLOCK") {
                "deadlock".into()
            } else if m.starts_with("LIVELOCK") {
                "livelock".into()
            } else {
                format!("panic at {}", strip(&l))
            };
            Some(Violation {
                kind,
                detail: format!("at step {}: {m} ({})", w.step_id, strip(&l)),
            })
        }
    };
    let stats = std::mem::take(&mut w.stats);
    let log = w.log_hash();
    // a panicked world may hold poisoned invariants; leak rather than drop
    if violation.is_some() {
        std::mem::forget(w);
    }
    RunOut {
        violation,
        stats,
        polls: exec::polls() - p0,
        yields: exec::yields() - y0,
        log,
    }
}

fn strip(l: &str) -> String {
    match l.find("/repo/") {
        Some(i) => l[i + 6..].to_string(),
        None => l.to_string(),
    }
}

/// Execute one plan on a fresh thread, so that nothing carries over between runs.
pub fn execute(plan: &Plan) -> RunOut {
    let p = plan.clone();
    std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || exec_here(&p))
        .expect("thread")
        .join()
        .unwrap_or_else(|_| RunOut {
            violation: Some(Violation {
                kind: "panic outside run".into(),
                detail: String::new(),
            }),
            stats: Default::default(),
            polls: 0,
            yields: 0,
            log: 0,
        })
}

/// Delta-debug the plan: same kind of violation, fewer and simpler steps, fewer faults.
pub fn shrink(plan: &Plan, kind: &str, budget_s: f64) -> (Plan, u64) {
    shrink_with(plan, budget_s, |p| {
        execute(p).violation.is_some_and(|v| v.kind == kind)
    })
}

pub fn shrink_with(plan: &Plan, budget_s: f64, still: impl Fn(&Plan) -> bool) -> (Plan, u64) {
    let t0 = Instant::now();
    let mut best = plan.clone();
    let mut tries = 0u64;
    let mut fails = |p: &Plan| -> bool {
        tries += 1;
        still(p)
    };
    let out = |t0: &Instant| t0.elapsed().as_secs_f64() > budget_s;
    loop {
        let before = best.clone();
        let mut chunk = (best.steps.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < best.steps.len() && !out(&t0) {
                let mut c = best.clone();
                c.steps.drain(i..(i + chunk).min(c.steps.len()));
                if fails(&c) {
                    best = c;
                } else {
                    i += chunk;
                }
            }
            if chunk == 1 || out(&t0) {
                break;
            }
            chunk = (chunk / 2).max(1);
        }
        type Edit = fn(&mut Cfg);
        let edits: Vec<Edit> = vec![
            |c| c.drop_pct = 0,
            |c| c.dup_pct = 0,
            |c| c.delay_max = 0,
            |c| c.split_pct = 0,
            |c| c.single_pct = 0,
            |c| c.yield_pct = 0,
            |c| c.cycles = false,
            |c| c.docs_nested = false,
            |c| c.groups_nested = false,
            |c| c.introduced = true,
            |c| c.nodes = (c.nodes - 1).max(2),
        ];
        for e in edits {
            if out(&t0) {
                break;
            }
            let mut c = best.clone();
            e(&mut c.cfg);
            if serde_json::to_string(&c.cfg).ok() != serde_json::to_string(&best.cfg).ok()
                && fails(&c)
            {
                best = c;
            }
        }
        for i in 0..best.steps.len() {
            for f in 0..5 {
                if out(&t0) {
                    break;
                }
                let mut c = best.clone();
                let s = &mut c.steps[i];
                let x = [&mut s.n, &mut s.a, &mut s.b, &mut s.c, &mut s.d]
                    .into_iter()
                    .nth(f)
                    .unwrap();
                if *x < 16 {
                    continue;
                }
                for v in [0, *x % 4, *x % 12] {
                    let mut c2 = best.clone();
                    let s = &mut c2.steps[i];
                    *[&mut s.n, &mut s.a, &mut s.b, &mut s.c, &mut s.d]
                        .into_iter()
                        .nth(f)
                        .unwrap() = v;
                    if fails(&c2) {
                        best = c2;
                        break;
                    }
                }
            }
        }
        if best == before || out(&t0) {
            return (best, tries);
        }
    }
}
