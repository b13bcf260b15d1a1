mod attack;
mod check;
mod damage;
mod det;
mod engine;
mod exec;
mod burst;
mod hostile;
mod kem;
mod model;
mod oracle;
mod plan;
mod props;
mod run;
mod seams;
mod secret;
mod snap;
mod sync;
mod world;

use std::collections::BTreeMap;

fn main() {
    run::install_panic_hook();
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(|s| s.as_str()) {
        // quick exploration while developing: khsim try PROP FROM COUNT
        Some("try") => {
            let prop = args[2].clone();
            let from: u64 = args[3].parse().unwrap();
            let count: u64 = args[4].parse().unwrap();
            let t0 = std::time::Instant::now();
            let next = std::sync::atomic::AtomicU64::new(from);
            let kinds = std::sync::Mutex::new(BTreeMap::<String, (u64, u64, String)>::new());
            let counts = std::sync::Mutex::new(BTreeMap::<String, u64>::new());
            std::thread::scope(|s| {
                for _ in 0..8 {
                    s.spawn(|| loop {
                        let seed = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                        if seed >= from + count {
                            break;
                        }
                        let p = props::plan(&prop, seed);
                        let o = run::execute(&p);
                        let mut c = counts.lock().unwrap();
                        for (k, v) in o.stats.counts {
                            *c.entry(k).or_default() += v;
                        }
                        if let Some(v) = o.violation {
                            if std::env::var("KHSIM_ALL").is_ok() {
                                println!("{seed}: {} {}", v.kind, v.detail);
                            }
                            let mut k = kinds.lock().unwrap();
                            let e = k.entry(v.kind).or_insert((0, seed, v.detail));
                            e.0 += 1;
                        }
                    });
                }
            });
            for (k, (n, s, d)) in kinds.lock().unwrap().iter() {
                println!("{n:>6} x {k} e.g. seed {s}: {d}");
            }
            println!("{:?}", counts.lock().unwrap());
            for ((a, b), (n, at)) in exec::LOCK_EDGES.lock().unwrap().iter() {
                println!("LOCK {a} -> {b} x{n}");
                for l in at.lines().filter(|l| l.contains("/repo/")).take(9) {
                    println!("      {}", l.trim());
                }
            }
            println!("{count} runs in {:.1}s", t0.elapsed().as_secs_f64());
        }
        Some("shrink") => {
            let p = props::plan(&args[2], args[3].parse().unwrap());
            let o = run::execute(&p);
            let Some(v) = o.violation else {
                println!("no violation");
                return;
            };
            std::env::remove_var("KHSIM_TRACE");
            let (m, t) = run::shrink(&p, &v.kind, 40.0);
            println!("{} steps after {t} tries", m.steps.len());
            std::env::set_var("KHSIM_TRACE", "1");
            let o = run::execute(&m);
            println!("{:?}", m.cfg);
            println!("{:?}", o.violation);
            std::fs::write(
                "/tmp/shrunk.json",
                serde_json::to_string_pretty(&m).unwrap(),
            )
            .unwrap();
        }
        Some("check") => {
            let tier = std::env::args()
                .skip_while(|a| a != "--tier")
                .nth(1)
                .or_else(|| std::env::var("VERIF_TIER").ok())
                .unwrap_or("quick".into());
            std::process::exit(check::check(&args[2], &tier));
        }
        Some("worker") => check::worker(&args[2..]),
        Some("one") => check::one(&args[2..]),
        Some("shrinker") => check::shrinker(&args[2..]),
        Some("replay") => std::process::exit(check::replay(&args[2])),
        Some("determinism") => check::determinism(&args[2..]),
        _ => {
            eprintln!("usage: khsim check PROP [--tier quick|thorough] | replay FILE | determinism PROP|all COUNT [THREADS]");
            std::process::exit(2);
        }
    }
}
