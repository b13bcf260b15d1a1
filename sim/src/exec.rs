//! The executor. One thread; a seeded scheduler decides which runnable task is polled next, and
//! (through the lock and seam hooks) where a task is suspended. Nothing here reads a clock.
use crate::det::Prng;
use futures::task::{waker, ArcWake};
use std::cell::{Cell, RefCell};
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll};

pub struct Flag(AtomicBool);
impl ArcWake for Flag {
    fn wake_by_ref(s: &Arc<Self>) {
        s.0.store(true, Ordering::SeqCst);
    }
}

/// Panic payload for a future that is pending with nobody left to wake it.
pub const DEADLOCK: &str = "DEADLOCK: every task is waiting and nothing can wake one";
pub const LIVELOCK: &str = "LIVELOCK: poll budget exhausted";

thread_local! {
    static YIELD: RefCell<Option<YieldPlan>> = const { RefCell::new(None) };
    static POLLS: Cell<u64> = const { Cell::new(0) };
    static YIELDS: Cell<u64> = const { Cell::new(0) };
}

thread_local! {
    static TASK: Cell<usize> = const { Cell::new(usize::MAX) };
    static HELD: RefCell<Vec<(usize, usize, &'static str)>> = const { RefCell::new(vec![]) };
}
type Edges = std::collections::BTreeMap<(String, String), (u64, String)>;
/// (debugging) which kind of lock is taken while holding which, with the first place it happens.
pub static LOCK_EDGES: std::sync::Mutex<Edges> = std::sync::Mutex::new(Edges::new());

fn lock_event(taken: bool, addr: usize, name: &'static str) {
    let t = TASK.with(|t| t.get());
    HELD.with(|h| {
        let mut h = h.borrow_mut();
        if !taken {
            h.retain(|x| x.1 != addr);
            return;
        }
        for (_, _, other) in h.iter().filter(|x| x.0 == t) {
            let short = |n: &str| n.split('<').next().unwrap().rsplit("::").next().unwrap().to_string() + if n.contains("HashMap<") { "-map" } else { "" };
            let mut e = LOCK_EDGES.lock().unwrap();
            let x = e.entry((short(other), short(name))).or_insert_with(|| {
                (0, std::backtrace::Backtrace::force_capture().to_string())
            });
            x.0 += 1;
        }
        h.push((t, addr, name));
    });
}

pub fn trace_locks() {
    futures_util::lock::sim_set_lock_hook(Some(lock_event));
}

struct YieldPlan {
    rng: Prng,
    num: u64,
    den: u64,
    budget: u64,
}

pub fn polls() -> u64 {
    POLLS.with(|p| p.get())
}
pub fn yields() -> u64 {
    YIELDS.with(|p| p.get())
}

fn should_yield() -> bool {
    YIELD.with(|y| {
        if let Ok(mut y) = y.try_borrow_mut() {
            if let Some(p) = y.as_mut() {
                if p.budget > 0 && p.rng.chance(p.num, p.den) {
                    p.budget -= 1;
                    YIELDS.with(|c| c.set(c.get() + 1));
                    return true;
                }
            }
        }
        false
    })
}

/// From here on this thread's lock acquisitions and seam calls suspend with chance num/den.
pub fn set_yield(rng: Option<(Prng, u64, u64)>) {
    YIELD.with(|y| {
        *y.borrow_mut() = rng.map(|(rng, num, den)| YieldPlan {
            rng,
            num,
            den,
            budget: 200_000,
        })
    });
    futures_util::lock::sim_set_yield_hook(Some(should_yield));
}

/// A point at which the simulator may suspend the calling task (used by the seams).
pub async fn yield_point() {
    struct Y(bool);
    impl Future for Y {
        type Output = ();
        fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
            if !self.0 {
                self.0 = true;
                if should_yield() {
                    cx.waker().wake_by_ref();
                    return Poll::Pending;
                }
            }
            Poll::Ready(())
        }
    }
    Y(false).await
}

/// Run one future to completion.
pub fn run<T>(fut: impl Future<Output = T>) -> T {
    let flag = Arc::new(Flag(AtomicBool::new(true)));
    let w = waker(flag.clone());
    let mut cx = Context::from_waker(&w);
    let mut fut = Box::pin(fut);
    let mut n = 0u64;
    loop {
        if !flag.0.swap(false, Ordering::SeqCst) {
            panic!("{}", DEADLOCK);
        }
        n += 1;
        POLLS.with(|p| p.set(p.get() + 1));
        if n > 5_000_000 {
            panic!("{}", LIVELOCK);
        }
        if let Poll::Ready(t) = fut.as_mut().poll(&mut cx) {
            return t;
        }
    }
}

pub enum Outcome {
    AllDone,
    Deadlock(Vec<usize>),
    Livelock,
}

pub type Task<'a> = Pin<Box<dyn Future<Output = ()> + 'a>>;

/// Run tasks concurrently: `rng` picks the next runnable task at every step. A task listed in
/// `abandon` with count k is dropped when it has been polled k times without finishing.
/// Returns the outcome and a hash of the interleaving (the sequence of task choices).
pub fn run_tasks(
    mut tasks: Vec<Option<Task<'_>>>,
    rng: &mut Prng,
    abandon: &[(usize, u64)],
) -> (Outcome, u64, Vec<usize>) {
    let flags: Vec<Arc<Flag>> = tasks
        .iter()
        .map(|_| Arc::new(Flag(AtomicBool::new(true))))
        .collect();
    let mut polled = vec![0u64; tasks.len()];
    let mut h = 0u64;
    let mut total = 0u64;
    let mut abandoned = vec![];
    loop {
        let live: Vec<usize> = (0..tasks.len()).filter(|i| tasks[*i].is_some()).collect();
        if live.is_empty() {
            return (Outcome::AllDone, h, abandoned);
        }
        let runnable: Vec<usize> = live
            .iter()
            .copied()
            .filter(|i| flags[*i].0.load(Ordering::SeqCst))
            .collect();
        if runnable.is_empty() {
            // an abandonment still to come may unblock the rest
            if let Some((i, _)) = abandon.iter().find(|(i, _)| live.contains(i)) {
                tasks[*i] = None;
                abandoned.push(*i);
                continue;
            }
            return (Outcome::Deadlock(live), h, abandoned);
        }
        let i = *rng.pick(&runnable);
        h = crate::det::mix2(h, i as u64 + 1);
        flags[i].0.store(false, Ordering::SeqCst);
        let w = waker(flags[i].clone());
        let mut cx = Context::from_waker(&w);
        total += 1;
        POLLS.with(|p| p.set(p.get() + 1));
        if total > 2_000_000 {
            return (Outcome::Livelock, h, abandoned);
        }
        polled[i] += 1;
        TASK.with(|t| t.set(i));
        if let Poll::Ready(()) = tasks[i].as_mut().unwrap().as_mut().poll(&mut cx) {
            tasks[i] = None;
        } else if let Some((_, k)) = abandon.iter().find(|(j, _)| *j == i) {
            if polled[i] >= *k {
                tasks[i] = None;
                abandoned.push(i);
            }
        }
    }
}
