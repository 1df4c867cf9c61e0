//! Exhaustive enumeration of executions.
//!
//! An execution is a deterministic function of its answers to a sequence of
//! choice points. `explore` runs the execution in which every answer is 0, and
//! then every execution that differs from it in at most `max_deviations`
//! *budgeted* answers (plus any number of *free* answers).
use std::collections::VecDeque;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Condvar, Mutex};
use std::time::Instant;

/// Answers other than 0, by choice point.
pub type Deviations = Vec<(u32, u16)>;

#[derive(Clone, Copy, Debug)]
struct Taken {
    n: u16,
    free: bool,
}

/// Answers the choice points of one execution.
pub struct Chooser {
    forced: Deviations,
    next: usize,
    pos: u32,
    taken: Vec<Taken>,
    pub broken: bool,
}

impl Chooser {
    pub fn new(forced: Deviations) -> Self {
        Chooser { forced, next: 0, pos: 0, taken: Vec::new(), broken: false }
    }
    fn answer(&mut self, n: usize, free: bool) -> usize {
        if n <= 1 {
            return 0;
        }
        let p = self.pos;
        self.pos += 1;
        self.taken.push(Taken { n: n as u16, free });
        if self.next < self.forced.len() && self.forced[self.next].0 == p {
            let k = self.forced[self.next].1 as usize;
            self.next += 1;
            if k >= n {
                // The execution did not replay: reported by `explore`.
                self.broken = true;
                return 0;
            }
            return k;
        }
        0
    }
    /// A choice whose alternatives count against the deviation bound.
    pub fn choose(&mut self, n: usize) -> usize {
        self.answer(n, false)
    }
    /// A choice that is always enumerated completely.
    pub fn choose_free(&mut self, n: usize) -> usize {
        self.answer(n, true)
    }
    pub fn forced(&self) -> &Deviations {
        &self.forced
    }
    pub fn points(&self) -> usize {
        self.taken.len()
    }
}

#[derive(Clone, Debug)]
pub struct Bounds {
    pub max_deviations: usize,
    /// Stop after this many executions (reported as not exhaustive).
    pub max_executions: u64,
    pub deadline: Option<Instant>,
}

#[derive(Default, Debug, Clone)]
pub struct Explored {
    pub executions: u64,
    pub choice_points: u64,
    /// Deviation level that was explored completely.
    pub complete_level: Option<usize>,
    pub exhaustive: bool,
    pub executions_per_level: Vec<u64>,
}

struct Queue {
    levels: Vec<VecDeque<(Deviations, usize)>>,
    running: Vec<u64>,
    stop: bool,
}

/// Runs `run` on every choice sequence within `bounds`, on all cores. `run`
/// returns false to stop the exploration (a violation was recorded).
pub fn explore<F>(threads: usize, bounds: &Bounds, run: F) -> Explored
where
    F: Fn(Chooser) -> (Chooser, bool) + Sync,
{
    let lv = bounds.max_deviations + 1;
    let q = Mutex::new(Queue { levels: vec![VecDeque::new(); lv], running: vec![0; lv], stop: false });
    q.lock().unwrap().levels[0].push_back((vec![], 0));
    let cv = Condvar::new();
    let execs = AtomicU64::new(0);
    let points = AtomicU64::new(0);
    let per_level: Vec<AtomicU64> = (0..lv).map(|_| AtomicU64::new(0)).collect();
    let truncated = AtomicBool::new(false);
    let broken = AtomicBool::new(false);
    let level_reached = AtomicU64::new(0);
    std::thread::scope(|s| {
        for _ in 0..threads {
            s.spawn(|| loop {
                let (forced, dev) = {
                    let mut g = q.lock().unwrap();
                    loop {
                        if g.stop {
                            return;
                        }
                        // Lowest level first, so that what is explored when a
                        // bound cuts in is complete up to a level.
                        if let Some(l) = (0..lv).find(|l| !g.levels[*l].is_empty()) {
                            let x = g.levels[l].pop_front().unwrap();
                            g.running[l] += 1;
                            level_reached.fetch_max(l as u64, Ordering::Relaxed);
                            break x;
                        }
                        if g.running.iter().all(|r| *r == 0) {
                            g.stop = true;
                            cv.notify_all();
                            return;
                        }
                        g = cv.wait(g).unwrap();
                    }
                };
                let over = execs.load(Ordering::Relaxed) >= bounds.max_executions
                    || bounds.deadline.map_or(false, |d| Instant::now() > d);
                if over {
                    truncated.store(true, Ordering::Relaxed);
                    let mut g = q.lock().unwrap();
                    g.running[dev] -= 1;
                    g.stop = true;
                    cv.notify_all();
                    return;
                }
                let last = forced.last().map(|x| x.0 as i64).unwrap_or(-1);
                let (c, go_on) = run(Chooser::new(forced.clone()));
                execs.fetch_add(1, Ordering::Relaxed);
                per_level[dev].fetch_add(1, Ordering::Relaxed);
                points.fetch_add(c.taken.len() as u64, Ordering::Relaxed);
                if c.broken || c.next != c.forced.len() {
                    broken.store(true, Ordering::Relaxed);
                }
                let mut kids: Vec<(Deviations, usize)> = Vec::new();
                if go_on {
                    for (i, t) in c.taken.iter().enumerate() {
                        if (i as i64) <= last {
                            continue;
                        }
                        let d2 = dev + if t.free { 0 } else { 1 };
                        if d2 > bounds.max_deviations {
                            continue;
                        }
                        for k in 1..t.n {
                            let mut f = forced.clone();
                            f.push((i as u32, k));
                            kids.push((f, d2));
                        }
                    }
                }
                let mut g = q.lock().unwrap();
                g.running[dev] -= 1;
                if !go_on {
                    g.stop = true;
                }
                for (f, d2) in kids {
                    g.levels[d2].push_back((f, d2));
                }
                cv.notify_all();
            });
        }
    });
    if broken.load(Ordering::Relaxed) {
        eprintln!("harness error: an execution did not replay deterministically");
        std::process::exit(3);
    }
    let trunc = truncated.load(Ordering::Relaxed);
    let reached = level_reached.load(Ordering::Relaxed) as usize;
    Explored {
        executions: execs.load(Ordering::Relaxed),
        choice_points: points.load(Ordering::Relaxed),
        complete_level: if trunc { reached.checked_sub(1) } else { Some(bounds.max_deviations) },
        exhaustive: !trunc,
        executions_per_level: per_level.iter().map(|x| x.load(Ordering::Relaxed)).collect(),
    }
}

/// Runs `f` on every index below `n`, on all cores; `f` returns false to stop.
/// Returns how many were run.
pub fn for_all<F>(threads: usize, n: usize, deadline: Option<Instant>, f: F) -> (u64, bool)
where
    F: Fn(usize) -> bool + Sync,
{
    let next = AtomicU64::new(0);
    let done = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let trunc = AtomicBool::new(false);
    std::thread::scope(|s| {
        for _ in 0..threads {
            s.spawn(|| loop {
                if stop.load(Ordering::Relaxed) {
                    return;
                }
                let i = next.fetch_add(1, Ordering::Relaxed) as usize;
                if i >= n {
                    return;
                }
                if deadline.map_or(false, |d| Instant::now() > d) {
                    trunc.store(true, Ordering::Relaxed);
                    return;
                }
                let go = f(i);
                done.fetch_add(1, Ordering::Relaxed);
                if !go {
                    stop.store(true, Ordering::Relaxed);
                }
            });
        }
    });
    (done.load(Ordering::Relaxed), !trunc.load(Ordering::Relaxed))
}
