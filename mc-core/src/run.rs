//! Explores the families of a property on the code.
use crate::families::*;
use crate::model::Constants;
use crate::settled::*;
use mc_common::*;
use serde_json::json;
use std::collections::hash_map::DefaultHasher;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Instant;

pub fn threads() -> usize {
    std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8)
}

fn applicable(op: &Op, m: &MState, max_hosts: usize) -> bool {
    match op {
        Op::Connect => m.hosts < max_hosts,
        Op::Close(h) | Op::Feed(h, _) | Op::Segs(h, _) | Op::Stall(h, _) => {
            *h < m.hosts && !m.closed.contains(h)
        }
        _ => true,
    }
}

fn hash_of<T: Hash>(x: &T) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

pub struct Checker<'a> {
    pub prop: &'a str,
    pub report: &'a Report,
    pub consts: Arc<Constants>,
    pub deadline: Option<Instant>,
}

impl Checker<'_> {
    /// Runs one sequence on the code; false when the property is violated.
    /// Differences before `from` belong to another execution.
    fn run(&self, family: &str, ops: &[Op], probe: Probe, from: usize) -> bool {
        let o = execute(&self.consts, ops, probe, false);
        self.report.add(0, o.ops as u64, 1);
        state(&o.m.key());
        self.report.count("segments_received", o.segments);
        let mut ok = true;
        for (i, d) in &o.diffs {
            if *i < from {
                continue;
            }
            if d.tags.contains(self.prop) {
                if ok {
                    self.report.violation(Violation {
                        what: format!("[{family}] operation {i}: {}", d.what),
                        replay: json!({"kind": "settled", "ops": ops, "probe": probe}),
                    });
                }
                ok = false;
            } else {
                let t: Vec<&str> = d.tags.iter().copied().collect();
                self.report.foreign(&t.join(","), &format!("[{family}] {}", d.what));
            }
        }
        ok
    }

    pub fn family(&self, fam: &Family) -> bool {
        let t0 = Instant::now();
        let execs = AtomicU64::new(0);
        let (mut states, mut depth_done, mut complete) = (0u64, 0usize, true);
        let ok = match &fam.space {
            Space::Cases { cases, probe } => {
                let (n, all) = for_all(threads(), cases.len(), self.deadline, |i| {
                    execs.fetch_add(1, Ordering::Relaxed);
                    self.run(&fam.name, &cases[i], *probe, 0)
                });
                states = n;
                complete = all;
                !self.report.violated()
            }
            Space::Graph { prefix, alphabet, max_hosts, depth, probe } => {
                let mut root = MState::new(self.consts.clone());
                for o in prefix {
                    root.step(o);
                }
                let seen = Mutex::new(HashSet::new());
                seen.lock().unwrap().insert(hash_of(&root.key()));
                let mut frontier = vec![(root, prefix.clone())];
                let mut good = self.run(&fam.name, prefix, *probe, 0);
                while good && depth_done < *depth && !frontier.is_empty() {
                    let next = Mutex::new(Vec::new());
                    let na = alphabet.len();
                    let (_, all) = for_all(threads(), frontier.len() * na, self.deadline, |i| {
                        let (m, path) = &frontier[i / na];
                        let op = &alphabet[i % na];
                        if !applicable(op, m, *max_hosts) {
                            return true;
                        }
                        let mut m2 = m.clone();
                        m2.step(op);
                        let k = hash_of(&m2.key());
                        let mut p = path.clone();
                        p.push(op.clone());
                        execs.fetch_add(1, Ordering::Relaxed);
                        let ok = self.run(&fam.name, &p, *probe, path.len());
                        if ok && seen.lock().unwrap().insert(k) {
                            next.lock().unwrap().push((k, m2, p));
                        }
                        ok
                    });
                    good = !self.report.violated();
                    if !all {
                        complete = false;
                        break;
                    }
                    depth_done += 1;
                    let mut n = next.into_inner().unwrap();
                    n.sort_by_key(|x| x.0);
                    frontier = n.into_iter().map(|x| (x.1, x.2)).collect();
                }
                states = seen.into_inner().unwrap().len() as u64;
                good
            }
            Space::Tree { prefix, alphabet, max_hosts, depth, probe } => {
                let na = alphabet.len();
                let mut good = true;
                for d in 1..=*depth {
                    let (_, all) = for_all(threads(), na.pow(d as u32), self.deadline, |i| {
                        let mut x = i;
                        let mut ops = prefix.clone();
                        let mut m = MState::new(self.consts.clone());
                        for o in prefix {
                            m.step(o);
                        }
                        for _ in 0..d {
                            let op = &alphabet[x % na];
                            x /= na;
                            if !applicable(op, &m, *max_hosts) {
                                return true;
                            }
                            m.step(op);
                            ops.push(op.clone());
                        }
                        execs.fetch_add(1, Ordering::Relaxed);
                        self.run(&fam.name, &ops, *probe, ops.len() - 1)
                    });
                    good = !self.report.violated();
                    if !good {
                        break;
                    }
                    if !all {
                        complete = false;
                        break;
                    }
                    depth_done = d;
                }
                states = execs.load(Ordering::Relaxed);
                good
            }
        };
        if !complete {
            self.report.not_exhaustive()
        }
        self.report.scenario(json!({
            "name": fam.name,
            "bounds": fam.bounds,
            "executions": execs.load(Ordering::Relaxed),
            "states": states,
            "depth": depth_done,
            "complete": complete,
            "wall_s": t0.elapsed().as_secs_f64(),
        }));
        ok
    }
}

impl Checker<'_> {
    /// Judges one explored schedule; false when the property is violated.
    fn judge(&self, name: &str, sc: &crate::sched::Scenario, o: &crate::sched::SchedOutcome, devs: &Deviations) -> bool {
        use crate::sched::*;
        let mut bad: Option<String> = None;
        for d in &o.diffs {
            if d.tags.contains(self.prop) {
                bad = Some(d.what.clone())
            } else {
                let t: Vec<&str> = d.tags.iter().copied().collect();
                self.report.foreign(&t.join(","), &format!("[{name}] {}", d.what));
            }
        }
        if bad.is_none() && !o.seen.is_empty() {
            match explain(o, View::ALL) {
                Ok(n) => self.report.count("linearization_states", n),
                Err(all) => match explain(o, View::of(self.prop)) {
                    Ok(_) => {
                        let all = match all {
                            Unexplained::No(e) => e,
                            Unexplained::TooLarge => "undecided".into(),
                        };
                        self.report.foreign("unexplained schedule", &format!("[{name}] {all}"))
                    }
                    Err(Unexplained::No(e)) => bad = Some(e),
                    Err(Unexplained::TooLarge) => {
                        self.report.count("undecided_schedules", 1);
                        self.report.not_exhaustive()
                    }
                },
            }
        }
        match bad {
            None => true,
            Some(what) => {
                self.report.violation(Violation {
                    what: format!("[{name}] {what}"),
                    replay: json!({"kind": "sched", "scenario": sc, "choices": devs}),
                });
                false
            }
        }
    }

    pub fn schedules(&self, fam: &crate::schedules::SchedFamily) -> bool {
        let t0 = Instant::now();
        let execs = AtomicU64::new(0);
        let points = AtomicU64::new(0);
        let truncated = AtomicU64::new(0);
        let n = fam.scenarios.len();
        let (_, all) = for_all(threads(), n, self.deadline, |i| {
            let sc = &fam.scenarios[i];
            let b = Bounds { max_deviations: fam.deviations, max_executions: u64::MAX, deadline: self.deadline };
            let e = explore(1, &b, |c| {
                let devs = c.forced().clone();
                let (c, o) = crate::sched::execute_sched(&self.consts, sc, c);
                self.report.add(0, o.polls, 1);
                for s in &o.seen {
                    state(&(i, &fam.name, &s.obs))
                }
                let ok = self.judge(&fam.name, sc, &o, &devs);
                (c, ok)
            });
            execs.fetch_add(e.executions, Ordering::Relaxed);
            points.fetch_add(e.choice_points, Ordering::Relaxed);
            if !e.exhaustive {
                truncated.fetch_add(1, Ordering::Relaxed);
            }
            !self.report.violated()
        });
        let complete = all && truncated.load(Ordering::Relaxed) == 0;
        if !complete {
            self.report.not_exhaustive()
        }
        self.report.count("schedules", execs.load(Ordering::Relaxed));
        self.report.scenario(json!({
            "name": fam.name,
            "bounds": fam.bounds,
            "scenarios": n,
            "max_deviations": fam.deviations,
            "schedules": execs.load(Ordering::Relaxed),
            "choice_points": points.load(Ordering::Relaxed),
            "complete": complete,
            "wall_s": t0.elapsed().as_secs_f64(),
        }));
        !self.report.violated()
    }
}
