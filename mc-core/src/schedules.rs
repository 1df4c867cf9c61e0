//! The bounded spaces of schedules.
use crate::cfg::*;
use crate::families::*;
use crate::msg::*;
use crate::sched::*;
use crate::settled::Op::{self, *};

pub struct SchedFamily {
    pub name: String,
    pub bounds: String,
    pub scenarios: Vec<Scenario>,
    pub deviations: usize,
}

fn batch(ops: Vec<Op>, advance_ms: u64, ticks: Ticks) -> Batch {
    Batch { ops, advance_ms, explore: true, ticks, fail: vec![], in_order: false }
}

fn scenario(setup: Vec<Op>, batches: Vec<Batch>, sessions: &[u32]) -> Scenario {
    Scenario { setup, batches, sessions: sessions.to_vec(), window: 100 }
}

/// Every sequence of 1..=n symbols below k.
fn words(k: usize, n: usize) -> Vec<Vec<usize>> {
    let mut out: Vec<Vec<usize>> = vec![];
    let mut level: Vec<Vec<usize>> = vec![vec![]];
    for _ in 0..n {
        let mut next = vec![];
        for w in &level {
            for i in 0..k {
                let mut v = w.clone();
                v.push(i);
                next.push(v);
            }
        }
        out.extend(next.iter().cloned());
        level = next;
    }
    out
}

/// Commands of one host against its own rounds.
pub fn one_host(t: Tier, deep: bool) -> Vec<SchedFamily> {
    let c = C::controller(&[&X]);
    let mut setup = ready(1);
    setup.extend(active(0, 1, 0, &c));
    setup.push(Advance(50));
    let reinit = vec![f(0, init(1, 0)), f(0, c.set(1)), f(0, start(1))];
    let alpha: Vec<Vec<Op>> = vec![
        vec![f(0, stop(1))],
        vec![f(0, start(1))],
        vec![f(0, mcast(1, 1, &[X], 0))],
        vec![f(0, deinit(1))],
        reinit,
        vec![f(0, reset())],
        vec![f(0, set_cfg(1, &[(INFO_NTF, vec![0])]))],
    ];
    let mut scenarios = vec![];
    for w in words(alpha.len(), t.pick(3, if deep { 4 } else { 3 })) {
        let ops: Vec<Op> = w.iter().flat_map(|i| alpha[*i].clone()).collect();
        scenarios.push(scenario(setup.clone(), vec![batch(ops, 250, Ticks::Jump)], &[1]));
    }
    let mut exact = vec![];
    for w in words(alpha.len(), 2) {
        let ops: Vec<Op> = w.iter().flat_map(|i| alpha[*i].clone()).collect();
        exact.push(scenario(
            setup.clone(),
            vec![batch(vec![], 50, Ticks::Exact), batch(ops, 150, Ticks::Exact), batch(vec![f(0, start(1))], 100, Ticks::Exact)],
            &[1],
        ));
    }
    vec![
        SchedFamily {
            name: "commands against rounds".into(),
            bounds: "1 host, active session; every sequence of up to 3 of 7 inputs at once, during 2-3 rounds, tasks slow".into(),
            scenarios,
            deviations: t.pick(1, 2),
        },
        SchedFamily {
            name: "commands against rounds, on time".into(),
            bounds: "1 host; every pair of 7 inputs, exact round instants".into(),
            scenarios: exact,
            deviations: t.pick(1, 2),
        },
    ]
}

/// Two hosts ranging with each other act at the same time.
pub fn two_hosts(t: Tier) -> Vec<SchedFamily> {
    let ctl = C::controller(&[&B]);
    let cee = C::controlee(&[&A]);
    let mut setup = ready(2);
    setup.extend(active(0, 1, 1, &ctl));
    setup.extend(active(1, 1, 1, &cee));
    setup.push(Advance(50));
    let a0: Vec<Vec<Op>> = vec![
        vec![f(0, mcast(1, 1, &[B], 0))],
        vec![f(0, stop(1))],
        vec![f(0, start(1))],
        vec![f(0, data_snd(1, 1, b"abc"))],
        vec![f(0, mcast(1, 0, &[B], 0))],
    ];
    let a1: Vec<Vec<Op>> = vec![
        vec![f(1, stop(1))],
        vec![f(1, start(1))],
        vec![f(1, reset())],
        vec![f(1, deinit(1)), f(1, init(1, 1)), f(1, cee.set(1)), f(1, start(1))],
        vec![Close(1)],
    ];
    let mut scenarios = vec![];
    for w0 in words(a0.len(), 2) {
        for w1 in words(a1.len(), 2) {
            // Nothing after a close.
            if w1.len() == 2 && w1[0] == 4 {
                continue;
            }
            if t == Tier::Quick && w0.len() == 2 && w1.len() == 2 && (w0[0] + w0[1] + w1[0] + w1[1]) % 2 == 1 {
                continue;
            }
            let mut ops: Vec<Op> = w0.iter().flat_map(|i| a0[*i].clone()).collect();
            ops.extend(w1.iter().flat_map(|i| a1[*i].clone()));
            scenarios.push(scenario(setup.clone(), vec![batch(ops, 150, Ticks::Jump)], &[1]));
        }
    }
    vec![SchedFamily {
        name: "two hosts at once".into(),
        bounds: "2 hosts ranging with each other; every pair of sequences of up to 2 of 5 inputs each, during 1-2 rounds".into(),
        scenarios,
        deviations: t.pick(1, 2),
    }]
}

/// In-band stop requests on their way while the controlee changes state.
pub fn stop_requests(t: Tier) -> Vec<SchedFamily> {
    let ctl = C::controller(&[&B, &X]);
    let cee = C::controlee(&[&A]);
    let mut scenarios = vec![];
    for attempts in [0u8, 1, 2] {
        for start_ctl in [false, true] {
            let mut setup = ready(3);
            let c = ctl.clone().with(ATTEMPTS, &[attempts]);
            setup.extend(idle(0, 1, 0, &c));
            if start_ctl {
                setup.push(f(0, start(1)))
            }
            setup.extend(active(1, 1, 0, &cee));
            setup.extend(active(1, 2, 0, &cee));
            setup.extend(active(2, 1, 0, &C::new(0, 0, &X, &[&A])));
            setup.push(Advance(50));
            for w1 in [
                vec![],
                vec![f(1, stop(1))],
                vec![f(1, stop(1)), f(1, start(1))],
                vec![f(1, stop(2))],
                vec![f(1, reset())],
                vec![f(1, deinit(1))],
                vec![Close(1)],
            ] {
                for w0 in [
                    vec![f(0, mcast(1, 1, &[B], 0))],
                    vec![f(0, mcast(1, 1, &[B, X], 0))],
                    vec![f(0, mcast(1, 1, &[B], 0)), f(0, mcast(1, 0, &[B], 0)), f(0, mcast(1, 1, &[B], 0))],
                    vec![f(0, mcast(1, 1, &[B], 0)), f(0, reset())],
                    vec![f(0, mcast(1, 1, &[B], 0)), Close(0)],
                ] {
                    let mut ops = w0;
                    ops.extend(w1.clone());
                    scenarios.push(scenario(setup.clone(), vec![batch(ops, 100, Ticks::Jump)], &[1, 2]));
                }
            }
        }
    }
    vec![SchedFamily {
        name: "in-band stop on its way".into(),
        bounds: "3 hosts; 5 updates of the controller x 7 reactions of the controlee x attempts 0/1/2 x idle/active".into(),
        scenarios,
        deviations: t.pick(1, 2),
    }]
}

/// Data submitted around the rounds.
pub fn data_schedules(t: Tier) -> Vec<SchedFamily> {
    let ctl = C::controller(&[&B]);
    let cee = C::controlee(&[&A]);
    let mut setup = ready(2);
    setup.extend(active(0, 1, 1, &ctl));
    setup.extend(active(1, 1, 1, &cee));
    setup.push(Advance(50));
    let a0: Vec<Vec<Op>> = vec![
        vec![f(0, data_snd(1, 1, b"one"))],
        vec![f(0, data_snd(1, 2, b"second"))],
        vec![f(0, stop(1)), f(0, start(1))],
        vec![f(0, deinit(1)), f(0, init(1, 1)), f(0, ctl.set(1)), f(0, start(1))],
    ];
    let a1: Vec<Vec<Op>> = vec![
        vec![],
        vec![f(1, stop(1))],
        vec![f(1, stop(1)), f(1, start(1))],
        vec![Close(1)],
    ];
    let mut scenarios = vec![];
    for w0 in words(a0.len(), 3) {
        if !w0.iter().any(|i| *i < 2) {
            continue;
        }
        for x1 in &a1 {
            let mut ops: Vec<Op> = w0.iter().flat_map(|i| a0[*i].clone()).collect();
            ops.extend(x1.clone());
            scenarios.push(scenario(setup.clone(), vec![batch(ops, 250, Ticks::Jump)], &[1]));
        }
    }
    vec![SchedFamily {
        name: "data around rounds".into(),
        bounds: "2 hosts; sequences of up to 3 of 4 inputs of the sender x 4 reactions of the receiver".into(),
        scenarios,
        deviations: t.pick(1, 2),
    }]
}

/// Connections, disconnections and anchors against rounds.
pub fn registry_schedules(t: Tier) -> Vec<SchedFamily> {
    let watch = C::new(1, 1, &A, &[&[0, 2], &X, &B]);
    let cee = C::controlee(&[&A]);
    let mut setup = ready(2);
    setup.extend(active(0, 1, 0, &watch));
    setup.extend(active(1, 1, 0, &cee));
    setup.push(Advance(50));
    let a0: Vec<Vec<Op>> = vec![
        vec![Connect],
        vec![CreateAnchor(X.to_vec())],
        vec![DestroyAnchor(X.to_vec())],
        vec![CreateAnchor(vec![0, 2])],
        vec![DestroyAnchor(vec![0, 2])],
    ];
    let a1: Vec<Vec<Op>> = vec![
        vec![],
        vec![Close(1)],
        vec![Close(0)],
        vec![f(0, stop(1)), f(0, start(1)), f(0, get_state(1))],
        vec![f(0, reset()), Close(1)],
    ];
    let mut scenarios = vec![];
    for w0 in words(a0.len(), t.pick(2, 3)) {
        for x1 in &a1 {
            let mut ops: Vec<Op> = w0.iter().flat_map(|i| a0[*i].clone()).collect();
            ops.extend(x1.clone());
            scenarios.push(scenario(setup.clone(), vec![batch(ops, 100, Ticks::Jump)], &[1]));
        }
    }
    vec![SchedFamily {
        name: "registry against rounds".into(),
        bounds: "2 ranging hosts; sequences of connections and anchor requests x 5 reactions of the hosts".into(),
        scenarios,
        deviations: t.pick(1, 2),
    }]
}

/// Connections that break while the server writes to them.
pub fn failing(t: Tier) -> Vec<SchedFamily> {
    let ctl = C::controller(&[&B, &X]);
    let cee = C::controlee(&[&A]);
    let mut scenarios = vec![];
    for h in 0..2usize {
        for n in 0..t.pick(4usize, 8) {
            for w in [
                vec![],
                vec![f(h, get_count()), f(h, stop(1)), f(h, start(1)), f(h, get_state(1))],
                vec![f(h, reset())],
                vec![f(0, data_snd(1, 1, b"abc")), f(0, data_snd(1, 1, b"defg"))],
                vec![f(1 - h, stop(1)), f(1 - h, start(1))],
                vec![f(0, mcast(1, 1, &[B], 0))],
            ] {
                let mut setup = ready(3);
                setup.extend(active(0, 1, 1, &ctl));
                setup.extend(active(1, 1, 1, &cee));
                setup.extend(active(2, 1, 1, &C::new(0, 0, &X, &[&A])));
                setup.push(Advance(50));
                let mut b = batch(w, 250, Ticks::Jump);
                b.fail = vec![(h, n)];
                scenarios.push(scenario(setup, vec![b], &[1]));
            }
        }
    }
    vec![SchedFamily {
        name: "broken connections".into(),
        bounds: "3 hosts; the socket of one fails after 0..3 writes while commands, data and rounds are handled".into(),
        scenarios,
        deviations: t.pick(1, 2),
    }]
}

/// Many commands at once from two hosts.
pub fn pipelines(t: Tier) -> Vec<SchedFamily> {
    let c = C::controller(&[&X]);
    let mut scenarios = vec![];
    let seqs: Vec<Vec<Vec<u8>>> = vec![
        vec![reset(), init(1, 0), c.set(1), start(1), get_state(1), stop(1), deinit(1), get_count()],
        vec![init(1, 0), init(1, 0), deinit(1), deinit(1), cmd(1, 0x3f, &[]), cmd(9, 0, &[])],
        vec![get_dev_cfg(&[0]), init(3, 1), get_count(), reset(), get_count(), get_dev_cfg(&[1])],
        vec![init(2, 1), c.set(2), data_snd(2, 1, b"q"), data_snd(7, 1, b"r"), start(2), stop(2), get_state(2)],
    ];
    for a in &seqs {
        for b in &seqs {
            for pre in [0usize, 1] {
                let mut setup = vec![Connect, Connect];
                if pre == 1 {
                    setup.push(f(0, reset()));
                }
                setup.push(f(1, reset()));
                let mut ops: Vec<Op> = a.iter().map(|p| f(0, p.clone())).collect();
                ops.extend(b.iter().map(|p| f(1, p.clone())));
                scenarios.push(scenario(setup, vec![batch(ops, 0, Ticks::Exact)], &[1, 2, 3]));
            }
        }
    }
    vec![SchedFamily {
        name: "pipelined commands".into(),
        bounds: "2 hosts, 4 sequences of 6-8 commands each, all pairs".into(),
        scenarios,
        deviations: t.pick(1, 2),
    }]
}

pub fn families(prop: &str, t: Tier) -> Vec<SchedFamily> {
    let mut v: Vec<SchedFamily> = vec![];
    let mut add = |x: Vec<SchedFamily>| v.extend(x);
    match prop {
        "C01" => {
            add(failing(t));
            add(registry_schedules(t));
            add(two_hosts(t));
            add(stop_requests(t));
        }
        "C02" => {
            add(pipelines(t));
            add(two_hosts(t));
        }
        "C03" => {
            add(one_host(t, false));
            add(stop_requests(t));
            add(pipelines(t));
        }
        "C04" => {
            add(one_host(t, true));
            add(two_hosts(t));
            add(stop_requests(t));
            add(pipelines(t));
        }
        "C05" => {
            add(one_host(t, false));
            add(two_hosts(t));
            add(stop_requests(t));
            add(pipelines(t));
        }
        "C06" => add(pipelines(t)),
        "C07" => {
            add(one_host(t, true));
            add(two_hosts(t));
        }
        "C08" => {
            add(two_hosts(t));
            add(registry_schedules(t));
        }
        "C09" => {
            add(two_hosts(t));
            add(stop_requests(t));
        }
        "C10" => {
            add(stop_requests(t));
            add(two_hosts(t));
        }
        "C11" => {
            add(data_schedules(t));
            add(failing(t));
        }
        "C12" => {
            add(pipelines(t));
            add(data_schedules(t));
        }
        "C13" => {
            add(two_hosts(t));
            add(failing(t));
            add(registry_schedules(t));
        }
        "C14" => {
            add(registry_schedules(t));
            add(failing(t));
        }
        "C15" => add(registry_schedules(t)),
        "C21" => add(pipelines(t)),
        _ => return v,
    }
    // Any of the others may break the property too.
    let others: [fn(Tier) -> Vec<SchedFamily>; 8] = [
        |t| one_host(t, false),
        |t| one_host(t, true),
        two_hosts,
        stop_requests,
        pipelines,
        data_schedules,
        failing,
        registry_schedules,
    ];
    for f in others {
        for x in f(t) {
            if v.iter().all(|y| y.name != x.name) {
                v.push(x);
            }
        }
    }
    v
}
