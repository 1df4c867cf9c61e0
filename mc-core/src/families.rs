//! The bounded spaces of settled executions.
use crate::cfg::*;
pub use crate::conf::*;
use crate::msg::*;
use crate::settled::{Op::*, *};

/// A bounded space: explored completely.
pub enum Space {
    /// Every edge of the graph of model states reachable with the alphabet,
    /// each replayed against the code along a shortest path.
    Graph { prefix: Vec<Op>, alphabet: Vec<Op>, max_hosts: usize, depth: usize, probe: Probe },
    /// Every sequence of the alphabet up to a length, without merging states.
    Tree { prefix: Vec<Op>, alphabet: Vec<Op>, max_hosts: usize, depth: usize, probe: Probe },
    /// Given sequences.
    Cases { cases: Vec<Vec<Op>>, probe: Probe },
}

pub struct Family {
    pub name: String,
    pub bounds: String,
    pub space: Space,
}

pub fn f(h: usize, p: Vec<u8>) -> Op {
    Feed(h, p)
}

/// `n` connected hosts, each after a device reset.
pub fn ready(n: usize) -> Vec<Op> {
    let mut v = vec![];
    for h in 0..n {
        v.push(Connect);
        v.push(f(h, reset()));
    }
    v
}

/// Session in IDLE.
pub fn idle(h: usize, s: u32, ty: u8, c: &C) -> Vec<Op> {
    vec![f(h, init(s, ty)), f(h, c.set(s))]
}

pub fn active(h: usize, s: u32, ty: u8, c: &C) -> Vec<Op> {
    let mut v = idle(h, s, ty, c);
    v.push(f(h, start(s)));
    v
}

fn cat(v: &[Vec<Op>]) -> Vec<Op> {
    v.concat()
}

fn graph(name: &str, bounds: &str, prefix: Vec<Op>, alphabet: Vec<Op>, max_hosts: usize, depth: usize, probe: Probe) -> Family {
    Family {
        name: name.into(),
        bounds: bounds.into(),
        space: Space::Graph { prefix, alphabet, max_hosts, depth, probe },
    }
}

fn tree(name: &str, bounds: &str, prefix: Vec<Op>, alphabet: Vec<Op>, max_hosts: usize, depth: usize, probe: Probe) -> Family {
    Family {
        name: name.into(),
        bounds: bounds.into(),
        space: Space::Tree { prefix, alphabet, max_hosts, depth, probe },
    }
}

fn cases(name: &str, bounds: &str, cases: Vec<Vec<Op>>, probe: Probe) -> Family {
    Family { name: name.into(), bounds: bounds.into(), space: Space::Cases { cases, probe } }
}

// ------------------------------------------------------------ lifecycle ----

fn lifecycle_ops(h: usize, s: u32, c: &C) -> Vec<Op> {
    vec![
        f(h, init(s, 0)),
        f(h, deinit(s)),
        f(h, c.set(s)),
        f(h, set_cfg(s, &[(ROLE, vec![1]), (MULTI, vec![1])])),
        f(h, start(s)),
        f(h, stop(s)),
    ]
}

/// One host, two sessions, from before the first reset.
pub fn lifecycle(t: Tier) -> Vec<Family> {
    let c1 = C::controller(&[&X]);
    let c2 = C::controller(&[&X, &Y]).interval(150);
    let mut a = vec![f(0, reset()), Advance(50)];
    a.extend(lifecycle_ops(0, 1, &c1));
    a.extend(lifecycle_ops(0, 7, &c2));
    a.push(f(0, mcast(1, 1, &[X], 0)));
    a.push(f(0, mcast(1, 0, &[X], 0)));
    a.push(f(0, set_cfg(1, &[(INFO_NTF, vec![0])])));
    let small: Vec<Op> = vec![
        f(0, reset()),
        f(0, init(1, 0)),
        f(0, c1.set(1)),
        f(0, start(1)),
        f(0, stop(1)),
        f(0, deinit(1)),
        f(0, mcast(1, 1, &[X], 0)),
        f(0, mcast(1, 0, &[X], 0)),
        Advance(100),
    ];
    let mut idle1 = ready(1);
    idle1.extend(idle(0, 1, 0, &c1));
    let mut two = ready(1);
    two.extend(idle(0, 1, 0, &c1));
    two.extend(idle(0, 7, 1, &c2));
    let small2: Vec<Op> = vec![
        f(0, start(1)),
        f(0, stop(1)),
        f(0, start(7)),
        f(0, stop(7)),
        f(0, deinit(7)),
        f(0, mcast(1, 1, &[X], 0)),
        f(0, mcast(7, 1, &[X], 0)),
        f(0, mcast(7, 1, &[Y], 0)),
        Advance(50),
    ];
    vec![
        graph(
            "lifecycle graph",
            "1 host, 2 sessions, 17 operations, all reachable model states",
            vec![Connect],
            a,
            1,
            t.pick(9, 40),
            t.pick(Probe::Light, Probe::Full),
        ),
        tree(
            "lifecycle sequences",
            "1 host, 1 idle session, every sequence of 9 operations up to the depth",
            idle1,
            small,
            1,
            t.pick(4, 6),
            Probe::Full,
        ),
        tree(
            "two-session sequences",
            "1 host, 2 idle sessions, every sequence of 9 operations up to the depth",
            two,
            small2,
            1,
            t.pick(4, 6),
            Probe::Full,
        ),
    ]
}

/// Commands that do not fit the state, for every state of the session, and the
/// limits of the number of sessions.
pub fn session_limits(t: Tier) -> Vec<Family> {
    let c = C::controller(&[&X]);
    let mut v = vec![];
    for n in [1usize, 2, 254, 255, 256, 300] {
        let mut ops = ready(2);
        for i in 0..n {
            ops.push(f(0, init((i as u32).wrapping_mul(0x01000193), 0)));
        }
        ops.push(f(0, get_count()));
        ops.push(f(1, get_count()));
        ops.push(f(1, init(0, 0)));
        ops.push(f(0, deinit(0)));
        ops.push(f(0, get_count()));
        ops.push(f(0, init(0xffff_fff0, 1)));
        ops.push(f(0, init(0xffff_fff1, 1)));
        ops.push(f(0, get_state(0xffff_fff0)));
        ops.push(f(0, get_state(0xffff_fff1)));
        ops.push(f(0, reset()));
        ops.push(f(0, get_count()));
        ops.push(f(0, init(5, 0)));
        ops.push(f(1, get_count()));
        v.push(ops);
    }
    // Every session type, in every state, every session command.
    for ty in 0..=255u8 {
        let mut ops = ready(1);
        ops.push(f(0, init(9, ty)));
        ops.push(f(0, start(9)));
        ops.push(f(0, c.set(9)));
        ops.push(f(0, start(9)));
        ops.push(f(0, start(9)));
        ops.push(f(0, mcast(9, 0, &[Y], 0)));
        ops.push(Advance(100));
        ops.push(f(0, stop(9)));
        ops.push(f(0, stop(9)));
        ops.push(f(0, init(9, ty)));
        ops.push(f(0, deinit(9)));
        ops.push(f(0, deinit(9)));
        v.push(ops);
    }
    // Neighbouring identifiers: no command of one touches the other.
    let ids = [0u32, 1, 0x100, 0x10000, 0x1000000, 0x80000000, 0xffffffff];
    for a in ids {
        for b in ids {
            if a == b {
                continue;
            }
            let mut ops = ready(1);
            ops.extend(idle(0, a, 0, &c));
            ops.push(f(0, init(b, 0)));
            ops.push(f(0, start(b)));
            ops.push(f(0, start(a)));
            ops.push(f(0, c.set(b)));
            ops.push(f(0, start(b)));
            ops.push(f(0, stop(a)));
            ops.push(Advance(100));
            ops.push(f(0, deinit(a)));
            ops.push(f(0, start(a)));
            v.push(ops);
        }
    }
    let _ = t;
    vec![cases("session limits", "0..300 sessions, all 256 session types, pairs of related ids", v, Probe::Light)]
}

// -------------------------------------------------------- several hosts ----

/// Two hosts with matching sessions.
pub fn pair(t: Tier) -> Vec<Family> {
    let ctl = C::controller(&[&B]);
    let cee = C::controlee(&[&A]);
    let mut prefix = ready(2);
    prefix.extend(idle(0, 1, 1, &ctl));
    prefix.extend(idle(1, 1, 1, &cee));
    let a = vec![
        f(0, start(1)),
        f(0, stop(1)),
        f(0, mcast(1, 1, &[B], 0)),
        f(0, mcast(1, 0, &[B], 0)),
        f(0, reset()),
        f(1, start(1)),
        f(1, stop(1)),
        f(1, deinit(1)),
        f(1, reset()),
        f(0, data_snd(1, 1, b"hello")),
        Close(1),
        Connect,
        Advance(50),
        f(0, deinit(1)),
        f(0, init(1, 1)),
        f(0, ctl.set(1)),
        f(1, init(1, 1)),
        f(1, cee.set(1)),
    ];
    let mut act = prefix.clone();
    act.push(f(0, start(1)));
    act.push(Advance(50));
    act.push(f(1, start(1)));
    let small = vec![
        f(0, stop(1)),
        f(0, start(1)),
        f(0, mcast(1, 1, &[B], 0)),
        f(0, mcast(1, 0, &[B], 0)),
        f(0, data_snd(1, 1, b"x")),
        f(1, stop(1)),
        f(1, start(1)),
        f(1, reset()),
        Close(1),
        Advance(100),
    ];
    vec![
        graph(
            "paired sessions graph",
            "2-3 hosts, matching sessions, 18 operations, model states up to the depth",
            prefix,
            a,
            3,
            t.pick(4, 8),
            Probe::Full,
        ),
        tree(
            "paired sessions sequences",
            "2 hosts ranging with each other, every sequence of 10 operations up to the depth",
            act,
            small,
            2,
            t.pick(4, 5),
            Probe::Full,
        ),
    ]
}

/// Three hosts: what one does never shows elsewhere.
pub fn isolation(t: Tier) -> Vec<Family> {
    let mut v = vec![];
    let ctl = C::controller(&[&B, &X]);
    let cee = C::controlee(&[&A]);
    // Host 0 performs every command in every state, host 1 and 2 hold sessions
    // with the same ids in every state.
    let states = ["none", "init", "idle", "active"];
    let st = |h: usize, s: u32, ty: u8, c: &C, n: usize| -> Vec<Op> {
        let mut v = vec![];
        if n >= 1 {
            v.push(f(h, init(s, ty)))
        }
        if n >= 2 {
            v.push(f(h, c.set(s)))
        }
        if n >= 3 {
            v.push(f(h, start(s)))
        }
        v
    };
    for a in 0..states.len() {
        for b in 0..states.len() {
            for c in 0..t.pick(2, 4) {
                let commands = vec![
                    f(0, reset()),
                    f(0, init(1, 0)),
                    f(0, deinit(1)),
                    f(0, ctl.set(1)),
                    f(0, start(1)),
                    f(0, stop(1)),
                    f(0, mcast(1, 1, &[X], 0)),
                    f(0, mcast(1, 1, &[B], 0)),
                    f(0, mcast(1, 1, &[A], 0)),
                    f(0, data_snd(1, 0, b"abc")),
                    f(0, set_dev_cfg(&[(1, vec![0])])),
                    f(0, set_cfg(1, &[(INFO_NTF, vec![0])])),
                    Close(0),
                    f(0, cmd(SCFG, 9, &[1, 2, 3])),
                ];
                for x in commands {
                    let mut ops = ready(3);
                    ops.extend(st(0, 1, 1, &ctl, a));
                    ops.extend(st(0, 2, 0, &ctl, 3));
                    ops.extend(st(1, 1, 1, &cee, b));
                    ops.extend(st(1, 2, 0, &cee, c));
                    ops.extend(st(2, 1, 1, &cee, 3));
                    ops.push(f(1, data_snd(1, 0, b"zz")));
                    ops.push(f(1, set_dev_cfg(&[(1, vec![0])])));
                    ops.push(x);
                    v.push(ops);
                }
            }
        }
    }
    vec![cases(
        "isolation",
        "3 hosts, every state of the same session id on two of them, every command of the first",
        v,
        Probe::Reset,
    )]
}

/// Reset from every kind of state.
pub fn resets(t: Tier) -> Vec<Family> {
    let ctl = C::controller(&[&B, &X]);
    let cee = C::controlee(&[&A]);
    let mut prefix = ready(2);
    prefix.extend(idle(0, 1, 1, &ctl));
    prefix.extend(active(1, 1, 1, &cee));
    let a = vec![
        f(0, reset()),
        f(0, init(1, 1)),
        f(0, ctl.set(1)),
        f(0, start(1)),
        f(0, data_snd(1, 1, b"queued")),
        f(0, init(2, 0)),
        f(0, ctl.clone().interval(50).set(2)),
        f(0, start(2)),
        f(0, set_dev_cfg(&[(1, vec![0])])),
        Advance(100),
    ];
    vec![graph(
        "reset graph",
        "2 hosts, 2 sessions, queued data, device configuration, 10 operations",
        prefix,
        a,
        2,
        t.pick(5, 9),
        Probe::Full,
    )]
}

// -------------------------------------------------------------- ranging ----

/// Which peers a round measures.
pub fn matching(t: Tier) -> Vec<Family> {
    let mut v: Vec<Vec<Op>> = vec![];
    let addrs: Vec<(Vec<u8>, Vec<u8>, Vec<u8>)> =
        vec![(A.to_vec(), B.to_vec(), X.to_vec()), (EA.to_vec(), EB.to_vec(), EC.to_vec())];
    // Local and remote role, device type, lists, ids, state, reachability.
    for (la, ra, oth) in &addrs {
        for lrole in [0u8, 1] {
            for rrole in [0u8, 1, 7] {
                for ldt in [0u8, 1] {
                    for rdt in [0u8, 1] {
                        for lists in 0..4u8 {
                            for same in [true, false] {
                                let ldst: Vec<&[u8]> =
                                    if lists & 1 != 0 { vec![oth, ra] } else { vec![oth] };
                                let rdst: Vec<&[u8]> =
                                    if lists & 2 != 0 { vec![la] } else { vec![oth, ra] };
                                let l = C::new(lrole, ldt, la, &ldst);
                                let r = C::new(rrole, rdt, ra, &rdst);
                                let mut ops = ready(2);
                                ops.extend(active(0, 5, 0, &l));
                                ops.extend(active(1, if same { 5 } else { 6 }, 0, &r));
                                ops.push(Advance(100));
                                if lists == 3 {
                                    ops.push(f(1, stop(5)));
                                    ops.push(Advance(100));
                                    ops.push(f(1, start(5)));
                                    ops.push(Advance(100));
                                    ops.push(Block(vec![(0, 1)]));
                                    ops.push(Advance(100));
                                    ops.push(Block(vec![(1, 0)]));
                                    ops.push(Advance(100));
                                    ops.push(Block(vec![]));
                                    ops.push(f(1, deinit(5)));
                                    ops.push(Advance(100));
                                }
                                v.push(ops);
                            }
                        }
                    }
                }
            }
        }
        // Anchors: listed or not, created before or after the start, blocked,
        // beside a device or alone.
        for listed in [true, false] {
            for peer in [true, false] {
                for blk in 0..4u8 {
                    for early in [true, false] {
                        let mut dst: Vec<&[u8]> = vec![];
                        if listed {
                            dst.push(oth)
                        }
                        dst.push(ra);
                        let l = C::new(1, 1, la, &dst);
                        let r = C::new(0, 0, ra, &[la, oth]);
                        let mut ops = ready(2);
                        if early {
                            ops.push(CreateAnchor(oth.clone()))
                        }
                        ops.extend(active(0, 5, 0, &l));
                        if peer {
                            ops.extend(active(1, 5, 0, &r))
                        }
                        if !early {
                            ops.push(CreateAnchor(oth.clone()))
                        }
                        let mut b = vec![];
                        if blk & 1 != 0 {
                            b.push((0, 2))
                        }
                        if blk & 2 != 0 {
                            b.push((2, 0))
                        }
                        ops.push(Block(b));
                        ops.push(Advance(200));
                        ops.push(DestroyAnchor(oth.clone()));
                        ops.push(Advance(100));
                        ops.push(CreateAnchor(ra.clone()));
                        ops.push(Advance(100));
                        v.push(ops);
                    }
                }
            }
        }
    }
    // Address formats that only look alike, and mixed formats.
    for (la, ra) in [
        (A.to_vec(), EC.to_vec()),
        (EC.to_vec(), A.to_vec()),
        (EA.to_vec(), B.to_vec()),
        (vec![0, 1], vec![1, 0]),
        (vec![0, 0], vec![0, 1]),
        (vec![0xff, 0xff], vec![0xff, 0xfe]),
    ] {
        for lists in 0..2 {
            let l = C::new(1, 1, &la, &[&ra]);
            let r = C::new(0, 0, &ra, &[&la]);
            // A list of another format cannot be configured: only same-length ones.
            let mut ops = ready(2);
            let (lc, rc) = if la.len() == ra.len() {
                (l, r)
            } else {
                (C::new(1, 1, &la, &[]), C::new(0, 0, &ra, &[]))
            };
            ops.extend(active(0, 5, 0, &lc));
            ops.extend(active(1, 5, 0, &rc));
            if lists == 1 {
                ops.push(CreateAnchor(ra.clone()))
            }
            ops.push(Advance(200));
            v.push(ops);
        }
    }
    // Three and more devices, each subset listing each other.
    let macs: Vec<Vec<u8>> = (0..4u8).map(|i| vec![0x20 + i, 0x30]).collect();
    for mask in 0..t.pick(64u32, 64) {
        // mask bits: does controlee i list the controller; is i listed; is i active
        let mut ops = ready(4);
        let mut dst: Vec<&[u8]> = vec![];
        for i in 0..3 {
            if mask & (1 << i) != 0 {
                dst.push(&macs[i + 1])
            }
        }
        ops.extend(active(0, 5, 0, &C::new(1, 1, &macs[0], &dst)));
        for i in 0..3 {
            let d: Vec<&[u8]> = if mask & (8 << i) != 0 { vec![&macs[0]] } else { vec![&macs[3 - i]] };
            ops.extend(active(i + 1, 5, 0, &C::new(0, 0, &macs[i + 1], &d)));
        }
        ops.push(Advance(100));
        ops.push(f(2, stop(5)));
        ops.push(Advance(100));
        ops.push(Close(3));
        ops.push(Advance(100));
        v.push(ops);
    }
    // Every subset of three anchors and two devices that cannot be estimated,
    // in one direction or the other, for every order of the list.
    let near: Vec<Vec<u8>> = (0..5u8).map(|i| vec![0x40 + i, 0x51]).collect();
    for order in [[0, 1, 2, 3, 4], [0, 2, 1, 4, 3], [1, 0, 3, 2, 4], [3, 2, 0, 1, 4], [4, 1, 2, 0, 3], [2, 4, 1, 3, 0]] {
        let dst: Vec<&[u8]> = order.iter().map(|i| &near[*i][..]).collect();
        let mut ops = ready(3);
        for a in &near[..3] {
            ops.push(CreateAnchor(a.clone()));
        }
        ops.extend(active(0, 5, 0, &C::new(1, 1, &A, &dst)));
        for i in 0..2 {
            ops.extend(active(i + 1, 5, 0, &C::new(0, 0, &near[3 + i], &[&A])));
        }
        // The handles of the neighbours: anchors come after the three hosts.
        let handles = [3usize, 4, 5, 1, 2];
        for mut code in 0..243u32 {
            let mut b = vec![];
            for h in handles {
                match code % 3 {
                    1 => b.push((0, h)),
                    2 => b.push((h, 0)),
                    _ => (),
                }
                code /= 3;
            }
            ops.push(Block(b));
            ops.push(Advance(100));
        }
        v.push(ops);
    }
    vec![cases(
        "matching peers",
        "2-4 devices: roles x device types x lists x same/other id x short/extended x blocked estimates; anchors listed/unlisted; all subsets of 3 anchors and 2 devices without estimates",
        v,
        Probe::None,
    )]
}

/// Intervals, restarts and reconfiguration while active.
pub fn rounds(t: Tier) -> Vec<Family> {
    let mut v = vec![];
    for iv in [1u32, 7, 50, 100, 240, 1000, 65536, 65537, 65636] {
        for other in [50u32, 75, 100] {
            let mut ops = ready(1);
            ops.extend(active(0, 1, 0, &C::controller(&[&X]).interval(iv)));
            ops.push(Advance(iv as u64 - 1));
            ops.push(Advance(1));
            ops.extend(active(0, 2, 0, &C::controller(&[&X]).interval(other)));
            ops.push(Advance((3 * iv as u64).min(4000)));
            ops.push(f(0, set_cfg(1, &[(INFO_NTF, vec![0])])));
            ops.push(Advance((2 * iv as u64).min(4000)));
            ops.push(f(0, set_cfg(1, &[(INFO_NTF, vec![1])])));
            ops.push(Advance((2 * iv as u64).min(4000)));
            ops.push(f(0, stop(1)));
            ops.push(Advance(2 * iv as u64));
            ops.push(f(0, ranging_count(1)));
            ops.push(f(0, start(1)));
            ops.push(Advance(iv as u64));
            ops.push(f(0, ranging_count(1)));
            ops.push(f(0, set_cfg(1, &[(INTERVAL, vec![30, 0, 0, 0])])));
            ops.push(Advance(iv as u64));
            ops.push(f(0, stop(1)));
            ops.push(f(0, start(1)));
            ops.push(Advance(90));
            ops.push(f(0, deinit(1)));
            ops.push(Advance(2 * iv as u64));
            v.push(ops);
        }
    }
    // An interval of more than four hours: all bytes count.
    for iv in [0x0100_0064u32, 0x0101_0000] {
        let mut ops = ready(1);
        ops.extend(active(0, 1, 0, &C::controller(&[&X]).interval(iv)));
        for step in [0x64, 0x10000, 0x10000, iv as u64 - 0x20065, 1, 0x64, 0x10000] {
            ops.push(Advance(step));
            ops.push(f(0, ranging_count(1)));
        }
        v.push(ops);
    }
    // Every value of the notification setting, before and while active.
    for x in 0..=7u8 {
        for y in 0..=7u8 {
            let mut ops = ready(1);
            ops.extend(active(0, 1, 0, &C::controller(&[&X]).with(INFO_NTF, &[x])));
            ops.push(Advance(250));
            ops.push(f(0, set_cfg(1, &[(INFO_NTF, vec![y])])));
            ops.push(Advance(200));
            v.push(ops);
        }
    }
    // Long runs: sequence numbers beyond one byte.
    let mut ops = ready(1);
    ops.extend(active(0, 1, 0, &C::controller(&[&X]).interval(1)));
    ops.push(Advance(300));
    ops.push(f(0, ranging_count(1)));
    ops.push(Advance(t.pick(66_000, 140_000)));
    ops.push(f(0, ranging_count(1)));
    ops.push(f(0, stop(1)));
    ops.push(f(0, start(1)));
    ops.push(Advance(10));
    v.push(ops);
    // Stop and restart at every phase of the interval.
    for ph in (0..=200u64).step_by(10) {
        for gap in [0u64, 1, 49, 50, 99, 100, 101] {
            let mut ops = ready(1);
            ops.extend(active(0, 1, 0, &C::controller(&[&X])));
            ops.push(Advance(ph));
            ops.push(f(0, stop(1)));
            if gap > 0 {
                ops.push(Advance(gap))
            }
            ops.push(f(0, start(1)));
            ops.push(Advance(99));
            ops.push(Advance(1));
            ops.push(Advance(100));
            v.push(ops);
        }
    }
    vec![cases(
        "rounds",
        "intervals 1..65636 ms, and 4 hours x second session x notification settings x restarts at every 10 ms phase; 66000 rounds and more",
        v,
        Probe::Light,
    )]
}

// -------------------------------------------------------- configuration ----

/// A value that is valid for the parameter and differs from its default.
pub fn sample(p: &Param) -> Vec<u8> {
    match p.kind {
        Kind::Enum(ok) => {
            vec![*ok.iter().rev().find(|x| p.default != Some(&[**x][..])).unwrap_or(&ok[0])]
        }
        Kind::Bytes(n) => (0..n).map(|i| 0x11 + i as u8).collect(),
        Kind::Time => vec![1, 2, 3, 4, 5, 6, 7, 8],
        Kind::AnyBytes => vec![9, 8, 7],
        Kind::SubKey => vec![0x77; 16],
        Kind::DeviceMac => vec![0x51, 0x52],
        Kind::DstMac => vec![0x61, 0x62],
    }
}

fn values(id: u8) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = (0..=255u8).map(|b| vec![b]).collect();
    let mut lens: Vec<usize> = (0..=20).collect();
    lens.extend([31, 32, 33, 64, 127, 128, 240]);
    for n in lens {
        if n == 1 {
            continue;
        }
        v.push(vec![0; n]);
        v.push((0..n).map(|i| (i as u8).wrapping_mul(37).wrapping_add(id | 1)).collect());
        v.push(vec![0xff; n]);
    }
    v
}

pub fn configuration(t: Tier) -> Vec<Family> {
    let full = C::controller(&[&X]);
    let mut v = vec![];
    // Every id, every length and value, on sessions in INIT, ACTIVE and IDLE.
    for id in 0..=255u8 {
        for st in 0..t.pick(2, 3) {
            let mut ops = ready(1);
            ops.push(f(0, init(1, 0)));
            ops.push(f(0, init(2, 0)));
            ops.push(f(0, full.set(2)));
            match st {
                0 => (),
                1 => {
                    ops.push(f(0, full.set(1)));
                    ops.push(f(0, start(1)));
                }
                _ => ops.push(f(0, full.set(1))),
            }
            for x in values(id) {
                if id == INTERVAL && x.len() == 4 && x == [0, 0, 0, 0] {
                    continue;
                }
                ops.push(f(0, set_cfg(1, &[(id, x)])));
                ops.push(f(0, get_cfg(1, &[id])));
            }
            ops.push(f(0, get_cfg(2, &[id])));
            v.push(ops);
        }
        // Set together with the mandatory parameters, first and last.
        if let Some(p) = param(id) {
            for first in [true, false] {
                let mut ops = ready(2);
                ops.push(f(0, init(1, 0)));
                ops.push(f(0, init(2, 0)));
                ops.push(f(1, init(1, 0)));
                let mut tl = full.tlvs();
                if !matches!(p.kind, Kind::DstMac | Kind::DeviceMac) && id != MAC_MODE && id != NCTRL {
                    tl.retain(|x| x.0 != id);
                    tl.insert(if first { 0 } else { tl.len() }, (id, sample(p)));
                }
                ops.push(f(0, set_cfg(1, &tl)));
                v.push(ops);
            }
        }
    }
    let mut pairs = vec![];
    // Pairs: a valid and an invalid or valid other one, in both orders.
    for p in PARAMS {
        for q in PARAMS {
            if t == Tier::Quick && (p.id as usize + q.id as usize) % 3 != 0 && p.id != q.id {
                continue;
            }
            let mut ops = ready(1);
            ops.extend(idle(0, 1, 0, &full));
            ops.push(f(0, start(1)));
            ops.push(f(0, set_cfg(1, &[(p.id, sample(p)), (q.id, sample(q))])));
            let mut bad = sample(q);
            if matches!(q.kind, Kind::Enum(_)) {
                bad = vec![0xee]
            } else {
                bad.extend([0; 5])
            }
            ops.push(f(0, set_cfg(1, &[(p.id, sample(p)), (q.id, bad.clone())])));
            ops.push(f(0, set_cfg(1, &[(q.id, bad), (p.id, sample(p))])));
            ops.push(f(0, get_cfg(1, &[p.id, q.id])));
            pairs.push(ops);
        }
    }
    let mut more = vec![];
    // Every subset of the mandatory parameters, with and without a bad value.
    for mask in 0..32u8 {
        for bad in 0..3 {
            let mut tl: Vec<(u8, Vec<u8>)> = vec![];
            for (i, (id, val)) in [
                (ROLE, vec![1u8]),
                (MULTI, vec![1]),
                (RR_USAGE, vec![2]),
                (DEV_MAC, A.to_vec()),
                (SCHED, vec![1]),
            ]
            .into_iter()
            .enumerate()
            {
                if mask & (1 << i) != 0 {
                    tl.push((id, val))
                }
            }
            match bad {
                1 => tl.push((DEVICE_TYPE, vec![9])),
                2 => tl.insert(0, (0x44, vec![1])),
                _ => (),
            }
            let mut ops = ready(1);
            ops.push(f(0, init(1, 0)));
            ops.push(f(0, set_cfg(1, &tl)));
            ops.push(f(0, get_state(1)));
            ops.push(f(0, get_cfg(1, &[ROLE])));
            // A second command completes the first only if that was applied.
            ops.push(f(0, full.set(1)));
            ops.push(f(0, full.set(1)));
            more.push(ops);
        }
    }
    // Lists of ids to read: unsupported, unset and repeated ones anywhere.
    for id in 0..=255u8 {
        let mut ops = ready(1);
        ops.extend(idle(0, 1, 0, &full));
        ops.push(f(0, get_cfg(1, &[id])));
        ops.push(f(0, get_cfg(1, &[id, STS])));
        ops.push(f(0, get_cfg(1, &[STS, id])));
        ops.push(f(0, get_cfg(1, &[id, id])));
        ops.push(f(0, get_cfg(2, &[id])));
        ops.push(f(0, init(2, 0)));
        ops.push(f(0, get_cfg(2, &[id])));
        more.push(ops);
    }
    // Numbers of parameters and lengths of values up to the encoding.
    for n in [0usize, 1, 2, 20, 60, 100, 127, 128, 200, 255] {
        let mut ops = ready(1);
        ops.extend(idle(0, 1, 0, &full));
        ops.push(f(0, start(1)));
        ops.push(f(0, set_cfg(1, &vec![(0x45, vec![n as u8; n.min(240)]); n.min(250)])));
        ops.push(f(0, get_cfg(1, &vec![0x45; n])));
        ops.push(f(0, set_cfg(1, &vec![(0x44, vec![1]); n])));
        ops.push(f(0, set_cfg(1, &vec![(0x0c, vec![n as u8]); n])));
        more.push(ops);
    }
    // Address modes, number of controlees and address lists in every order.
    let pieces: Vec<(u8, Vec<u8>)> = vec![
        (MAC_MODE, vec![2]),
        (NCTRL, vec![2]),
        (DEV_MAC, EA.to_vec()),
        (DST_MAC, [EB, EC].concat()),
        (DST_MAC, [A, B].concat()),
        (MAC_MODE, vec![1]),
        (DEV_MAC, A.to_vec()),
    ];
    let n = pieces.len();
    for i in 0..n {
        for j in 0..n {
            for k in 0..n {
                let mut ops = ready(1);
                ops.push(f(0, init(1, 0)));
                let mut tl = vec![(ROLE, vec![1]), (MULTI, vec![1]), (RR_USAGE, vec![2]), (SCHED, vec![1])];
                tl.push((DEV_MAC, B.to_vec()));
                tl.extend([pieces[i].clone(), pieces[j].clone(), pieces[k].clone()]);
                ops.push(f(0, set_cfg(1, &tl)));
                ops.push(f(0, get_cfg(1, &[MAC_MODE, NCTRL, DEV_MAC, DST_MAC])));
                more.push(ops);
            }
        }
    }
    vec![
        cases("parameter values", "256 ids x 330 values (all single bytes, lengths 0..20,31..33,64,127,128,240) in INIT and ACTIVE", v, Probe::Full),
        cases("parameter pairs", "pairs of parameters, valid and invalid, both orders, on an active session", pairs, Probe::Full),
        cases("parameter lists", "subsets of the mandatory parameters, lists of ids, list lengths, orders of the address parameters", more, Probe::Full),
    ]
}

/// Set commands in every state.
pub fn configuration_graph(t: Tier) -> Vec<Family> {
    let full = C::controller(&[&X]);
    let a = vec![
        f(0, init(1, 0)),
        f(0, deinit(1)),
        f(0, full.set(1)),
        f(0, set_cfg(1, &[(0x0c, vec![9])])),
        f(0, set_cfg(1, &[(0x0c, vec![8]), (0x0b, vec![9])])),
        f(0, set_cfg(1, &[(AOA, vec![2])])),
        f(0, set_cfg(1, &[(0x14, vec![3]), (AOA, vec![0])])),
        f(0, set_cfg(1, &[(ROLE, vec![0])])),
        f(0, set_cfg(1, &[])),
        f(0, set_cfg(2, &[(0x0c, vec![7])])),
        f(0, init(2, 1)),
        f(0, start(1)),
        f(0, stop(1)),
    ];
    vec![graph(
        "configuration graph",
        "1 host, 2 sessions, 13 operations with valid, invalid, partial and protected parameters",
        ready(1),
        a,
        1,
        t.pick(6, 14),
        Probe::Full,
    )]
}

// ------------------------------------------------------------ multicast ----

fn pool(n: usize) -> Vec<[u8; 2]> {
    (0..n).map(|i| [0x40 + i as u8, 0x70]).collect()
}

pub fn multicast(t: Tier) -> Vec<Family> {
    let p = pool(14);
    let mut v = vec![];
    // List sizes x number of added and removed controlees.
    for size in 0..=10usize {
        for n in 0..=t.pick(9usize, 12) {
            for act in [false, true] {
                for overlap in [0usize, 1, 2] {
                    let dst: Vec<&[u8]> = p[..size].iter().map(|a| &a[..]).collect();
                    let c = C::controller(&dst);
                    let mut ops = ready(1);
                    ops.extend(idle(0, 1, 0, &c));
                    if act {
                        ops.push(f(0, start(1)))
                    }
                    let from = size.saturating_sub(overlap);
                    let list: Vec<[u8; 2]> = (0..n).map(|i| p[(from + i) % p.len()]).collect();
                    ops.push(f(0, mcast(1, 0, &list, 0)));
                    ops.push(f(0, get_cfg(1, &[NCTRL, DST_MAC])));
                    ops.push(f(0, mcast(1, 1, &list, 0)));
                    ops.push(f(0, get_cfg(1, &[NCTRL, DST_MAC])));
                    if overlap > 0 {
                        ops.push(f(0, mcast(1, 1, &p[..size.min(n)], 0)));
                        ops.push(f(0, get_cfg(1, &[NCTRL, DST_MAC])));
                    }
                    v.push(ops);
                }
            }
        }
    }
    // Repeated addresses within one command.
    for a in 0..3usize {
        for b in 0..3usize {
            for c in 0..3usize {
                for act in [0u8, 1] {
                    for start_ in [false, true] {
                        let mut ops = ready(1);
                        ops.extend(idle(0, 1, 0, &C::controller(&[&p[0], &p[3]])));
                        if start_ {
                            ops.push(f(0, start(1)))
                        }
                        ops.push(f(0, mcast(1, act, &[p[a], p[b], p[c]], 0)));
                        v.push(ops);
                    }
                }
            }
        }
    }
    // Sub-session keys, provisioned or not.
    for sts in 0..=4u8 {
        for act in 0..=4u8 {
            for key in [0usize, 16, 32] {
                for n in 0..=3usize {
                    for start_ in [false, true] {
                        let mut ops = ready(1);
                        ops.extend(idle(0, 1, 0, &C::controller(&[&p[0], &p[9]]).with(STS, &[sts])));
                        if start_ {
                            ops.push(f(0, start(1)))
                        }
                        ops.push(f(0, mcast(1, act, &p[..n], key)));
                        ops.push(f(0, get_cfg(1, &[NCTRL, DST_MAC])));
                        v.push(ops);
                    }
                }
            }
        }
    }
    // Sessions that may not be updated; truncated and extended payloads.
    for dt in [0u8, 1] {
        for multi in [0u8, 1] {
            for st in 0..4 {
                for act in [0u8, 1, 2] {
                    let c = C::new(1, dt, &A, &[&p[0], &p[1]]).multi(multi);
                    let mut ops = ready(1);
                    if st >= 1 {
                        ops.push(f(0, init(1, 0)))
                    }
                    if st >= 2 {
                        ops.push(f(0, c.set(1)))
                    }
                    if st >= 3 {
                        ops.push(f(0, start(1)))
                    }
                    ops.push(f(0, mcast(1, act, &p[1..4], if act == 2 { 16 } else { 0 })));
                    v.push(ops);
                }
            }
        }
    }
    for act in 0..=3u8 {
        let good = mcast(1, act, &p[..3], [0, 0, 16, 32][act as usize]);
        for cut in 0..=good.len() - 4 + 3 {
            let mut q = good[4..].to_vec();
            q.resize(cut, 0x33);
            for start_ in [false, true] {
                let mut ops = ready(1);
                ops.extend(idle(0, 1, 0, &C::controller(&[&p[0]]).with(STS, &[4])));
                if start_ {
                    ops.push(f(0, start(1)))
                }
                ops.push(f(0, cmd(SCFG, 7, &q)));
                v.push(ops);
            }
        }
        for count in 0..=255u8 {
            let mut q = good[4..].to_vec();
            q[5] = count;
            let mut ops = ready(1);
            ops.extend(idle(0, 1, 0, &C::controller(&[&p[0]]).with(STS, &[4])));
            ops.push(f(0, cmd(SCFG, 7, &q)));
            v.push(ops);
        }
    }
    // Sequences over a full list.
    let full: Vec<&[u8]> = p[..7].iter().map(|a| &a[..]).collect();
    let mut prefix = ready(1);
    prefix.extend(active(0, 1, 0, &C::controller(&full)));
    let mut alpha = vec![];
    for i in [0usize, 1, 7, 8] {
        alpha.push(f(0, mcast(1, 0, &[p[i]], 0)));
        alpha.push(f(0, mcast(1, 1, &[p[i]], 0)));
    }
    alpha.push(f(0, mcast(1, 0, &[p[7], p[8], p[0]], 0)));
    alpha.push(f(0, mcast(1, 1, &p[..8], 0)));
    alpha.push(f(0, stop(1)));
    alpha.push(f(0, start(1)));
    vec![
        cases(
            "controlee list updates",
            "lists of 0..10 x 0..9 controlees x overlap x idle/active; repeated; keys x provisioning; truncations; counts 0..255",
            v,
            Probe::Full,
        ),
        graph(
            "controlee list graph",
            "active session with 7 controlees, 12 operations around the limit of 8 and down to empty",
            prefix,
            alpha,
            1,
            t.pick(4, 8),
            Probe::Full,
        ),
    ]
}

/// In-band stop: who is stopped.
pub fn in_band_stop(t: Tier) -> Vec<Family> {
    let mut v = vec![];
    // Controlee sessions with every combination of id, address, state.
    for attempts in [0u8, 1, 2, 255] {
        for s1 in [1u32, 2] {
            for m1 in [B, X] {
                for st in 0..4 {
                    for other in 0..t.pick(4, 6) {
                        let ctl = C::controller(&[&B, &X, &Y]).with(ATTEMPTS, &[attempts]);
                        let mut ops = ready(3);
                        ops.extend(active(0, 1, 0, &ctl));
                        let c = C::new(0, 0, &m1, &[&A]);
                        if st >= 1 {
                            ops.push(f(1, init(s1, 0)))
                        }
                        if st >= 2 {
                            ops.push(f(1, c.set(s1)))
                        }
                        if st >= 3 {
                            ops.push(f(1, start(s1)))
                        }
                        // Another session of the same or another device.
                        match other {
                            0 => ops.extend(active(2, 1, 0, &C::new(0, 0, &B, &[&A]))),
                            1 => ops.extend(active(2, 2, 0, &C::new(0, 0, &B, &[&A]))),
                            2 => ops.extend(active(1, 3, 0, &C::new(0, 0, &B, &[&A]))),
                            3 => ops.extend(active(2, 1, 0, &C::new(0, 0, &Y, &[&A]))),
                            4 => ops.extend(idle(2, 1, 0, &C::new(0, 0, &B, &[&A]))),
                            _ => (),
                        }
                        ops.push(Advance(50));
                        ops.push(f(0, mcast(1, 1, &[B], 0)));
                        ops.push(Advance(100));
                        ops.push(f(0, mcast(1, 1, &[X, Z], 0)));
                        ops.push(Advance(100));
                        ops.push(f(1, start(s1)));
                        ops.push(Advance(100));
                        ops.push(f(0, mcast(1, 1, &[Y], 0)));
                        ops.push(Advance(100));
                        ops.push(f(0, mcast(1, 0, &[B], 0)));
                        ops.push(f(0, start(1)));
                        ops.push(Advance(150));
                        v.push(ops);
                    }
                }
            }
        }
    }
    // Idle controller: controlees are stopped all the same.
    for act in [false, true] {
        for n in 1..=3usize {
            let ctl = C::controller(&[&B, &X, &Y]);
            let mut ops = ready(4);
            ops.extend(idle(0, 1, 0, &ctl));
            if act {
                ops.push(f(0, start(1)))
            }
            for (i, m) in [B, X, Y].iter().enumerate() {
                ops.extend(active(i + 1, 1, 0, &C::new(0, 0, m, &[&A])))
            }
            ops.push(Advance(150));
            ops.push(f(0, mcast(1, 1, &[B, X, Y][..n], 0)));
            ops.push(Advance(150));
            ops.push(f(1, start(1)));
            ops.push(Advance(150));
            v.push(ops);
        }
    }
    vec![cases(
        "in-band stop",
        "attempts 0/1/2/255 x session id x address x 4 states of the controlee x other sessions; list emptied and restarted",
        v,
        Probe::Full,
    )]
}

// ----------------------------------------------------------------- data ----

fn payload(n: usize, seed: u8) -> Vec<u8> {
    (0..n).map(|i| (i as u8).wrapping_mul(31).wrapping_add(seed).wrapping_add((i >> 8) as u8)).collect()
}

pub fn data(t: Tier) -> Vec<Family> {
    let mut v = vec![];
    let ctl = C::controller(&[&B, &X]);
    let cee = C::controlee(&[&A]);
    // Sizes of one message, and of several.
    let mut sizes: Vec<usize> = (0..=20).collect();
    for c in [255usize, 256, 1007, 1008, 1011, 1020, 1023, 1024, 1025, 2014, 2031, 2048, 4096] {
        sizes.extend([c - 1, c, c + 1]);
    }
    // What a message can carry in one segment of 1024 bytes, and more.
    let max = 65535 - 16;
    sizes.extend([10_000, 32_767, 32_768, max - 1, max]);
    for n in sizes {
        let mut ops = ready(2);
        ops.extend(active(0, 1, 1, &ctl));
        ops.extend(active(1, 1, 1, &cee));
        ops.push(f(0, data_snd(1, 3, &payload(n, 1))));
        ops.push(Advance(100));
        ops.push(Advance(200));
        v.push(ops);
    }
    for k in [2usize, 3, 5, 8] {
        for n in [1usize, 100, 1007, 1008, 1024, 20_000, 40_000, max] {
            let mut ops = ready(2);
            ops.extend(active(0, 1, 1, &ctl));
            ops.extend(active(1, 1, 1, &cee));
            for i in 0..k {
                ops.push(f(0, data_snd(1, i as u16, &payload(n, i as u8))));
            }
            ops.push(Advance(100));
            ops.push(f(0, data_snd(1, 9, b"tail")));
            ops.push(Advance(200));
            v.push(ops);
        }
    }
    // Who receives: types, states, roles of two peers, and of the sender.
    for ty0 in [0u8, 1, 2] {
        for role0 in [0u8, 1, 5] {
            for ty1 in [0u8, 1, 2] {
                for role1 in [0u8, 1, 5] {
                    for st1 in [2, 3] {
                        for id1 in [1u32, 2] {
                            let mut ops = ready(3);
                            let c0 = C::new(role0, 1, &A, &[&B]);
                            ops.extend(active(0, 1, ty0, &c0));
                            let c1 = C::new(role1, 0, &B, &[&A]);
                            ops.extend(idle(1, id1, ty1, &c1));
                            if st1 == 3 {
                                ops.push(f(1, start(id1)))
                            }
                            ops.extend(active(2, 1, 1, &C::new(0, 0, &X, &[&Y])));
                            ops.push(Advance(50));
                            // Only an initiator's queue is ever read.
                            if role0 == 1 {
                                ops.push(f(0, data_snd(1, 1, b"payload")));
                            } else if ty0 != 1 {
                                ops.push(f(0, data_snd(1, 1, b"refused")));
                            }
                            ops.push(Advance(50));
                            ops.push(f(1, start(id1)));
                            ops.push(Advance(200));
                            v.push(ops);
                        }
                    }
                }
            }
        }
    }
    // States of the sender, data before start, across stop, deinit, reset.
    for (i, mid) in [
        vec![],
        vec![f(0, stop(1)), f(0, start(1))],
        vec![f(0, stop(1)), Advance(200), f(0, data_snd(1, 2, b"second")), f(0, start(1))],
        vec![f(0, deinit(1)), f(0, init(1, 1)), f(0, ctl.set(1)), f(0, start(1))],
        vec![f(0, reset()), f(0, init(1, 1)), f(0, ctl.set(1)), f(0, start(1))],
        vec![f(0, set_cfg(1, &[(INFO_NTF, vec![0])]))],
        vec![f(1, stop(1)), Advance(100), f(1, start(1))],
        vec![Close(1)],
        vec![f(1, reset())],
        vec![f(0, mcast(1, 1, &[X], 0))],
        vec![Connect, f(3, reset()), f(3, init(1, 1)), f(3, C::new(0, 0, &Z, &[]).set(1)), f(3, start(1))],
    ]
    .into_iter()
    .enumerate()
    {
        for early in [false, true] {
            let mut ops = ready(3);
            ops.push(f(0, init(1, 1)));
            if early {
                ops.push(f(0, data_snd(1, 1, b"early")));
            }
            ops.push(f(0, ctl.set(1)));
            if early {
                ops.push(f(0, data_snd(1, 1, b"idle")));
            }
            ops.push(f(0, start(1)));
            ops.extend(active(1, 1, 1, &cee));
            ops.extend(active(2, 1, 1, &C::new(0, 0, &X, &[&A])));
            ops.push(f(0, data_snd(1, 1, b"first")));
            let _ = i;
            ops.extend(mid.clone());
            ops.push(Advance(100));
            ops.push(Advance(100));
            ops.push(f(0, data_snd(1, 1, b"last")));
            ops.push(Advance(200));
            v.push(ops);
        }
    }
    // Refused and malformed data messages.
    for s in [0u32, 1, 2, 3, 0xffffffff] {
        for dpf in 0..16u8 {
            for (n, declared) in [(0usize, 0u16), (3, 3), (3, 2), (3, 4), (0, 1), (3, 0xffff)] {
                let mut ops = ready(2);
                ops.extend(active(0, 1, 1, &ctl));
                ops.extend(idle(0, 2, 0, &ctl));
                ops.extend(active(1, 1, 1, &cee));
                let mut p = s.to_le_bytes().to_vec();
                p.extend([0; 8]);
                p.extend([7, 0]);
                p.extend(declared.to_le_bytes());
                p.extend(payload(n, 3));
                ops.push(f(0, data_pkt(dpf, &p)));
                p.insert(4, 0);
                ops.push(f(0, data_pkt(dpf, &p)));
                for k in 0..p.len() {
                    ops.push(f(0, data_pkt(dpf, &p[..k])));
                }
                ops.push(f(0, data_snd(1, 1, b"good")));
                ops.push(Advance(200));
                v.push(ops);
            }
        }
    }
    // Formats of the sender's address.
    for (la, ra) in [(EA.to_vec(), EB.to_vec()), (vec![0x00, 0x01], vec![0xff, 0xff]), (vec![0xff, 0xfe], vec![0, 0])] {
        let mut ops = ready(2);
        ops.extend(active(0, 0x01020304, 1, &C::new(1, 1, &la, &[&ra])));
        ops.extend(active(1, 0x01020304, 1, &C::new(0, 0, &ra, &[&la])));
        ops.push(f(0, data_snd(0x01020304, 1, b"addr")));
        ops.push(Advance(200));
        v.push(ops);
    }
    let mut prefix = ready(2);
    prefix.extend(idle(0, 1, 1, &ctl));
    prefix.extend(active(1, 1, 1, &cee));
    let alpha = vec![
        f(0, start(1)),
        f(0, stop(1)),
        f(0, data_snd(1, 1, b"one")),
        f(0, data_snd(1, 2, b"two2")),
        f(0, data_snd(2, 2, b"none")),
        f(1, stop(1)),
        f(1, start(1)),
        Advance(100),
        f(0, deinit(1)),
        f(0, init(1, 1)),
        f(0, ctl.set(1)),
    ];
    vec![
        cases("data transfer", "sizes 0..20 and around 255..4096, 65535; 2-8 messages; sender and receiver types x roles x states; 16 formats x truncations", v, Probe::Full),
        tree("data sequences", "2 hosts, every sequence of 11 operations up to the depth", prefix, alpha, 2, t.pick(4, 5), Probe::Light),
    ]
}

// ------------------------------------------------- connections, anchors ----

pub fn connections(t: Tier) -> Vec<Family> {
    // Addresses that new devices would get, and others.
    let addrs: Vec<Vec<u8>> = vec![vec![0, 0], vec![0, 1], vec![0, 2], X.to_vec(), EA.to_vec()];
    let mut alpha = vec![Connect];
    for h in 0..3 {
        alpha.push(Close(h));
    }
    for a in &addrs {
        alpha.push(CreateAnchor(a.clone()));
        alpha.push(DestroyAnchor(a.clone()));
    }
    // A session that lists anchor addresses shows the registry in ranging.
    let watcher = |h: usize| -> Vec<Op> {
        let mut v = vec![f(h, reset())];
        let c = C::new(1, 1, &A, &[&[0, 0], &[0, 1], &[0, 2], &X]);
        v.extend(active(h, 1, 0, &c));
        v
    };
    let mut prefix = vec![Connect];
    prefix.extend(watcher(0));
    let mut alpha2 = vec![Connect, Close(1), Advance(100)];
    for a in &addrs[1..4] {
        alpha2.push(CreateAnchor(a.clone()));
        alpha2.push(DestroyAnchor(a.clone()));
    }
    let mut v = vec![];
    // Anchors measured until destroyed; every order of two anchors' lives.
    for a in &addrs {
        for b in &addrs {
            for order in 0..4 {
                let mut ops = vec![Connect, Connect];
                ops.push(f(1, reset()));
                let ext = a.len() == 8;
                let mac: Vec<u8> = if ext { EB.to_vec() } else { A.to_vec() };
                let dst: Vec<&[u8]> =
                    [a, b].into_iter().filter(|x| x.len() == mac.len()).map(|x| &x[..]).collect();
                let dst = if dst.len() == 2 && dst[0] == dst[1] { vec![dst[0]] } else { dst };
                ops.extend(active(1, 1, 0, &C::new(1, 1, &mac, &dst)));
                ops.push(CreateAnchor(a.clone()));
                ops.push(Advance(100));
                ops.push(CreateAnchor(b.clone()));
                ops.push(Advance(100));
                if order & 1 == 0 {
                    ops.push(DestroyAnchor(a.clone()));
                }
                ops.push(Advance(100));
                if order & 2 == 0 {
                    ops.push(DestroyAnchor(b.clone()));
                }
                ops.push(CreateAnchor(a.clone()));
                ops.push(Advance(100));
                ops.push(Close(0));
                ops.push(CreateAnchor(vec![0, 0]));
                ops.push(Connect);
                ops.push(Advance(100));
                v.push(ops);
            }
        }
    }
    // Addresses with the same value in another form, at any end.
    let twins: Vec<Vec<u8>> = vec![
        X.to_vec(),
        [&X[..], &[0; 6]].concat(),
        [&[0; 6], &X[..]].concat(),
        vec![X[1], X[0]],
        [&[0; 6], &X[1..], &X[..1]].concat(),
        vec![0, 0],
        vec![0; 8],
    ];
    let mut lost = vec![];
    for a in &twins {
        for b in &twins {
            for k in 0..16 {
                let make = |lose: bool, m: &Vec<u8>| if lose { LostCreate(m.clone()) } else { CreateAnchor(m.clone()) };
                let end = |lose: bool, m: &Vec<u8>| if lose { LostDestroy(m.clone()) } else { DestroyAnchor(m.clone()) };
                lost.push(vec![
                    make(k & 1 != 0, a),
                    make(k & 2 != 0, b),
                    Connect,
                    make(k & 2 != 0, a),
                    end(k & 4 != 0, b),
                    end(k & 8 != 0, b),
                    make(k & 4 != 0, b),
                    end(k & 8 != 0, a),
                    end(k & 1 != 0, a),
                    CreateAnchor(a.clone()),
                    CreateAnchor(b.clone()),
                    DestroyAnchor(a.clone()),
                    DestroyAnchor(b.clone()),
                ]);
            }
        }
    }
    // Many anchors, all of them measured as far as a session can list them.
    let mut many = vec![];
    for n in t.pick(vec![17usize, 70, 130, 300], vec![17, 70, 130, 300, 1100]) {
        let m = |i: usize| vec![0x10 + (i >> 8) as u8, i as u8];
        let listed: Vec<Vec<u8>> = (n - n.min(100)..n).map(m).collect();
        let mut ops = vec![Connect];
        ops.push(f(0, reset()));
        ops.extend(active(0, 1, 0, &C::new(1, 1, &A, &listed.iter().map(|d| &d[..]).collect::<Vec<_>>())));
        ops.extend((0..n).map(|i| CreateAnchor(m(i))));
        ops.push(Advance(100));
        ops.extend([CreateAnchor(m(0)), CreateAnchor(m(n - 1)), Connect]);
        ops.extend((0..n).step_by(2).map(|i| DestroyAnchor(m(i))));
        ops.push(Advance(100));
        ops.extend((0..n).map(|i| DestroyAnchor(m(i))));
        ops.push(Advance(100));
        ops.push(CreateAnchor(m(1)));
        many.push(ops);
    }
    vec![
        cases("many anchors", "17 to 300 (thorough: 1100) anchors created, measured in a session that lists 100, every other one destroyed, then all", many, Probe::None),
        cases("anchor twins", "pairs of 7 addresses of equal values in two forms; every request also by a requester that does not wait", lost, Probe::Light),
        graph("registry graph", "up to 4 hosts and 5 anchor addresses, connect/close/create/destroy", vec![], alpha, 4, t.pick(5, 7), Probe::Light),
        graph("measured registry graph", "a ranging session listing 4 addresses, connect/close/create/destroy/advance", prefix, alpha2, 3, t.pick(5, 8), Probe::Light),
        cases("anchor lives", "pairs of 5 addresses x 4 orders of creation and destruction", v, Probe::Full),
    ]
}

/// Connections that end in every state, with a ranging partner.
pub fn disconnects(t: Tier) -> Vec<Family> {
    let _ = t;
    let ctl = C::controller(&[&B, &X]);
    let cee = C::controlee(&[&A]);
    let mut v = vec![];
    for h in 0..2usize {
        for st in 0..6 {
            for after in 0..3 {
                let mut ops = vec![Connect];
                if st >= 1 {
                    ops.push(f(0, reset()))
                }
                ops.push(Connect);
                ops.push(f(1, reset()));
                ops.push(Connect);
                if st >= 2 {
                    ops.push(f(0, init(1, 1)))
                }
                if st >= 3 {
                    ops.push(f(0, ctl.set(1)))
                }
                if st >= 4 {
                    ops.push(f(0, start(1)))
                }
                ops.extend(active(1, 1, 1, &cee));
                if st >= 5 {
                    ops.push(f(0, data_snd(1, 1, b"undelivered")));
                }
                ops.push(Advance(70));
                if st >= 2 && after == 1 {
                    ops.push(f(0, mcast(1, 1, &[X], 0)));
                }
                ops.push(Close(h));
                ops.push(Advance(100));
                if after == 2 {
                    // A new device takes the place.
                    ops.push(Connect);
                    ops.push(f(3, reset()));
                    ops.extend(active(3, 1, 1, if h == 0 { &ctl } else { &cee }));
                }
                ops.push(Advance(200));
                ops.push(f(2, reset()));
                v.push(ops);
            }
        }
    }
    vec![cases("disconnects", "either of two partners in 6 states, with and without a successor", v, Probe::Full)]
}

// ------------------------------------------------------------ malformed ----

fn state_prefix(st: usize) -> Vec<Op> {
    let c = C::controller(&[&X, &Y]);
    let mut v = vec![Connect];
    if st >= 1 {
        v.push(f(0, reset()))
    }
    if st >= 2 {
        v.push(f(0, init(1, 1)))
    }
    if st >= 3 {
        v.push(f(0, c.set(1)))
    }
    if st >= 4 {
        v.push(f(0, start(1)))
    }
    v
}

pub fn templates() -> Vec<Vec<u8>> {
    let c = C::controller(&[&X, &Y]);
    vec![
        reset(),
        cmd(CORE, 2, &[]),
        cmd(CORE, 3, &[]),
        set_dev_cfg(&[(1, vec![0]), (0, vec![1])]),
        get_dev_cfg(&[0, 1, 2]),
        init(1, 0),
        init(2, 1),
        deinit(1),
        c.set(1),
        set_cfg(1, &[(0x0c, vec![1]), (0x2b, vec![1, 2, 3, 4, 5, 6, 7, 8])]),
        get_cfg(1, &[0, 3, 7]),
        get_count(),
        get_state(1),
        mcast(1, 0, &[B, Z], 0),
        mcast(1, 1, &[X, Y], 0),
        mcast(1, 2, &[B], 16),
        mcast(1, 3, &[B], 32),
        start(1),
        stop(1),
        ranging_count(1),
        cmd(ANDROID, 0, &[]),
        cmd(ANDROID, 1, &[0x31, 0x32]),
        data_snd(1, 1, b"abcdef"),
    ]
}

pub fn malformed(t: Tier) -> Vec<Family> {
    let mut v = vec![];
    // Every message type, group and opcode, with payloads of short lengths.
    for st in 0..5usize {
        for gid in 0..16u8 {
            for oid in 0..64u8 {
                let mut ops = state_prefix(st);
                let known = oid < 0x10;
                for mt in if known { vec![CMD, RSP, NTF] } else { vec![CMD] } {
                    let lens = if known { 0..t.pick(10, 24) } else { 0..3 };
                    for n in lens {
                        for pat in 0..3u8 {
                            let p: Vec<u8> = match pat {
                                0 => vec![0; n],
                                1 => (0..n).map(|i| if i == 0 { 1 } else { 0 }).collect(),
                                _ => vec![0xff; n],
                            };
                            if n == 0 && pat > 0 {
                                continue;
                            }
                            ops.push(f(0, ctrl(mt, gid, oid, &p)));
                        }
                    }
                    ops.push(f(0, get_count()));
                }
                v.push(ops);
            }
        }
    }
    // Reserved message types end the connection, nothing else.
    for st in 0..5usize {
        for b in 0..=255u8 {
            if b >> 5 < 4 {
                continue;
            }
            let mut ops = state_prefix(st);
            ops.push(Connect);
            ops.push(f(1, reset()));
            ops.push(f(0, vec![b, 0, 0, 0]));
            v.push(ops);
        }
    }
    let mut m = vec![];
    // Truncations, extensions and replaced bytes of every template.
    for st in 0..5usize {
        for tpl in templates() {
            for cut in 0..tpl.len() - 4 {
                let mut ops = state_prefix(st);
                let mut q = tpl.clone();
                q.truncate(4 + cut);
                if tpl[0] >> 5 == DATA {
                    q[2] = cut as u8;
                } else {
                    q[3] = cut as u8;
                }
                ops.push(f(0, q));
                m.push(ops);
            }
            for ext in 1..=3usize {
                let mut ops = state_prefix(st);
                let mut q = tpl.clone();
                q.extend(vec![0; ext]);
                let n = q.len() - 4;
                if tpl[0] >> 5 == DATA {
                    q[2] = n as u8;
                } else {
                    q[3] = n as u8;
                }
                ops.push(f(0, q));
                m.push(ops);
            }
            for i in 4..tpl.len() {
                let mut vals = vec![0u8, 1, 2, 3, 4, 8, 0x7f, 0x80, 0xff];
                if t == Tier::Thorough {
                    vals = (0..=255).collect();
                }
                for x in vals {
                    // An interval of 0 is outside the property.
                    if x == tpl[i] {
                        continue;
                    }
                    let mut ops = state_prefix(st);
                    let mut q = tpl.clone();
                    q[i] = x;
                    ops.push(f(0, q));
                    m.push(ops);
                }
            }
        }
    }
    vec![
        cases("all opcodes", "4 message types x 16 groups x 64 opcodes x payload lengths 0..9 x 3 patterns x 5 states", v, Probe::Full),
        cases("mutated commands", "23 commands x 5 states: every truncation, 3 extensions, every byte replaced by boundary values", m, Probe::Full),
    ]
}

/// Pairs of commands: a malformed or odd one, then every template.
pub fn command_pairs(t: Tier) -> Vec<Family> {
    let mut v = vec![];
    let tp = templates();
    for st in 0..5usize {
        for a in &tp {
            for b in &tp {
                let mut ops = state_prefix(st);
                ops.push(f(0, a.clone()));
                ops.push(f(0, b.clone()));
                if t == Tier::Quick {
                    v.push(ops);
                    continue;
                }
                for c in &tp {
                    let mut o = ops.clone();
                    o.push(f(0, c.clone()));
                    v.push(o);
                }
            }
        }
    }
    vec![cases("command sequences", "5 states x every pair (thorough: triple) of 23 commands", v, Probe::Full)]
}

// --------------------------------------------------------- segmentation ----

/// All ways to cut `n` bytes into non-empty pieces.
fn compositions(n: usize) -> Vec<Vec<usize>> {
    let mut out = vec![];
    for mask in 0..1usize << (n - 1) {
        let mut v = vec![];
        let mut run = 1;
        for i in 0..n - 1 {
            if mask & (1 << i) != 0 {
                v.push(run);
                run = 1;
            } else {
                run += 1;
            }
        }
        v.push(run);
        out.push(v);
    }
    out
}

pub fn segmentation(t: Tier) -> Vec<Family> {
    let mut v = vec![];
    let c = C::controller(&[&X, &Y]);
    // Every division of short commands.
    for st in [1usize, 4] {
        for tpl in templates() {
            if tpl[0] >> 5 == DATA {
                continue;
            }
            let n = tpl.len() - 4;
            if n == 0 || n > t.pick(9, 14) {
                continue;
            }
            for parts in compositions(n) {
                let mut ops = state_prefix(st);
                ops.push(Segs(0, segment(&tpl, &parts[..parts.len() - 1])));
                ops.push(f(0, get_count()));
                v.push(ops);
            }
            // Empty segments in front, between and at the end.
            for parts in [vec![0], vec![0, 0], vec![1, 0, 1], vec![n, 0], vec![n]] {
                let mut ops = state_prefix(st);
                let mut sizes = parts.clone();
                if sizes.last() == Some(&n) || sizes.iter().sum::<usize>() >= n {
                    sizes.push(0);
                }
                ops.push(Segs(0, segment(&tpl, &sizes)));
                ops.push(f(0, get_count()));
                v.push(ops);
            }
        }
    }
    // Two cuts anywhere in a long command.
    for len in [20usize, 255, 256, 300, 510, 511, 765, 1000] {
        let mut tl = c.tlvs();
        let base = c.set(1).len() - 4;
        let mut rest = len.saturating_sub(base);
        let mut k = 0u8;
        while rest >= 2 {
            let n = (rest - 2).min(240);
            tl.push((0x45, vec![k; n]));
            rest -= n + 2;
            k += 1;
        }
        let pkt = set_cfg(1, &tl);
        let n = pkt.len() - 4;
        let step = t.pick((n / 12).max(1), (n / 60).max(1));
        let mut cuts: Vec<usize> = (1..n).step_by(step).collect();
        cuts.extend([1, 2, 3, n - 1, 254, 255, 256].iter().filter(|x| **x < n));
        cuts.sort();
        cuts.dedup();
        for i in 0..cuts.len() {
            for j in i..cuts.len() {
                let mut sizes = vec![cuts[i]];
                if j > i {
                    sizes.push(cuts[j] - cuts[i]);
                }
                if sizes.iter().any(|s| *s > 255) {
                    continue;
                }
                let mut ops = ready(1);
                ops.push(f(0, init(1, 0)));
                ops.push(Segs(0, segment(&pkt, &sizes)));
                ops.push(f(0, get_cfg(1, &[0x45, DST_MAC])));
                v.push(ops);
            }
        }
        // As many segments as bytes.
        let mut ops = ready(1);
        ops.push(f(0, init(1, 0)));
        ops.push(Segs(0, segment(&pkt, &vec![1; n - 1])));
        v.push(ops);
    }
    // Data between the segments, segments of two hosts interleaved.
    for k in 1..=3usize {
        let mut ops = ready(2);
        ops.extend(active(0, 1, 1, &c));
        let mut s = segment(&set_cfg(1, &[(0x0c, vec![9]), (0x45, vec![1, 2, 3, 4, 5])]), &[3, 5, 4]);
        for i in 0..k {
            s.insert(1 + 2 * i.min(1), data_snd(1, i as u16, b"mid"));
        }
        ops.push(Segs(0, s));
        ops.push(f(0, get_cfg(1, &[0x0c, 0x45])));
        v.push(ops);
        let mut ops = ready(2);
        let a = segment(&init(1, 0), &[2, k - 1]);
        let b = segment(&init(2, 1), &[k, 1]);
        for i in 0..3 {
            ops.push(Segs(0, vec![a[i].clone()]));
            ops.push(Segs(1, vec![b[i].clone()]));
        }
        ops.push(f(0, get_state(1)));
        ops.push(f(1, get_state(2)));
        v.push(ops);
    }
    // Responses of every size around the segment limit.
    let mut sizes: Vec<usize> = vec![];
    for k in 1..=t.pick(4usize, 20) {
        sizes.extend(255 * k - 4..=255 * k + 4);
    }
    sizes.extend(3..40);
    for total in sizes {
        // status, count, then id, length, value per parameter
        let body = total - 2;
        let n = body.div_ceil(200).max(1);
        if body < 2 * n || body / n - 2 > 240 {
            continue;
        }
        let mut ops = ready(1);
        ops.extend(idle(0, 1, 0, &c));
        ops.push(f(0, start(1)));
        // n - 1 copies of the same value and one other parameter fill up.
        let each = body / n - 2;
        let fill = body - n * (each + 2);
        ops.push(f(0, set_cfg(1, &[(0x45, vec![0xc3; each])])));
        ops.push(f(0, get_cfg(1, &vec![0x45; n])));
        if fill > 0 {
            // one-byte parameters: three bytes each
            let mut ids = vec![0x45; n];
            ids.extend(vec![0x0c; fill]);
            ops.push(f(0, get_cfg(1, &ids)));
        }
        v.push(ops);
    }
    // Notifications with many measurements.
    for n in [0usize, 1, 6, 7, 8, 9, 15, 16, 17, 24, 25, 40] {
        for ext in [false, true] {
            let addrs: Vec<Vec<u8>> = (0..n)
                .map(|i| {
                    let mut a = vec![0x80 + i as u8, 0x60];
                    if ext {
                        a.extend([9; 6])
                    }
                    a
                })
                .collect();
            let d: Vec<&[u8]> = addrs.iter().map(|a| &a[..]).collect();
            let mut ops = ready(1);
            for a in &addrs {
                ops.push(CreateAnchor(a.clone()))
            }
            ops.extend(active(0, 1, 0, &C::new(1, 1, if ext { &EA } else { &A }, &d)));
            ops.push(Advance(200));
            v.push(ops);
        }
    }
    // Data messages around the segment limit (17 bytes of header).
    let mut sizes: Vec<usize> = vec![1, 2];
    for k in 1..=3usize {
        sizes.extend(1024 * k - 20..=1024 * k + 3);
    }
    for n in sizes {
        let mut ops = ready(2);
        ops.extend(active(0, 1, 1, &C::controller(&[&B])));
        ops.extend(active(1, 1, 1, &C::controlee(&[&A])));
        ops.push(f(0, data_snd(1, 1, &payload(n, 7))));
        ops.push(Advance(100));
        v.push(ops);
    }
    vec![cases(
        "segmentation",
        "every division of commands up to 9 bytes, two cuts of commands of 20..1000 bytes, responses of 3..1024 bytes, notifications with 0..40 measurements, data around 1..3 segments",
        v,
        Probe::Light,
    )]
}

// -------------------------------------------------------- device config ----

pub fn device_config(t: Tier) -> Vec<Family> {
    let mut v = vec![];
    let c = C::controller(&[&X]);
    for id in 0..=255u8 {
        let mut ops = ready(1);
        for n in [0usize, 1, 2, 5] {
            for x in [0u8, 1, 2, 0xff] {
                ops.push(f(0, set_dev_cfg(&[(id, vec![x; n])])));
                ops.push(f(0, get_dev_cfg(&[0, 1])));
            }
        }
        ops.push(f(0, get_dev_cfg(&[id])));
        ops.push(f(0, get_dev_cfg(&[0, id])));
        ops.push(f(0, get_dev_cfg(&[id, 1])));
        ops.push(f(0, get_dev_cfg(&[id, id])));
        ops.push(f(0, set_dev_cfg(&[(1, vec![0]), (id, vec![1])])));
        ops.push(f(0, get_dev_cfg(&[0, 1])));
        ops.push(f(0, set_dev_cfg(&[(id, vec![1]), (1, vec![0])])));
        ops.push(f(0, get_dev_cfg(&[0, 1])));
        ops.push(f(0, reset()));
        ops.push(f(0, get_dev_cfg(&[0, 1])));
        v.push(ops);
    }
    for n in [0usize, 1, 2, 50, 126, 127, 128, 254, 255] {
        let mut ops = ready(1);
        ops.push(f(0, get_dev_cfg(&vec![1; n])));
        ops.push(f(0, get_dev_cfg(&vec![9; n])));
        ops.push(f(0, set_dev_cfg(&vec![(1, vec![0]); n])));
        ops.push(f(0, set_dev_cfg(&vec![(9, vec![0]); n])));
        ops.push(f(0, set_dev_cfg(&vec![(0, vec![]); n])));
        v.push(ops);
    }
    let alpha = vec![
        f(0, reset()),
        f(0, set_dev_cfg(&[(1, vec![0])])),
        f(0, set_dev_cfg(&[(1, vec![1])])),
        f(0, set_dev_cfg(&[(1, vec![0]), (0, vec![1]), (7, vec![])])),
        f(0, set_dev_cfg(&[])),
        f(0, get_dev_cfg(&[1, 9, 0])),
        f(0, cmd(CORE, 2, &[])),
        f(0, cmd(CORE, 3, &[])),
        f(0, cmd(ANDROID, 0, &[])),
        f(0, cmd(ANDROID, 1, &[0x55, 0x53])),
        f(0, init(1, 0)),
        f(0, c.set(1)),
        f(0, start(1)),
        f(0, stop(1)),
        f(1, set_dev_cfg(&[(1, vec![0])])),
        Advance(100),
    ];
    let mut prefix = vec![Connect, Connect, f(1, reset())];
    prefix.push(f(0, cmd(CORE, 2, &[])));
    vec![
        cases("device configuration", "256 ids x lengths x values, lists of 0..255 entries", v, Probe::Full),
        graph("device commands graph", "2 hosts, device commands in every session and device state", prefix, alpha, 2, t.pick(6, 12), Probe::Full),
    ]
}

// --------------------------------------------------------------- stalls ----

/// A host that does not read: nothing is lost, others are served.
pub fn stalls(t: Tier) -> Vec<Family> {
    let _ = t;
    let ctl = C::controller(&[&B]);
    let cee = C::controlee(&[&A]);
    let mut v = vec![];
    for n in [1usize, 5, 40] {
        for h in 0..2usize {
            let mut ops = ready(2);
            ops.extend(active(0, 1, 1, &ctl));
            ops.extend(active(1, 1, 1, &cee));
            ops.push(Stall(h, true));
            for i in 0..n {
                ops.push(f(h, get_count()));
                ops.push(f(1 - h, get_count()));
                ops.push(f(0, data_snd(1, i as u16, &payload(700, i as u8))));
                ops.push(Advance(100));
            }
            ops.push(f(1 - h, stop(1)));
            ops.push(Stall(h, false));
            ops.push(f(h, get_state(1)));
            v.push(ops);
        }
    }
    vec![cases("slow hosts", "one of two ranging hosts does not read for 1..40 rounds", v, Probe::Full)]
}

/// Many hosts in a session, at one address and at many.
pub fn crowds(t: Tier) -> Vec<Family> {
    let mut v = vec![];
    for n in t.pick(vec![1usize, 8, 9, 64, 127, 255, 256, 300], (1..130).chain([200, 254, 255, 256, 257, 300, 511, 512, 600]).collect()) {
        for one in [true, false] {
            // More than a configuration can list.
            if !one && n > 127 {
                continue;
            }
            let dst: Vec<Vec<u8>> = if one { vec![B.to_vec()] } else { (0..n).map(|i| vec![0x40 + (i >> 8) as u8, i as u8]).collect() };
            let ctl = C::new(1, 1, &A, &dst.iter().map(|d| &d[..]).collect::<Vec<_>>());
            let mut ops = ready(1);
            ops.extend(active(0, 1, 0, &ctl));
            for i in 0..n {
                ops.extend([Connect, f(i + 1, reset())]);
                let c = C::new(0, 0, if one { &B } else { &dst[i] }, &[&A]);
                ops.extend(active(i + 1, 1, 0, &c));
            }
            ops.push(Advance(100));
            ops.push(f(1, stop(1)));
            ops.push(Advance(100));
            ops.push(f(0, stop(1)));
            v.push(ops);
        }
    }
    vec![cases("crowds", "1 to 300 hosts at one address, up to 127 at their own, measured in a round", v, Probe::None)]
}

pub fn wrap(t: Tier) -> Vec<Family> {
    // The default address is derived from the handle: 65536 connections wrap.
    let mut v = vec![];
    let n = t.pick(65_600usize, 140_000);
    let mut ops = vec![Connect, Connect, f(1, reset()), CreateAnchor(vec![0, 5])];
    for i in 0..n {
        ops.push(Connect);
        ops.push(Close(i + 2));
    }
    ops.push(Connect);
    v.push(ops);
    // Many at once.
    let mut ops = vec![];
    for _ in 0..t.pick(300, 2000) {
        ops.push(Connect);
    }
    v.push(ops);
    vec![cases("many connections", "65600 consecutive connections beside live ones; 300 simultaneous", v, Probe::None)]
}

/// Some families again, with the controller embedded behind a mutex.
pub fn embedded(t: Tier) -> Vec<Family> {
    let mut v = vec![];
    for others in [rounds, connections, disconnects, in_band_stop, segmentation, resets, matching, device_config] {
        v.extend(others(t))
    }
    v.retain(|f| !f.name.contains("graph") && !f.name.contains("many connections"));
    for f in &mut v {
        f.name += " (embedded)";
        f.bounds += ", controller run by pica::run";
        match &mut f.space {
            Space::Cases { cases, .. } => cases.iter_mut().for_each(|c| c.insert(0, Op::Embedded)),
            Space::Graph { prefix, .. } => prefix.insert(0, Op::Embedded),
            Space::Tree { prefix, depth, .. } => {
                prefix.insert(0, Op::Embedded);
                *depth -= 1
            }
        }
    }
    v
}

/// Many sessions of one device active at once.
pub fn busy(t: Tier) -> Vec<Family> {
    let mut v = vec![];
    for n in t.pick(vec![3usize, 5, 8, 9, 16, 17, 33, 65, 129, 255], (1..70).chain([127, 128, 129, 200, 254, 255]).collect()) {
        for order in 0..3 {
            if n > 100 && order == 2 {
                continue;
            }
            let c = C::controller(&[&X]).interval(1000);
            let mut ops = ready(2);
            for i in 0..n {
                ops.extend(idle(0, 1 + i as u32, 0, &c));
            }
            for i in 0..n {
                ops.push(f(0, start(1 + i as u32)));
            }
            ops.push(f(0, get_dev_cfg(&[0])));
            // One round of each.
            ops.push(Advance(1000));
            for i in 0..n {
                let s = 1 + match order {
                    0 => i,
                    1 => n - 1 - i,
                    _ => (i * 2) % n + usize::from(n % 2 == 0 && i >= n / 2),
                } as u32;
                ops.push(match i % 3 {
                    0 => f(0, stop(s)),
                    1 => f(0, deinit(s)),
                    _ => f(0, mcast(s, 1, &[X], 0)),
                });
                ops.push(f(0, get_dev_cfg(&[0])));
            }
            ops.push(Advance(1000));
            ops.push(f(0, get_count()));
            ops.push(f(0, start(1 + if order == 1 { n as u32 - 1 } else { 0 })));
            ops.push(Advance(1000));
            v.push(ops);
        }
    }
    vec![cases("many active sessions", "3 to 255 sessions of one device active at once, ended in 3 orders and 3 ways", v, Probe::None)]
}

/// Identifiers and addresses that only look alike, in other devices.
pub fn related(t: Tier) -> Vec<Family> {
    let _ = t;
    let mut v = vec![];
    let ids = [5u32, 0, 4, 0x105, 0x500, 0x70005, 0x5000000, 0x80000005, 0xffffffff];
    for a in ids {
        for b in ids {
            if a == b || (a != 5 && b != 5 && a.count_ones() != b.count_ones()) {
                continue;
            }
            for ty in [0u8, 1] {
                // Host 1: the other id at the removed address; host 2: the same.
                for third in [true, false] {
                    let mut ops = ready(if third { 3 } else { 2 });
                    ops.extend(active(0, a, ty, &C::controller(&[&B, &X, &Y])));
                    ops.extend(active(1, b, ty, &C::controlee(&[&A])));
                    if third {
                        ops.extend(active(2, a, ty, &C::controlee(&[&A])));
                    }
                    if ty == 1 {
                        ops.push(f(0, data_snd(a, 0, b"abc")));
                        ops.push(f(0, data_snd(b, 1, b"def")));
                    }
                    ops.push(Advance(100));
                    ops.push(f(0, mcast(a, 1, &[B], 0)));
                    ops.push(Advance(100));
                    ops.push(f(0, mcast(a, 0, &[B], 0)));
                    ops.push(f(1, stop(a)));
                    ops.push(f(1, deinit(a)));
                    ops.push(f(1, get_state(b)));
                    ops.push(Advance(100));
                    ops.push(f(0, deinit(a)));
                    ops.push(Advance(100));
                    v.push(ops);
                }
            }
        }
    }
    // Addresses: one byte in common, swapped, one bit apart, of the other format.
    let r = [B, [0x0b, 0x0c], [0x0c, 0x0b], [0x0b, 0x0a], [0x8b, 0x0b], [0x0b, 0x8b], [0x0a, 0x0b], [0, 0], [0xff, 0xff]];
    for x in r {
        for y in r {
            if x == y {
                continue;
            }
            let mut ops = ready(3);
            ops.extend(active(0, 5, 1, &C::controller(&[&x, &X])));
            ops.extend(active(1, 5, 1, &C::new(0, 0, &y, &[&A])));
            ops.extend(active(2, 5, 1, &C::new(0, 0, &x, &[&[0x0a, 0x0c], &A])));
            ops.push(CreateAnchor(y.to_vec()));
            ops.push(f(0, data_snd(5, 0, b"abc")));
            ops.push(Advance(100));
            ops.push(f(0, mcast(5, 1, &[x], 0)));
            ops.push(Advance(100));
            ops.push(f(0, mcast(5, 0, &[y, x], 0)));
            ops.push(Advance(100));
            ops.push(DestroyAnchor(x.to_vec()));
            ops.push(DestroyAnchor(y.to_vec()));
            ops.push(Advance(100));
            v.push(ops);
        }
    }
    // A session with extended addresses beside one whose short address they start with.
    for (m, a) in [(B, [0x0b, 0x0b, 0, 0, 0, 0, 0, 0]), (B, [0, 0, 0, 0, 0, 0, 0x0b, 0x0b]), ([0, 0], [0; 8])] {
        for ty in [0u8, 1] {
            let mut ops = ready(3);
            ops.extend(active(0, 5, ty, &C::controller(&[&m, &X])));
            ops.extend(active(1, 5, ty, &C::new(0, 0, &a, &[&EA])));
            ops.extend(active(2, 5, ty, &C::new(0, 0, &m, &[&A])));
            ops.push(CreateAnchor(a.to_vec()));
            ops.push(Advance(100));
            ops.push(f(0, mcast(5, 1, &[m], 0)));
            ops.push(Advance(100));
            v.push(ops);
        }
    }
    vec![cases(
        "look-alike identifiers",
        "sessions of 2-3 hosts whose ids share bytes; addresses sharing bytes, swapped, or of the other format",
        v,
        Probe::Light,
    )]
}

/// The families each property is checked on.
pub fn families(prop: &str, t: Tier) -> Vec<Family> {
    let mut v: Vec<Family> = vec![];
    let mut add = |x: Vec<Family>| v.extend(x);
    match prop {
        "C01" => {
            add(malformed(t));
            add(command_pairs(t));
            add(disconnects(t));
            add(session_limits(t));
            add(data(t));
            add(lifecycle(t));
        }
        "C02" => {
            add(malformed(t));
            add(command_pairs(t));
            add(stalls(t));
            add(lifecycle(t));
        }
        "C03" => {
            add(lifecycle(t));
            add(session_limits(t));
            add(busy(t));
            add(in_band_stop(t));
            add(command_pairs(t));
            add(configuration_graph(t));
        }
        "C04" => {
            add(lifecycle(t));
            add(in_band_stop(t));
            add(pair(t));
            add(resets(t));
        }
        "C05" => {
            add(lifecycle(t));
            add(in_band_stop(t));
            add(pair(t));
            add(resets(t));
            add(multicast(t));
            add(device_config(t));
            add(busy(t));
        }
        "C06" => {
            add(configuration(t));
            add(configuration_graph(t));
            add(multicast(t));
        }
        "C07" => {
            add(rounds(t));
            add(lifecycle(t));
            add(pair(t));
            add(resets(t));
            add(disconnects(t));
            add(busy(t));
        }
        "C08" => {
            add(matching(t));
            add(pair(t));
            add(connections(t));
            add(disconnects(t));
            add(related(t));
        }
        "C09" => {
            add(multicast(t));
            add(in_band_stop(t));
            add(pair(t));
        }
        "C10" => {
            add(in_band_stop(t));
            add(pair(t));
            add(lifecycle(t));
            add(multicast(t));
            add(related(t));
        }
        "C11" => {
            add(data(t));
            add(pair(t));
            add(disconnects(t));
            add(resets(t));
            add(related(t));
        }
        "C12" => {
            add(segmentation(t));
            add(data(t));
        }
        "C13" => {
            add(isolation(t));
            add(resets(t));
            add(pair(t));
            add(disconnects(t));
            add(related(t));
        }
        "C14" => {
            add(connections(t));
            add(disconnects(t));
            add(wrap(t));
            add(stalls(t));
        }
        "C15" => {
            add(connections(t));
            add(matching(t));
        }
        "C21" => {
            add(device_config(t));
            add(resets(t));
        }
        _ => return v,
    }
    add(embedded(t));
    // Any of the others may break the property too.
    for others in [
        malformed, command_pairs, configuration, device_config, session_limits, multicast, data, segmentation,
        matching, rounds, connections, disconnects, in_band_stop, lifecycle, pair, resets, isolation,
        configuration_graph, stalls, wrap, crowds, busy, related,
    ] {
        for x in others(t) {
            if v.iter().all(|y| y.name != x.name) {
                v.push(x);
            }
        }
    }
    v
}

