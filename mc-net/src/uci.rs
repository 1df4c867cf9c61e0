//! C22: the packet stream over TCP.
use crate::compare::ordered;
use crate::conf::*;
use crate::model::*;
use crate::msg::*;
use crate::net::*;
use mc_common::*;
use serde::{Deserialize, Serialize};
use serde_json::json;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;
use tokio::mc;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum End {
    Open,
    /// The host closes its side.
    Eof,
    /// The connection is reset.
    Reset,
}

/// Bytes sent by one host, and how they arrive.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Stream {
    pub host: usize,
    /// Packets as sent (segments).
    pub packets: Vec<Vec<u8>>,
    /// Bytes that arrive before the end.
    pub len: usize,
    /// Positions at which the bytes are divided.
    pub cuts: Vec<usize>,
    pub end: End,
    /// What successive writes to the host may take.
    pub grants: Vec<usize>,
    /// Writes fail after this many bytes.
    pub fail_after: Option<usize>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub server: Server,
    pub hosts: usize,
    pub setup: Vec<(usize, Vec<u8>)>,
    pub streams: Vec<Stream>,
    /// Wait for the server after every chunk.
    pub settle: bool,
    /// Sessions to probe at the end, on every host still connected.
    pub sessions: Vec<u32>,
}

pub struct Constant(pub Arc<Constants>);

pub fn learn() -> Arc<Constants> {
    Arc::new(run(Server::Uci, |n| {
        let h = n.connect().expect("connect");
        n.settle();
        let mut ask = |p: Vec<u8>| {
            n.hosts[h].peer.feed(&p);
            n.settle();
            n.hosts[h].take().into_iter().find(|m| m.mt == RSP).map(|m| m.payload).unwrap_or_default()
        };
        ask(reset());
        Constants { info: ask(cmd(CORE, 2, &[])), caps: ask(cmd(CORE, 3, &[])), power: ask(cmd(ANDROID, 0, &[])) }
    }))
}

/// The complete packets among the first `len` bytes, reassembled.
fn received(packets: &[Vec<u8>], len: usize) -> Vec<Vec<u8>> {
    let mut out = vec![];
    let mut partial: Option<Vec<u8>> = None;
    let mut at = 0;
    for p in packets {
        at += p.len();
        let unknown = p[0] >> 5 > NTF;
        // The header alone ends the connection.
        if unknown && at - p.len() + 4 <= len {
            out.push(p.clone());
            return out;
        }
        if at > len {
            break;
        }
        if p[0] >> 5 == DATA {
            out.push(p.clone());
            continue;
        }
        match &mut partial {
            Some(c) => c.extend_from_slice(&p[4..]),
            None => partial = Some(p.clone()),
        }
        if p[0] & 0x10 == 0 {
            out.push(partial.take().unwrap())
        }
    }
    out
}

/// A prefix of the expected messages, in an allowed order.
fn prefix(groups: &[Vec<Msg>], obs: &[Msg]) -> bool {
    (0..=groups.len()).any(|n| {
        ordered(&groups[..n], obs)
            || n < groups.len()
                && obs.len() > groups[..n].iter().map(|g| g.len()).sum::<usize>()
                && (1..groups[n].len()).any(|k| {
                    let mut g = groups[..n].to_vec();
                    g.push(groups[n][..k].to_vec());
                    ordered(&g, obs)
                })
    })
}

/// None: as the property says.
pub fn execute(consts: &Arc<Constants>, case: &Case, chooser: Option<Chooser>) -> (Option<Chooser>, Option<String>, u64) {
    let consts = consts.clone();
    let case = case.clone();
    run(case.server, move |n| {
        // All devices of these cases are at the origin.
        ESTIMATOR.with(|e| e.set(Some(|_, _| Some((0, 0, 0)))));
        let mut w = World::new(consts);
        let mut exp: BTreeMap<usize, Vec<Vec<Msg>>> = BTreeMap::new();
        let add = |exp: &mut BTreeMap<usize, Vec<Vec<Msg>>>, o: Out| {
            let mut by: BTreeMap<usize, Vec<Msg>> = BTreeMap::new();
            for (h, m) in o.msgs {
                by.entry(h).or_default().push(m)
            }
            for (h, g) in by {
                exp.entry(h).or_default().push(g)
            }
        };
        for h in 0..case.hosts {
            if n.connect().is_none() {
                return (chooser, Some("the server does not listen".into()), 0);
            }
            n.settle();
            add(&mut exp, w.connect(h));
        }
        for (h, p) in &case.setup {
            for s in segments(p) {
                n.hosts[*h].peer.feed(&s)
            }
            n.settle();
            if let Some(o) = w.packet(*h, p, 0) {
                add(&mut exp, o)
            }
        }
        let chooser = Rc::new(RefCell::new(chooser));
        if chooser.borrow().is_some() {
            let c = chooser.clone();
            mc::arm(Box::new(move |k| c.borrow_mut().as_mut().unwrap().choose(k.len())), true, false);
        }
        // Everything that arrives, in turns.
        let mut feeds: Vec<Vec<(usize, Vec<u8>)>> = vec![];
        for s in &case.streams {
            let p = &n.hosts[s.host].peer;
            {
                let mut p = p.0.lock().unwrap();
                p.tx_grants = s.grants.iter().copied().collect();
                p.tx_fail_after = s.fail_after.map(|k| p.tx.len() + k);
            }
            let bytes: Vec<u8> = s.packets.concat()[..s.len].to_vec();
            let mut v = vec![];
            let mut at = 0;
            for c in s.cuts.iter().copied().filter(|c| *c < s.len).chain([s.len]) {
                if c > at {
                    v.push((s.host, bytes[at..c].to_vec()));
                    at = c;
                }
            }
            feeds.push(v);
        }
        let most = feeds.iter().map(|f| f.len()).max().unwrap_or(0);
        let mut fed: Vec<Vec<u8>> = vec![vec![]; case.hosts];
        for i in 0..most {
            for f in &feeds {
                if let Some((h, b)) = f.get(i) {
                    fed[*h].extend_from_slice(b);
                    mc_common::state(&(format!("{:?}", case.server), &case.setup, &fed, case.settle));
                    n.hosts[*h].peer.feed(b);
                    if case.settle {
                        n.settle()
                    }
                }
            }
        }
        // Whether everything processed must have been answered.
        let mut exact: Vec<bool> = vec![true; n.hosts.len()];
        let mut gone: Vec<usize> = vec![];
        for s in &case.streams {
            let got = received(&s.packets, s.len);
            for p in &got {
                match w.packet(s.host, p, 0) {
                    Some(o) => add(&mut exp, o),
                    None => {
                        gone.push(s.host);
                        exact[s.host] = false;
                        break;
                    }
                }
            }
            let _ = &got;
            match s.end {
                End::Open => (),
                End::Eof => {
                    gone.push(s.host);
                    exact[s.host] &= case.settle;
                    n.hosts[s.host].peer.close()
                }
                End::Reset => {
                    gone.push(s.host);
                    exact[s.host] &= case.settle;
                    n.hosts[s.host].peer.reset()
                }
            }
            if s.fail_after.is_some() {
                exact[s.host] = false;
            }
        }
        n.settle();
        mc::disarm();
        // In-band stop requests.
        while let Some(((mac, s), _)) = w.stops.iter().next().map(|(k, c)| (k.clone(), *c)) {
            let c = w.stops.get_mut(&(mac.clone(), s)).unwrap();
            *c -= 1;
            if *c == 0 {
                w.stops.remove(&(mac.clone(), s));
            }
            let o = w.in_band_stop(&mac, s);
            add(&mut exp, o)
        }
        for s in &case.streams {
            if s.fail_after.is_some() {
                // Gone once a write did not fit.
                let mut p = n.hosts[s.host].peer.0.lock().unwrap();
                if p.tx_failed {
                    gone.push(s.host)
                } else {
                    p.tx_fail_after = None
                }
            }
        }
        let mut bad: Option<String> = None;
        let check = |n: &mut Net, exp: &mut BTreeMap<usize, Vec<Vec<Msg>>>, exact: &[bool]| -> Option<String> {
            if let Some(b) = n.broken() {
                return Some(b);
            }
            for (h, host) in n.hosts.iter_mut().enumerate() {
                let obs = host.take();
                let want = exp.remove(&h).unwrap_or_default();
                let ok = if exact.get(h).copied().unwrap_or(true) {
                    ordered(&want, &obs) && host.complete()
                } else {
                    prefix(&want, &obs)
                };
                if !ok {
                    return Some(format!("host {h}: expected {want:?}, received {obs:?}, then bytes {}", hex(&host.buf)));
                }
                if !host.asm.errors.is_empty() {
                    return Some(format!("host {h}: {}", host.asm.errors.join("; ")));
                }
            }
            None
        };
        bad = bad.or(check(n, &mut exp, &exact));
        gone.sort();
        gone.dedup();
        if bad.is_none() {
            for h in &gone {
                if !n.hosts[*h].peer.closed_by_server() {
                    bad = Some(format!("the connection of host {h} is over, but the server keeps it"))
                }
                let o = w.disconnect(*h);
                add(&mut exp, o)
            }
        }
        // The server serves the others, and new hosts.
        if bad.is_none() {
            for h in 0..case.hosts {
                if gone.contains(&h) {
                    continue;
                }
                let mut ask = vec![get_dev_cfg(&[0, 1]), get_count()];
                for s in &case.sessions {
                    ask.push(get_state(*s));
                    ask.push(get_cfg(*s, &[crate::cfg::NCTRL, crate::cfg::DST_MAC]));
                }
                for p in ask {
                    n.hosts[h].peer.feed(&p);
                    n.settle();
                    if let Some(o) = w.packet(h, &p, 0) {
                        add(&mut exp, o)
                    }
                }
            }
            match n.connect() {
                None => bad = Some("the server does not listen any more".into()),
                Some(h) => {
                    n.settle();
                    add(&mut exp, w.connect(h));
                    for p in [reset(), init(9, 0), get_state(9)] {
                        n.hosts[h].peer.feed(&p);
                        n.settle();
                        if let Some(o) = w.packet(h, &p, 0) {
                            add(&mut exp, o)
                        }
                    }
                }
            }
            let gone_ok: Vec<bool> = (0..n.hosts.len()).map(|h| !gone.contains(&h)).collect();
            bad = bad.or(check(n, &mut exp, &gone_ok));
        }
        let polls = mc::stats().polls;
        let c = chooser.borrow_mut().take();
        (c, bad, polls)
    })
}

/// What happens at the listening sockets.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Arrival {
    Connect,
    /// Accepting a connection of a host fails with this error.
    Fail(i32),
    /// Likewise for an HTTP client.
    FailWeb(i32),
    /// All connected hosts send a command.
    Ask,
}

/// The longest a server may wait before it accepts connections again, in ms.
const ACCEPT_PAUSE: u64 = 10_000;

/// Accepting some connections fails. None: as the property says.
pub fn accepting(consts: &Arc<Constants>, server: Server, arrivals: &[Arrival], settle: bool) -> (Option<String>, u64) {
    let consts = consts.clone();
    let arrivals = arrivals.to_vec();
    run(server, move |n| {
        let mut w = World::new(consts);
        let mut failed = false;
        // Connected before any failure.
        let mut early = 0;
        let mut asked: Vec<usize> = vec![];
        for a in &arrivals {
            match a {
                Arrival::Connect => {
                    if n.connect().is_none() {
                        return (Some("the server does not listen".into()), 0);
                    }
                    asked.push(0);
                    if !failed {
                        early += 1
                    }
                }
                Arrival::Fail(e) => {
                    failed = true;
                    tokio::net::host_abort(UCI_PORT, *e);
                }
                Arrival::FailWeb(e) => {
                    if tokio::net::host_abort(WEB_PORT, *e).is_none() {
                        return (Some("the server does not listen to HTTP clients".into()), 0);
                    }
                }
                Arrival::Ask => {
                    for (h, x) in n.hosts.iter().zip(&mut asked) {
                        h.peer.feed(&reset());
                        *x += 1
                    }
                }
            }
            if settle {
                n.settle()
            }
        }
        n.settle();
        let mut exp: Vec<Vec<Vec<Msg>>> = vec![];
        for (h, k) in asked.iter().enumerate() {
            let mut g: Vec<Vec<Msg>> = vec![w.connect(h).msgs.into_iter().map(|(_, m)| m).collect()];
            for _ in 0..*k {
                let o = w.packet(h, &reset(), 0).unwrap();
                g.push(o.msgs.into_iter().map(|(_, m)| m).collect());
            }
            exp.push(g);
        }
        let mut obs: Vec<Vec<Msg>> = vec![vec![]; n.hosts.len()];
        let mut bad = n.broken();
        for (h, host) in n.hosts.iter_mut().enumerate() {
            obs[h].extend(host.take());
            if bad.is_none() && h < early && !ordered(&exp[h], &obs[h]) {
                bad = Some(format!("host {h}, connected already: expected {:?}, received {:?}", exp[h], obs[h]))
            }
        }
        n.advance(ACCEPT_PAUSE);
        bad = bad.or(n.broken());
        for (h, host) in n.hosts.iter_mut().enumerate() {
            obs[h].extend(host.take());
            if bad.is_none() && !ordered(&exp[h], &obs[h]) {
                bad = Some(format!("host {h}: expected {:?}, received {:?}", exp[h], obs[h]))
            }
        }
        // HTTP clients are served.
        if bad.is_none() && server == Server::Http {
            bad = match crate::http::Web::open() {
                None => Some("the server does not listen to HTTP clients any more".into()),
                Some(mut web) => {
                    web.send("/get-state", None);
                    n.settle();
                    match web.response() {
                        Ok(Some(r)) if r.status == 200 => None,
                        r => Some(format!("HTTP request after failing accepts: {}", r.map(|r| r.map(|r| r.status).unwrap_or(0)).map_or_else(|e| e, |s| format!("status {s}")))),
                    }
                }
            }
        }
        (bad, mc::stats().polls)
    })
}

fn accept_family(t: Tier) -> Vec<(Server, Vec<Arrival>, bool)> {
    let mut out = vec![];
    for server in BOTH {
        let mut alphabet = vec![Arrival::Connect, Arrival::Fail(libc::ECONNABORTED), Arrival::Fail(libc::EMFILE), Arrival::Ask];
        if server == Server::Http {
            alphabet.push(Arrival::FailWeb(libc::EMFILE));
        }
        for d in 1..=t.pick(4, 6) {
            for mut i in 0..alphabet.len().pow(d) {
                let mut v = vec![];
                for _ in 0..d {
                    v.push(alphabet[i % alphabet.len()]);
                    i /= alphabet.len();
                }
                for settle in [false, true] {
                    out.push((server, v.clone(), settle))
                }
            }
        }
    }
    out
}

fn stream(host: usize, packets: &[Vec<u8>]) -> Stream {
    Stream {
        host,
        packets: packets.to_vec(),
        len: packets.iter().map(|p| p.len()).sum(),
        cuts: vec![],
        end: End::Open,
        grants: vec![],
        fail_after: None,
    }
}

fn case(server: Server, s: Stream, settle: bool) -> Case {
    Case { server, hosts: 1, setup: vec![(0, reset())], streams: vec![s], settle, sessions: vec![1, 2] }
}

/// Short streams, for all divisions.
fn short_streams() -> Vec<(&'static str, Vec<Vec<u8>>)> {
    let seg = segment(&init(0x0102, 0), &[2]);
    let mut split = vec![];
    split.extend(seg.clone());
    vec![
        ("commands", vec![get_count(), reset(), get_count()]),
        ("segmented command", split),
        ("data, then a command", vec![vec![0x01, 0, 3, 0, 1, 2, 3], get_count()]),
        ("data inside a segmented command", vec![seg[0].clone(), vec![0x01, 0, 1, 0, 9], get_count()]),
        ("response and notification from the host", vec![vec![0x40, 0, 0, 1, 0], vec![0x60, 1, 0, 0], get_count()]),
        ("unknown message type", vec![get_count(), vec![0xa0, 1, 0, 2, 7, 7], get_count()]),
        ("empty packets", vec![vec![0, 0, 0, 0], vec![0x20, 0, 0, 0], vec![0x2f, 9, 0, 0]]),
    ]
}

fn long_streams() -> Vec<(&'static str, Vec<Vec<u8>>)> {
    let c = C::controller(&[&X, &Y, &Z]).with(0xe3, &[1; 200]).with(0xe4, &[1; 120]);
    let mut v = vec![init(1, 1)];
    v.extend(segments(&c.set(1)));
    v.push(get_state(1));
    let d: Vec<u8> = (0..600u32).map(|i| i as u8).collect();
    let e: Vec<u8> = (0..255u32).map(|i| i as u8).collect();
    vec![
        ("configuration of more than a segment", v),
        ("600 bytes of data", vec![init(1, 1), data_snd(1, 1, &d), get_count()]),
        ("255 and 256 bytes of data", vec![data_snd(2, 1, &e[..237]), data_snd(2, 1, &e[..238]), data_snd(2, 2, &e), get_count()]),
    ]
}

/// Host 0 sends two requests that stop the sessions of host 1.
fn stopping() -> (Vec<(usize, Vec<u8>)>, Vec<Vec<u8>>) {
    let ctl = C::controller(&[&B, &X]);
    let cee = C::controlee(&[&A]);
    let mut setup = vec![];
    for h in 0..2 {
        setup.push((h, reset()))
    }
    for s in [1, 2] {
        setup.extend([(0, init(s, 0)), (0, ctl.set(s)), (1, init(s, 0)), (1, cee.set(s)), (1, start(s))]);
    }
    (setup, vec![mcast(1, 1, &[B], 0), init(3, 0), mcast(2, 1, &[B], 0)])
}

pub struct Family {
    pub name: String,
    pub bounds: String,
    pub cases: Vec<Case>,
    pub deviations: Option<usize>,
}

const BOTH: [Server; 2] = [Server::Uci, Server::Http];

pub fn families(t: Tier) -> Vec<Family> {
    let mut out = vec![];
    // All divisions.
    for (name, packets) in short_streams() {
        let mut cases = vec![];
        let s = stream(0, &packets);
        for server in BOTH {
            for settle in [false, true] {
                for bits in 0..1u32 << (s.len - 1) {
                    let mut s = s.clone();
                    s.cuts = (1..s.len).filter(|i| bits >> (i - 1) & 1 == 1).collect();
                    cases.push(case(server, s, settle));
                }
            }
        }
        out.push(Family {
            name: format!("divisions: {name}"),
            bounds: format!("{} bytes, all divisions into chunks, at once and one by one, both servers", s.len),
            cases,
            deviations: None,
        });
    }
    for (name, packets) in long_streams() {
        let mut cases = vec![];
        let s = stream(0, &packets);
        for server in BOTH {
            for settle in [false, true] {
                for k in 1..=t.pick(64, 300).min(s.len) {
                    let mut s = s.clone();
                    s.cuts = (1..s.len).filter(|i| i % k == 0).collect();
                    cases.push(case(server, s, settle));
                }
                for a in 1..s.len {
                    let mut x = s.clone();
                    x.cuts = vec![a];
                    cases.push(case(server, x, settle));
                }
                if server == Server::Uci && t == Tier::Thorough {
                    for a in 1..s.len {
                        for b in a + 1..s.len {
                            let mut x = s.clone();
                            x.cuts = vec![a, b];
                            cases.push(case(server, x, settle));
                        }
                    }
                }
            }
        }
        out.push(Family {
            name: format!("divisions: {name}"),
            bounds: format!("{} bytes, chunks of every size up to 64 and every division in two", s.len),
            cases,
            deviations: None,
        });
    }
    // Sizes of packets.
    {
        let mut cases = vec![];
        let mut sizes: Vec<usize> = (0..t.pick(2100, 9000)).collect();
        for k in 9..=16u32 {
            sizes.extend([(1usize << k) - 1, 1 << k, (1 << k) + 1].iter().filter(|n| **n <= 0xffff))
        }
        sizes.extend((1000..65535).step_by(t.pick(2500, 500)));
        for n in sizes {
            for shift in 0..4 {
                // Ignored, but full of commands for whoever misses its end.
                let body: Vec<u8> = get_count().into_iter().cycle().skip(shift).take(n).collect();
                let mut packets = vec![[vec![0x03, 0, n as u8, (n >> 8) as u8], body.clone()].concat(), get_count()];
                if n <= 255 {
                    packets.push([vec![0x41, 5, 0, n as u8], body.clone()].concat());
                    packets.push([vec![0x21, 5, 0, n as u8], body.clone()].concat());
                }
                if n + 16 <= 0xffff {
                    packets.push(data_snd(2, 1, &body));
                }
                packets.push(init(1, 0));
                for server in BOTH {
                    let mut s = stream(0, &packets);
                    cases.push(case(server, s.clone(), false));
                    s.cuts = (1..s.len).filter(|i| i % 1024 == 0).collect();
                    cases.push(case(server, s, true));
                }
            }
        }
        out.push(Family {
            name: "sizes".into(),
            bounds: "data packets of 0..2100 (thorough: 9000) bytes, of 2^n-1, 2^n, 2^n+1 up to 65535, and every 2500 (thorough: 500), control packets of 0..255; filled with commands at 4 offsets".into(),
            cases,
            deviations: None,
        });
    }
    // All ends.
    {
        let mut cases = vec![];
        let (setup, packets) = stopping();
        let all = stream(0, &packets);
        for server in BOTH {
            for settle in [false, true] {
                for end in [End::Eof, End::Reset] {
                    for len in 0..=all.len {
                        for k in [1usize, 3, 1000] {
                            let mut s = all.clone();
                            s.len = len;
                            s.end = end;
                            s.cuts = (1..s.len).filter(|i| i % k == 0).collect();
                            // A reset discards what was not read.
                            if end == End::Reset && !settle {
                                continue;
                            }
                            cases.push(Case {
                                server,
                                hosts: 2,
                                setup: setup.clone(),
                                streams: vec![s],
                                settle,
                                sessions: vec![1, 2, 3],
                            });
                        }
                    }
                }
            }
        }
        for (_, packets) in short_streams() {
            let all = stream(0, &packets);
            for server in BOTH {
                for settle in [false, true] {
                    for len in 0..=all.len {
                        let mut s = all.clone();
                        s.len = len;
                        s.end = End::Eof;
                        cases.push(case(server, s, settle));
                    }
                }
            }
        }
        out.push(Family {
            name: "ends".into(),
            bounds: "close and reset after every byte of streams whose packets act on another host; chunks of 1, 3, all bytes".into(),
            cases,
            deviations: None,
        });
    }
    // Short writes.
    {
        let mut cases = vec![];
        let packets = vec![cmd(CORE, 2, &[]), cmd(CORE, 3, &[]), get_count(), init(1, 0)];
        let sizes = [0usize, 1, 3, 5];
        let depth = t.pick(4, 6);
        for server in BOTH {
            for d in 0..=depth {
                for mut i in 0..sizes.len().pow(d as u32) {
                    let mut g = vec![];
                    for _ in 0..d {
                        g.push(sizes[i % sizes.len()]);
                        i /= sizes.len();
                    }
                    let mut s = stream(0, &packets);
                    s.grants = g;
                    cases.push(case(server, s, false));
                }
            }
            for k in 1..=t.pick(40, 300) {
                let mut s = stream(0, &packets);
                s.grants = vec![k; 2000 / k + 1];
                cases.push(case(server, s.clone(), false));
                // With pauses.
                s.grants = s.grants.iter().flat_map(|g| [0, *g]).collect();
                cases.push(case(server, s, true));
            }
            for k in 0..=t.pick(120, 400) {
                let mut s = stream(0, &packets);
                s.fail_after = Some(k);
                cases.push(case(server, s.clone(), false));
                s.grants = vec![1; 400];
                cases.push(case(server, s, true));
            }
        }
        out.push(Family {
            name: "short writes".into(),
            bounds: "all sequences of up to 4 write sizes from 0,1,3,5; every constant size up to 40; failure after every byte up to 120".into(),
            cases,
            deviations: None,
        });
    }
    // Several hosts at once, under all schedules.
    {
        let mut cases = vec![];
        let a = stream(0, &[get_count(), init(1, 0), get_state(1), reset()]);
        let b = stream(1, &[init(2, 0), init(2, 0), vec![0x60, 1, 0, 1, 4], get_count()]);
        for server in BOTH {
            for (ka, kb) in [(1000usize, 1000usize), (5, 7), (3, 1000), (2, 3)] {
                for (ea, eb) in [(End::Open, End::Open), (End::Eof, End::Open), (End::Open, End::Reset), (End::Eof, End::Eof)] {
                    for fail in [None, Some(7)] {
                        let (mut a, mut b) = (a.clone(), b.clone());
                        a.cuts = (1..a.len).filter(|i| i % ka == 0).collect();
                        b.cuts = (1..b.len).filter(|i| i % kb == 0).collect();
                        a.end = ea;
                        b.end = eb;
                        b.fail_after = fail;
                        a.grants = vec![2, 0, 3];
                        cases.push(Case {
                            server,
                            hosts: 2,
                            setup: vec![(0, reset()), (1, reset())],
                            streams: vec![a, b],
                            settle: false,
                            sessions: vec![1, 2],
                        });
                    }
                }
            }
        }
        out.push(Family {
            name: "schedules".into(),
            bounds: "2 hosts, 4 packets each, 4 chunkings, 4 pairs of ends, with and without a failing write".into(),
            cases,
            deviations: Some(t.pick(1, 2)),
        });
    }
    out
}

pub fn check(report: &Report, t: Tier) {
    let consts = learn();
    let threads = crate::threads();
    {
        let t0 = std::time::Instant::now();
        let cases = accept_family(t);
        let (_, all) = for_all(threads, cases.len(), None, |i| {
            let (server, arrivals, settle) = &cases[i];
            let (bad, polls) = accepting(&consts, *server, arrivals, *settle);
            report.add(0, polls, 1);
            state(&(format!("{server:?} {arrivals:?}"), settle));
            match bad {
                None => true,
                Some(what) => {
                    report.violation(Violation {
                        what: format!("[failing accepts] {what}"),
                        replay: json!({"kind": "accept", "server": server, "arrivals": arrivals, "settle": settle}),
                    });
                    false
                }
            }
        });
        if !all {
            report.not_exhaustive()
        }
        report.scenario(json!({
            "name": "failing accepts",
            "bounds": "all sequences of connections, commands, and accepts that fail (aborted, too many files), up to a depth of 4 (thorough: 6)",
            "cases": cases.len(),
            "executions": cases.len(),
            "complete": all,
            "wall_s": t0.elapsed().as_secs_f64(),
        }));
        crate::verbose(&format!("{:6.1}s {:7} failing accepts", t0.elapsed().as_secs_f64(), cases.len()));
        if report.violated() {
            return;
        }
    }
    for f in families(t) {
        let t0 = std::time::Instant::now();
        let execs = AtomicU64::new(0);
        let points = AtomicU64::new(0);
        let judge = |c: &Case, bad: Option<String>, choices: Deviations| -> bool {
            match bad {
                None => true,
                Some(what) => {
                    report.violation(Violation {
                        what: format!("[{}] {what}", f.name),
                        replay: json!({"kind": "uci", "case": c, "choices": choices, "schedule": f.deviations.is_some()}),
                    });
                    false
                }
            }
        };
        let (_, all) = for_all(threads, f.cases.len(), None, |i| {
            let c = &f.cases[i];
            match f.deviations {
                None => {
                    let (_, bad, polls) = execute(&consts, c, None);
                    report.add(0, polls, 1);
                    execs.fetch_add(1, Ordering::Relaxed);
                    judge(c, bad, vec![])
                }
                Some(d) => {
                    let b = Bounds { max_deviations: d, max_executions: u64::MAX, deadline: None };
                    let e = explore(1, &b, |ch| {
                        let forced = ch.forced().clone();
                        let (ch, bad, polls) = execute(&consts, c, Some(ch));
                        report.add(0, polls, 1);
                        (ch.unwrap(), judge(c, bad, forced))
                    });
                    execs.fetch_add(e.executions, Ordering::Relaxed);
                    points.fetch_add(e.choice_points, Ordering::Relaxed);
                    !report.violated()
                }
            }
        });
        if !all {
            report.not_exhaustive()
        }
        report.scenario(json!({
            "name": f.name,
            "bounds": f.bounds,
            "cases": f.cases.len(),
            "executions": execs.load(Ordering::Relaxed),
            "max_deviations": f.deviations,
            "choice_points": points.load(Ordering::Relaxed),
            "complete": all,
            "wall_s": t0.elapsed().as_secs_f64(),
        }));
        crate::verbose(&format!("{:6.1}s {:7} {}", t0.elapsed().as_secs_f64(), execs.load(Ordering::Relaxed), f.name));
        if report.violated() {
            return;
        }
    }
}
