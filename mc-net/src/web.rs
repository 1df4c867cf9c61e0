//! C17 and C18: the scene, the requests and the events of pica-http.
use crate::conf::*;
use crate::geo::*;
use crate::http::*;
use crate::model::*;
use crate::msg::*;
use crate::net::*;
use crate::scene::*;
use mc_common::*;
use serde_json::json;
use std::collections::HashSet;
use std::sync::Arc;
use std::time::Instant;

pub struct Check<'a> {
    pub report: &'a Report,
    pub consts: Arc<Constants>,
    pub threads: usize,
    pub tier: Tier,
    pub deadline: Option<Instant>,
}

impl Check<'_> {
    pub fn scenario(&self, name: &str, bounds: &str, cases: u64, executions: u64, all: bool, t0: Instant) {
        if !all {
            self.report.not_exhaustive()
        }
        self.report.scenario(json!({
            "name": name, "bounds": bounds, "cases": cases, "executions": executions,
            "complete": all, "wall_s": t0.elapsed().as_secs_f64(),
        }));
        crate::verbose(&format!("{:6.1}s {executions:7} {name}", t0.elapsed().as_secs_f64()));
    }

    fn ops_violation(&self, name: &str, ops: &[Op], watch: bool, bad: String) {
        self.report.violation(Violation {
            what: format!("[{name}] {bad}"),
            replay: json!({"kind": "web", "ops": ops, "watch": watch}),
        })
    }

    /// Every list of operations on a fresh server.
    pub fn lists(&self, name: &str, bounds: &str, lists: &[Vec<Op>], watch: bool) {
        if self.report.violated() {
            return;
        }
        let t0 = Instant::now();
        let (n, all) = for_all(self.threads, lists.len(), self.deadline, |i| {
            let (bad, polls) = replay_ops(&self.consts, &lists[i], watch);
            self.report.add(0, polls, 1);
            if let Some(b) = bad {
                self.ops_violation(name, &lists[i], watch, b);
                return false;
            }
            true
        });
        self.scenario(name, bounds, lists.len() as u64, n as u64, all, t0);
    }

    /// All sequences of operations up to a depth, each on a fresh server.
    pub fn tree(&self, name: &str, setup: &[Op], depth: usize, ops: &(dyn Fn(&Model) -> Vec<Op> + Sync)) {
        if self.report.violated() {
            return;
        }
        let mut m = Model::new(self.consts.clone());
        for o in setup {
            m.step(o);
        }
        let mut lists = vec![];
        fn grow(m: &Model, path: &mut Vec<Op>, depth: usize, ops: &dyn Fn(&Model) -> Vec<Op>, out: &mut Vec<Vec<Op>>) {
            if depth == 0 {
                out.push(path.clone());
                return;
            }
            for o in ops(m) {
                let mut n = m.clone();
                n.step(&o);
                path.push(o);
                grow(&n, path, depth - 1, ops, out);
                path.pop();
            }
        }
        let mut path = setup.to_vec();
        grow(&m, &mut path, depth, ops, &mut lists);
        self.lists(name, &format!("all sequences of {depth} of {} operations", ops(&m).len()), &lists, true);
    }

    /// Every transition of the model's state graph, on the real server.
    pub fn graph(&self, name: &str, setup: &[Op], max_states: usize, ops: &(dyn Fn(&Model) -> Vec<Op> + Sync)) {
        if self.report.violated() {
            return;
        }
        let t0 = Instant::now();
        let mut start = Model::new(self.consts.clone());
        for o in setup {
            start.step(o);
        }
        let mut seen: HashSet<Model> = HashSet::from([start.key()]);
        let mut level = vec![(start, setup.to_vec())];
        let (mut depth, mut execs, mut complete) = (0, 0u64, true);
        while !level.is_empty() {
            let mut jobs: Vec<(Vec<Op>, Model)> = vec![];
            for (m, path) in &level {
                for o in ops(m) {
                    let mut n = m.clone();
                    n.step(&o);
                    let mut p = path.clone();
                    p.push(o);
                    jobs.push((p, n))
                }
            }
            let (n, all) = for_all(self.threads, jobs.len(), self.deadline, |i| {
                let (bad, polls) = replay_ops(&self.consts, &jobs[i].0, false);
                self.report.add(0, polls, 1);
                if let Some(b) = bad {
                    self.ops_violation(name, &jobs[i].0, false, b);
                    return false;
                }
                true
            });
            execs += n as u64;
            if !all {
                complete = false;
                break;
            }
            depth += 1;
            level.clear();
            for (p, n) in jobs {
                if seen.len() < max_states && seen.insert(n.key()) {
                    level.push((n, p))
                }
            }
        }
        self.report.max("graph_depth", depth);
        let bound = format!("state graph to {max_states} states, every transition of each");
        self.scenario(name, &bound, seen.len() as u64, execs, complete, t0);
    }
}

const ME: &str = "A0:01:02:03:04:05:06:07";

/// The operations on two anchors, hosts and listeners.
fn alphabet(m: &Model, hosts: usize, listeners: usize) -> Vec<Op> {
    let mut v = vec![
        req("/create-anchor/0C:01"),
        req_with("/create-anchor/0c01", pose(1)),
        req_with("/create-anchor/0C%3A02", pose(2)),
        req("/destroy-anchor/0C:01"),
        req("/destroy-anchor/0c02"),
        req_with("/set-position/0C:01", pose(3)),
        req("/init-uci-device/0C:02"),
        req_with("/init-uci-device/0000", pose(4)),
        req_with("/set-position/00:01", pose(5)),
        req("/set-position/00:00"),
        req("/create-anchor/00:01"),
        req("/destroy-anchor/00:01"),
        req("/destroy-anchor/00:00"),
        // Another address of the same value.
        req_with("/create-anchor/0C:01:00:00:00:00:00:00", pose(4)),
        req_with("/set-position/0C01000000000000", pose(2)),
        req("/destroy-anchor/0C%3A01%3A00%3A00%3A00%3A00%3A00%3A00"),
        req_with("/create-anchor/0000000000000C01", pose(5)),
        req("/create-anchor/0C:0"),
        req("/nowhere"),
    ];
    if m.hosts < hosts {
        v.push(Op::Connect)
    }
    for h in 0..m.hosts {
        if !m.gone.contains(&h) {
            v.push(Op::Close(h))
        }
    }
    if m.listeners < listeners {
        v.push(Op::Listen);
    }
    v
}

fn bodies() -> Vec<Option<String>> {
    let mut v: Vec<Option<String>> = vec![None, Some("".into())];
    let ok = pose(3);
    let mut add = |s: String| v.push(Some(s));
    add(ok.json().to_string());
    add(format!("  {}\n", serde_json::to_string_pretty(&ok.json()).unwrap()));
    add(r#"{"roll":1,"pitch":2,"yaw":3,"z":4,"y":5,"x":6}"#.into());
    for (k, lo, hi) in [
        ("x", -32768i64, 32767i64),
        ("y", -32768, 32767),
        ("z", -32768, 32767),
        ("yaw", -180, 180),
        ("pitch", -90, 90),
        ("roll", -180, 180),
    ] {
        let put = |x: serde_json::Value| {
            let mut j = ok.json();
            j[k] = x;
            j.to_string()
        };
        add(put(json!(lo)));
        add(put(json!(hi)));
        add(put(json!(0)));
        // Outside the documented range, or outside the type.
        add(put(json!(lo - 1)));
        add(put(json!(hi + 1)));
        for x in [i64::MIN, i64::MAX, -129, 128, -32769, 32768, 65536, 1 << 32] {
            add(put(json!(x)))
        }
        for x in [json!(null), json!("1"), json!(true), json!([1]), json!({}), json!(1.5), json!("")] {
            add(put(x))
        }
        let mut j = ok.json();
        j.as_object_mut().unwrap().remove(k);
        add(j.to_string());
    }
    let full = ok.json().to_string();
    for n in 1..full.len() {
        add(full[..n].to_string())
    }
    for s in ["{}", "[]", "null", "0", "\"\"", " ", "\n", "x", "{", "}", "{}{}", "\u{e9}", "{\"x\":1,\"x\":2}"] {
        add(s.into())
    }
    add(format!("{full}x"));
    add(format!("{full}{full}"));
    v
}

fn addresses() -> Vec<String> {
    let mut v: Vec<String> = vec![];
    for s in [
        "0C:01", "0c01", "0C%3A01", "0c:01", "0C01:", ":0C01", "0:C0:1", "0C::01", "0C%3A%3A01", "00:00", "0000", "00:01",
        ME, "A001020304050607", "a0:01:02:03:04:05:06:07", "A0%3A01%3A02%3A03%3A04%3A05%3A06%3A07", "FFFF", "FF:FF:FF:FF:FF:FF:FF:FF",
        // Malformed.
        "", "0", "0C", "0C:0", "0C:011", "0C:01:02", "0C0102030405060", "A0:01:02:03:04:05:06:07:08", "0G:01", "zz:zz", "0C-01", "0C.01",
        "%20C01", "0x01", "+C01", "-C01", "0C01%00", "%", "%3", "%3A", ":", "::::", "0C%3B01", "~~~~", "0C%2F01", "%30%43%30%31",
    ] {
        v.push(s.into())
    }
    v
}

fn single_requests(t: Tier) -> Vec<Vec<Op>> {
    let setup = vec![
        Op::Connect,
        req_with("/create-anchor/0C:01", pose(1)),
        req_with(&format!("/create-anchor/{ME}"), pose(2)),
        Op::Listen,
    ];
    let mut one: Vec<Op> = vec![];
    let routes = ["init-uci-device", "set-position", "create-anchor", "destroy-anchor"];
    let bodies = bodies();
    for r in routes {
        for a in addresses() {
            for b in [None, Some(pose(3).json().to_string()), Some("{\"x\":1}".into())] {
                one.push(Op::Req { path: format!("/{r}/{a}"), body: b })
            }
        }
        for a in ["0C:01", "0C:02", "00:00", "zz"] {
            for b in &bodies {
                one.push(Op::Req { path: format!("/{r}/{a}"), body: b.clone() })
            }
        }
    }
    for p in [
        "/", "/openapi", "/openapi.yaml", "/src/components/Map.js", "/src/components/DeviceInfo.js", "/src/components/Orientation.js",
        "/get-state", "/get-state/", "/get-state/x", "/get-states", "/GET-STATE", "/events/", "/events/x", "/Events",
        "/create-anchor", "/create-anchor/0C:02/", "/create-anchor/0C:02/x", "/destroy-anchor", "/destroy-anchor/0C:01/x",
        "/set-position", "/init-uci-device", "/set-position/x/y/z", "/Create-Anchor/0C:02", "/create_anchor/0C:02",
        "/index.html", "/openapi.json", "/src", "/src/components", "/src/components/Map.js/", "/static/index.html", "/favicon.ico",
        "/..", "/../Cargo.toml", "/%2e%2e/x", "/get-state?x=1", "/create-anchor/0C:02?x=1", "/?x", "/src/components/../../x", "/*", "/a/b/c/d/e/f",
    ] {
        for b in [None, Some(pose(3).json().to_string()), Some("x".into())] {
            one.push(Op::Req { path: p.into(), body: b })
        }
    }
    let _ = t;
    one.into_iter()
        .map(|o| {
            let mut v = setup.clone();
            v.push(o);
            // The server goes on.
            v.push(req_with("/set-position/0C:01", pose(4)));
            v
        })
        .collect()
}

fn many_devices(t: Tier) -> Vec<Vec<Op>> {
    let counts: Vec<usize> = t.pick(vec![2, 9, 17, 40, 130, 300, 500], (1..40).chain([64, 100, 128, 129, 200, 255, 256, 300, 400, 500, 510]).collect());
    counts
        .into_iter()
        .map(|n| {
            let mut v = vec![Op::Listen];
            for i in 0..n {
                v.push(req_with(&format!("/create-anchor/{:02X}:{:02X}", 0x10 + i / 256, i % 256), Pose::at(i as i16, -3, 7)))
            }
            v.push(Op::Connect);
            v.push(req_with("/set-position/10:00", pose(3)));
            v.push(req_with("/init-uci-device/10:01", pose(4)));
            v.push(Op::Listen);
            v.push(req_with(&format!("/set-position/{:02X}:{:02X}", 0x10 + (n - 1) / 256, (n - 1) % 256), pose(4)));
            v.push(req("/destroy-anchor/10:00"));
            v.push(req_with("/set-position/10:01", pose(2)));
            v
        })
        .collect()
}

/// Requests however their bytes arrive, several on a connection.
fn chunked(c: &Check) {
    let name = "divisions of requests";
    if c.report.violated() {
        return;
    }
    let t0 = Instant::now();
    let body = pose(3).body();
    let reqs: Vec<(Vec<u8>, Vec<Op>)> = {
        let a = |p: &str, b: Option<Pose>| {
            (
                request_bytes(method(p), p, b.map(|b| b.body()).as_deref()),
                match b {
                    Some(b) => req_with(p, b),
                    None => req(p),
                },
            )
        };
        let x = a("/create-anchor/0C:01", Some(pose(3)));
        let y = a("/set-position/0C:01", Some(pose(2)));
        let z = a("/destroy-anchor/0C:01", None);
        let w = a("/set-position/0C:01", Some(pose(1)));
        let chunked = |parts: &[usize]| {
            let mut v = b"POST /create-anchor/0C:01 HTTP/1.1\r\nhost: pica\r\ntransfer-encoding: chunked\r\n\r\n".to_vec();
            let mut at = 0;
            for n in parts.iter().copied().chain([usize::MAX]) {
                let e = (at + n.min(body.len() - at)).min(body.len());
                if e > at {
                    v.extend(format!("{:x}\r\n", e - at).bytes());
                    v.extend(&body[at..e]);
                    v.extend(b"\r\n");
                }
                at = e;
            }
            v.extend(b"0\r\n\r\n");
            v
        };
        vec![
            (x.0.clone(), vec![x.1.clone()]),
            ([x.0.clone(), y.0.clone()].concat(), vec![x.1.clone(), y.1.clone()]),
            ([x.0.clone(), z.0.clone(), w.0.clone()].concat(), vec![x.1.clone(), z.1.clone(), w.1.clone()]),
            (chunked(&[]), vec![x.1.clone()]),
            (chunked(&[1, 2, 3]), vec![x.1.clone()]),
        ]
    };
    let mut cases: Vec<(usize, Vec<usize>)> = vec![];
    for (i, (b, _)) in reqs.iter().enumerate() {
        for k in 1..b.len() {
            cases.push((i, vec![k]));
            cases.push((i, (1..b.len()).filter(|p| p % k == 0).collect()));
        }
        if c.tier == Tier::Thorough {
            for k in 1..b.len() {
                for l in k + 1..b.len() {
                    cases.push((i, vec![k, l]))
                }
            }
        }
    }
    let cases = Arc::new(cases);
    let reqs = Arc::new(reqs);
    let (n, all) = for_all(c.threads, cases.len(), c.deadline, |i| {
        let (cs, reqs, consts) = (cases.clone(), reqs.clone(), c.consts.clone());
        let bad = run(Server::Http, move |net| {
            let (r, cuts) = &cs[i];
            let (bytes, ops) = &reqs[*r];
            let go = || -> Result<(), String> {
                let mut t = Twin::new(net, consts)?;
                t.apply(&Op::Listen)?;
                let mut at = 0;
                for cut in cuts.iter().copied().chain([bytes.len()]) {
                    t.web.peer.feed(&bytes[at..cut]);
                    at = cut;
                    t.net.settle();
                }
                for o in ops {
                    let st = t.m.step(o);
                    for d in &mut t.due {
                        d.extend(st.blocks.iter().cloned())
                    }
                    let r = t.web.response()?.ok_or("no response")?;
                    if !st.status.contains(&r.status) {
                        return Err(format!("{o:?}: status {}", r.status));
                    }
                }
                t.compare()?;
                let b = t.get_state()?;
                same_scene(&b, &t.m.scene)
            };
            go().err()
        });
        c.report.add(0, 0, 1);
        if let Some(b) = bad {
            c.report.violation(Violation {
                what: format!("[{name}] {:?} of request {}: {b}", cases[i].1, cases[i].0),
                replay: json!({"kind": "none"}),
            });
            return false;
        }
        true
    });
    c.scenario(name, "5 request streams, divided at every byte and in chunks of every size", cases.len() as u64, n as u64, all, t0);
}

/// Requests that break off: the server goes on for everybody else.
fn broken(c: &Check) {
    let name = "broken requests";
    if c.report.violated() {
        return;
    }
    let t0 = Instant::now();
    let mut cases: Vec<(Vec<u8>, bool)> = vec![];
    let x = request_bytes("POST", "/create-anchor/0C:09", Some(&pose(3).body()));
    for n in 0..x.len() {
        cases.push((x[..n].to_vec(), true));
        cases.push((x[..n].to_vec(), false));
    }
    let head = b"POST /create-anchor/0C:09 HTTP/1.1\r\nhost: pica\r\ntransfer-encoding: chunked\r\n\r\n".to_vec();
    for tail in ["zz\r\n", "5\r\nabc", "-1\r\n\r\n", "5\r\nabcdefgh\r\n", "ffffffffffffffffff\r\n", "\r\n", "3\r\nabc\r\nq\r\n"] {
        for close in [false, true] {
            cases.push(([head.clone(), tail.into()].concat(), close))
        }
    }
    for s in [
        "\r\n\r\n", "GET\r\n\r\n", "GET / HTTP/9.9\r\n\r\n", "GET /\u{e9} HTTP/1.1\r\n\r\n", "\u{0}\u{1}\u{2}", "GET /create-anchor/\u{ff}\u{fe} HTTP/1.1\r\n\r\n",
        "POST /create-anchor/0C:09 HTTP/1.1\r\ncontent-length: -1\r\n\r\n", "POST /set-position/0C:01 HTTP/1.1\r\ncontent-length: 99999999999999999999\r\n\r\n",
        "POST /set-position/0C:01 HTTP/1.1\r\ncontent-length: 5\r\ncontent-length: 6\r\n\r\nabcdef", "PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n", "OPTIONS * HTTP/1.1\r\nhost: a\r\n\r\n",
        "GET create-anchor HTTP/1.1\r\n\r\n", "GET http://x/get-state HTTP/1.1\r\n\r\n",
    ] {
        for close in [false, true] {
            cases.push((s.as_bytes().to_vec(), close))
        }
    }
    let cases = Arc::new(cases);
    let (n, all) = for_all(c.threads, cases.len(), c.deadline, |i| {
        let (cs, consts) = (cases.clone(), c.consts.clone());
        let bad = run(Server::Http, move |net| {
            let go = || -> Result<(), String> {
                let mut t = Twin::new(net, consts)?;
                for o in [Op::Listen, Op::Connect, req_with("/create-anchor/0C:01", pose(1))] {
                    t.apply(&o)?
                }
                let w = Web::open().ok_or("the server does not listen for HTTP")?;
                w.peer.feed(&cs[i].0);
                t.net.settle();
                if cs[i].1 {
                    w.peer.close();
                    t.net.settle();
                }
                for o in [req_with("/set-position/0C:01", pose(2)), Op::Connect, Op::Close(0), req("/destroy-anchor/0C:01"), req("/create-anchor/0C:09")] {
                    t.apply(&o)?
                }
                Ok(())
            };
            go().err()
        });
        c.report.add(0, 0, 1);
        if let Some(b) = bad {
            c.report.violation(Violation {
                what: format!("[{name}] after {:?}{}: {b}", String::from_utf8_lossy(&cases[i].0), if cases[i].1 { ", closed" } else { "" }),
                replay: json!({"kind": "none"}),
            });
            return false;
        }
        true
    });
    c.scenario(name, "a request broken off after every byte, malformed chunks, headers and lines", cases.len() as u64, n as u64, all, t0);
}

pub fn c18(c: &Check) {
    let t = c.tier;
    c.lists("single requests", "routes x addresses x bodies", &single_requests(t), true);
    broken(c);
    chunked(c);
    c.lists("many devices", "updates among up to 510 devices", &many_devices(t), false);
    c.tree("sequences, one listener", &[Op::Connect, Op::Listen], t.pick(3, 4), &|m| alphabet(m, 2, 2));
    c.tree("sequences, no listener", &[], t.pick(3, 4), &|m| alphabet(m, 1, 0));
    c.graph("states", &[Op::Listen], t.pick(3000, 30000), &|m| alphabet(m, 2, 2));
}

/// Sessions of two hosts that measure anchors and each other.
fn ranging_setup() -> Vec<Op> {
    let ctl = C::new(1, 1, &A, &[&X, &Y, &B]);
    let cee = C::new(0, 0, &B, &[&A, &X]);
    let mut v = vec![Op::Connect, Op::Connect];
    v.push(req_with("/init-uci-device/00:00", pose(1)));
    v.push(req_with("/init-uci-device/00:01", pose(2)));
    for (h, c) in [(0, ctl), (1, cee)] {
        v.extend([Op::Packet(h, reset()), Op::Packet(h, init(1, 0)), Op::Packet(h, c.set(1)), Op::Packet(h, start(1))])
    }
    v
}

fn ranging_ops(m: &Model) -> Vec<Op> {
    let mut v = vec![
        req_with("/create-anchor/0C:01", pose(3)),
        req("/create-anchor/0C:01"),
        req_with("/create-anchor/0C:02", pose(4)),
        req("/destroy-anchor/0C:01"),
        req("/destroy-anchor/0C:02"),
        req_with("/set-position/0C:01", pose(5)),
        req_with("/set-position/00:00", pose(0)),
        req_with("/set-position/00:00", Pose::new(100, -200, 310, 45, 30, -60)),
        req_with("/set-position/00:01", Pose::new(-400, 37, -120, -90, -10, 20)),
    ];
    for h in 0..2 {
        if !m.gone.contains(&h) {
            v.push(Op::Close(h));
            v.push(Op::Packet(h, stop(1)));
            v.push(Op::Packet(h, start(1)));
        }
    }
    // No two devices at one place.
    v.retain(|o| {
        let mut n = m.clone();
        n.step(o);
        let p: HashSet<Pose> = n.scene.values().map(|i| i.pose).collect();
        p.len() == n.scene.len() && n.scene.values().all(|a| n.scene.values().all(|b| a == b || unique(&a.pose, &b.pose).is_some()))
    });
    v
}

fn with_rounds(lists: Vec<Vec<Op>>, setup: usize) -> Vec<Vec<Op>> {
    lists
        .into_iter()
        .map(|l| {
            let mut v = l[..setup].to_vec();
            for o in &l[setup..] {
                v.push(o.clone());
                v.push(Op::Advance(100));
            }
            v
        })
        .collect()
}

fn sequences(c: &Check, setup: &[Op], depth: usize, ops: &dyn Fn(&Model) -> Vec<Op>) -> Vec<Vec<Op>> {
    let mut m = Model::new(c.consts.clone());
    for o in setup {
        m.step(o);
    }
    let mut level = vec![(m, setup.to_vec())];
    for _ in 0..depth {
        let mut next = vec![];
        for (m, p) in level {
            for o in ops(&m) {
                let (mut m, mut p) = (m.clone(), p.clone());
                m.step(&o);
                p.push(o);
                next.push((m, p))
            }
        }
        level = next;
    }
    level.into_iter().map(|l| l.1).collect()
}

/// Many hosts that connect at once, stay, or hang up at once.
fn bursts(c: &Check) {
    let name = "bursts of connections";
    if c.report.violated() {
        return;
    }
    let t0 = Instant::now();
    let counts: Vec<usize> = c.tier.pick(
        vec![1, 2, 3, 4, 5, 8, 15, 16, 17, 31, 32, 33, 64, 127, 128, 129, 254, 255, 256, 600, 1019, 1020, 1021, 1100],
        (1..140).chain([254, 255, 256, 257, 511, 512, 513, 1019, 1020, 1021, 1022, 1023, 1024, 1025, 1100, 2100]).collect(),
    );
    let mut cases = vec![];
    for n in counts {
        for listeners in 0..2 {
            for hang_up in 0..3 {
                cases.push((n, listeners, hang_up))
            }
        }
    }
    let (n, all) = for_all(c.threads, cases.len(), c.deadline, |i| {
        let (k, listeners, hang_up) = cases[i];
        let consts = c.consts.clone();
        let bad = run(Server::Http, move |net| {
            let go = || -> Result<(), String> {
                let mut t = Twin::new(net, consts)?;
                t.watch = false;
                for _ in 0..listeners {
                    t.apply(&Op::Listen)?
                }
                // All at once.
                for _ in 0..k {
                    t.act(&Op::Connect)?
                }
                if hang_up == 2 {
                    for h in 0..k {
                        t.act(&Op::Close(h))?
                    }
                }
                t.net.settle();
                if hang_up == 1 {
                    t.act(&Op::Req { path: "/create-anchor/0C:01".into(), body: None })?;
                    for h in 0..k {
                        t.act(&Op::Close(h))?
                    }
                    t.net.settle();
                }
                if let Some(b) = t.net.broken() {
                    return Err(b);
                }
                // Events in the order of the controller, or in any other when
                // hosts hang up right away.
                let mut blocks = vec![];
                for _ in 0..k {
                    blocks.extend(t.m.step(&Op::Connect).blocks)
                }
                if hang_up == 1 {
                    let r = t.web.only()?;
                    if r.status != 200 {
                        return Err(format!("create-anchor: {}", r.status));
                    }
                    t.m.step(&req("/create-anchor/0C:01"));
                }
                let mut left = vec![];
                if hang_up > 0 {
                    for h in 0..k {
                        left.extend(t.m.step(&Op::Close(h)).blocks)
                    }
                }
                // The stream of a listener is cut when it cannot keep up with
                // more than its backlog.
                let over = 2 * k + 1 > 1024;
                let b = t.get_state()?;
                same_scene(&b, &t.m.scene)?;
                for l in t.listeners.iter_mut().flatten() {
                    if over {
                        continue;
                    }
                    let ev = l.events()?;
                    if hang_up == 0 {
                        let n = consume_events(&blocks, &ev)?;
                        if n != ev.len() {
                            return Err(format!("unexpected event {:?}", ev[n]));
                        }
                    } else {
                        let want = 2 * k + (hang_up == 1) as usize;
                        let n = |s: &str| ev.iter().filter(|e| e.0 == s).count();
                        if ev.len() != want || n("device-removed") != k {
                            return Err(format!("{} events instead of {want}", ev.len()));
                        }
                        let mut live: HashSet<String> = HashSet::new();
                        for e in &ev {
                            let mac = e.1["mac_address"].as_str().unwrap_or("").to_string();
                            if !(if e.0 == "device-added" { live.insert(mac) } else { live.remove(&mac) }) {
                                return Err(format!("event {e:?} out of order"));
                            }
                        }
                    }
                }
                t.exp.clear();
                t.net.hosts.iter_mut().for_each(|h| {
                    h.take();
                });
                t.listeners.clear();
                t.due.clear();
                for o in [Op::Listen, req_with("/create-anchor/0C:02", pose(1)), Op::Connect, req_with("/set-position/0C:02", pose(2)), Op::Close(k), req("/destroy-anchor/0C:02")] {
                    // An update announces more than a listener's backlog.
                    let many = t.m.scene.len() > 500;
                    if many && matches!(&o, Op::Req { path, .. } if path.starts_with("/set-position")) {
                        continue;
                    }
                    t.watch = true;
                    t.apply(&o)?
                }
                Ok(())
            };
            go().err()
        });
        c.report.add(0, 0, 1);
        if let Some(b) = bad {
            c.report.violation(Violation {
                what: format!("[{name}] {k} hosts, {listeners} listeners, {}: {b}", ["stay", "hang up later", "hang up at once"][hang_up]),
                replay: json!({"kind": "none"}),
            });
            return false;
        }
        true
    });
    c.scenario(name, "1 to 1100 (thorough: 2100) hosts at once, staying or hanging up", cases.len() as u64, n as u64, all, t0);
}

type SCase = crate::websched::Case;

/// Groups of concurrent operations with what is there before.
fn schedule_cases() -> Vec<(&'static str, SCase)> {
    let cx = || req_with("/create-anchor/0C:01", pose(1));
    let cx2 = || req_with("/create-anchor/0C:01", pose(2));
    let dx = || req("/destroy-anchor/0C:01");
    let sx = || req_with("/set-position/0C:01", pose(3));
    let cy = || req_with("/create-anchor/0C:02", pose(4));
    let s0 = || req_with("/set-position/00:00", pose(5));
    let c0 = || req_with("/create-anchor/00:01", pose(2));
    let d0 = || req("/destroy-anchor/00:00");
    let st = || req("/get-state");
    let probes = vec![
        sx(), s0(), Op::Connect, st(), dx(), dx(), cx(), req("/destroy-anchor/0C:02"), cy(), req("/destroy-anchor/00:01"), Op::Connect, st(),
    ];
    let mut v: Vec<(&'static str, SCase)> = vec![];
    let mut add = |name, setup: Vec<Op>, ops: Vec<Op>| v.push((name, SCase { setup, ops: ops.into_iter().map(|o| (o, false)).collect(), probes: probes.clone() }));
    let l = || Op::Listen;
    let c = || Op::Connect;
    add("two creates", vec![l()], vec![cx(), cx2()]);
    add("create and destroy", vec![l()], vec![cx(), dx()]);
    add("destroy and create", vec![l(), cx()], vec![cx2(), dx()]);
    add("create, destroy, set", vec![l()], vec![cx(), dx(), sx()]);
    add("destroy, create, set", vec![l(), cx()], vec![dx(), cx2(), sx()]);
    add("two destroys", vec![l(), cx()], vec![dx(), dx()]);
    add("creates of two", vec![l()], vec![cx(), cy(), st()]);
    add("connect and create", vec![l()], vec![c(), cx()]);
    add("connect, create, same address", vec![l(), c()], vec![c(), c0()]);
    add("connect, state", vec![], vec![c(), st(), c()]);
    add("connect, set", vec![l()], vec![c(), s0(), st()]);
    add("close, set", vec![l(), c(), cx()], vec![Op::Close(0), s0(), st()]);
    add("close, create, same address", vec![l(), c()], vec![Op::Close(0), req("/create-anchor/00:00")]);
    add("close and destroy", vec![l(), c(), cx()], vec![Op::Close(0), dx(), d0()]);
    add("two closes, connect", vec![c(), c()], vec![Op::Close(0), Op::Close(1), c()]);
    add("close and connect", vec![l(), c()], vec![Op::Close(0), c(), cx()]);
    add("sets", vec![l(), cx(), c()], vec![sx(), s0(), req_with("/set-position/0C:01", pose(4))]);
    add("two listeners", vec![l(), l(), cx()], vec![sx(), dx(), c()]);
    add("no listener", vec![cx()], vec![sx(), dx(), cx2()]);
    // Clients that hang up.
    let mut gone = |name, setup: Vec<Op>, ops: Vec<(Op, bool)>| v.push((name, SCase { setup, ops, probes: probes.clone() }));
    gone("abandoned create", vec![l()], vec![(cx(), true)]);
    gone("abandoned destroy", vec![l(), cx()], vec![(dx(), true)]);
    gone("abandoned set", vec![l(), cx(), c()], vec![(sx(), true)]);
    gone("abandoned create and destroy", vec![l()], vec![(cx(), true), (dx(), true)]);
    gone("abandoned create, create", vec![l()], vec![(cx(), true), (cx2(), false)]);
    gone("abandoned destroy, create", vec![l(), cx()], vec![(dx(), true), (cx2(), false)]);
    gone("abandoned create, connect", vec![l()], vec![(c0(), true), (c(), false), (c(), false)]);
    gone("brief host", vec![l()], vec![(c(), true)]);
    gone("brief hosts", vec![l(), cx()], vec![(c(), true), (c(), true)]);
    v
}

fn schedules(c: &Check, deviations: &dyn Fn(&SCase) -> usize) {
    for (name, case) in schedule_cases() {
        if c.report.violated() {
            return;
        }
        let t0 = Instant::now();
        let b = Bounds { max_deviations: deviations(&case), max_executions: u64::MAX, deadline: c.deadline };
        let e = explore(c.threads, &b, |ch| {
            let forced = ch.forced().clone();
            let (ch, o) = crate::websched::execute(&c.consts, &case, Some(ch));
            c.report.add(0, o.polls, 1);
            c.report.count("linearization_steps", o.steps);
            let ok = o.bad.is_none();
            if let Some(b) = o.bad {
                c.report.violation(Violation {
                    what: format!("[schedules: {name}] {b}"),
                    replay: json!({"kind": "websched", "case": case, "choices": forced}),
                })
            }
            (ch.unwrap(), ok)
        });
        c.report.count("choice_points", e.choice_points);
        let bound = format!("{} concurrent operations, {} deviations", case.ops.len(), b.max_deviations);
        c.scenario(&format!("schedules: {name}"), &bound, 1, e.executions, e.exhaustive, t0);
    }
}

pub fn c17(c: &Check) {
    let t = c.tier;
    bursts(c);
    let setup = ranging_setup();
    let lists = with_rounds(sequences(c, &setup, t.pick(3, 4), &ranging_ops), setup.len());
    c.lists("sequences with ranging", &format!("all sequences of {} of up to 15 operations, a round after each", t.pick(3, 4)), &lists, true);
    c.graph("states", &[], t.pick(3000, 20000), &|m| alphabet(m, 3, 1));
    schedules(c, &|s| {
        if s.ops.len() <= 2 {
            t.pick(4, 7)
        } else {
            // Every listener multiplies the schedules.
            t.pick(3, 5) - (s.setup.iter().filter(|o| **o == Op::Listen).count() > 1) as usize
        }
    });
}

pub fn constants() -> Arc<Constants> {
    crate::uci::learn()
}

/// What the real server sends for every list of operations of a file: the
/// events and the state after each operation, and the files of the page.
pub fn transcripts(input: &str, output: &str) {
    let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(input).unwrap()).unwrap();
    let lists: Vec<Vec<Op>> = serde_json::from_value(v["lists"].clone()).unwrap();
    let paths: Vec<String> = serde_json::from_value(v["files"].clone()).unwrap();
    let consts = constants();
    let one = |ops: Vec<Op>, paths: Vec<String>| {
        let consts = consts.clone();
        run(Server::Http, move |n| {
            let mut steps = vec![];
            let mut files = serde_json::Map::new();
            let bad = (|| {
                let mut t = Twin::new(n, consts)?;
                t.act(&Op::Listen)?;
                t.net.settle();
                let mut listen = |t: &mut Twin| match &mut t.listeners[0] {
                    Some(w) => w.events(),
                    None => Ok(vec![]),
                };
                listen(&mut t)?;
                for p in &paths {
                    t.web.send(p, None);
                    t.net.settle();
                    let r = t.web.only()?;
                    if r.status == 200 {
                        files.insert(p.clone(), String::from_utf8_lossy(&r.body).into());
                    }
                }
                for o in &ops {
                    t.act(o)?;
                    t.net.settle();
                    if let Op::Req { .. } = o {
                        t.web.only()?;
                    }
                    let events: Vec<_> = listen(&mut t)?.into_iter().map(|(n, d)| json!([n, d.to_string()])).collect();
                    let state = String::from_utf8_lossy(&t.get_state()?).to_string();
                    steps.push(json!({"events": events, "state": state}));
                    t.net.broken().map_or(Ok(()), Err)?
                }
                Ok::<(), String>(())
            })();
            (steps, files, bad.err())
        })
    };
    let (_, files, _) = one(vec![], paths);
    let results = std::sync::Mutex::new(vec![serde_json::Value::Null; lists.len()]);
    for_all(crate::threads(), lists.len(), None, |i| {
        let (steps, _, error) = one(lists[i].clone(), vec![]);
        results.lock().unwrap()[i] = json!({"steps": steps, "error": error});
        true
    });
    let all = json!({"files": files, "transcripts": results.into_inner().unwrap()});
    std::fs::write(output, all.to_string()).unwrap();
}
