//! Concurrent requests, connections and closes under every schedule up to a
//! number of deviations. An execution is accepted when the effects of the
//! operations on the controller and on the scene can be put in an order that
//! explains every response, every event and the final state.
use crate::http::*;
use crate::model::*;
use crate::msg::*;
use crate::net::*;
use crate::scene::*;
use mc_common::Chooser;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::BTreeSet;
use std::rc::Rc;
use std::sync::Arc;
use tokio::mc;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub setup: Vec<Op>,
    /// Concurrent operations; requests on connections of their own. With the
    /// flag, the client hangs up instead of waiting for the response.
    pub ops: Vec<(Op, bool)>,
    pub probes: Vec<Op>,
}

struct Yield(bool);
impl std::future::Future for Yield {
    type Output = ();
    fn poll(mut self: std::pin::Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> std::task::Poll<()> {
        if self.0 {
            return std::task::Poll::Ready(());
        }
        self.0 = true;
        cx.waker().wake_by_ref();
        std::task::Poll::Pending
    }
}

/// What was seen of one operation.
#[derive(Default, Debug)]
struct Seen {
    response: Option<Response>,
    abandoned: bool,
}

#[derive(Clone)]
struct Node {
    world: World,
    scene: Scene,
    /// 0: nothing, 1: done in the controller, 2: done.
    phase: Vec<u8>,
    /// The scene effect of the operation, once in the controller.
    pending: Vec<Option<(usize, Item)>>,
    at: usize,
    hosts: usize,
}

struct Search<'a> {
    ops: &'a [(Op, bool)],
    seen: &'a [Seen],
    events: Option<&'a [Ev]>,
    last_state: &'a [u8],
    found: Vec<Node>,
    /// The furthest contradiction.
    why: (usize, String),
    steps: u64,
}

impl Search<'_> {
    fn fails(&mut self, n: &Node, why: String) {
        let k = n.phase.iter().map(|p| *p as usize).sum();
        if k >= self.why.0 {
            self.why = (k, why)
        }
    }

    fn status(&self, i: usize, s: u16) -> bool {
        self.seen[i].response.as_ref().map_or(self.seen[i].abandoned, |r| r.status == s)
    }

    /// The events of a step.
    fn emit(&mut self, n: &mut Node, blocks: &[Block]) -> bool {
        let Some(ev) = self.events else { return true };
        match consume_events(blocks, &ev[n.at..]) {
            Ok(k) => {
                n.at += k;
                true
            }
            Err(e) => {
                self.fails(n, e);
                false
            }
        }
    }

    fn go(&mut self, n: &Node) {
        self.steps += 1;
        if n.phase.iter().all(|p| *p == 2) {
            if self.events.is_some_and(|e| e.len() != n.at) {
                return self.fails(n, format!("unexpected event {:?}", self.events.unwrap()[n.at]));
            }
            if let Err(e) = same_scene(self.last_state, &n.scene) {
                return self.fails(n, e);
            }
            // The scene is the live devices and anchors.
            let mut live: BTreeSet<(usize, Vec<u8>, bool)> = BTreeSet::new();
            live.extend(n.world.devs.values().map(|d| (d.handle, d.mac.clone(), true)));
            live.extend(n.world.anchors.iter().map(|(m, h)| (*h, m.clone(), false)));
            let scene: BTreeSet<_> = n.scene.iter().map(|(h, i)| (*h, i.mac.clone(), i.uci)).collect();
            if live != scene {
                return self.fails(n, format!("live devices and anchors: {live:?}, scene: {scene:?}"));
            }
            self.found.push(n.clone());
            return;
        }
        for i in 0..self.ops.len() {
            if n.phase[i] == 2 || !self.found.is_empty() {
                continue;
            }
            let (op, abandoned) = &self.ops[i];
            // An abandoned request need not happen.
            if *abandoned && n.phase[i] == 0 && self.seen[i].response.is_none() {
                let mut m = n.clone();
                m.phase[i] = 2;
                self.go(&m);
            }
            let mut m = n.clone();
            match op {
                Op::Connect if n.phase[i] == 0 => {
                    let host = m.hosts + self.ops[..i].iter().filter(|o| o.0 == Op::Connect).count();
                    if let Some(Event::Connected { handle, mac }) = m.world.connect(host).event {
                        m.pending[i] = Some((handle, Item { uci: true, mac, pose: Default::default() }))
                    }
                    m.phase[i] = 1;
                    self.go(&m)
                }
                Op::Close(h) if n.phase[i] == 0 => {
                    if let Some(Event::Disconnected { handle, mac }) = m.world.disconnect(*h).event {
                        m.pending[i] = Some((handle, Item { uci: true, mac, pose: Default::default() }))
                    }
                    m.phase[i] = 1;
                    self.go(&m)
                }
                Op::Close(_) => {
                    let (h, item) = m.pending[i].take().unwrap();
                    m.scene.remove(&h);
                    m.phase[i] = 2;
                    if self.emit(&mut m, &[Block::Removed(item)]) {
                        self.go(&m)
                    }
                }
                Op::Connect => {
                    let (h, item) = m.pending[i].take().unwrap();
                    m.scene.insert(h, item.clone());
                    m.phase[i] = 2;
                    if self.emit(&mut m, &[Block::Added(item)]) {
                        self.go(&m)
                    }
                }
                Op::Req { path, body } => match request(path, body.as_deref()).0 {
                    Request::Set(mac, pose) => {
                        m.phase[i] = 2;
                        let b = update(&mut m.scene, &mac, pose);
                        if !self.status(i, if b.is_some() { 200 } else { 404 }) {
                            self.fails(n, format!("{path}: {:?}", self.seen[i]));
                        } else if self.emit(&mut m, &b.unwrap_or_default()) {
                            self.go(&m)
                        }
                    }
                    Request::State => {
                        m.phase[i] = 2;
                        let ok = match &self.seen[i].response {
                            None => self.seen[i].abandoned,
                            Some(r) => match same_scene(&r.body, &m.scene) {
                                Ok(()) => true,
                                Err(e) => {
                                    self.fails(n, e);
                                    false
                                }
                            },
                        };
                        if ok {
                            self.go(&m)
                        }
                    }
                    Request::Create(mac, pose) if n.phase[i] == 0 => {
                        let h = m.world.create_anchor(&mac).anchor.flatten();
                        if !self.status(i, if h.is_some() { 200 } else { 409 }) {
                            self.fails(n, format!("{path}: {:?}", self.seen[i]));
                        } else {
                            m.pending[i] = h.map(|h| (h, Item { uci: false, mac, pose }));
                            m.phase[i] = if h.is_some() { 1 } else { 2 };
                            self.go(&m)
                        }
                    }
                    Request::Create(..) => {
                        let (h, item) = m.pending[i].take().unwrap();
                        m.scene.insert(h, item.clone());
                        m.phase[i] = 2;
                        if self.emit(&mut m, &[Block::Added(item)]) {
                            self.go(&m)
                        }
                    }
                    Request::Destroy(mac) if n.phase[i] == 0 => {
                        let h = m.world.destroy_anchor(&mac).anchor.flatten();
                        if !self.status(i, if h.is_some() { 200 } else { 404 }) {
                            self.fails(n, format!("{path}: {:?}", self.seen[i]));
                        } else {
                            m.pending[i] = h.map(|h| (h, Item { uci: false, mac, pose: Default::default() }));
                            m.phase[i] = if h.is_some() { 1 } else { 2 };
                            self.go(&m)
                        }
                    }
                    Request::Destroy(_) => {
                        let (h, item) = m.pending[i].take().unwrap();
                        m.scene.remove(&h);
                        m.phase[i] = 2;
                        if self.emit(&mut m, &[Block::Removed(item)]) {
                            self.go(&m)
                        }
                    }
                    _ => {
                        m.phase[i] = 2;
                        self.go(&m)
                    }
                },
                _ => {
                    m.phase[i] = 2;
                    self.go(&m)
                }
            }
        }
    }
}

pub struct Outcome {
    pub bad: Option<String>,
    pub polls: u64,
    pub steps: u64,
}

pub fn execute(consts: &Arc<Constants>, case: &Case, chooser: Option<Chooser>) -> (Option<Chooser>, Outcome) {
    let (consts, case) = (consts.clone(), case.clone());
    run(Server::Http, move |net| {
        let chooser = Rc::new(RefCell::new(chooser));
        let mut steps = 0;
        let bad = body(net, consts, &case, &chooser, &mut steps).err();
        let polls = mc::stats().polls;
        let c = chooser.borrow_mut().take();
        (c, Outcome { bad, polls, steps })
    })
}

fn body(net: &mut Net, consts: Arc<Constants>, case: &Case, chooser: &Rc<RefCell<Option<Chooser>>>, steps: &mut u64) -> Result<(), String> {
    let mut t = Twin::new(net, consts)?;
    for o in &case.setup {
        t.apply(o)?
    }
    // The clients, each a task that the schedule places anywhere.
    let mut webs: Vec<Option<Rc<RefCell<Web>>>> = vec![];
    let mut plain: Vec<Option<Peer0>> = vec![];
    for (op, _) in &case.ops {
        let mut web = None;
        let mut peer = None;
        match op {
            Op::Req { .. } => web = Some(Rc::new(RefCell::new(Web::open().ok_or("the server does not listen for HTTP")?))),
            Op::Connect => peer = Some(Rc::new(RefCell::new(None))),
            _ => (),
        }
        webs.push(web);
        plain.push(peer);
    }
    t.net.settle();
    if chooser.borrow().is_some() {
        let c = chooser.clone();
        mc::arm(Box::new(move |k| c.borrow_mut().as_mut().unwrap().choose(k.len())), true, false);
    }
    for (i, (op, abandon)) in case.ops.iter().enumerate() {
        let abandon = *abandon;
        match op {
            Op::Req { path, body } => {
                let (w, path, body) = (webs[i].clone().unwrap(), path.clone(), body.clone());
                mc::spawn_raw(
                    "client",
                    Box::pin(async move {
                        w.borrow().send(&path, body.as_deref().map(|b| b.as_bytes()));
                        if abandon {
                            Yield(false).await;
                            w.borrow().peer.close()
                        }
                    }),
                );
            }
            Op::Connect => {
                let p = plain[i].clone().unwrap();
                mc::spawn_raw(
                    "client",
                    Box::pin(async move {
                        *p.borrow_mut() = tokio::net::host_connect(UCI_PORT);
                        if abandon {
                            if let Some(p) = &*p.borrow() {
                                p.close()
                            }
                        }
                    }),
                );
            }
            Op::Close(h) => {
                let p = t.net.hosts[*h].peer.clone();
                mc::spawn_raw("client", Box::pin(async move { p.close() }));
            }
            _ => return Err("harness: operation in a schedule".into()),
        }
    }
    t.net.settle();
    mc::disarm();
    if let Some(b) = t.net.broken() {
        return Err(b);
    }
    let mut seen = vec![];
    for (i, (op, abandon)) in case.ops.iter().enumerate() {
        let mut s = Seen { abandoned: *abandon, ..Default::default() };
        if let Some(w) = &webs[i] {
            let mut w = w.borrow_mut();
            s.response = w.response().map_err(|e| format!("{op:?}: {e}"))?;
            if s.response.is_none() && !abandon {
                return Err(format!("{op:?}: no response"));
            }
        }
        seen.push(s);
    }
    let mut streams = vec![];
    for (i, l) in t.listeners.iter_mut().enumerate() {
        if let Some(w) = l {
            streams.push(w.events().map_err(|e| format!("listener {i}: {e}"))?);
        }
    }
    if streams.windows(2).any(|w| w[0] != w[1]) {
        return Err(format!("listeners received different events: {streams:?}"));
    }
    let last = t.get_state()?;
    // Connections that were opened and closed: two operations.
    let mut ops: Vec<(Op, bool)> = vec![];
    let mut seen2 = vec![];
    let mut brief = vec![];
    for ((op, abandon), s) in case.ops.iter().zip(seen) {
        if *op == Op::Connect && *abandon {
            brief.push(ops.len());
            ops.push((Op::Connect, false));
        } else {
            ops.push((op.clone(), *abandon));
        }
        seen2.push(s);
    }
    let start = Node {
        world: t.m.world.clone(),
        scene: t.m.scene.clone(),
        phase: vec![0; ops.len()],
        pending: vec![None; ops.len()],
        at: 0,
        hosts: t.m.hosts,
    };
    if !brief.is_empty() {
        return brief_only(&mut t, case, streams, &last);
    }
    let mut s = Search {
        ops: &ops,
        seen: &seen2,
        events: streams.first().map(|e| &e[..]),
        last_state: &last,
        found: vec![],
        why: (0, "nothing".into()),
        steps: 0,
    };
    s.go(&start);
    *steps += s.steps;
    let why = s.why.1.clone();
    let Some(end) = s.found.into_iter().next() else {
        return Err(format!(
            "no order of {:?} explains responses {:?}, events {:?} and state {}; the closest: {why}",
            case.ops,
            seen2.iter().map(|s| s.response.as_ref().map(|r| r.status)).collect::<Vec<_>>(),
            streams.first(),
            String::from_utf8_lossy(&last)
        ));
    };
    t.m.world = end.world;
    t.m.scene = end.scene;
    for ((op, _), p) in case.ops.iter().zip(plain) {
        match op {
            Op::Close(h) => {
                t.m.gone.insert(*h);
            }
            Op::Connect => {
                let peer = p.unwrap().borrow_mut().take().ok_or("the server does not listen for hosts")?;
                t.net.hosts.push(Host { peer, buf: vec![], asm: Default::default() });
                t.exp.entry(t.m.hosts).or_default().push(vec![Msg::dev_ntf(1)]);
                t.m.hosts += 1;
            }
            _ => (),
        }
    }
    t.compare()?;
    for p in &case.probes {
        t.apply(p)?
    }
    Ok(())
}

type Peer0 = Rc<RefCell<Option<tokio::net::Peer>>>;

/// Hosts that connect and hang up: every one comes and goes, nothing remains.
fn brief_only(t: &mut Twin, case: &Case, streams: Vec<Vec<Ev>>, last: &[u8]) -> Result<(), String> {
    same_scene(last, &t.m.scene)?;
    for s in streams {
        let names: Vec<&str> = s.iter().map(|e| e.0.as_str()).collect();
        let n = case.ops.len();
        if names.iter().filter(|e| **e == "device-added").count() != n
            || names.iter().filter(|e| **e == "device-removed").count() != n
            || names.len() != 2 * n
        {
            return Err(format!("{n} hosts came and went, the listener received {names:?}"));
        }
        let mut live = BTreeSet::new();
        for e in &s {
            let mac = e.1["mac_address"].as_str().unwrap_or("").to_string();
            let ok = if e.0 == "device-added" { live.insert(mac) } else { live.remove(&mac) };
            if !ok {
                return Err(format!("event {e:?} in {s:?}"));
            }
        }
    }
    let n = case.ops.len();
    for _ in 0..n {
        let h = t.m.hosts;
        t.m.step(&Op::Connect);
        t.m.step(&Op::Close(h));
        // Hosts of the schedule are not looked at any more.
        t.m.gone.clear();
        t.net.hosts.push(Host { peer: dead(), buf: vec![], asm: Default::default() });
    }
    t.exp.clear();
    for p in &case.probes {
        t.apply(p)?
    }
    Ok(())
}

fn dead() -> tokio::net::Peer {
    tokio::net::Peer(Default::default())
}
