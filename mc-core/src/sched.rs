//! Schedule exploration: batches of concurrent inputs under every schedule up
//! to a number of deviations from the default one. An execution is accepted
//! when the events of each batch can be put in an order in which the model
//! produces exactly what every host observed.
use crate::compare::consume;
use crate::model::*;
use crate::msg::*;
use crate::settled::*;
use mc_common::Chooser;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::hash::{Hash, Hasher};
use std::rc::Rc;
use std::sync::{Arc, Mutex};
use tokio::mc;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum Ticks {
    /// Time passes only when nothing is ready.
    Exact,
    /// Time may pass while tasks are ready (tasks are slow).
    Jump,
    /// Every active session does one round per interval.
    Each,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub struct Batch {
    /// Packets of a host are handled in order; so are anchor requests and
    /// connections. Everything else is concurrent.
    pub ops: Vec<Op>,
    pub advance_ms: u64,
    pub explore: bool,
    pub ticks: Ticks,
    /// The socket of these hosts fails after this many further writes.
    pub fail: Vec<(usize, usize)>,
    /// The order of the inputs does not matter.
    #[serde(default)]
    pub in_order: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Scenario {
    pub setup: Vec<Op>,
    pub batches: Vec<Batch>,
    /// Sessions to probe at the end.
    pub sessions: Vec<u32>,
    /// Common multiple of the intervals (ms).
    pub window: u64,
}

/// What was observed of one batch.
pub struct Seen {
    pub batch: Batch,
    t0: u64,
    t1: u64,
    pub obs: BTreeMap<usize, Vec<Msg>>,
    events: Vec<Event>,
    anchors: Vec<Option<Option<usize>>>,
    closed: BTreeSet<usize>,
    /// Connections that broke in this batch.
    failing: BTreeSet<usize>,
}

pub struct SchedOutcome {
    /// Differences in the set-up, panics, livelocks.
    pub diffs: Vec<crate::compare::Diff>,
    pub start: MState,
    pub seen: Vec<Seen>,
    pub polls: u64,
    pub transcript: Vec<String>,
}

enum Control {
    Connect,
    Create(Vec<u8>),
    Destroy(Vec<u8>),
}

/// Runs the scenario under the schedule chosen by `chooser`.
pub fn execute_sched(consts: &Arc<Constants>, sc: &Scenario, chooser: Chooser) -> (Chooser, SchedOutcome) {
    let consts = consts.clone();
    let sc = sc.clone();
    isolated(move || {
        let mut x = Exec::new(consts, None);
        for o in &sc.setup {
            x.apply(o)
        }
        let start = x.m.clone();
        let chooser = Rc::new(RefCell::new(Some(chooser)));
        let mut seen = vec![];
        let mut diffs: Vec<crate::compare::Diff> = x.diffs.iter().map(|d| d.1.clone()).collect();
        let mut closed: BTreeSet<usize> = start.closed.clone();
        let mut batches = sc.batches.clone();
        let each = Batch { ops: vec![], advance_ms: 2 * sc.window, explore: false, ticks: Ticks::Each, fail: vec![], in_order: false };
        batches.push(each);
        let mut now = start.now;
        let mut probed = false;
        let mut i = 0;
        let mut broken = !diffs.is_empty();
        let mut transcript = vec![];
        while i < batches.len() && !broken {
            let b = batches[i].clone();
            i += 1;
            if b.explore {
                let c = chooser.clone();
                mc::arm(
                    Box::new(move |cands| c.borrow_mut().as_mut().unwrap().choose(cands.len())),
                    true,
                    b.ticks == Ticks::Jump,
                );
            }
            for (h, n) in &b.fail {
                x.sim.hosts[*h].fail_after(*n);
            }
            let mut control = vec![];
            let anchors: Arc<Mutex<Vec<crate::sim::AnchorReply>>> = Default::default();
            for o in &b.ops {
                match o {
                    Op::Connect => control.push(Control::Connect),
                    Op::CreateAnchor(m) => control.push(Control::Create(m.clone())),
                    Op::DestroyAnchor(m) => control.push(Control::Destroy(m.clone())),
                    Op::Feed(h, p) => {
                        for s in segments(p) {
                            x.sim.hosts[*h].feed(&s)
                        }
                    }
                    Op::Segs(h, v) => {
                        for s in v {
                            x.sim.hosts[*h].feed(s)
                        }
                    }
                    Op::Close(h) => {
                        x.sim.hosts[*h].close();
                        closed.insert(*h);
                    }
                    _ => unreachable!(),
                }
            }
            if !control.is_empty() {
                let mut cmds = vec![];
                for c in control {
                    cmds.push(match c {
                        Control::Connect => x.sim.connect_command(),
                        Control::Create(m) => {
                            let (c, r) = x.sim.create_command(&m);
                            anchors.lock().unwrap().push(r);
                            c
                        }
                        Control::Destroy(m) => {
                            let (c, r) = x.sim.destroy_command(&m);
                            anchors.lock().unwrap().push(r);
                            c
                        }
                    })
                }
                let tx = x.sim.tx.clone();
                mc::spawn_raw(
                    "control",
                    Box::pin(async move {
                        for c in cmds {
                            let _ = tx.send(c).await;
                        }
                    }),
                );
            }
            let t0 = now;
            now += b.advance_ms * 1_000_000;
            if mc::run_to(now, MAX_POLLS) == mc::Run::OutOfSteps {
                diffs.push(crate::compare::Diff {
                    tags: ["C01"].into_iter().collect(),
                    what: "the server does not settle".into(),
                });
                broken = true;
            }
            mc::disarm();
            let mut failing = BTreeSet::new();
            for (h, host) in x.sim.hosts.iter().enumerate() {
                if host.failed() && closed.insert(h) {
                    failing.insert(h);
                }
            }
            let mut obs = BTreeMap::new();
            for (h, host) in x.sim.hosts.iter_mut().enumerate() {
                let v: Vec<Msg> = host.take().into_iter().map(|m| m.1).collect();
                if !v.is_empty() {
                    transcript.push(format!("  {:>8} host {h}: {v:?}", now / 1_000_000));
                }
                obs.insert(h, v);
                if !host.asm.errors.is_empty() && !broken {
                    diffs.push(crate::compare::Diff {
                        tags: ["C12"].into_iter().collect(),
                        what: host.asm.errors.join("; "),
                    });
                    broken = true;
                }
            }
            let anchors = anchors
                .lock()
                .unwrap()
                .iter_mut()
                .map(|r| match r.try_recv() {
                    Ok(Ok(h)) => Some(Some(h)),
                    Ok(Err(_)) => Some(None),
                    Err(_) => None,
                })
                .collect();
            let events = x.sim.take_events();
            transcript.push(format!("  {:>8} {:?} events {events:?} anchors {anchors:?}", now / 1_000_000, b.ops));
            seen.push(Seen { batch: b, t0, t1: now, obs, events, anchors, closed: closed.clone(), failing });
            if i == batches.len() && !probed {
                probed = true;
                let mut ops = vec![];
                for h in 0..x.sim.hosts.len() {
                    if closed.contains(&h) {
                        continue;
                    }
                    ops.push(Op::Feed(h, get_dev_cfg(&[0, 1])));
                    ops.push(Op::Feed(h, get_count()));
                    for s in &sc.sessions {
                        ops.push(Op::Feed(h, get_state(*s)));
                        ops.push(Op::Feed(h, ranging_count(*s)));
                        ops.push(Op::Feed(h, get_cfg(*s, &[crate::cfg::NCTRL, crate::cfg::DST_MAC])));
                    }
                }
                ops.push(Op::Connect);
                batches.push(Batch { ops, advance_ms: 0, explore: false, ticks: Ticks::Each, fail: vec![], in_order: true });
            }
        }
        let p = mc::panics();
        if !p.is_empty() {
            let mut t: crate::compare::Tags = ["C01"].into_iter().collect();
            if p.iter().all(|x| x.1 != "pica") {
                t.insert("C14");
            }
            diffs.push(crate::compare::Diff {
                tags: t,
                what: p.iter().map(|x| format!("panic: {}: {}", x.1, x.2)).collect::<Vec<_>>().join("; "),
            });
        } else if mc::is_done(x.sim.actor) {
            diffs.push(crate::compare::Diff {
                tags: ["C01"].into_iter().collect(),
                what: "the controller stopped".into(),
            });
        }
        let polls = mc::stats().polls;
        let c = chooser.borrow_mut().take().unwrap();
        (c, SchedOutcome { diffs, start, seen, polls, transcript })
    })
}

/// What a property speaks about.
#[derive(Clone, Copy, Default, Debug)]
pub struct View {
    pub reply: bool,
    pub status: bool,
    pub device: bool,
    /// 1: number and sequence; 2: also content.
    pub info: u8,
    pub mcast: bool,
    pub data: bool,
    pub events: bool,
    pub anchors: bool,
}

impl View {
    pub const ALL: View = View {
        reply: true,
        status: true,
        device: true,
        info: 2,
        mcast: true,
        data: true,
        events: true,
        anchors: true,
    };
    pub fn of(prop: &str) -> View {
        let r = View { reply: true, ..Default::default() };
        match prop {
            "C04" => View { status: true, ..r },
            "C05" => View { device: true, ..r },
            "C07" => View { info: 1, ..r },
            "C08" => View { info: 2, ..r },
            "C09" => View { mcast: true, ..r },
            "C10" => View { status: true, device: true, info: 1, ..r },
            "C11" => View { data: true, ..r },
            "C13" | "C12" | "C22" => View::ALL,
            "C14" => View { device: true, info: 2, events: true, ..r },
            "C15" => View { info: 2, anchors: true, ..r },
            _ => r,
        }
    }
    fn map(&self, m: &Msg) -> Option<Msg> {
        let keep = match m.stream() {
            Stream::Reply | Stream::Other => self.reply,
            Stream::Status(_) => self.status,
            Stream::Device => self.device,
            Stream::Info(_) => self.info > 0,
            Stream::Mcast(_) => self.mcast,
            Stream::Data(..) => self.data,
        };
        if !keep {
            return None;
        }
        let mut m = m.clone();
        if let (Stream::Info(_), 1) = (m.stream(), self.info) {
            m.payload.truncate(8)
        }
        Some(m)
    }
}

#[derive(Clone)]
struct Node {
    batch: usize,
    w: World,
    hosts: usize,
    gone: BTreeSet<usize>,
    /// Consumed packets by host, and control operations.
    pos: BTreeMap<usize, usize>,
    control: usize,
    /// Consumed observations.
    cur: BTreeMap<usize, usize>,
    ev: usize,
    an: usize,
    ticks: BTreeMap<(usize, u32), u32>,
}

impl Node {
    fn hash(&self) -> u64 {
        let mut h = DefaultHasher::new();
        self.batch.hash(&mut h);
        self.w.hash(&mut h);
        self.pos.hash(&mut h);
        self.control.hash(&mut h);
        self.gone.hash(&mut h);
        self.cur.hash(&mut h);
        self.ev.hash(&mut h);
        self.an.hash(&mut h);
        self.ticks.hash(&mut h);
        h.finish()
    }
    fn taken(&self) -> usize {
        self.cur.values().sum::<usize>() + self.ev + self.an
    }
}

struct Prepared<'a> {
    seen: &'a Seen,
    obs: BTreeMap<usize, Vec<Msg>>,
    packets: BTreeMap<usize, Vec<Vec<u8>>>,
    control: Vec<Op>,
    closing: BTreeSet<usize>,
    failing: BTreeSet<usize>,
}

struct Search<'a> {
    view: View,
    batches: Vec<Prepared<'a>>,
    visited: HashSet<u64>,
    /// Furthest batch and observations explained.
    best: (usize, usize),
    nodes: u64,
}

/// Far more than any scenario needs.
pub const MAX_NODES: u64 = 3_000_000;

fn active(w: &World) -> impl Iterator<Item = (usize, u32, &Sess)> {
    w.devs
        .iter()
        .flat_map(|(h, d)| d.sessions.iter().filter(|(_, s)| s.state == ACTIVE).map(move |(i, s)| (*h, *i, s)))
}

impl Search<'_> {
    /// Consumes the outputs of one event; None when they were not observed.
    fn take(&self, mut n: Node, out: Out) -> Option<Node> {
        let b = &self.batches[n.batch];
        let mut by: BTreeMap<usize, Vec<Msg>> = BTreeMap::new();
        for (h, m) in out.msgs {
            if let Some(m) = self.view.map(&m) {
                by.entry(h).or_default().push(m)
            }
        }
        for (h, g) in by {
            let none = vec![];
            let obs = b.obs.get(&h).unwrap_or(&none);
            let c = n.cur.get(&h).copied().unwrap_or(0);
            let k = match consume(std::slice::from_ref(&g), &obs[c..]) {
                Some(k) => k,
                // Whatever was not written before the connection ended.
                None if b.seen.closed.contains(&h) => partial(&g, &obs[c..])?,
                None => return None,
            };
            n.cur.insert(h, c + k);
        }
        if self.view.events {
            if let Some(e) = out.event {
                if b.seen.events.get(n.ev) != Some(&e) {
                    return None;
                }
                n.ev += 1;
            }
        }
        if self.view.anchors {
            if let Some(a) = out.anchor {
                if b.seen.anchors.get(n.an) != Some(&Some(a)) {
                    return None;
                }
                n.an += 1;
            }
        }
        Some(n)
    }

    /// Rounds every active session does in this batch.
    fn want(&self, b: usize, s: &Sess) -> u64 {
        let seen = self.batches[b].seen;
        (seen.t1 - seen.t0) / s.interval
    }

    fn finished(&self, n: &Node) -> bool {
        let b = &self.batches[n.batch];
        if !self.inputs_done(n)
            || !b.obs.iter().all(|(h, o)| n.cur.get(h).copied().unwrap_or(0) == o.len())
            || !b.closing.iter().chain(b.failing.iter()).all(|h| n.gone.contains(h) || !n.w.devs.contains_key(h))
            || self.view.events && n.ev != b.seen.events.len()
        {
            return false;
        }
        match b.seen.batch.ticks {
            Ticks::Exact => active(&n.w).all(|(_, _, s)| s.next_tick > b.seen.t1),
            Ticks::Jump => true,
            Ticks::Each => active(&n.w)
                .all(|(h, i, s)| n.ticks.get(&(h, i)).copied().unwrap_or(0) as u64 == self.want(n.batch, s)),
        }
    }

    fn inputs_done(&self, n: &Node) -> bool {
        let b = &self.batches[n.batch];
        b.packets.iter().all(|(h, p)| n.gone.contains(h) || n.pos.get(h) == Some(&p.len()))
            && n.control == b.control.len()
            && n.w.stops.is_empty()
    }

    /// Whether the observations from this node on can be explained.
    fn go(&mut self, n: Node) -> bool {
        if !self.visited.insert(n.hash()) {
            return false;
        }
        self.nodes += 1;
        if self.nodes > MAX_NODES {
            return false;
        }
        self.best = self.best.max((n.batch, n.taken()));
        if self.finished(&n) {
            if n.batch + 1 == self.batches.len() {
                return true;
            }
            let mut e = n.clone();
            // Rounds that were late no longer matter.
            if self.batches[n.batch].seen.batch.ticks != Ticks::Exact {
                for d in e.w.devs.values_mut() {
                    for s in d.sessions.values_mut() {
                        s.next_tick = 0
                    }
                }
            }
            e.batch += 1;
            e.cur.clear();
            e.ev = 0;
            e.an = 0;
            e.pos.clear();
            e.control = 0;
            e.ticks.clear();
            if self.go(e) {
                return true;
            }
        }
        let mut next = self.successors(&n);
        // Likely explanations first: those that account for more.
        next.sort_by_key(|m| std::cmp::Reverse(m.taken()));
        next.into_iter().any(|m| self.go(m))
    }

    fn successors(&self, n: &Node) -> Vec<Node> {
        let mut next = vec![];
        let b = &self.batches[n.batch];
        let seen = b.seen;
        let t0 = seen.t0;
        // Packets.
        for (h, p) in &b.packets {
            let k = n.pos.get(h).copied().unwrap_or(0);
            if k >= p.len() || n.gone.contains(h) {
                continue;
            }
            let mut m = n.clone();
            m.pos.insert(*h, k + 1);
            let Some(out) = m.w.packet(*h, &p[k], t0) else { continue };
            next.extend(self.take(m, out));
            if seen.batch.in_order {
                return next;
            }
        }
        // Connections and anchors.
        if n.control < b.control.len() {
            let mut m = n.clone();
            m.control += 1;
            let out = match &b.control[n.control] {
                Op::Connect => {
                    m.hosts += 1;
                    m.w.connect(m.hosts - 1)
                }
                Op::CreateAnchor(a) => m.w.create_anchor(a),
                Op::DestroyAnchor(a) => m.w.destroy_anchor(a),
                _ => unreachable!(),
            };
            next.extend(self.take(m, out));
        }
        // Connections that end.
        for h in b.closing.union(&b.failing) {
            if n.gone.contains(h) || !n.w.devs.contains_key(h) {
                continue;
            }
            let all = b.packets.get(h).map_or(true, |p| n.pos.get(h).copied().unwrap_or(0) == p.len());
            if all || b.failing.contains(h) {
                let mut m = n.clone();
                m.gone.insert(*h);
                let out = m.w.disconnect(*h);
                next.extend(self.take(m, out));
            }
        }
        // In-band stop requests.
        for ((mac, s), count) in &n.w.stops {
            let mut m = n.clone();
            if *count == 1 {
                m.w.stops.remove(&(mac.clone(), *s));
            } else {
                *m.w.stops.get_mut(&(mac.clone(), *s)).unwrap() -= 1;
            }
            let out = m.w.in_band_stop(mac, *s);
            next.extend(self.take(m, out));
        }
        // Rounds.
        let idle = self.inputs_done(n);
        for (h, i, s) in active(&n.w) {
            let ok = match seen.batch.ticks {
                Ticks::Exact => s.next_tick <= seen.t1 && (s.next_tick <= t0 || idle),
                Ticks::Jump => s.next_tick <= seen.t1,
                Ticks::Each => (n.ticks.get(&(h, i)).copied().unwrap_or(0) as u64) < self.want(n.batch, s),
            };
            if !ok {
                continue;
            }
            let mut m = n.clone();
            let out = m.w.round(h, i);
            let s = m.w.devs.get_mut(&h).unwrap().sessions.get_mut(&i).unwrap();
            match seen.batch.ticks {
                Ticks::Each => *m.ticks.entry((h, i)).or_default() += 1,
                _ => s.next_tick += s.interval,
            }
            next.extend(self.take(m, out));
        }
        next
    }
}

/// Matches a prefix of the group against all of `obs`.
fn partial(g: &[Msg], obs: &[Msg]) -> Option<usize> {
    // Greedy by stream, replies first.
    let mut rest: Vec<Option<&Msg>> = g.iter().map(Some).collect();
    'o: for o in obs {
        for r in rest.iter_mut() {
            if let Some(m) = r {
                let same = match m.stream() {
                    s @ Stream::Data(..) => o.stream() == s,
                    _ => *m == o,
                };
                if same {
                    *r = None;
                    continue 'o;
                }
            }
        }
        return None;
    }
    Some(obs.len())
}

/// Why an execution was not accepted.
pub enum Unexplained {
    No(String),
    /// The search was cut off.
    TooLarge,
}

/// Whether every batch has an order that explains what was observed.
/// Returns the number of model states visited, or what could not be explained.
pub fn explain(o: &SchedOutcome, view: View) -> Result<u64, Unexplained> {
    let mut batches = vec![];
    for s in &o.seen {
        let mut packets: BTreeMap<usize, Vec<Vec<u8>>> = BTreeMap::new();
        let mut control = vec![];
        let mut closing = BTreeSet::new();
        for op in &s.batch.ops {
            match op {
                Op::Feed(h, p) => packets.entry(*h).or_default().push(p.clone()),
                Op::Segs(h, v) => {
                    let mut partial: Option<Vec<u8>> = None;
                    for seg in v {
                        if seg[0] >> 5 == DATA {
                            packets.entry(*h).or_default().push(seg.clone());
                            continue;
                        }
                        match &mut partial {
                            Some(p) => p.extend_from_slice(&seg[4..]),
                            None => partial = Some(seg.clone()),
                        }
                        if seg[0] & 0x10 == 0 {
                            packets.entry(*h).or_default().push(partial.take().unwrap())
                        }
                    }
                }
                Op::Close(h) => {
                    closing.insert(*h);
                }
                o => control.push(o.clone()),
            }
        }
        batches.push(Prepared {
            seen: s,
            obs: s.obs.iter().map(|(h, v)| (*h, v.iter().filter_map(|m| view.map(m)).collect())).collect(),
            packets,
            control,
            closing,
            failing: s.failing.clone(),
        });
    }
    let mut search = Search { view, batches, visited: HashSet::new(), best: (0, 0), nodes: 0 };
    let root = Node {
        batch: 0,
        w: o.start.world.clone(),
        hosts: o.start.hosts,
        gone: o.start.closed.clone(),
        pos: BTreeMap::new(),
        control: 0,
        cur: BTreeMap::new(),
        ev: 0,
        an: 0,
        ticks: BTreeMap::new(),
    };
    if search.go(root) {
        return Ok(search.nodes);
    }
    if search.nodes > MAX_NODES {
        return Err(Unexplained::TooLarge);
    }
    let s = search.batches[search.best.0].seen;
    Err(Unexplained::No(format!(
        "step {}: no order of {:?} explains what was observed: {:?}; events {:?}; anchors {:?}",
        search.best.0,
        s.batch.ops.iter().map(|o| o.to_string()).collect::<Vec<_>>(),
        search.batches[search.best.0].obs,
        s.events,
        s.anchors,
    )))
}
