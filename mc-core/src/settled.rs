//! Settled executions: after every operation all tasks run until nothing is
//! left to do, and what every host received is compared with the model.
use crate::compare::*;
use crate::model::*;
use crate::msg::*;
use crate::sim::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;
use tokio::mc;

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Op {
    /// First only: the controller runs behind a mutex (`pica::run`), and
    /// devices are added by `Pica::add_device` instead of a command.
    Embedded,
    Connect,
    /// The host ends its connection.
    Close(usize),
    /// A complete packet, segmented as needed.
    Feed(usize, Vec<u8>),
    /// The segments of packets, as given.
    Segs(usize, Vec<Vec<u8>>),
    /// Milliseconds.
    Advance(u64),
    CreateAnchor(Vec<u8>),
    DestroyAnchor(Vec<u8>),
    /// The same by a requester that does not wait for the answer.
    LostCreate(Vec<u8>),
    LostDestroy(Vec<u8>),
    /// The pairs of handles without estimates.
    Block(Vec<(usize, usize)>),
    /// The host stops (true) or resumes (false) reading its socket.
    Stall(usize, bool),
}

impl std::fmt::Display for Op {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Op::Feed(h, p) => write!(f, "Feed({h}, {})", mc_common::hex(p)),
            Op::Segs(h, v) => {
                write!(f, "Segs({h},")?;
                for s in v.iter().take(6) {
                    write!(f, " {}", mc_common::hex(s))?
                }
                write!(f, ")")
            }
            o => write!(f, "{o:?}"),
        }
    }
}

/// The model's state in settled mode.
#[derive(Clone, Debug)]
pub struct MState {
    pub world: World,
    pub partial: BTreeMap<usize, Vec<u8>>,
    pub closed: BTreeSet<usize>,
    pub hosts: usize,
    pub now: u64,
    pub stalled: BTreeSet<usize>,
}

/// What an operation should produce.
#[derive(Default, Debug)]
pub struct Expect {
    pub groups: BTreeMap<usize, Vec<Vec<Msg>>>,
    pub events: Vec<Event>,
    pub anchor: Option<Option<usize>>,
}

impl Expect {
    /// Adds the outputs of one instant.
    fn instant(&mut self, msgs: Vec<(usize, Msg)>) {
        let mut by: BTreeMap<usize, Vec<Msg>> = BTreeMap::new();
        for (h, m) in msgs {
            by.entry(h).or_default().push(m)
        }
        for (h, g) in by {
            self.groups.entry(h).or_default().push(g)
        }
    }
}

impl MState {
    pub fn new(consts: Arc<Constants>) -> MState {
        MState {
            world: World::new(consts),
            partial: BTreeMap::new(),
            closed: BTreeSet::new(),
            hosts: 0,
            now: 0,
            stalled: BTreeSet::new(),
        }
    }

    /// The state up to time shifts and large sequence numbers.
    pub fn key(&self) -> MState {
        let mut k = self.clone();
        for d in k.world.devs.values_mut() {
            for s in d.sessions.values_mut() {
                s.seq = s.seq.min(2);
                s.epoch = 0;
                if s.state == ACTIVE {
                    s.next_tick -= self.now;
                } else {
                    s.next_tick = 0;
                    s.interval = 0;
                }
            }
        }
        k.now = 0;
        k
    }

    pub fn step(&mut self, op: &Op) -> Expect {
        let mut e = Expect::default();
        match op {
            Op::Embedded => (),
            Op::Connect => {
                let h = self.hosts;
                self.hosts += 1;
                let o = self.world.connect(h);
                e.events.extend(o.event);
                e.instant(o.msgs);
            }
            Op::Close(h) => self.close(*h, &mut e),
            Op::Feed(h, p) => self.feed(*h, &segments(p), &mut e),
            Op::Segs(h, v) => self.feed(*h, v, &mut e),
            Op::Advance(ms) => {
                let limit = self.now + ms * 1_000_000;
                loop {
                    let due = self
                        .world
                        .devs
                        .values()
                        .flat_map(|d| d.sessions.values())
                        .filter(|s| s.state == ACTIVE && s.next_tick <= limit)
                        .map(|s| s.next_tick)
                        .min();
                    let Some(t) = due else { break };
                    let mut all: Vec<(usize, u32)> = vec![];
                    for (h, d) in &self.world.devs {
                        for (id, s) in &d.sessions {
                            if s.state == ACTIVE && s.next_tick == t {
                                all.push((*h, *id))
                            }
                        }
                    }
                    let mut msgs = vec![];
                    for (h, id) in all {
                        msgs.extend(self.world.round(h, id).msgs);
                        let s = self.world.devs.get_mut(&h).unwrap().sessions.get_mut(&id).unwrap();
                        s.next_tick += s.interval;
                    }
                    e.instant(msgs);
                }
                self.now = limit;
            }
            Op::CreateAnchor(m) => e.anchor = self.world.create_anchor(m).anchor,
            Op::DestroyAnchor(m) => e.anchor = self.world.destroy_anchor(m).anchor,
            Op::LostCreate(m) => {
                self.world.create_anchor(m);
            }
            Op::LostDestroy(m) => {
                self.world.destroy_anchor(m);
            }
            Op::Block(v) => self.world.blocked = v.iter().copied().collect(),
            Op::Stall(h, on) => {
                if *on {
                    self.stalled.insert(*h);
                } else {
                    self.stalled.remove(h);
                }
            }
        }
        e
    }

    fn close(&mut self, h: usize, e: &mut Expect) {
        if self.closed.insert(h) {
            e.events.extend(self.world.disconnect(h).event);
            self.partial.remove(&h);
        }
    }

    fn feed(&mut self, h: usize, segs: &[Vec<u8>], e: &mut Expect) {
        for s in segs {
            if self.closed.contains(&h) {
                return;
            }
            let mt = s[0] >> 5;
            if mt > NTF {
                self.close(h, e);
                return;
            }
            let packet = if mt == DATA {
                s.clone()
            } else {
                let p = self.partial.entry(h).or_default();
                if p.is_empty() {
                    p.extend_from_slice(s)
                } else {
                    p.extend_from_slice(&s[4..])
                }
                if s[0] & 0x10 != 0 {
                    continue;
                }
                self.partial.remove(&h).unwrap()
            };
            let now = self.now;
            let Some(out) = self.world.packet(h, &packet, now) else {
                self.close(h, e);
                return;
            };
            let mut msgs = out.msgs;
            while let Some((k, n)) = self.world.stops.pop_first() {
                for _ in 0..n {
                    msgs.extend(self.world.in_band_stop(&k.0, k.1).msgs)
                }
            }
            e.instant(msgs);
        }
    }
}

impl std::hash::Hash for MState {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        self.world.hash(h);
        self.partial.hash(h);
        self.closed.hash(h);
        self.hosts.hash(h);
        self.now.hash(h);
        self.stalled.hash(h);
    }
}

pub const MAX_POLLS: u64 = 400_000;

/// One settled execution against the code.
pub struct Exec {
    pub sim: Sim,
    pub m: MState,
    pub ctx: Ctx,
    pub diffs: Vec<(usize, Diff)>,
    /// Expected but withheld by a stalled socket.
    owed: BTreeMap<usize, Vec<Vec<Msg>>>,
    pub ops: usize,
    pub dead: bool,
    panics: usize,
    pub transcript: Option<Vec<String>>,
    seg_errors: BTreeMap<usize, usize>,
    /// Hosts that may still receive something.
    scan: BTreeSet<usize>,
}

fn tags(t: &[&'static str]) -> Tags {
    t.iter().copied().collect()
}

impl Exec {
    /// Inside `mc::scope`.
    pub fn new(consts: Arc<Constants>, trace: Option<std::path::PathBuf>) -> Exec {
        Exec::with(consts, Sim::new(trace))
    }

    fn with(consts: Arc<Constants>, sim: Sim) -> Exec {
        mc::settle(MAX_POLLS);
        Exec {
            sim,
            m: MState::new(consts),
            ctx: Ctx::default(),
            diffs: vec![],
            owed: BTreeMap::new(),
            ops: 0,
            dead: false,
            panics: 0,
            transcript: None,
            seg_errors: BTreeMap::new(),
            scan: BTreeSet::new(),
        }
    }

    fn diff(&mut self, t: Tags, what: String) {
        self.diffs.push((self.ops, Diff { tags: t, what }))
    }

    fn history(&mut self, op: &Op) {
        self.ctx.host = None;
        self.ctx.session = None;
        self.ctx.cmd = None;
        self.ctx.connecting = matches!(op, Op::Connect);
        self.ctx.segmented = match op {
            Op::Feed(_, p) => segments(p).len() > 1,
            Op::Segs(_, v) => v.iter().any(|s| s[0] >> 5 == CMD),
            _ => false,
        };
        let (h, p) = match op {
            Op::Feed(h, p) => (*h, p.clone()),
            Op::Segs(h, v) if !v.is_empty() => (*h, v[0].clone()),
            Op::Close(h) => {
                self.ctx.host = Some(*h);
                self.ctx.had_disconnect = true;
                return;
            }
            Op::CreateAnchor(_) | Op::DestroyAnchor(_) | Op::LostCreate(_) | Op::LostDestroy(_) => {
                self.ctx.had_anchor = true;
                return;
            }
            _ => return,
        };
        self.ctx.host = Some(h);
        if p[0] >> 5 == CMD {
            let c = (p[0] & 0xf, p[1] & 0x3f);
            self.ctx.cmd = Some(c);
            if (c.0 == SCFG || c.0 == SCTL) && p.len() >= 8 {
                self.ctx.session = Some(u32_at(&p, 4))
            }
            self.ctx.had_reset |= c == (CORE, 0);
            self.ctx.had_mcast |= c == (SCFG, 7);
            self.ctx.had_remove |= c == (SCFG, 7) && p.get(8) == Some(&1);
        }
        self.ctx.had_data |= p[0] >> 5 == DATA;
    }

    /// Applies one operation to the model and to the code, and compares.
    pub fn apply(&mut self, op: &Op) {
        if self.dead {
            self.ops += 1;
            return;
        }
        self.history(op);
        let exp = self.m.step(op);
        let mut anchor = None;
        match op {
            Op::Embedded => (),
            Op::Connect => {
                let h = self.sim.connect();
                self.scan.insert(h);
            }
            Op::Close(h) => self.sim.hosts[*h].close(),
            Op::Feed(h, p) => {
                for s in segments(p) {
                    self.sim.hosts[*h].feed(&s)
                }
            }
            Op::Segs(h, v) => {
                for s in v {
                    self.sim.hosts[*h].feed(s)
                }
            }
            Op::CreateAnchor(m) => anchor = Some(self.sim.create_anchor(m)),
            Op::DestroyAnchor(m) => anchor = Some(self.sim.destroy_anchor(m)),
            Op::LostCreate(m) => drop(self.sim.create_anchor(m)),
            Op::LostDestroy(m) => drop(self.sim.destroy_anchor(m)),
            Op::Block(_) => {
                let b = self.m.world.blocked.clone();
                self.sim.set_blocked(&b)
            }
            Op::Stall(h, on) => self.sim.hosts[*h].block(*on),
            Op::Advance(_) => (),
        }
        if mc::run_to(self.m.now, MAX_POLLS) == mc::Run::OutOfSteps {
            self.diff(tags(&["C01"]), format!("{op}: the server does not settle"));
            self.dead = true;
        }
        let mut lines = vec![];
        for h in self.scan.iter().copied().collect::<Vec<_>>() {
            let obs: Vec<Msg> = self.sim.hosts[h].take().into_iter().map(|x| x.1).collect();
            if self.transcript.is_some() && !obs.is_empty() {
                lines.push(format!("   host {h}: {obs:?}"))
            }
            let mut groups = self.owed.remove(&h).unwrap_or_default();
            if let Some(g) = exp.groups.get(&h) {
                groups.extend(g.iter().cloned())
            }
            if self.m.stalled.contains(&h) {
                self.owed.insert(h, groups);
                continue;
            }
            for d in diff_host(h, &groups, &obs, &self.ctx) {
                self.diffs.push((self.ops, Diff { tags: d.tags, what: format!("{op}: {}", d.what) }))
            }
            let errs = self.sim.hosts[h].asm.errors.clone();
            let seen = self.seg_errors.entry(h).or_default();
            if errs.len() > *seen {
                *seen = errs.len();
                self.diff(tags(&["C12"]), format!("{op}: host {h}: {}", errs.join("; ")));
            } else if self.sim.hosts[h].asm.incomplete() {
                self.diff(tags(&["C12"]), format!("{op}: host {h}: message without a last segment"));
            }
        }
        let closed = &self.m.closed;
        self.scan.retain(|h| !closed.contains(h));
        let ev = self.sim.take_events();
        if ev != exp.events {
            let mut t = tags(&["C14"]);
            if ev.is_empty() {
                t.insert("C01");
            }
            self.diff(t, format!("{op}: expected events {:?}, got {ev:?}", exp.events));
        }
        for got in std::mem::take(&mut self.sim.added) {
            let want = exp.events.iter().find_map(|e| match e {
                Event::Connected { handle, .. } => Some(*handle),
                _ => None,
            });
            if got != want {
                self.diff(tags(&["C14", "C15"]), format!("{op}: expected handle {want:?}, got {got:?}"));
            }
        }
        if let Some(mut rx) = anchor {
            use tokio::sync::oneshot::error::TryRecvError;
            let got = match rx.try_recv() {
                Ok(Ok(h)) => Some(Some(h)),
                Ok(Err(_)) => Some(None),
                Err(TryRecvError::Empty) | Err(TryRecvError::Closed) => None,
            };
            if got != exp.anchor {
                self.diff(
                    tags(&["C15", "C14"]),
                    format!("{op}: expected {:?}, got {got:?}", exp.anchor),
                );
            }
        }
        let p = mc::panics();
        if p.len() > self.panics {
            let new: Vec<String> = p[self.panics..].iter().map(|x| format!("{}: {}", x.1, x.2)).collect();
            self.panics = p.len();
            let mut t = tags(&["C01"]);
            if p.iter().all(|x| x.0 != self.sim.actor) {
                t.insert("C14");
            }
            self.diff(t, format!("{op}: panic: {}", new.join("; ")));
        }
        if mc::is_done(self.sim.actor) {
            let lost = matches!(op, Op::LostCreate(_) | Op::LostDestroy(_));
            self.diff(tags(if lost { &["C01", "C15"] } else { &["C01"] }), format!("{op}: the controller stopped"));
            self.dead = true;
        }
        if let Some(t) = &mut self.transcript {
            t.push(format!("{:>9} {op}", self.m.now / 1_000_000));
            t.extend(lines);
        }
        self.ops += 1;
    }

    /// Hosts that can still be talked to.
    pub fn live(&self) -> Vec<usize> {
        self.m.world.devs.keys().copied().filter(|h| !self.m.partial.contains_key(h)).collect()
    }

    /// Reads back everything the commands can show.
    pub fn probe(&mut self, level: Probe) {
        if level == Probe::None {
            return;
        }
        for h in self.live() {
            for p in probes(&self.m.world.devs[&h], level) {
                self.apply(&Op::Feed(h, p))
            }
        }
        if level == Probe::Light {
            return;
        }
        let interval = self
            .m
            .world
            .devs
            .values()
            .flat_map(|d| d.sessions.values())
            .filter(|s| s.state == ACTIVE)
            .map(|s| s.interval / 1_000_000)
            .max()
            .unwrap_or(100)
            .min(1000);
        self.apply(&Op::Advance(2 * interval));
        for h in self.live() {
            for id in self.m.world.devs[&h].sessions.keys().copied().collect::<Vec<_>>() {
                self.apply(&Op::Feed(h, ranging_count(id)))
            }
        }
        // The controller accepts a new host, and serves it.
        self.apply(&Op::Connect);
        let h = self.m.hosts - 1;
        self.apply(&Op::Feed(h, reset()));
        self.apply(&Op::Feed(h, get_count()));
        if level == Probe::Reset {
            for h in self.live() {
                self.apply(&Op::Feed(h, reset()));
                for g in self.live() {
                    self.apply(&Op::Feed(g, get_count()));
                    self.apply(&Op::Feed(g, get_dev_cfg(&[0, 1])));
                    for id in self.m.world.devs[&g].sessions.keys().copied().collect::<Vec<_>>() {
                        self.apply(&Op::Feed(g, get_state(id)))
                    }
                }
                self.apply(&Op::Advance(interval));
            }
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Probe {
    None,
    /// Read-only commands.
    Light,
    /// Also ranging rounds and a new host.
    Full,
    /// Also resets.
    Reset,
}

/// The read-only commands that show the state of a device.
pub fn probes(d: &Dev, level: Probe) -> Vec<Vec<u8>> {
    let mut v = vec![get_dev_cfg(&[0, 1]), get_count()];
    for (id, s) in &d.sessions {
        v.push(get_state(*id));
        v.push(ranging_count(*id));
        if level == Probe::Light {
            v.push(get_cfg(*id, &[crate::cfg::NCTRL, crate::cfg::DST_MAC]));
        } else {
            v.push(get_cfg(*id, &s.cfg.readable()));
        }
    }
    v
}

/// Runs `f` on a fresh thread under a fresh scheduler.
pub fn isolated<R: Send + 'static>(f: impl FnOnce() -> R + Send + 'static) -> R {
    match std::thread::Builder::new().stack_size(1 << 20).spawn(move || mc::scope(f)).unwrap().join() {
        Ok(r) => r,
        Err(_) => {
            eprintln!("harness error: an execution failed outside the code under test");
            std::process::exit(3)
        }
    }
}

pub struct Outcome {
    pub diffs: Vec<(usize, Diff)>,
    pub m: MState,
    pub ops: usize,
    pub transcript: Vec<String>,
    pub segments: u64,
}

/// One complete settled execution.
pub fn execute(consts: &Arc<Constants>, ops: &[Op], probe: Probe, verbose: bool) -> Outcome {
    let consts = consts.clone();
    let ops = ops.to_vec();
    isolated(move || {
        let embedded = ops.first() == Some(&Op::Embedded);
        let mut x = Exec::with(consts, Sim::with(None, embedded));
        if verbose {
            x.transcript = Some(vec![])
        }
        for o in &ops {
            x.apply(o)
        }
        let m = x.m.clone();
        x.probe(probe);
        Outcome {
            ops: x.ops,
            m,
            segments: x.sim.hosts.iter().map(|h| h.asm.segments).sum(),
            diffs: x.diffs,
            transcript: x.transcript.unwrap_or_default(),
        }
    })
}

/// Learns the constant answers from a fresh device.
pub fn learn() -> Constants {
    isolated(|| {
        let mut sim = Sim::new(None);
        mc::settle(MAX_POLLS);
        let h = sim.connect();
        mc::settle(MAX_POLLS);
        let mut ask = |p: Vec<u8>| {
            sim.hosts[h].feed(&p);
            mc::settle(MAX_POLLS);
            sim.hosts[h]
                .take()
                .into_iter()
                .map(|x| x.1)
                .find(|m| m.mt == RSP)
                .map(|m| m.payload)
                .unwrap_or_default()
        };
        ask(reset());
        Constants {
            info: ask(cmd(CORE, 2, &[])),
            caps: ask(cmd(CORE, 3, &[])),
            power: ask(cmd(ANDROID, 0, &[])),
        }
    })
}
