//! The reference model: what the properties say the controller does, as plain
//! sequential code. One event is one atomic step.
use crate::cfg::*;
use crate::msg::*;
use std::collections::BTreeMap;
use std::collections::BTreeSet;

pub const INIT: u8 = 0;
pub const DEINIT: u8 = 1;
pub const ACTIVE: u8 = 2;
pub const IDLE: u8 = 3;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Sess {
    pub ty: u8,
    pub state: u8,
    pub seq: u32,
    pub cfg: Cfg,
    pub data: Vec<u8>,
    /// Next round (ns), in settled mode.
    pub next_tick: u64,
    pub interval: u64,
    /// Counts activations, so that schedules can tell them apart.
    pub epoch: u32,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Dev {
    pub handle: usize,
    pub mac: Vec<u8>,
    pub is_reset: bool,
    pub low_power: u8,
    pub sessions: BTreeMap<u32, Sess>,
}

impl Dev {
    pub fn active(&self) -> bool {
        self.sessions.values().any(|s| s.state == ACTIVE)
    }
    pub fn state(&self) -> u8 {
        if self.active() {
            2
        } else {
            1
        }
    }
}

/// Answers whose content the properties only require to be constant; learned
/// once from a fresh device and checked to be well formed.
#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)]
pub struct Constants {
    pub info: Vec<u8>,
    pub caps: Vec<u8>,
    pub power: Vec<u8>,
}

pub type Estimator = fn(usize, usize) -> Option<(u16, i16, i8)>;

thread_local! {
    /// What replaces the formula below on this thread.
    pub static ESTIMATOR: std::cell::Cell<Option<Estimator>> = const { std::cell::Cell::new(None) };
}

/// Ranging results by handle; see `sim::Est`.
pub fn estimate(blocked: &BTreeSet<(usize, usize)>, l: usize, r: usize) -> Option<(u16, i16, i8)> {
    if blocked.contains(&(l, r)) {
        return None;
    }
    if let Some(f) = ESTIMATOR.with(|e| e.get()) {
        return f(l, r);
    }
    let (a, b) = (l as i64, r as i64);
    let range = (1000 + a * 37 + b * 11) as u16;
    let az = ((a * 53 + b * 29 + 7) % 361 - 180) as i16;
    let el = ((a * 31 + b * 17 + 3) % 181 - 90) as i8;
    Some((range, az, el))
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct World {
    /// By host index.
    pub devs: BTreeMap<usize, Dev>,
    pub anchors: BTreeMap<Vec<u8>, usize>,
    pub counter: usize,
    pub blocked: BTreeSet<(usize, usize)>,
    /// In-band stop requests on their way: (address, session) and how many.
    pub stops: BTreeMap<(Vec<u8>, u32), u32>,
    pub consts: std::sync::Arc<Constants>,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Event {
    Connected { handle: usize, mac: Vec<u8> },
    Disconnected { handle: usize, mac: Vec<u8> },
}

#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Out {
    /// Messages by receiving host, in order; a reply comes first.
    pub msgs: Vec<(usize, Msg)>,
    pub event: Option<Event>,
    /// Result of an anchor request: handle, or refused.
    pub anchor: Option<Option<usize>>,
}

impl World {
    pub fn new(consts: std::sync::Arc<Constants>) -> World {
        World {
            devs: BTreeMap::new(),
            anchors: BTreeMap::new(),
            counter: 0,
            blocked: BTreeSet::new(),
            stops: BTreeMap::new(),
            consts,
        }
    }

    fn mac_in_use(&self, mac: &[u8]) -> bool {
        self.anchors.contains_key(mac) || self.devs.values().any(|d| d.mac == mac)
    }

    pub fn connect(&mut self, host: usize) -> Out {
        let mut h = self.counter;
        while self.mac_in_use(&(h as u16).to_be_bytes()) {
            h += 1
        }
        self.counter = h + 1;
        let mac = (h as u16).to_be_bytes().to_vec();
        self.devs.insert(
            host,
            Dev { handle: h, mac: mac.clone(), is_reset: false, low_power: 1, sessions: BTreeMap::new() },
        );
        Out {
            msgs: vec![(host, Msg::dev_ntf(1))],
            event: Some(Event::Connected { handle: h, mac }),
            anchor: None,
        }
    }

    pub fn disconnect(&mut self, host: usize) -> Out {
        let mut out = Out::default();
        if let Some(d) = self.devs.remove(&host) {
            out.event = Some(Event::Disconnected { handle: d.handle, mac: d.mac })
        }
        out
    }

    pub fn create_anchor(&mut self, mac: &[u8]) -> Out {
        let r = if self.mac_in_use(mac) {
            None
        } else {
            let h = self.counter;
            self.counter += 1;
            self.anchors.insert(mac.to_vec(), h);
            Some(h)
        };
        Out { anchor: Some(r), ..Default::default() }
    }

    pub fn destroy_anchor(&mut self, mac: &[u8]) -> Out {
        Out { anchor: Some(self.anchors.remove(mac)), ..Default::default() }
    }

    /// One in-band stop request arrives.
    pub fn in_band_stop(&mut self, mac: &[u8], session: u32) -> Out {
        let mut out = Out::default();
        for (h, d) in self.devs.iter_mut() {
            let Some(s) = d.sessions.get_mut(&session) else { continue };
            if s.cfg.mac() != mac || s.state != ACTIVE {
                continue;
            }
            s.state = IDLE;
            out.msgs.push((*h, status(session, IDLE, 5)));
            if !d.active() {
                out.msgs.push((*h, Msg::dev_ntf(1)))
            }
        }
        out
    }

    /// One ranging round.
    pub fn round(&mut self, host: usize, session: u32) -> Out {
        let mut out = Out::default();
        let dev = &self.devs[&host];
        let s = &dev.sessions[&session];
        debug_assert_eq!(s.state, ACTIVE);
        let mut meas = Vec::new();
        for a in &s.cfg.dst {
            if let Some(h) = self.anchors.get(a) {
                if let (Some(local), Some(remote)) =
                    (estimate(&self.blocked, dev.handle, *h), estimate(&self.blocked, *h, dev.handle))
                {
                    meas.push(Meas { addr: a.clone(), local, remote })
                }
            }
        }
        let sends = s.ty == 1 && s.cfg.byte(ROLE) == Some(1);
        for (ph, p) in &self.devs {
            if *ph == host {
                continue;
            }
            let Some(ps) = p.sessions.get(&session) else { continue };
            if ps.state != ACTIVE {
                continue;
            }
            if ps.cfg.byte(ROLE) != s.cfg.byte(ROLE)
                && ps.cfg.byte(DEVICE_TYPE) != s.cfg.byte(DEVICE_TYPE)
                && s.cfg.dst.contains(&ps.cfg.mac())
                && ps.cfg.dst.contains(&s.cfg.mac())
            {
                match (
                    estimate(&self.blocked, dev.handle, p.handle),
                    estimate(&self.blocked, p.handle, dev.handle),
                ) {
                    (Some(local), Some(remote)) => meas.push(Meas { addr: ps.cfg.mac(), local, remote }),
                    // Out of range.
                    _ => continue,
                }
            }
            if sends && !s.data.is_empty() && ps.ty == 1 && ps.cfg.byte(ROLE) == Some(0) {
                // One message in the model, however many carry it.
                let mut src = s.cfg.mac();
                src.resize(8, 0);
                let mut p = session.to_le_bytes().to_vec();
                p.push(0);
                p.extend(src);
                p.extend(&s.data);
                out.msgs.push((*ph, Msg::new(DATA, 2, 0, p)));
            }
        }
        let ntf = s.cfg.byte(INFO_NTF) != Some(0);
        if ntf {
            out.msgs.push((host, info_ntf(s.seq, session, &meas)))
        }
        let s = self.devs.get_mut(&host).unwrap().sessions.get_mut(&session).unwrap();
        if ntf {
            s.seq = s.seq.wrapping_add(1)
        }
        s.data.clear();
        out
    }

    /// A complete packet from a host. None: it ends the connection.
    pub fn packet(&mut self, host: usize, pkt: &[u8], now: u64) -> Option<Out> {
        let mut out = Out::default();
        let mt = pkt[0] >> 5;
        if mt > NTF {
            return None;
        }
        let Some(dev) = self.devs.get_mut(&host) else { return Some(out) };
        match mt {
            DATA => {
                if let Some(m) = data_message(dev, pkt) {
                    out.msgs.push((host, m))
                }
            }
            CMD => {
                let mut ntfs = Vec::new();
                let m = command(dev, &self.consts, pkt, now, &mut ntfs, &mut self.stops);
                out.msgs.push((host, m.canonical()));
                out.msgs.extend(ntfs.into_iter().map(|n| (host, n)));
            }
            _ => (),
        }
        Some(out)
    }
}

pub fn status(session: u32, state: u8, reason: u8) -> Msg {
    let mut p = session.to_le_bytes().to_vec();
    p.extend([state, reason]);
    Msg::new(NTF, SCFG, 2, p)
}

fn data_message(dev: &mut Dev, pkt: &[u8]) -> Option<Msg> {
    let p = &pkt[4..];
    let refuse = |session: u32, seq: u8, st: u8| {
        let mut v = session.to_le_bytes().to_vec();
        v.extend([seq, st, 1]);
        Some(Msg::new(NTF, SCTL, 5, v))
    };
    match pkt[0] & 0xf {
        1 => {
            if p.len() < 16 {
                return None;
            }
            let n = u16::from_le_bytes([p[14], p[15]]) as usize;
            if p.len() != 16 + n {
                return None;
            }
            let session = u32_at(p, 0);
            let Some(s) = dev.sessions.get_mut(&session) else { return refuse(session, 0, 4) };
            if s.ty != 1 {
                return refuse(session, p[12], 5);
            }
            s.data.extend_from_slice(&p[16..]);
            let mut v = session.to_le_bytes().to_vec();
            v.push(1);
            Some(Msg::new(NTF, SCTL, 4, v))
        }
        2 => {
            if p.len() < 17 {
                return None;
            }
            let n = u16::from_le_bytes([p[15], p[16]]) as usize;
            if p.len() != 17 + n {
                return None;
            }
            refuse(u32_at(p, 0), 0, 7)
        }
        _ => None,
    }
}

/// Splits `count` fixed-size elements that must fill the payload exactly.
fn elements(p: &[u8], size: usize) -> Option<Vec<&[u8]>> {
    let n = *p.first()? as usize;
    if p.len() != 1 + n * size {
        return None;
    }
    Some(p[1..].chunks(size).collect())
}

/// Splits `count` elements of id, length and value.
fn tlvs(p: &[u8]) -> Option<Vec<(u8, &[u8])>> {
    let n = *p.first()? as usize;
    let mut rest = &p[1..];
    let mut out = Vec::new();
    for _ in 0..n {
        if rest.len() < 2 || rest.len() < 2 + rest[1] as usize {
            return None;
        }
        let l = rest[1] as usize;
        out.push((rest[0], &rest[2..2 + l]));
        rest = &rest[2 + l..];
    }
    if rest.is_empty() {
        Some(out)
    } else {
        None
    }
}

pub const SESSION_TYPES: &[u8] = &[0, 1, 2, 3, 4, 5, 0xa0, 0xd0];
pub const KNOWN_GROUPS: &[u8] = &[0, 1, 2, 3, 9, 0xa, 0xb, 0xc, 0xd, 0xe, 0xf];

fn command(
    dev: &mut Dev,
    consts: &Constants,
    pkt: &[u8],
    now: u64,
    ntfs: &mut Vec<Msg>,
    stops: &mut BTreeMap<(Vec<u8>, u32), u32>,
) -> Msg {
    let (gid, oid, p) = (pkt[0] & 0xf, pkt[1] & 0x3f, &pkt[4..]);
    if !KNOWN_GROUPS.contains(&gid) {
        return Msg::rsp(gid, oid, vec![7]);
    }
    if !dev.is_reset && !(gid == CORE && oid == 0) {
        return Msg::dev_ntf(0xff);
    }
    if ![CORE, SCFG, SCTL, ANDROID].contains(&gid) {
        return Msg::rsp(gid, oid, vec![7]);
    }
    let was_active = dev.active();
    let r = implemented(dev, consts, gid, oid, p, now, ntfs, stops);
    // Transitions of the device state, and each reset, are notified.
    let reset = gid == CORE && oid == 0 && r.is_some();
    if dev.active() != was_active || reset {
        ntfs.push(Msg::dev_ntf(dev.state()))
    }
    Msg::rsp(gid, oid, r.unwrap_or(vec![8]))
}

fn sid(p: &[u8], extra: usize) -> Option<u32> {
    if p.len() != 4 + extra {
        return None;
    }
    Some(u32_at(p, 0))
}

/// The payload of the response; None for a malformed or unsupported command.
fn implemented(
    dev: &mut Dev,
    consts: &Constants,
    gid: u8,
    oid: u8,
    p: &[u8],
    now: u64,
    ntfs: &mut Vec<Msg>,
    stops: &mut BTreeMap<(Vec<u8>, u32), u32>,
) -> Option<Vec<u8>> {
    let empty = |v: &Vec<u8>| if p.is_empty() { Some(v.clone()) } else { None };
    match (gid, oid) {
        (CORE, 0) => {
            if p != [0] {
                return None;
            }
            for s in dev.sessions.keys() {
                ntfs.push(status(*s, DEINIT, 0))
            }
            dev.sessions.clear();
            dev.low_power = 1;
            dev.is_reset = true;
            Some(vec![0])
        }
        (CORE, 2) => empty(&consts.info),
        (CORE, 3) => empty(&consts.caps),
        (CORE, 4) => {
            let t = tlvs(p)?;
            if dev.active() {
                return Some(vec![1, 0]);
            }
            let mut bad = Vec::new();
            for (id, v) in t {
                match id {
                    0 => bad.push((id, 9)),
                    1 => dev.low_power = (v.first().copied().unwrap_or(1) != 0) as u8,
                    _ => bad.push((id, 4)),
                }
            }
            let mut r = vec![if bad.is_empty() { 0 } else { 4 }, bad.len() as u8];
            for (i, s) in bad {
                r.extend([i, s])
            }
            Some(r)
        }
        (CORE, 5) => {
            let ids = elements(p, 1)?;
            let bad: Vec<u8> = ids.iter().map(|i| i[0]).filter(|i| *i > 1).collect();
            if !bad.is_empty() {
                let mut r = vec![4, bad.len() as u8];
                for b in bad {
                    r.extend([b, 0])
                }
                return Some(r);
            }
            let mut r = vec![0, ids.len() as u8];
            for i in ids {
                r.extend([i[0], 1, if i[0] == 0 { dev.state() } else { dev.low_power }])
            }
            Some(r)
        }
        (SCFG, 0) => {
            let id = sid(p, 1)?;
            if !SESSION_TYPES.contains(&p[4]) {
                return None;
            }
            if dev.sessions.len() >= 255 {
                return Some(vec![0x14]);
            }
            if dev.sessions.contains_key(&id) {
                return Some(vec![0x12]);
            }
            dev.sessions.insert(
                id,
                Sess {
                    ty: p[4],
                    state: INIT,
                    seq: 0,
                    cfg: Cfg::default(),
                    data: vec![],
                    next_tick: 0,
                    interval: 0,
                    epoch: 0,
                },
            );
            ntfs.push(status(id, INIT, 0));
            Some(vec![0])
        }
        (SCFG, 1) => {
            let id = sid(p, 0)?;
            if dev.sessions.remove(&id).is_none() {
                return Some(vec![0x11]);
            }
            ntfs.push(status(id, DEINIT, 0));
            Some(vec![0])
        }
        (SCFG, 3) => {
            if p.len() < 5 {
                return None;
            }
            let t = tlvs(&p[4..])?;
            if t.iter().any(|(i, _)| !nameable(*i)) {
                return None;
            }
            let id = u32_at(p, 0);
            let Some(s) = dev.sessions.get_mut(&id) else { return Some(vec![0x11, 0]) };
            if s.ty > 1 {
                return Some(vec![1, 0]);
            }
            if s.state == ACTIVE && t.iter().any(|(i, _)| *i == AOA) {
                return Some(vec![0x13, 0]);
            }
            if s.state != INIT && s.state != ACTIVE {
                return Some(vec![1, 0]);
            }
            let mut cfg = s.cfg.clone();
            let bad: Vec<u8> = t.iter().filter(|(i, v)| !cfg.set(*i, v)).map(|(i, _)| *i).collect();
            if !cfg.complete() {
                return Some(vec![1, 0]);
            }
            if !bad.is_empty() {
                let mut r = vec![4, bad.len() as u8];
                for b in bad {
                    r.extend([b, 4])
                }
                return Some(r);
            }
            s.cfg = cfg;
            if s.state == INIT {
                s.state = IDLE;
                ntfs.push(status(id, IDLE, 0));
            }
            Some(vec![0, 0])
        }
        (SCFG, 4) => {
            if p.len() < 5 {
                return None;
            }
            let ids = elements(&p[4..], 1)?;
            if ids.iter().any(|i| !nameable(i[0])) {
                return None;
            }
            let Some(s) = dev.sessions.get(&u32_at(p, 0)) else { return Some(vec![0x11, 0]) };
            let mut r = vec![0, ids.len() as u8];
            for i in ids {
                match s.cfg.get(i[0]) {
                    Some(v) => {
                        r.extend([i[0], v.len() as u8]);
                        r.extend(v)
                    }
                    None => return Some(vec![2, 0]),
                }
            }
            Some(r)
        }
        (SCFG, 5) => {
            if !p.is_empty() {
                return None;
            }
            Some(vec![0, dev.sessions.len() as u8])
        }
        (SCFG, 6) => Some(match dev.sessions.get(&sid(p, 0)?) {
            Some(s) => vec![0, s.state],
            None => vec![0x11, 0],
        }),
        (SCFG, 7) => multicast(dev, p, ntfs, stops),
        (SCTL, 0) => {
            let Some(s) = dev.sessions.get_mut(&sid(p, 0)?) else { return Some(vec![0x11]) };
            if s.state != IDLE {
                return Some(vec![0x15]);
            }
            s.state = ACTIVE;
            s.interval = s.cfg.interval_ms() * 1_000_000;
            s.next_tick = now + s.interval;
            s.epoch += 1;
            ntfs.push(status(u32_at(p, 0), ACTIVE, 0));
            Some(vec![0])
        }
        (SCTL, 1) => {
            let Some(s) = dev.sessions.get_mut(&sid(p, 0)?) else { return Some(vec![0x11]) };
            if s.state != ACTIVE {
                return Some(vec![0x13]);
            }
            s.state = IDLE;
            ntfs.push(status(u32_at(p, 0), IDLE, 0));
            Some(vec![0])
        }
        (SCTL, 3) => {
            let (st, n) = match dev.sessions.get(&sid(p, 0)?) {
                Some(s) => (0, s.seq),
                None => (0x11, 0),
            };
            let mut r = vec![st];
            r.extend(n.to_le_bytes());
            Some(r)
        }
        (ANDROID, 0) => empty(&consts.power),
        (ANDROID, 1) => {
            if p.len() != 2 {
                return None;
            }
            Some(vec![0])
        }
        _ => None,
    }
}

fn multicast(
    dev: &mut Dev,
    p: &[u8],
    ntfs: &mut Vec<Msg>,
    stops: &mut BTreeMap<(Vec<u8>, u32), u32>,
) -> Option<Vec<u8>> {
    if p.len() < 5 || p[4] > 3 {
        return None;
    }
    let (id, action) = (u32_at(p, 0), p[4]);
    let Some(s) = dev.sessions.get_mut(&id) else { return Some(vec![0x11, 0]) };
    if (s.state != ACTIVE && s.state != IDLE)
        || s.cfg.byte(DEVICE_TYPE) != Some(1)
        || s.cfg.byte(MULTI) != Some(1)
    {
        return Some(vec![1, 0]);
    }
    let size = [6, 6, 22, 38][action as usize];
    let Some(list) = elements(&p[5..], size) else { return Some(vec![3, 0]) };
    let mut dst = s.cfg.dst.clone();
    let mut overall = 0;
    let mut rsp: Vec<(Vec<u8>, u8)> = Vec::new();
    let mut ntf: Vec<(Vec<u8>, u8)> = Vec::new();
    for c in list {
        let a = c[..2].to_vec();
        match action {
            1 => {
                let st = if dst.contains(&a) {
                    dst.retain(|d| *d != a);
                    ntf.push((a.clone(), 0));
                    let n = s.cfg.byte(ATTEMPTS).unwrap() as u32;
                    if n != 0 {
                        *stops.entry((a.clone(), id)).or_default() += n;
                    }
                    0
                } else {
                    overall = 0xee;
                    7
                };
                rsp.push((a, st));
            }
            2 | 3 if s.cfg.byte(STS) != Some(4) => {
                overall = 0xee;
                ntf.push((a, 5));
            }
            _ => {
                let st = if dst.contains(&a) {
                    8
                } else if dst.len() >= 8 {
                    1
                } else {
                    dst.push(a.clone());
                    0
                };
                if st != 0 {
                    overall = 0xee
                }
                rsp.push((a, st));
            }
        }
    }
    if (action == 1 && s.state == ACTIVE) || (action != 1 && !ntf.is_empty()) {
        let mut v = id.to_le_bytes().to_vec();
        v.push(ntf.len() as u8);
        for (a, st) in ntf {
            v.extend(a);
            v.push(st)
        }
        ntfs.push(Msg::new(NTF, SCFG, 7, v));
    }
    s.cfg.set_dst(dst);
    if s.cfg.dst.is_empty() && s.state == ACTIVE {
        s.state = IDLE;
        ntfs.push(status(id, IDLE, 0x33));
    }
    let mut r = vec![overall, rsp.len() as u8];
    for (a, st) in rsp {
        r.extend(a);
        r.push(st)
    }
    Some(r)
}
