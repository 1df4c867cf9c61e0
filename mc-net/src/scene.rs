//! The reference model of pica-http: the scene, its requests and its events.
use crate::geo::*;
use crate::model::*;
use crate::msg::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, Serialize, Deserialize)]
pub enum Op {
    /// A request other than /events.
    Req { path: String, body: Option<String> },
    /// A listener on /events, and its end.
    Listen,
    Unlisten(usize),
    Connect,
    Close(usize),
    Packet(usize, Vec<u8>),
    Advance(u64),
}

pub fn req(path: &str) -> Op {
    Op::Req { path: path.into(), body: None }
}
pub fn req_with(path: &str, p: Pose) -> Op {
    Op::Req { path: path.into(), body: Some(p.json().to_string()) }
}

/// "0C:01"
pub fn print_mac(m: &[u8]) -> String {
    m.iter().map(|b| format!("{b:02X}")).collect::<Vec<_>>().join(":")
}

/// The address a string denotes.
pub fn parse_mac(s: &str) -> Option<Vec<u8>> {
    let mut digits = vec![];
    let mut rest = s.as_bytes();
    while let Some(c) = rest.first() {
        if *c == b':' {
            rest = &rest[1..]
        } else if rest.starts_with(b"%3A") {
            rest = &rest[3..]
        } else {
            digits.push((*c as char).to_digit(16)? as u8);
            rest = &rest[1..]
        }
    }
    (digits.len() == 4 || digits.len() == 16).then(|| digits.chunks(2).map(|d| d[0] << 4 | d[1]).collect())
}

pub enum Body {
    Pose(Pose),
    /// Outside the documented ranges of the angles, inside those of the types.
    Either(Pose),
    Bad,
}

/// The position a body denotes.
pub fn parse_body(b: Option<&str>, mandatory: bool) -> Body {
    let b = b.unwrap_or("");
    if b.is_empty() {
        return if mandatory { Body::Bad } else { Body::Pose(Pose::default()) };
    }
    let Ok(Value::Object(o)) = serde_json::from_str::<Value>(b) else { return Body::Bad };
    // Floats are no integers, even 1.0.
    if o.values().any(|v| v.as_f64().is_some() && v.as_i64().is_none()) {
        return Body::Bad;
    }
    match Pose::read(&Value::Object(o)) {
        None => Body::Bad,
        Some(p) if p.yaw.abs() > 180 || p.pitch.unsigned_abs() > 90 || p.roll.abs() > 180 => Body::Either(p),
        Some(p) => Body::Pose(p),
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Item {
    pub uci: bool,
    pub mac: Vec<u8>,
    pub pose: Pose,
}

pub type Scene = BTreeMap<usize, Item>;

/// Events that a listener receives together.
#[derive(Clone, Debug)]
pub enum Block {
    Added(Item),
    Removed(Item),
    Updated(Item),
    /// One event per ordered pair, in any order.
    Neighbors(Vec<(Item, Item)>),
}

#[derive(Default)]
pub struct Step {
    /// Allowed statuses of the response.
    pub status: Vec<u16>,
    pub blocks: Vec<Block>,
    /// Messages to hosts, by instant.
    pub msgs: Vec<Vec<(usize, Msg)>>,
}

thread_local! {
    static POSES: RefCell<BTreeMap<usize, Pose>> = RefCell::new(BTreeMap::new());
}

#[derive(Clone, PartialEq, Eq, Hash)]
pub struct Model {
    pub world: World,
    pub scene: Scene,
    pub hosts: usize,
    pub now: u64,
    pub listeners: usize,
    pub gone: BTreeSet<usize>,
}

/// The request a path and a body are; None: no such route.
pub enum Request {
    Static(&'static str),
    State,
    Set(Vec<u8>, Pose),
    Create(Vec<u8>, Pose),
    Destroy(Vec<u8>),
    /// Malformed address or position.
    Bad,
    Unknown,
}

pub const STATIC: &[(&str, &str, &str)] = &[
    ("/", "text/html", "index.html"),
    ("/openapi", "text/html", "openapi.html"),
    ("/openapi.yaml", "text/yaml", "openapi.yaml"),
    ("/src/components/Map.js", "application/javascript", "src/components/Map.js"),
    ("/src/components/DeviceInfo.js", "application/javascript", "src/components/DeviceInfo.js"),
    ("/src/components/Orientation.js", "application/javascript", "src/components/Orientation.js"),
];

/// Also says whether 406 is allowed as well.
pub fn request(path: &str, body: Option<&str>) -> (Request, bool) {
    let path = path.split('?').next().unwrap();
    if let Some(s) = STATIC.iter().find(|s| s.0 == path) {
        return (Request::Static(s.2), false);
    }
    let seg: Vec<&str> = path[1..].split('/').collect();
    let posed = |m: &str, mandatory: bool, f: &dyn Fn(Vec<u8>, Pose) -> Request| match (parse_mac(m), parse_body(body, mandatory)) {
        (None, _) | (_, Body::Bad) => (Request::Bad, false),
        (Some(m), Body::Pose(p)) => (f(m, p), false),
        (Some(m), Body::Either(p)) => (f(m, p), true),
    };
    match seg[..] {
        ["get-state"] => (Request::State, false),
        ["init-uci-device", m] => posed(m, false, &Request::Set),
        ["set-position", m] => posed(m, true, &Request::Set),
        ["create-anchor", m] => posed(m, false, &Request::Create),
        ["destroy-anchor", m] => match parse_mac(m) {
            Some(m) => (Request::Destroy(m), false),
            None => (Request::Bad, false),
        },
        _ => (Request::Unknown, false),
    }
}

/// The blocks of events of an update.
pub fn update(scene: &mut Scene, mac: &[u8], pose: Pose) -> Option<Vec<Block>> {
    let h = *scene.iter().find(|(_, i)| i.mac == mac)?.0;
    scene.get_mut(&h).unwrap().pose = pose;
    let me = scene[&h].clone();
    let mut pairs = vec![];
    for (o, other) in scene.iter() {
        if *o != h {
            pairs.push((me.clone(), other.clone()));
            pairs.push((other.clone(), me.clone()));
        }
    }
    Some(vec![Block::Updated(me), Block::Neighbors(pairs)])
}

impl Model {
    pub fn new(consts: Arc<Constants>) -> Model {
        Model {
            world: World::new(consts),
            scene: Scene::new(),
            hosts: 0,
            now: 0,
            listeners: 0,
            gone: BTreeSet::new(),
        }
    }

    /// Makes the rounds of this thread measure in the scene.
    pub fn estimate_in_scene() {
        ESTIMATOR.with(|e| {
            e.set(Some(|l, r| {
                POSES.with(|p| {
                    let p = p.borrow();
                    Some(unique(p.get(&l)?, p.get(&r)?).expect("poses of the alphabet measure unambiguously"))
                })
            }))
        });
    }

    /// What tells states apart that behave differently.
    pub fn key(&self) -> Model {
        let mut k = self.clone();
        for d in k.world.devs.values_mut() {
            for s in d.sessions.values_mut() {
                s.seq = s.seq.min(1);
                if s.state == ACTIVE {
                    s.next_tick -= k.now
                } else {
                    s.next_tick = 0
                }
            }
        }
        k.now = 0;
        k
    }

    pub fn step(&mut self, op: &Op) -> Step {
        let mut st = Step::default();
        match op {
            Op::Req { path, body } => {
                let (r, lenient) = request(path, body.as_deref());
                let status = match r {
                    Request::Static(_) | Request::State => 200,
                    Request::Unknown => 404,
                    Request::Bad => 406,
                    Request::Set(mac, pose) => match update(&mut self.scene, &mac, pose) {
                        None => 404,
                        Some(b) => {
                            st.blocks = b;
                            200
                        }
                    },
                    Request::Create(mac, pose) => match self.world.create_anchor(&mac).anchor.flatten() {
                        None => 409,
                        Some(h) => {
                            let i = Item { uci: false, mac, pose };
                            self.scene.insert(h, i.clone());
                            st.blocks.push(Block::Added(i));
                            200
                        }
                    },
                    Request::Destroy(mac) => match self.world.destroy_anchor(&mac).anchor.flatten() {
                        None => 404,
                        Some(h) => {
                            let i = self.scene.remove(&h).unwrap();
                            st.blocks.push(Block::Removed(i));
                            200
                        }
                    },
                };
                st.status.push(status);
                if lenient {
                    st.status.push(406)
                }
            }
            Op::Listen => self.listeners += 1,
            Op::Unlisten(_) => (),
            Op::Connect => {
                let h = self.hosts;
                self.hosts += 1;
                let o = self.world.connect(h);
                if let Some(Event::Connected { handle, mac }) = o.event {
                    let i = Item { uci: true, mac, pose: Pose::default() };
                    self.scene.insert(handle, i.clone());
                    st.blocks.push(Block::Added(i));
                }
                st.msgs.push(o.msgs);
            }
            Op::Close(h) => {
                self.gone.insert(*h);
                if let Some(Event::Disconnected { handle, .. }) = self.world.disconnect(*h).event {
                    let i = self.scene.remove(&handle).unwrap();
                    st.blocks.push(Block::Removed(i))
                }
            }
            Op::Packet(h, p) => {
                if let Some(o) = self.world.packet(*h, p, self.now) {
                    st.msgs.push(o.msgs)
                }
            }
            Op::Advance(ms) => {
                POSES.with(|p| *p.borrow_mut() = self.scene.iter().map(|(h, i)| (*h, i.pose)).collect());
                let limit = self.now + ms * 1_000_000;
                loop {
                    let mut all: Vec<(u64, usize, u32)> = vec![];
                    for (h, d) in &self.world.devs {
                        for (id, s) in &d.sessions {
                            if s.state == ACTIVE && s.next_tick <= limit {
                                all.push((s.next_tick, *h, *id))
                            }
                        }
                    }
                    let Some(t) = all.iter().map(|a| a.0).min() else { break };
                    let mut msgs = vec![];
                    for (_, h, id) in all.into_iter().filter(|a| a.0 == t) {
                        msgs.extend(self.world.round(h, id).msgs);
                        let s = self.world.devs.get_mut(&h).unwrap().sessions.get_mut(&id).unwrap();
                        s.next_tick += s.interval;
                    }
                    st.msgs.push(msgs);
                }
                self.now = limit;
            }
        }
        st
    }
}

fn category(uci: bool) -> &'static str {
    if uci {
        "uci"
    } else {
        "anchor"
    }
}

/// Whether an object has exactly these keys, with the device's values.
fn device(v: &Value, i: &Item, pose: bool, more: usize) -> bool {
    let Some(o) = v.as_object() else { return false };
    o.len() == 2 + if pose { 6 } else { 0 } + more
        && is_category(&v["category"], i.uci)
        && v["mac_address"] == json!(print_mac(&i.mac))
        && (!pose || Pose::read(v).is_some_and(|p| i.pose.reads_back(&p)))
}

/// The documentation has "uci", the server "Uci".
fn is_category(v: &Value, uci: bool) -> bool {
    v.as_str().is_some_and(|s| s.eq_ignore_ascii_case(category(uci)))
}

pub type Ev = (String, Value);

fn neighbor(v: &Value, a: &Item, b: &Item) -> bool {
    let n = |k: &str| v[k].as_i64();
    let (Some(d), Some(az), Some(el)) = (n("distance"), n("azimuth"), n("elevation")) else { return false };
    let (Ok(d), Ok(az), Ok(el)) = (d.try_into(), az.try_into(), el.try_into()) else { return false };
    v.as_object().is_some_and(|o| o.len() == 7)
        && is_category(&v["source_category"], a.uci)
        && is_category(&v["destination_category"], b.uci)
        && measures(&a.pose, &b.pose, (d, az, el))
}

/// Matches blocks against the front of a stream; the number of events taken.
pub fn consume_events(blocks: &[Block], ev: &[Ev]) -> Result<usize, String> {
    let mut i = 0;
    for b in blocks {
        match b {
            Block::Neighbors(pairs) => {
                let n = pairs.len();
                let got = &ev[i..];
                if got.len() < n {
                    return Err(format!("{} of {n} neighbor-updated events, then {:?}", got.len(), got.last()));
                }
                let mut left: BTreeMap<(String, String), &(Item, Item)> =
                    pairs.iter().map(|p| ((print_mac(&p.0.mac), print_mac(&p.1.mac)), p)).collect();
                for e in &got[..n] {
                    let key = |k: &str| e.1[k].as_str().unwrap_or("").to_string();
                    let p = left.remove(&(key("source_mac_address"), key("destination_mac_address")));
                    match p {
                        Some((a, b)) if e.0 == "neighbor-updated" && neighbor(&e.1, a, b) => (),
                        Some((a, b)) => return Err(format!("event {e:?} for poses {:?} and {:?}", a.pose, b.pose)),
                        None => return Err(format!("event {e:?} is not due, due are {:?}", left.keys().collect::<Vec<_>>())),
                    }
                }
                i += n;
            }
            Block::Added(x) | Block::Removed(x) | Block::Updated(x) => {
                let Some(e) = ev.get(i) else { return Err(format!("no event for {b:?}")) };
                let ok = match b {
                    Block::Added(_) => e.0 == "device-added" && device(&e.1, x, true, 0),
                    Block::Updated(_) => e.0 == "device-updated" && device(&e.1, x, true, 0),
                    _ => e.0 == "device-removed" && device(&e.1, x, false, 0),
                };
                if !ok {
                    return Err(format!("event {e:?} instead of {b:?}"));
                }
                i += 1;
            }
        }
    }
    Ok(i)
}

/// Whether the answer to get-state lists exactly the scene.
pub fn same_scene(body: &[u8], scene: &Scene) -> Result<(), String> {
    let say = || format!("get-state answers {}, the scene is {scene:?}", String::from_utf8_lossy(body));
    let v: Value = serde_json::from_slice(body).map_err(|_| say())?;
    let list = v["devices"].as_array().ok_or_else(say)?;
    if v.as_object().map(|o| o.len()) != Some(1) || list.len() != scene.len() {
        return Err(say());
    }
    let mut left: Vec<&Item> = scene.values().collect();
    for d in list {
        let Some(k) = left.iter().position(|i| device(d, i, true, 0)) else { return Err(say()) };
        left.remove(k);
    }
    Ok(())
}
