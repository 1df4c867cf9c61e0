//! HTTP over the in-memory TCP, and the scene of the real server next to its
//! model.
use crate::compare::ordered;
use crate::geo::*;
use crate::model::*;
use crate::msg::*;
use crate::net::*;
use crate::scene::*;
use mc_common::hex;
use std::collections::BTreeMap;
use std::sync::Arc;
use tokio::mc;
use tokio::net::{host_connect, Peer};

pub fn request_bytes(method: &str, path: &str, body: Option<&[u8]>) -> Vec<u8> {
    let mut v = format!("{method} {path} HTTP/1.1\r\nhost: pica\r\n").into_bytes();
    if let Some(b) = body {
        v.extend(format!("content-type: application/json\r\ncontent-length: {}\r\n", b.len()).bytes())
    }
    v.extend(b"\r\n");
    v.extend(body.unwrap_or(&[]));
    v
}

/// The method the documentation has for a path.
pub fn method(path: &str) -> &'static str {
    if path.starts_with("/destroy-anchor") {
        "DELETE"
    } else if path.starts_with("/create-anchor") || path.starts_with("/set-position") || path.starts_with("/init-uci-device") {
        "POST"
    } else {
        "GET"
    }
}

#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Response {
    pub status: u16,
    pub kind: String,
    pub chunked: bool,
    pub body: Vec<u8>,
}

/// One HTTP connection.
pub struct Web {
    pub peer: Peer,
    buf: Vec<u8>,
    /// What a listener received so far.
    head: Option<Response>,
    text: Vec<u8>,
    pub ended: bool,
}

impl Web {
    pub fn open() -> Option<Web> {
        Web::on(WEB_PORT)
    }
    pub fn on(port: u16) -> Option<Web> {
        Some(Web { peer: host_connect(port)?, buf: vec![], head: None, text: vec![], ended: false })
    }
    pub fn send(&self, path: &str, body: Option<&[u8]>) {
        self.peer.feed(&request_bytes(method(path), path, body))
    }
    /// A header block at the front of what arrived.
    fn header(&mut self) -> Result<Option<(Response, Option<usize>)>, String> {
        let Some(end) = self.buf.windows(4).position(|w| w == b"\r\n\r\n") else { return Ok(None) };
        let head = String::from_utf8(self.buf.drain(..end + 4).collect()).map_err(|_| "header is no text".to_string())?;
        let mut lines = head.trim_end().split("\r\n");
        let first = lines.next().unwrap();
        let status = first.strip_prefix("HTTP/1.1 ").and_then(|s| s.get(..3)).and_then(|s| s.parse().ok());
        let Some(status) = status else { return Err(format!("status line {first:?}")) };
        let mut r = Response { status, ..Default::default() };
        let mut len = None;
        for l in lines {
            let Some((k, v)) = l.split_once(':') else { return Err(format!("header line {l:?}")) };
            let v = v.trim();
            match k.to_ascii_lowercase().as_str() {
                "content-type" => r.kind = v.into(),
                "content-length" => len = v.parse().ok(),
                "transfer-encoding" => r.chunked = v == "chunked",
                _ => (),
            }
        }
        Ok(Some((r, len)))
    }
    /// The next complete response.
    pub fn response(&mut self) -> Result<Option<Response>, String> {
        self.buf.extend(self.peer.take_written());
        let keep = self.buf.clone();
        let Some((mut r, len)) = self.header()? else { return Ok(None) };
        let Some(len) = len else { return Err(format!("response {} without a length", r.status)) };
        if self.buf.len() < len {
            self.buf = keep;
            return Ok(None);
        }
        r.body = self.buf.drain(..len).collect();
        Ok(Some(r))
    }
    /// Exactly one response, and nothing else.
    pub fn only(&mut self) -> Result<Response, String> {
        let r = self.response()?;
        match r {
            Some(r) if self.buf.is_empty() => Ok(r),
            Some(r) => Err(format!("after a response {}: bytes {}", r.status, hex(&self.buf))),
            None => Err(format!("no response, bytes {}", hex(&self.buf))),
        }
    }
    /// Events received since the last call.
    pub fn events(&mut self) -> Result<Vec<Ev>, String> {
        self.buf.extend(self.peer.take_written());
        if self.head.is_none() {
            let Some((r, len)) = self.header()? else {
                return if self.buf.is_empty() { Ok(vec![]) } else { Err("half of a header".into()) };
            };
            if r.status != 200 || r.kind != "text/event-stream" || len.is_some() || !r.chunked {
                return Err(format!("/events answers {r:?}"));
            }
            self.head = Some(r);
        }
        while !self.buf.is_empty() && !self.ended {
            let Some(e) = self.buf.windows(2).position(|w| w == b"\r\n") else { return Err("half of a chunk size".into()) };
            let n = std::str::from_utf8(&self.buf[..e]).ok().and_then(|s| usize::from_str_radix(s, 16).ok());
            let Some(n) = n else { return Err("chunk size".into()) };
            if self.buf.len() < e + 4 + n || &self.buf[e + 2 + n..e + 4 + n] != b"\r\n" {
                return Err("half of a chunk".into());
            }
            self.text.extend_from_slice(&self.buf[e + 2..e + 2 + n]);
            self.buf.drain(..e + 4 + n);
            self.ended = n == 0;
        }
        let text = String::from_utf8(std::mem::take(&mut self.text)).map_err(|_| "events are no text".to_string())?;
        let mut out = vec![];
        let mut rest = text.as_str();
        while !rest.is_empty() {
            let Some(e) = rest.find("\n\n") else { return Err(format!("half of an event: {rest:?}")) };
            let (one, r) = rest.split_at(e);
            rest = &r[2..];
            let lines: Vec<&str> = one.split('\n').collect();
            let [a, b] = lines[..] else { return Err(format!("event {one:?}")) };
            let (Some(name), Some(data)) = (a.strip_prefix("event: "), b.strip_prefix("data: ")) else {
                return Err(format!("event {one:?}"));
            };
            let data = serde_json::from_str(data).map_err(|e| format!("event data {data:?}: {e}"))?;
            out.push((name.to_string(), data));
        }
        Ok(out)
    }
    pub fn listening(&self) -> bool {
        self.head.is_some()
    }
}

/// The real server and its model.
pub struct Twin<'a> {
    pub net: &'a mut Net,
    pub m: Model,
    pub web: Web,
    pub listeners: Vec<Option<Web>>,
    /// Expected on every listener, and not compared yet.
    pub due: Vec<Vec<Block>>,
    pub exp: BTreeMap<usize, Vec<Vec<Msg>>>,
    /// Look at the state after every operation.
    pub watch: bool,
}

impl<'a> Twin<'a> {
    pub fn new(net: &'a mut Net, consts: Arc<Constants>) -> Result<Twin<'a>, String> {
        Model::estimate_in_scene();
        let web = Web::open().ok_or("the server does not listen for HTTP")?;
        net.settle();
        Ok(Twin {
            net,
            m: Model::new(consts),
            web,
            listeners: vec![],
            due: vec![],
            exp: BTreeMap::new(),
            watch: true,
        })
    }

    pub fn get_state(&mut self) -> Result<Vec<u8>, String> {
        self.web.send("/get-state", None);
        self.net.settle();
        let r = self.web.only().map_err(|e| format!("get-state: {e}"))?;
        if r.status != 200 {
            return Err(format!("get-state: {}", r.status));
        }
        Ok(r.body)
    }

    /// The operation, on the server only.
    pub fn act(&mut self, op: &Op) -> Result<(), String> {
        match op {
            Op::Req { path, body } => self.web.send(path, body.as_deref().map(|b| b.as_bytes())),
            Op::Listen => {
                let w = Web::open().ok_or("the server does not listen for HTTP")?;
                w.send("/events", None);
                self.listeners.push(Some(w));
                self.due.push(vec![]);
            }
            Op::Unlisten(i) => {
                if let Some(w) = self.listeners[*i].take() {
                    w.peer.close()
                }
            }
            Op::Connect => {
                self.net.connect().ok_or("the server does not listen for hosts")?;
            }
            Op::Close(h) => self.net.hosts[*h].peer.close(),
            Op::Packet(h, p) => {
                for s in segments(p) {
                    self.net.hosts[*h].peer.feed(&s)
                }
            }
            Op::Advance(ms) => self.net.run_to(mc::now_ns() + ms * 1_000_000),
        }
        Ok(())
    }

    /// The operation, on both, and everything compared.
    pub fn apply(&mut self, op: &Op) -> Result<(), String> {
        let before = self.m.clone();
        self.act(op)?;
        self.net.settle();
        let st = self.m.step(op);
        mc_common::state(&self.m.key());
        for d in &mut self.due {
            d.extend(st.blocks.iter().cloned())
        }
        for g in st.msgs {
            let mut by: BTreeMap<usize, Vec<Msg>> = BTreeMap::new();
            for (h, x) in g {
                by.entry(h).or_default().push(x)
            }
            for (h, g) in by {
                self.exp.entry(h).or_default().push(g)
            }
        }
        if let Some(b) = self.net.broken() {
            return Err(b);
        }
        if let Op::Req { path, body } = op {
            let r = self.web.only().map_err(|e| format!("{path}: {e}"))?;
            if !st.status.contains(&r.status) {
                return Err(format!("{path} {body:?}: status {} instead of {:?}", r.status, st.status));
            }
            if r.status == 406 && st.status[0] != 406 {
                // Refused, as it may be: no effect.
                self.m = before;
                for d in &mut self.due {
                    let n = d.len() - st.blocks.len();
                    d.truncate(n);
                }
            }
            match request(path, body.as_deref()).0 {
                Request::State => same_scene(&r.body, &self.m.scene)?,
                Request::Static(f) => {
                    let want = std::fs::read(format!("/repo/static/{f}")).unwrap_or_default();
                    if r.body != want {
                        return Err(format!("{path}: {} bytes that are not {f}", r.body.len()));
                    }
                }
                _ => (),
            }
        }
        self.compare()?;
        if self.watch {
            let b = self.get_state()?;
            same_scene(&b, &self.m.scene).map_err(|e| format!("after {op:?}: {e}"))?;
        }
        Ok(())
    }

    /// Everything due has arrived, and nothing else.
    pub fn compare(&mut self) -> Result<(), String> {
        if let Some(b) = self.net.broken() {
            return Err(b);
        }
        for (i, l) in self.listeners.iter_mut().enumerate() {
            let Some(w) = l else { continue };
            let ev = w.events().map_err(|e| format!("listener {i}: {e}"))?;
            if !w.listening() || w.ended {
                return Err(format!("listener {i} is not served"));
            }
            let n = consume_events(&self.due[i], &ev).map_err(|e| format!("listener {i}: {e}"))?;
            if n != ev.len() {
                return Err(format!("listener {i}: unexpected event {:?}", ev[n]));
            }
            self.due[i].clear();
        }
        for (h, host) in self.net.hosts.iter_mut().enumerate() {
            let obs = host.take();
            let want = self.exp.remove(&h).unwrap_or_default();
            if !ordered(&want, &obs) || !host.complete() {
                return Err(format!("host {h}: expected {want:?}, received {obs:?}"));
            }
            if self.m.gone.contains(&h) && !host.peer.closed_by_server() {
                return Err(format!("the connection of host {h} is over, but the server keeps it"));
            }
        }
        Ok(())
    }
}

/// All operations on a fresh server, each compared.
pub fn replay_ops(consts: &Arc<Constants>, ops: &[Op], watch: bool) -> (Option<String>, u64) {
    let (consts, ops) = (consts.clone(), ops.to_vec());
    run(Server::Http, move |n| {
        let bad = (|| {
            let mut t = Twin::new(n, consts)?;
            for (i, o) in ops.iter().enumerate() {
                t.watch = watch || i + 1 == ops.len();
                t.apply(o)?
            }
            Ok(())
        })();
        (bad.err(), mc::stats().polls)
    })
}

pub fn pose(i: usize) -> Pose {
    [
        Pose::default(),
        Pose::new(100, -200, 310, 0, 0, 0),
        Pose::new(-400, 37, -120, 90, 0, 0),
        Pose::new(250, 130, 70, 30, -20, 50),
        Pose::new(-30000, 20000, 29000, -120, 40, 10),
        Pose::new(7, 11, -23, 170, 60, -80),
    ][i]
}
