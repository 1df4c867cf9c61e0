//! The code under test, driven through its public interface: in-memory packet
//! streams as hosts, the command channel for anchors, the event channel.
use crate::model::estimate;
use crate::msg::*;
use pica::{PicaCommand, PicaCommandError, PicaEvent, RangingEstimator, RangingMeasurement};
use std::collections::{BTreeSet, VecDeque};
use std::path::PathBuf;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};
use tokio::mc;
use tokio::sync::{broadcast, mpsc, oneshot};

pub type Blocked = Arc<Mutex<BTreeSet<(usize, usize)>>>;

/// The same estimates as the model.
struct Est(Blocked);
impl RangingEstimator for Est {
    fn estimate(&self, l: &usize, r: &usize) -> Option<RangingMeasurement> {
        let b = self.0.lock().unwrap();
        estimate(&b, *l, *r).map(|(range, azimuth, elevation)| RangingMeasurement { range, azimuth, elevation })
    }
}

#[derive(Default)]
struct Port {
    input: VecDeque<Vec<u8>>,
    closed: bool,
    rwaker: Option<Waker>,
    output: Vec<(u64, Vec<u8>)>,
    blocked: bool,
    /// Writing fails after this many segments.
    fail_after: Option<usize>,
    failed: bool,
    written: usize,
    taken: usize,
    wwaker: Option<Waker>,
    stream_dropped: bool,
    sink_dropped: bool,
}

struct HostStream(Arc<Mutex<Port>>);
impl futures::Stream for HostStream {
    type Item = Vec<u8>;
    fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Vec<u8>>> {
        let mut p = self.0.lock().unwrap();
        if let Some(x) = p.input.pop_front() {
            p.taken += 1;
            return Poll::Ready(Some(x));
        }
        if p.closed {
            return Poll::Ready(None);
        }
        p.rwaker = Some(cx.waker().clone());
        Poll::Pending
    }
}
impl Drop for HostStream {
    fn drop(&mut self) {
        self.0.lock().unwrap().stream_dropped = true
    }
}

struct HostSink(Arc<Mutex<Port>>);
impl futures::Sink<Vec<u8>> for HostSink {
    type Error = anyhow::Error;
    fn poll_ready(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<anyhow::Result<()>> {
        let mut p = self.0.lock().unwrap();
        if p.fail_after.map_or(false, |n| p.written >= n) {
            p.failed = true;
            return Poll::Ready(Err(anyhow::anyhow!("broken pipe")));
        }
        if p.blocked {
            p.wwaker = Some(cx.waker().clone());
            return Poll::Pending;
        }
        Poll::Ready(Ok(()))
    }
    fn start_send(self: Pin<&mut Self>, item: Vec<u8>) -> anyhow::Result<()> {
        let mut p = self.0.lock().unwrap();
        p.written += 1;
        p.output.push((mc::now_ns(), item));
        Ok(())
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<anyhow::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_close(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<anyhow::Result<()>> {
        Poll::Ready(Ok(()))
    }
}
impl Drop for HostSink {
    fn drop(&mut self) {
        self.0.lock().unwrap().sink_dropped = true
    }
}

pub struct Host {
    port: Arc<Mutex<Port>>,
    pub asm: Reassembly,
    more: bool,
    pub raw_in: Vec<Vec<u8>>,
    pub raw_out: Vec<Vec<u8>>,
}

impl Host {
    pub fn feed(&mut self, seg: &[u8]) {
        self.raw_in.push(seg.to_vec());
        let w = {
            let mut p = self.port.lock().unwrap();
            p.input.push_back(seg.to_vec());
            p.rwaker.take()
        };
        w.map(|w| w.wake());
    }
    pub fn close(&mut self) {
        let w = {
            let mut p = self.port.lock().unwrap();
            p.closed = true;
            p.rwaker.take()
        };
        w.map(|w| w.wake());
    }
    pub fn block(&mut self, on: bool) {
        let w = {
            let mut p = self.port.lock().unwrap();
            p.blocked = on;
            if on {
                None
            } else {
                p.wwaker.take()
            }
        };
        w.map(|w| w.wake());
    }
    /// Writing fails from the n-th further segment on.
    pub fn fail_after(&mut self, n: usize) {
        let mut p = self.port.lock().unwrap();
        p.fail_after = Some(p.written + n);
    }
    /// A write was refused.
    pub fn failed(&self) -> bool {
        self.port.lock().unwrap().failed
    }
    /// Counts the segments exchanged so far: (read by the server, written by it).
    pub fn meter(&self) -> impl Fn() -> (usize, usize) {
        let port = self.port.clone();
        move || {
            let p = port.lock().unwrap();
            (p.taken, p.written)
        }
    }
    pub fn dropped(&self) -> bool {
        let p = self.port.lock().unwrap();
        p.stream_dropped && p.sink_dropped
    }
    /// What arrived since the last call, reassembled and canonical.
    pub fn take(&mut self) -> Vec<(u64, Msg)> {
        let raw = std::mem::take(&mut self.port.lock().unwrap().output);
        let mut out: Vec<(u64, Msg)> = Vec::new();
        for (t, seg) in raw {
            if let Some(m) = self.asm.push(&seg) {
                let (m, full) = (m.canonical(), m.full_info());
                // A round with more measurements than a notification holds.
                if let (true, Some((_, last))) = (self.more, out.last_mut()) {
                    if last.continue_info(&m) {
                        self.more = full;
                        self.raw_out.push(seg);
                        continue;
                    }
                }
                self.more = full;
                out.push((t, m))
            }
            self.raw_out.push(seg);
        }
        out
    }
}

pub struct Sim {
    pub tx: mpsc::Sender<PicaCommand>,
    pub hosts: Vec<Host>,
    pub events: broadcast::Receiver<PicaEvent>,
    pub blocked: Blocked,
    pub actor: usize,
    /// The context, when it is run by `pica::run` instead of `Pica::run`.
    context: Option<Arc<Mutex<pica::Pica>>>,
    /// The handles devices were added under, through the context.
    pub added: Vec<Option<usize>>,
}

pub type AnchorReply = oneshot::Receiver<Result<usize, PicaCommandError>>;

pub fn mac(b: &[u8]) -> pica::MacAddress {
    if b.len() == 2 {
        pica::MacAddress::Short(b.try_into().unwrap())
    } else {
        pica::MacAddress::Extended(b.try_into().unwrap())
    }
}

pub fn mac_bytes(m: pica::MacAddress) -> Vec<u8> {
    match m {
        pica::MacAddress::Short(b) => b.to_vec(),
        pica::MacAddress::Extended(b) => b.to_vec(),
    }
}

impl Sim {
    pub fn new(trace_dir: Option<PathBuf>) -> Sim {
        Sim::with(trace_dir, false)
    }
    pub fn with(trace_dir: Option<PathBuf>, embedded: bool) -> Sim {
        let blocked = Blocked::default();
        let pica = pica::Pica::new(Box::new(Est(blocked.clone())), trace_dir);
        let tx = pica.commands();
        let events = pica.events();
        let mut context = None;
        let actor = if embedded {
            let shared = Arc::new(Mutex::new(pica));
            context = Some(shared.clone());
            mc::spawn_raw(
                "pica",
                Box::pin(async move {
                    let _ = pica::run(&shared).await;
                }),
            )
        } else {
            mc::spawn_raw(
                "pica",
                Box::pin(async move {
                    let _ = pica.run().await;
                }),
            )
        };
        Sim { tx, hosts: Vec::new(), events, blocked, actor, context, added: Vec::new() }
    }
    /// Asks for a new connection; returns the host's index.
    pub fn connect(&mut self) -> usize {
        let cmd = self.connect_command();
        match (&self.context, cmd) {
            (Some(c), PicaCommand::Connect(stream, sink)) => {
                let c = c.clone();
                let handle = match c.lock() {
                    Ok(mut p) => p.add_device(stream, sink).ok(),
                    Err(_) => None,
                };
                self.added.push(handle)
            }
            (_, cmd) => {
                let _ = self.tx.try_send(cmd);
            }
        }
        self.hosts.len() - 1
    }
    /// Adds a host; returns the command that connects it.
    pub fn connect_command(&mut self) -> PicaCommand {
        let port = Arc::new(Mutex::new(Port::default()));
        let cmd = PicaCommand::Connect(Box::pin(HostStream(port.clone())), Box::pin(HostSink(port.clone())));
        self.hosts.push(Host { port, asm: Reassembly::default(), more: false, raw_in: vec![], raw_out: vec![] });
        cmd
    }
    pub fn create_command(&mut self, m: &[u8]) -> (PicaCommand, AnchorReply) {
        let (a, b) = oneshot::channel();
        (PicaCommand::CreateAnchor(mac(m), a), b)
    }
    pub fn destroy_command(&mut self, m: &[u8]) -> (PicaCommand, AnchorReply) {
        let (a, b) = oneshot::channel();
        (PicaCommand::DestroyAnchor(mac(m), a), b)
    }
    pub fn create_anchor(&mut self, m: &[u8]) -> AnchorReply {
        let (c, r) = self.create_command(m);
        let _ = self.tx.try_send(c);
        r
    }
    pub fn destroy_anchor(&mut self, m: &[u8]) -> AnchorReply {
        let (c, r) = self.destroy_command(m);
        let _ = self.tx.try_send(c);
        r
    }
    pub fn take_events(&mut self) -> Vec<crate::model::Event> {
        use crate::model::Event;
        let mut out = Vec::new();
        loop {
            match self.events.try_recv() {
                Ok(PicaEvent::Connected { handle, mac_address }) => {
                    out.push(Event::Connected { handle, mac: mac_bytes(mac_address) })
                }
                Ok(PicaEvent::Disconnected { handle, mac_address }) => {
                    out.push(Event::Disconnected { handle, mac: mac_bytes(mac_address) })
                }
                _ => return out,
            }
        }
    }
    pub fn set_blocked(&mut self, b: &BTreeSet<(usize, usize)>) {
        *self.blocked.lock().unwrap() = b.clone()
    }
}
