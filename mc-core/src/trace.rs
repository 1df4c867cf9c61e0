//! Traces (C16): the files written by the connections, read back with a strict
//! parser and compared with the segments that the hosts exchanged.
use crate::families::{active, f, idle, ready, Tier, C};
use crate::model::*;
use crate::msg::*;
use crate::run::threads;
use crate::settled::*;
use crate::sim::*;
use mc_common::*;
use serde::{Deserialize, Serialize};
use serde_json::json;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use std::rc::Rc;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;
use tokio::mc;

// ---------------------------------------------------------- environment ----

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Fault {
    /// A write takes one byte only.
    Short1,
    /// A write takes all but one byte.
    ShortMost,
    /// A write is interrupted before anything is written.
    Interrupted,
    /// A write fails; later ones succeed.
    Full,
    /// A write and all later ones fail.
    FullForever,
    /// A write takes half of the bytes, and all later ones fail.
    HalfThenFull,
}

impl Fault {
    const ALL: [Fault; 6] =
        [Fault::Short1, Fault::ShortMost, Fault::Interrupted, Fault::Full, Fault::FullForever, Fault::HalfThenFull];
    /// Nothing is lost when the rest is written again.
    fn recoverable(self) -> bool {
        matches!(self, Fault::Short1 | Fault::ShortMost | Fault::Interrupted)
    }
}

thread_local! {
    /// This thread runs an execution: writes are counted and may fail, and the
    /// clock follows the scheduler.
    static INSIDE: Cell<bool> = const { Cell::new(false) };
    static WRITES: Cell<u64> = const { Cell::new(0) };
    static PLAN: RefCell<Vec<(u64, Fault)>> = const { RefCell::new(Vec::new()) };
    static BROKEN: Cell<bool> = const { Cell::new(false) };
    /// Added to the time of the scheduler (ns).
    static OFFSET: Cell<u64> = const { Cell::new(0) };
    static LAST: Cell<u64> = const { Cell::new(0) };
}

extern "C" {
    fn syscall(n: i64, ...) -> i64;
    fn __errno_location() -> *mut i32;
}
const SYS_WRITE: i64 = 1;
const SYS_WRITEV: i64 = 20;
const SYS_CLOCK_GETTIME: i64 = 228;

fn fail(e: i32) -> isize {
    // SAFETY: the address of this thread's errno.
    unsafe { *__errno_location() = e }
    -1
}

/// How many of `n` bytes the next write takes, or the error it fails with.
fn admit(n: usize) -> Result<usize, i32> {
    if !INSIDE.with(|i| i.get()) || n == 0 {
        return Ok(n);
    }
    let k = WRITES.with(|w| w.replace(w.get() + 1));
    if BROKEN.with(|b| b.get()) {
        return Err(28);
    }
    let fault = PLAN.with(|p| p.borrow().iter().find(|x| x.0 == k).map(|x| x.1));
    match fault {
        None => Ok(n),
        Some(Fault::Short1) => Ok(1),
        Some(Fault::ShortMost) => Ok((n - 1).max(1)),
        Some(Fault::Interrupted) => Err(4),
        Some(Fault::Full) => Err(28),
        Some(Fault::FullForever) => {
            BROKEN.with(|b| b.set(true));
            Err(28)
        }
        Some(Fault::HalfThenFull) => {
            BROKEN.with(|b| b.set(true));
            Ok((n / 2).max(1))
        }
    }
}

#[no_mangle]
pub extern "C" fn write(fd: i32, buf: *const u8, n: usize) -> isize {
    match admit(n) {
        // SAFETY: the caller's arguments.
        Ok(n) => unsafe { syscall(SYS_WRITE, fd as i64, buf, n) as isize },
        Err(e) => fail(e),
    }
}

#[repr(C)]
#[derive(Clone, Copy)]
pub struct IoVec {
    base: *const u8,
    len: usize,
}

#[no_mangle]
pub extern "C" fn writev(fd: i32, iov: *const IoVec, n: i32) -> isize {
    // SAFETY: the caller's arguments.
    let v = unsafe { std::slice::from_raw_parts(iov, n.max(0) as usize) };
    let total: usize = v.iter().map(|x| x.len).sum();
    match admit(total) {
        Ok(t) if t == total => unsafe { syscall(SYS_WRITEV, fd as i64, iov, n as i64) as isize },
        Ok(mut t) => {
            let mut done = 0;
            for x in v {
                let k = x.len.min(t);
                if k > 0 {
                    done += unsafe { syscall(SYS_WRITE, fd as i64, x.base, k) as isize };
                }
                t -= k;
            }
            done
        }
        Err(e) => fail(e),
    }
}

#[repr(C)]
pub struct TimeSpec {
    sec: i64,
    nsec: i64,
}

#[no_mangle]
pub extern "C" fn clock_gettime(id: i32, ts: *mut TimeSpec) -> i32 {
    if INSIDE.try_with(|i| i.get()).unwrap_or(false) {
        let t = clock();
        // SAFETY: the caller's argument.
        unsafe {
            (*ts).sec = (t / 1_000_000_000) as i64;
            (*ts).nsec = (t % 1_000_000_000) as i64;
        }
        return 0;
    }
    unsafe { syscall(SYS_CLOCK_GETTIME, id as i64, ts) as i32 }
}

/// The time the code under test sees (ns).
fn clock() -> u64 {
    let now = mc::try_now_ns().unwrap_or(LAST.with(|l| l.get()));
    LAST.with(|l| l.set(now));
    1_700_000_000_000_000_000 + OFFSET.with(|o| o.get()) + now
}

/// A directory of its own for one execution, removed afterwards.
struct Scratch(PathBuf);

impl Scratch {
    fn new() -> Scratch {
        static N: AtomicU64 = AtomicU64::new(0);
        let root = std::env::var("MC_TRACE_ROOT").unwrap_or("/tmp".into());
        let p = Path::new(&root).join(format!("mc-trace-{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
        std::fs::create_dir(&p).expect("scratch directory");
        Scratch(p)
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        INSIDE.with(|i| i.set(false));
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

// --------------------------------------------------------------- parser ----

#[derive(Debug)]
struct Parsed {
    /// Ticks and payload of every packet record.
    records: Vec<(u64, Vec<u8>)>,
    /// Ticks per second.
    resolution: u64,
    /// Bytes of an unfinished last block.
    torn: usize,
}

fn le16(b: &[u8], i: usize) -> usize {
    u16::from_le_bytes([b[i], b[i + 1]]) as usize
}
fn le32(b: &[u8], i: usize) -> usize {
    u32::from_le_bytes(b[i..i + 4].try_into().unwrap()) as usize
}

/// The options of a block: (code, value).
fn options(mut b: &[u8], what: &str) -> Result<Vec<(usize, Vec<u8>)>, String> {
    let mut out = vec![];
    while !b.is_empty() {
        if b.len() < 4 {
            return Err(format!("{what}: truncated option"));
        }
        let (code, len) = (le16(b, 0), le16(b, 2));
        let whole = 4 + len.div_ceil(4) * 4;
        if whole > b.len() {
            return Err(format!("{what}: option {code} longer than its block"));
        }
        if code == 0 {
            if len != 0 || b.len() != 4 {
                return Err(format!("{what}: bad end of options"));
            }
            return Ok(out);
        }
        out.push((code, b[4..4 + len].to_vec()));
        b = &b[whole..];
    }
    Ok(out)
}

fn parse(bytes: &[u8]) -> Result<Parsed, String> {
    state(&bytes);
    let mut out = Parsed { records: vec![], resolution: 1_000_000, torn: 0 };
    let (mut at, mut n) = (0usize, 0usize);
    while at < bytes.len() {
        let b = &bytes[at..];
        let what = format!("block {n} at offset {at}");
        if b.len() < 8 {
            out.torn = b.len();
            return Ok(out);
        }
        let (ty, len) = (le32(b, 0), le32(b, 4));
        if len % 4 != 0 || len < 12 {
            return Err(format!("{what}: total length {len}"));
        }
        let known = match n {
            0 => ty == 0x0A0D0D0A,
            1 => ty == 1,
            _ => ty == 6,
        };
        if !known {
            return Err(format!("{what}: type {ty:#x}"));
        }
        if len > b.len() {
            out.torn = b.len();
            return Ok(out);
        }
        let b = &b[..len];
        if le32(b, len - 4) != len {
            return Err(format!("{what}: total lengths {len} and {}", le32(b, len - 4)));
        }
        match n {
            0 => {
                if len < 28 || le32(b, 8) != 0x1A2B3C4D || le16(b, 12) != 1 || le16(b, 14) != 0 {
                    return Err(format!("{what}: bad section header"));
                }
                if b[16..24] != [0xff; 8] {
                    return Err(format!("{what}: section length"));
                }
                options(&b[24..len - 4], &what)?;
            }
            1 => {
                if len < 20 || le16(b, 8) != 293 {
                    return Err(format!("{what}: not an UCI interface"));
                }
                if le32(b, 12) != 0 {
                    return Err(format!("{what}: snap length {}", le32(b, 12)));
                }
                for (code, v) in options(&b[16..len - 4], &what)? {
                    if code == 9 && v.len() == 1 {
                        out.resolution = if v[0] & 0x80 != 0 { 1 << (v[0] & 0x7f) } else { 10u64.pow(v[0] as u32) }
                    }
                }
            }
            _ => {
                if len < 32 {
                    return Err(format!("{what}: total length {len}"));
                }
                let (cap, orig) = (le32(b, 20), le32(b, 24));
                if le32(b, 8) != 0 {
                    return Err(format!("{what}: interface {}", le32(b, 8)));
                }
                if cap != orig {
                    return Err(format!("{what}: {cap} of {orig} bytes"));
                }
                let end = 28 + cap.div_ceil(4) * 4;
                if end + 4 > len {
                    return Err(format!("{what}: total length {len} for a packet of {cap} bytes"));
                }
                if b[28 + cap..end].iter().any(|x| *x != 0) {
                    return Err(format!("{what}: padding is not zero"));
                }
                options(&b[end..len - 4], &what)?;
                let ticks = ((le32(b, 12) as u64) << 32) | le32(b, 16) as u64;
                out.records.push((ticks, b[28..28 + cap].to_vec()));
            }
        }
        at += len;
        n += 1;
    }
    Ok(out)
}

// ---------------------------------------------------------------- files ----

/// One connection's trace, followed over an execution.
struct Follow {
    host: usize,
    bytes: Vec<u8>,
    /// Records, inputs and outputs accounted for.
    base: (usize, usize, usize),
    last: u64,
    /// Ticks of the first record, and the clock before and after it (ns).
    first: Option<(u64, u64, u64)>,
}

/// Whether `recs` is a merge of `ins` and `outs`, up to `si` inputs and `so`
/// outputs missing at the end, and `xo` outputs more than were delivered.
fn merges(recs: &[&[u8]], ins: &[Vec<u8>], outs: &[Vec<u8>], si: usize, so: usize, xo: usize) -> bool {
    // Numbers of inputs with which the records so far can be explained.
    let mut at: BTreeSet<usize> = [0].into_iter().collect();
    for (k, r) in recs.iter().enumerate() {
        let mut next = BTreeSet::new();
        for i in at {
            let j = k - i;
            if ins.get(i).map_or(false, |x| x == r) {
                next.insert(i + 1);
            }
            let out = match outs.get(j) {
                Some(x) => x == r,
                None => j < outs.len() + xo,
            };
            if out {
                next.insert(i);
            }
        }
        at = next;
    }
    at.into_iter().any(|i| i + si >= ins.len() && recs.len() - i + so >= outs.len())
}

impl Follow {
    fn new(host: usize) -> Follow {
        Follow { host, bytes: vec![], base: (0, 0, 0), last: 0, first: None }
    }

    /// Compares the file with what was exchanged; (t0, t1) is the clock before
    /// and after the last operation.
    fn check(&mut self, path: &Path, h: &Host, t: (u64, u64), si: usize, xo: usize) -> Result<usize, String> {
        let name = path.file_name().unwrap().to_string_lossy().to_string();
        let now = std::fs::read(path).map_err(|e| format!("{name}: {e}"))?;
        if !now.starts_with(&self.bytes) {
            return Err(format!("{name}: earlier contents changed"));
        }
        let p = parse(&now).map_err(|e| format!("{name}: {e}"))?;
        if p.torn > 0 {
            return Err(format!("{name}: incomplete block at the end"));
        }
        let (r, i, o) = self.base;
        let recs: Vec<&[u8]> = p.records[r..].iter().map(|x| &x.1[..]).collect();
        let (ins, outs) = (&h.raw_in[i..], &h.raw_out[o..]);
        if !merges(&recs, ins, outs, si, 0, xo) {
            return Err(format!(
                "{name}: records {:?} are no merge of the inputs {:?} and the outputs {:?}",
                recs.iter().map(|x| hex(x)).collect::<Vec<_>>(),
                ins.iter().map(|x| hex(x)).collect::<Vec<_>>(),
                outs.iter().map(|x| hex(x)).collect::<Vec<_>>()
            ));
        }
        let old = parse(&self.bytes).map(|p| p.records.len()).unwrap_or(0);
        for (k, (ticks, _)) in p.records.iter().enumerate().skip(old) {
            if *ticks < self.last {
                return Err(format!("{name}: record {k}: timestamp {ticks} after {}", self.last));
            }
            self.last = *ticks;
            match self.first {
                None => self.first = Some((*ticks, t.0, t.1)),
                Some((t0, a, b)) => {
                    let ns = ((*ticks - t0) as u128 * 1_000_000_000 / p.resolution as u128) as u64;
                    let slack = 2_000;
                    if ns + slack < t.0.saturating_sub(b) || ns > t.1 - a + slack {
                        return Err(format!(
                            "{name}: record {k}: {} us after the first, {}..{} us went by",
                            ns / 1000,
                            t.0.saturating_sub(b) / 1000,
                            (t.1 - a) / 1000
                        ));
                    }
                }
            }
        }
        if recs.len() == ins.len() + outs.len() && si == 0 && xo == 0 {
            self.base = (p.records.len(), h.raw_in.len(), h.raw_out.len());
        }
        self.bytes = now;
        Ok(p.records.len())
    }
}

// ---------------------------------------------------------------- cases ----

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Place {
    /// An empty directory.
    Fresh,
    /// Files of an earlier run are there.
    Stale,
    Missing,
    /// The directory is a file.
    NotDir,
    /// The first trace cannot be created.
    Occupied,
    /// The first trace goes to a full device.
    Full,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Step {
    Do(Op),
    /// Time passes, unseen by the controller (ms).
    Clock(u64),
    /// Writing to the host fails after n further segments.
    Fail(usize, usize),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub place: Place,
    pub steps: Vec<Step>,
    pub faults: Vec<(u64, Fault)>,
}

#[derive(Default)]
pub struct Outcome {
    /// Violations of C16.
    pub bad: Option<String>,
    /// Differences that have nothing to do with traces.
    pub foreign: Option<String>,
    pub records: usize,
    pub writes: u64,
    pub steps: u64,
}

fn prepare(place: Place, s: &Scratch) -> PathBuf {
    let dir = s.0.join("traces");
    match place {
        Place::Missing => (),
        Place::NotDir => std::fs::write(&dir, b"file").unwrap(),
        _ => std::fs::create_dir(&dir).unwrap(),
    }
    match place {
        Place::Stale => {
            for i in 0..3 {
                std::fs::write(dir.join(format!("device-{i}.pcapng")), vec![0x55; 5000]).unwrap()
            }
        }
        Place::Occupied => std::fs::create_dir(dir.join("device-0.pcapng")).unwrap(),
        Place::Full => std::os::unix::fs::symlink("/dev/full", dir.join("device-0.pcapng")).unwrap(),
        _ => (),
    }
    dir
}

fn listing(dir: &Path) -> BTreeSet<String> {
    match std::fs::read_dir(dir) {
        Ok(d) => d.filter_map(|e| e.ok()).map(|e| e.file_name().to_string_lossy().to_string()).collect(),
        Err(_) => BTreeSet::new(),
    }
}

/// The operations alone, without traces.
fn plain(consts: &Arc<Constants>, case: &Case) -> Option<String> {
    let ops: Vec<Op> = case
        .steps
        .iter()
        .filter_map(|s| if let Step::Do(o) = s { Some(o.clone()) } else { None })
        .collect();
    execute(consts, &ops, Probe::None, false).diffs.first().map(|d| d.1.what.clone())
}

/// One settled execution with traces.
pub fn execute_trace(consts: &Arc<Constants>, case: &Case) -> Outcome {
    let consts2 = consts.clone();
    let c = case.clone();
    let mut out = isolated(move || {
        let scratch = Scratch::new();
        let dir = prepare(c.place, &scratch);
        let before = listing(&dir);
        INSIDE.with(|i| i.set(true));
        let mut out = Outcome::default();
        let mut x = Exec::new(consts2, Some(dir.clone()));
        let mut follow: BTreeMap<usize, Follow> = BTreeMap::new();
        let mut sink_failed: BTreeSet<usize> = BTreeSet::new();
        for (n, s) in c.steps.iter().enumerate() {
            let t0 = clock();
            let op = match s {
                Step::Do(op) => op,
                Step::Clock(ms) => {
                    OFFSET.with(|o| o.set(o.get() + ms * 1_000_000));
                    continue;
                }
                Step::Fail(h, k) => {
                    x.sim.hosts[*h].fail_after(*k);
                    sink_failed.insert(*h);
                    continue;
                }
            };
            x.apply(op);
            if let Op::Connect = op {
                let h = x.m.hosts - 1;
                if let Some(d) = x.m.world.devs.get(&h) {
                    follow.insert(d.handle, Follow::new(h));
                }
            }
            out.steps += 1;
            // A broken sink closes the connection, which the model of the
            // other properties does not know.
            if sink_failed.is_empty() {
                if let Some(d) = x.diffs.first() {
                    out.bad = Some(format!("step {n}: {}", d.1.what));
                    break;
                }
            }
            if c.place == Place::Missing || c.place == Place::NotDir {
                continue;
            }
            let t = (t0, clock());
            let mut files = before.clone();
            for (handle, fo) in &mut follow {
                files.insert(format!("device-{handle}.pcapng"));
                if *handle == 0 && matches!(c.place, Place::Occupied | Place::Full) {
                    continue;
                }
                let host = &x.sim.hosts[fo.host];
                let closing = host.raw_in.last().map_or(false, |s| s[0] >> 5 > NTF);
                let stalled = x.m.stalled.contains(&fo.host) || host.failed();
                let path = dir.join(format!("device-{handle}.pcapng"));
                match fo.check(&path, host, t, closing as usize, stalled as usize) {
                    Ok(k) => out.records = out.records.max(k),
                    Err(e) => {
                        out.bad = Some(format!("step {n} ({op}): host {}: {e}", fo.host));
                        break;
                    }
                }
            }
            if out.bad.is_none() && listing(&dir) != files {
                out.bad = Some(format!("step {n} ({op}): files {:?}, expected {files:?}", listing(&dir)));
            }
            if out.bad.is_some() {
                break;
            }
        }
        out.writes = WRITES.with(|w| w.get());
        drop(x);
        drop(scratch);
        out
    });
    if out.bad.is_some() {
        if let Some(d) = plain(consts, case) {
            out.foreign = Some(d);
            // The server misbehaves without traces, too.
            if out.bad.as_ref().map_or(false, |b| !b.contains("pcapng")) {
                out.bad = None;
            }
        }
    }
    out
}

/// One execution in which writes to the traces fail.
pub fn execute_fault(case: &Case) -> Outcome {
    let c = case.clone();
    isolated(move || {
        let scratch = Scratch::new();
        let dir = prepare(c.place, &scratch);
        INSIDE.with(|i| i.set(true));
        PLAN.with(|p| *p.borrow_mut() = c.faults.clone());
        let mut out = Outcome::default();
        let mut sim = Sim::new(Some(dir.clone()));
        let mut events: Vec<Event> = vec![];
        let mut closed = BTreeSet::new();
        let mut now = 0;
        let mut run = |sim: &mut Sim, ms: u64, events: &mut Vec<Event>| {
            now += ms * 1_000_000;
            let r = mc::run_to(now, MAX_POLLS);
            for h in sim.hosts.iter_mut() {
                h.take();
            }
            events.extend(sim.take_events());
            r == mc::Run::Quiescent
        };
        let mut ok = run(&mut sim, 0, &mut events);
        for s in &c.steps {
            let Step::Do(op) = s else { continue };
            let mut ms = 0;
            match op {
                Op::Connect => {
                    sim.connect();
                }
                Op::Close(h) => {
                    sim.hosts[*h].close();
                    closed.insert(*h);
                }
                Op::Feed(h, p) => {
                    for s in segments(p) {
                        sim.hosts[*h].feed(&s)
                    }
                }
                Op::Segs(h, v) => {
                    for s in v {
                        sim.hosts[*h].feed(s)
                    }
                }
                Op::Advance(t) => ms = *t,
                _ => (),
            }
            ok &= run(&mut sim, ms, &mut events);
            out.steps += 1;
        }
        out.writes = WRITES.with(|w| w.get());
        PLAN.with(|p| p.borrow_mut().clear());
        BROKEN.with(|b| b.set(false));
        let hosts = sim.hosts.len();
        // A later host is served.
        sim.connect();
        ok &= run(&mut sim, 0, &mut events);
        let mut answered = vec![];
        for h in 0..=hosts {
            let before = sim.hosts[h].raw_out.len();
            if !closed.contains(&h) && !sim.hosts[h].dropped() {
                sim.hosts[h].feed(&reset());
                sim.hosts[h].feed(&get_count());
                ok &= run(&mut sim, 0, &mut events);
            }
            answered.push(sim.hosts[h].raw_out.len() > before + 1);
        }
        let recoverable = c.faults.iter().all(|f| f.1.recoverable());
        let bad = |out: &mut Outcome, e: String| {
            if out.bad.is_none() {
                out.bad = Some(e)
            }
        };
        if !ok {
            bad(&mut out, "the server does not settle".into());
        }
        if let Some(p) = mc::panics().first() {
            bad(&mut out, format!("panic in {}: {}", p.1, p.2));
        }
        if mc::is_done(sim.actor) {
            bad(&mut out, "the controller stopped".into());
        }
        let handles: Vec<(usize, Vec<u8>)> = events
            .iter()
            .filter_map(|e| if let Event::Connected { handle, mac } = e { Some((*handle, mac.clone())) } else { None })
            .collect();
        if handles.len() != hosts + 1 {
            bad(&mut out, format!("{} connections, events {events:?}", hosts + 1));
        }
        for (h, (handle, mac)) in handles.iter().enumerate() {
            let gone = events
                .iter()
                .filter(|e| matches!(e, Event::Disconnected { handle: x, .. } if x == handle))
                .count();
            let right = events
                .iter()
                .all(|e| !matches!(e, Event::Disconnected { handle: x, mac: m } if x == handle && m != mac));
            let dropped = sim.hosts[h].dropped();
            if gone > 1 || !right {
                bad(&mut out, format!("host {h}: disconnected {gone} times: {events:?}"));
            } else if gone == 1 && !dropped {
                bad(&mut out, format!("host {h}: announced as disconnected, its connection is still open"));
            } else if gone == 0 && (dropped || closed.contains(&h)) {
                bad(&mut out, format!("host {h}: its connection ended without an event"));
            } else if gone == 0 && !answered[h] {
                bad(&mut out, format!("host {h}: connected and not served"));
            } else if gone == 1 && !closed.contains(&h) && (recoverable || h == hosts) {
                bad(&mut out, format!("host {h}: disconnected"));
            }
            let name = format!("device-{handle}.pcapng");
            let bytes = std::fs::read(dir.join(&name)).unwrap_or_default();
            match parse(&bytes) {
                Err(e) => bad(&mut out, format!("{name}: {e}")),
                Ok(p) => {
                    out.records = out.records.max(p.records.len());
                    if recoverable || h == hosts {
                        let recs: Vec<&[u8]> = p.records.iter().map(|x| &x.1[..]).collect();
                        if p.torn > 0 {
                            bad(&mut out, format!("{name}: incomplete block at the end"));
                        } else if !merges(&recs, &sim.hosts[h].raw_in, &sim.hosts[h].raw_out, 0, 0, 0) {
                            bad(&mut out, format!("{name}: not the segments exchanged"));
                        }
                    }
                }
            }
        }
        drop(sim);
        drop(scratch);
        out
    })
}

/// One execution under the schedule chosen by `chooser`: the traces are read
/// at every choice point.
pub fn execute_schedule(case: &Case, chooser: Chooser) -> (Chooser, Outcome) {
    let c = case.clone();
    isolated(move || {
        let scratch = Scratch::new();
        let dir = prepare(c.place, &scratch);
        INSIDE.with(|i| i.set(true));
        let mut out = Outcome::default();
        let mut sim = Sim::new(Some(dir.clone()));
        let mut n = 0;
        // The connections first, then everything at once.
        let first = c.steps.iter().take_while(|s| matches!(s, Step::Do(Op::Connect))).count();
        for _ in 0..first {
            sim.connect();
            n += 1;
        }
        mc::settle(MAX_POLLS);
        for h in sim.hosts.iter_mut() {
            h.take();
        }
        let mut advance = 0;
        for s in &c.steps[first..] {
            match s {
                Step::Do(Op::Feed(h, p)) => {
                    for s in segments(p) {
                        sim.hosts[*h].feed(&s)
                    }
                }
                Step::Do(Op::Segs(h, v)) => {
                    for s in v {
                        sim.hosts[*h].feed(s)
                    }
                }
                Step::Do(Op::Connect) => {
                    sim.connect();
                    n += 1;
                }
                Step::Do(Op::Close(h)) => sim.hosts[*h].close(),
                Step::Do(Op::Advance(ms)) => advance = *ms,
                _ => (),
            }
        }
        let meters: Vec<_> = sim.hosts.iter().map(|h| h.meter()).collect();
        let inputs: Vec<Vec<Vec<u8>>> = sim.hosts.iter().map(|h| h.raw_in.clone()).collect();
        let bad: Rc<RefCell<Option<String>>> = Default::default();
        let chooser = Rc::new(RefCell::new(Some(chooser)));
        let (b2, c2, d2) = (bad.clone(), chooser.clone(), dir.clone());
        let look = Rc::new(move || {
            for (h, m) in meters.iter().enumerate() {
                let (taken, written) = m();
                let name = format!("device-{h}.pcapng");
                let Ok(bytes) = std::fs::read(d2.join(&name)) else { continue };
                let e = match parse(&bytes) {
                    Err(e) => Some(e),
                    Ok(p) if p.torn > 0 => Some("incomplete block at the end".into()),
                    Ok(p) => {
                        // Commands and notifications tell the directions apart.
                        let (i, o): (Vec<_>, Vec<_>) = p.records.iter().partition(|r| r.1[0] >> 5 == CMD);
                        if i.len() > taken || i.len() + 1 < taken {
                            Some(format!("{} inputs, {taken} were read", i.len()))
                        } else if o.len() > written + 1 || o.len() + 1 < written {
                            Some(format!("{} outputs, {written} were written", o.len()))
                        } else if i.iter().zip(&inputs[h]).any(|(r, s)| r.1 != *s) {
                            Some("not the inputs".into())
                        } else {
                            None
                        }
                    }
                };
                if let (Some(e), true) = (e, b2.borrow().is_none()) {
                    *b2.borrow_mut() = Some(format!("{name}: {e}"))
                }
            }
        });
        let l2 = look.clone();
        mc::arm(
            Box::new(move |cands| {
                l2();
                c2.borrow_mut().as_mut().unwrap().choose(cands.len())
            }),
            true,
            false,
        );
        if mc::run_to(advance * 1_000_000, MAX_POLLS) == mc::Run::OutOfSteps {
            out.foreign = Some("the server does not settle".into());
        }
        mc::disarm();
        out.steps = mc::stats().polls;
        let t = (0, u64::MAX / 2);
        for h in 0..n {
            sim.hosts[h].take();
            let fo = Follow { first: None, ..Follow::new(h) };
            let mut fo = fo;
            let path = dir.join(format!("device-{h}.pcapng"));
            // What follows the end of a connection may be lost.
            let ended = sim.hosts[h].dropped();
            let lost = if ended { sim.hosts[h].raw_in.len() - (sim.hosts[h].meter())().0 } else { 0 };
            match fo.check(&path, &sim.hosts[h], t, lost, ended as usize) {
                Ok(k) => out.records = out.records.max(k),
                Err(e) => {
                    bad.borrow_mut().get_or_insert(e);
                }
            }
        }
        out.bad = bad.borrow_mut().take();
        let ch = chooser.borrow_mut().take().unwrap();
        drop(sim);
        drop(scratch);
        (ch, out)
    })
}

// ------------------------------------------------------------- families ----

pub enum Kind {
    Settled,
    Faults,
    Schedules(usize),
}

pub struct TraceFamily {
    pub name: &'static str,
    pub bounds: String,
    pub kind: Kind,
    pub cases: Vec<Case>,
}

fn case(place: Place, ops: Vec<Op>) -> Case {
    Case { place, steps: ops.into_iter().map(Step::Do).collect(), faults: vec![] }
}

/// A ranging pair with in-band data: host 0 initiates.
fn couple() -> Vec<Op> {
    let mut v = ready(2);
    v.extend(active(0, 1, 1, &C::controller(&[&[0, 1]])));
    v.extend(active(1, 1, 1, &C::controlee(&[&[0, 0]])));
    v
}

/// Packets of every length, both ways.
fn lengths(t: Tier) -> TraceFamily {
    let mut cases = vec![];
    // Control packets of every payload length (refused as malformed).
    for (i, n) in (0..=255usize).collect::<Vec<_>>().chunks(32).enumerate() {
        let mut ops = ready(1);
        for k in n {
            ops.push(f(0, cmd(SCFG, (i % 8) as u8 + 0x20, &vec![0xa5; *k])));
        }
        cases.push(case(Place::Fresh, ops));
    }
    // Segmented ones.
    for n in [256usize, 257, 258, 259, 509, 510, 511, 765, 766, 1020, 1021] {
        let mut ops = ready(1);
        ops.push(f(0, ctrl(CMD, SCFG, 0x20, &vec![0x5a; n])));
        ops.push(f(0, get_count()));
        cases.push(case(Place::Fresh, ops));
    }
    // Answers of many lengths.
    let mut ops = ready(1);
    ops.extend(idle(0, 1, 0, &C::controller(&[&[0, 1]])));
    for n in 1..=t.pick(40, 60) {
        ops.push(f(0, get_cfg(1, &vec![0; n])));
        ops.push(f(0, get_dev_cfg(&vec![(n % 2) as u8; n])));
        ops.push(f(0, get_dev_cfg(&vec![7; n])));
    }
    cases.push(case(Place::Fresh, ops));
    // Data packets, both ways.
    let all: Vec<usize> = match t {
        Tier::Quick => (0..=40).chain(248..264).chain(1000..1018).collect(),
        Tier::Thorough => (0..=1016).collect(),
    };
    for part in all.chunks(16) {
        let mut ops = couple();
        for n in part {
            ops.push(f(0, data_snd(1, 0, &vec![0xc3; *n])));
            ops.push(Advance(100));
        }
        cases.push(case(Place::Fresh, ops));
    }
    // Several data packets delivered as one large message.
    for n in [2usize, 3, 5, 65] {
        let mut ops = couple();
        for k in 0..n {
            ops.push(f(0, data_snd(1, k as u16, &vec![k as u8; 1014])));
        }
        ops.push(Advance(200));
        cases.push(case(Place::Fresh, ops));
    }
    // Data packets up to the largest.
    for n in [4095usize, 32_767, 32_768, 65_471, 65_487, 65_488, 65_503, 65_504, 65_518, 65_519] {
        let mut ops = couple();
        ops.push(f(0, data_snd(1, 0, &vec![0x3c; n])));
        ops.push(Advance(200));
        ops.push(f(0, get_count()));
        cases.push(case(Place::Fresh, ops));
    }
    TraceFamily {
        name: "lengths",
        bounds: format!("control payloads 0..255, 11 segmented sizes, data payloads of {} sizes, large messages", all.len()),
        kind: Kind::Settled,
        cases,
    }
}

use crate::settled::Op::*;

fn alphabet() -> Vec<Step> {
    let seg = segments(&ctrl(CMD, SCFG, 0x20, &[7; 300]));
    vec![
        Step::Do(Connect),
        Step::Do(Close(0)),
        Step::Do(Close(1)),
        Step::Do(f(0, reset())),
        Step::Do(f(1, get_dev_cfg(&[0, 1]))),
        Step::Do(Segs(0, vec![seg[0].clone()])),
        Step::Do(Segs(0, vec![seg[1].clone()])),
        Step::Do(Segs(1, vec![vec![0xe0, 0, 0, 0]])),
        Step::Do(Segs(0, vec![get_count(), vec![0x60, 3, 0, 1, 9], get_count()])),
        Step::Do(f(0, data_snd(9, 0, &[1, 2, 3]))),
        Step::Do(Stall(0, true)),
        Step::Do(Stall(0, false)),
        Step::Clock(1),
        Step::Clock(72 * 60 * 1000),
    ]
}

fn fits(s: &Step, hosts: usize, closed: &BTreeSet<usize>, partial: bool) -> bool {
    match s {
        Step::Do(Connect) => hosts < 2,
        Step::Do(Close(h)) | Step::Do(Feed(h, _)) | Step::Do(Segs(h, _)) | Step::Do(Stall(h, _)) => {
            *h < hosts && !closed.contains(h) && true
        }
        _ => true,
    }
}

/// Every sequence of operations.
fn histories(t: Tier) -> TraceFamily {
    let alpha = alphabet();
    let depth = t.pick(4, 5);
    let mut cases = vec![];
    let mut level: Vec<(Vec<usize>, usize, BTreeSet<usize>, bool)> = vec![(vec![], 0, BTreeSet::new(), false)];
    let prefix = vec![Step::Do(Connect)];
    for d in 0..depth {
        let mut next = vec![];
        for (w, hosts, closed, seg) in &level {
            for (i, s) in alpha.iter().enumerate() {
                if !fits(s, hosts + 1, closed, false) {
                    continue;
                }
                // The second segment only follows the first.
                if (i == 6) != *seg && (i == 6 || matches!(i, 3 | 5 | 8)) {
                    continue;
                }
                let mut w2 = w.clone();
                w2.push(i);
                let mut c2 = closed.clone();
                match s {
                    Step::Do(Close(h)) => {
                        c2.insert(*h);
                    }
                    Step::Do(Segs(h, v)) if v[0][0] >> 5 > NTF => {
                        c2.insert(*h);
                    }
                    _ => (),
                }
                let h2 = hosts + matches!(s, Step::Do(Connect)) as usize;
                let s2 = match i {
                    5 => true,
                    6 => false,
                    _ => *seg,
                };
                next.push((w2, h2, c2, s2));
            }
        }
        if d + 1 == depth {
            for (w, ..) in &next {
                let mut steps = prefix.clone();
                steps.extend(w.iter().map(|i| alpha[*i].clone()));
                // What happens later is recorded, too.
                if !steps.iter().any(|s| matches!(s, Step::Do(Close(0)))) {
                    steps.push(Step::Do(f(0, data_snd(8, 1, &[4]))));
                }
                cases.push(Case { place: Place::Stale, steps, faults: vec![] });
            }
        }
        level = next;
    }
    TraceFamily {
        name: "histories",
        bounds: format!("1-2 hosts, every sequence of {depth} of {} operations, over files of an earlier run", alpha.len()),
        kind: Kind::Settled,
        cases,
    }
}

/// Long clocks, many rounds, broken sockets.
fn long(_t: Tier) -> TraceFamily {
    let mut cases = vec![];
    for jumps in [vec![1u64, 4_294_967, 1], vec![4_294_966, 1, 1, 1], vec![4_294_968, 4_294_968], vec![50_000_000]] {
        let mut steps: Vec<Step> = couple().into_iter().map(Step::Do).collect();
        for j in jumps {
            steps.push(Step::Clock(j));
            steps.push(Step::Do(Advance(100)));
            steps.push(Step::Do(f(0, get_count())));
        }
        cases.push(Case { place: Place::Fresh, steps, faults: vec![] });
    }
    for k in 0..8 {
        let mut steps: Vec<Step> = couple().into_iter().map(Step::Do).collect();
        steps.push(Step::Fail(0, k));
        for _ in 0..6 {
            steps.push(Step::Do(Advance(100)));
        }
        cases.push(Case { place: Place::Fresh, steps, faults: vec![] });
    }
    TraceFamily {
        name: "clocks and broken sockets",
        bounds: "ranging pair; 4 sequences of clock jumps around 2^32 us; the socket fails after 0..7 segments".into(),
        kind: Kind::Settled,
        cases,
    }
}

/// Places where no trace can be written.
fn places(t: Tier) -> TraceFamily {
    let mut cases = vec![];
    let scripts: Vec<Vec<Op>> = vec![
        vec![Connect],
        vec![Connect, f(0, reset()), f(0, get_count()), Close(0), Connect, f(1, reset())],
        couple(),
        [couple(), vec![f(0, data_snd(1, 0, &[1; 700])), Advance(300), Close(0), f(1, get_count())]].concat(),
        [ready(3), vec![CreateAnchor(vec![9, 9]), Close(1), Connect, f(3, reset()), f(0, get_count())]].concat(),
    ];
    let _ = t;
    for p in [Place::Missing, Place::NotDir, Place::Occupied, Place::Full, Place::Stale] {
        for s in &scripts {
            cases.push(case(p, s.clone()));
        }
    }
    TraceFamily {
        name: "unusable places",
        bounds: "directory missing or a file, trace occupied by a directory, device full, stale traces; 5 scripts".into(),
        kind: Kind::Settled,
        cases,
    }
}

fn fault_script() -> Vec<Op> {
    vec![
        Connect,
        f(0, reset()),
        Connect,
        f(1, reset()),
        f(0, ctrl(CMD, SCFG, 0x20, &[7; 258])),
        f(0, data_snd(9, 0, &[1, 2, 3])),
        f(0, init(1, 0)),
        f(0, C::controller(&[&[0, 1]]).set(1)),
        f(0, start(1)),
        Advance(250),
        f(1, get_dev_cfg(&[0, 1])),
        Close(1),
    ]
}

/// Every write of a script fails in every way.
fn faults(t: Tier) -> TraceFamily {
    let base = case(Place::Fresh, fault_script());
    let n = execute_fault(&base).writes;
    let mut cases = vec![base.clone()];
    for k in 0..n {
        for x in Fault::ALL {
            cases.push(Case { faults: vec![(k, x)], ..base.clone() });
        }
    }
    if t == Tier::Thorough {
        for a in 0..n {
            for b in a + 1..n {
                for x in Fault::ALL {
                    for y in [Fault::Short1, Fault::Interrupted, Fault::Full] {
                        cases.push(Case { faults: vec![(a, x), (b, y)], ..base.clone() });
                    }
                }
            }
        }
    } else {
        for a in 0..n.saturating_sub(1) {
            cases.push(Case { faults: vec![(a, Fault::Short1), (a + 1, Fault::Short1)], ..base.clone() });
            cases.push(Case { faults: vec![(a, Fault::Interrupted), (a + 1, Fault::ShortMost)], ..base.clone() });
        }
    }
    TraceFamily {
        name: "failing writes",
        bounds: format!("2 hosts, script of {} operations, each of its {n} writes (thorough: each pair) x 6 faults", base.steps.len()),
        kind: Kind::Faults,
        cases,
    }
}

/// Concurrent connections.
fn schedules(t: Tier) -> TraceFamily {
    let two = vec![Connect, Connect];
    let seg = segments(&ctrl(CMD, SCFG, 0x20, &[7; 300]));
    let cases = vec![
        [two.clone(), vec![f(0, reset()), f(0, get_count()), f(1, reset()), f(1, get_count())]].concat(),
        [two.clone(), vec![Segs(0, seg.clone()), f(0, reset()), Segs(1, seg), Close(1)]].concat(),
        [two.clone(), vec![f(0, reset()), Connect, f(0, get_count()), Close(0), f(1, reset())]].concat(),
        [
            two.clone(),
            vec![f(0, reset()), f(0, init(1, 0)), f(0, C::controller(&[&[0, 1]]).set(1)), f(0, start(1)), f(1, reset()), Advance(200)],
        ]
        .concat(),
    ]
    .into_iter()
    .map(|v| case(Place::Fresh, v))
    .collect();
    TraceFamily {
        name: "schedules",
        bounds: "2-3 hosts, 4 sets of concurrent inputs; traces read at every choice point".into(),
        kind: Kind::Schedules(t.pick(2, 4)),
        cases,
    }
}

/// Runs the check of C16.
pub fn check(tier: &str, t: Tier) -> i32 {
    let report = Report::new("C16", tier);
    let consts = Arc::new(learn());
    for fam in [lengths(t), long(t), places(t), faults(t), histories(t), schedules(t)] {
        let t0 = std::time::Instant::now();
        let execs = AtomicU64::new(0);
        let records = AtomicU64::new(0);
        let points = AtomicU64::new(0);
        let note = |case: &Case, choices: Option<&Deviations>, o: &Outcome| -> bool {
            execs.fetch_add(1, Ordering::Relaxed);
            records.fetch_add(o.records as u64, Ordering::Relaxed);
            report.add(0, o.steps, 1);
            if let Some(w) = &o.foreign {
                report.foreign("other", w);
            }
            if let Some(w) = &o.bad {
                report.violation(Violation {
                    what: format!("[{}] {w}", fam.name),
                    replay: json!({"kind": "trace", "case": case, "family": fam.name, "choices": choices}),
                });
            }
            o.bad.is_none()
        };
        let deviations = match fam.kind {
            Kind::Schedules(d) => d,
            _ => 0,
        };
        for_all(threads(), fam.cases.len(), None, |i| {
            let case = &fam.cases[i];
            match fam.kind {
                Kind::Settled => note(case, None, &execute_trace(&consts, case)),
                Kind::Faults => note(case, None, &execute_fault(case)),
                Kind::Schedules(d) => {
                    let b = Bounds { max_deviations: d, max_executions: u64::MAX, deadline: None };
                    let e = explore(2, &b, |c| {
                        let devs = c.forced().clone();
                        let (c, o) = execute_schedule(case, c);
                        let ok = note(case, Some(&devs), &o);
                        (c, ok)
                    });
                    points.fetch_add(e.choice_points, Ordering::Relaxed);
                    !report.violated()
                }
            }
        });
        report.count("records_checked", records.load(Ordering::Relaxed));
        report.scenario(json!({
            "name": fam.name,
            "bounds": fam.bounds,
            "cases": fam.cases.len(),
            "executions": execs.load(Ordering::Relaxed),
            "choice_points": points.load(Ordering::Relaxed),
            "max_deviations": deviations,
            "complete": !report.violated(),
            "wall_s": t0.elapsed().as_secs_f64(),
        }));
        if std::env::var("MC_VERBOSE").is_ok() {
            eprintln!("{:6.1}s {} ({} executions)", t0.elapsed().as_secs_f64(), fam.name, execs.load(Ordering::Relaxed));
        }
        if report.violated() {
            break;
        }
    }
    report.finish("/verif")
}

pub fn replay(r: &serde_json::Value) {
    let case: Case = serde_json::from_value(r["case"].clone()).unwrap();
    for s in &case.steps {
        println!("  {s:?}");
    }
    println!("place {:?}, faults {:?}, choices {}", case.place, case.faults, r["choices"]);
    let o = match (r["family"].as_str(), r["choices"].is_null()) {
        (_, false) => {
            let devs: Deviations = serde_json::from_value(r["choices"].clone()).unwrap();
            execute_schedule(&case, Chooser::new(devs)).1
        }
        (Some("failing writes"), _) => execute_fault(&case),
        _ => execute_trace(&Arc::new(learn()), &case),
    };
    println!("{}", o.bad.unwrap_or("no violation".into()));
}
