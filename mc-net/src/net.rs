//! The real servers, from their main function on, over in-memory TCP.
use crate::msg::*;
use std::cell::RefCell;
use std::rc::Rc;
use tokio::mc;
use tokio::net::{host_connect, Peer};

pub const UCI_PORT: u16 = 7000;
pub const WEB_PORT: u16 = 3000;
pub const MAX_POLLS: u64 = 500_000;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, serde::Serialize, serde::Deserialize)]
pub enum Server {
    Uci,
    Http,
}

/// Intercepts bind(2) and listen(2): no execution listens on a real port.
#[no_mangle]
pub extern "C" fn bind(_fd: i32, addr: *const libc::sockaddr, len: libc::socklen_t) -> i32 {
    if len as usize >= std::mem::size_of::<libc::sockaddr_in>() {
        // SAFETY: the caller provides an address of `len` bytes; both families
        // have the port in the same place.
        let port = unsafe { (*(addr as *const libc::sockaddr_in)).sin_port };
        tokio::net::std_bound(u16::from_be(port));
    }
    0
}

#[no_mangle]
pub extern "C" fn listen(_fd: i32, _n: i32) -> i32 {
    0
}

/// Hash maps of every execution (a fresh thread) iterate in the same order.
#[no_mangle]
pub extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    use std::sync::atomic::{AtomicU8, Ordering};
    static SEED: AtomicU8 = AtomicU8::new(0);
    let mut s = SEED.load(Ordering::Relaxed);
    if s == 0 {
        s = std::env::var("MC_HASH_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        SEED.store(s, Ordering::Relaxed);
    }
    for i in 0..len {
        // SAFETY: the caller provides `len` writable bytes.
        unsafe { *buf.add(i) = s.wrapping_mul(13).wrapping_add(i as u8) }
    }
    len as isize
}

pub fn install() {
    mc::install_panic_hook();
    mc_common::sink_logs();
}

pub struct Host {
    pub peer: Peer,
    pub buf: Vec<u8>,
    pub asm: Reassembly,
}

impl Host {
    /// Messages received since the last call.
    pub fn take(&mut self) -> Vec<Msg> {
        self.buf.extend(self.peer.take_written());
        let mut out = vec![];
        loop {
            if self.buf.len() < 4 {
                return out;
            }
            let n = 4 + if self.buf[0] >> 5 == DATA {
                u16::from_le_bytes([self.buf[2], self.buf[3]]) as usize
            } else {
                self.buf[3] as usize
            };
            if self.buf.len() < n {
                return out;
            }
            let seg: Vec<u8> = self.buf.drain(..n).collect();
            if let Some(m) = self.asm.push(&seg) {
                out.push(m.canonical())
            }
        }
    }
    /// Whether what was received ends with a complete message.
    pub fn complete(&self) -> bool {
        self.buf.is_empty() && !self.asm.incomplete()
    }
}

pub struct Net {
    pub main: usize,
    pub hosts: Vec<Host>,
    pub livelock: bool,
}

impl Net {
    pub fn settle(&mut self) {
        self.run_to(mc::now_ns())
    }
    pub fn run_to(&mut self, t: u64) {
        if mc::run_to(t, MAX_POLLS) == mc::Run::OutOfSteps {
            self.livelock = true
        }
    }
    pub fn advance(&mut self, ms: u64) {
        self.run_to(mc::now_ns() + ms * 1_000_000)
    }
    /// None: the server does not listen.
    pub fn connect(&mut self) -> Option<usize> {
        let peer = host_connect(UCI_PORT)?;
        self.hosts.push(Host { peer, buf: vec![], asm: Default::default() });
        Some(self.hosts.len() - 1)
    }
    /// What no property allows: a crash, an end of the server, a livelock.
    pub fn broken(&self) -> Option<String> {
        let p = mc::panics();
        if !p.is_empty() {
            return Some(format!("panic: {}", p.iter().map(|x| x.2.clone()).collect::<Vec<_>>().join("; ")));
        }
        if mc::is_done(self.main) {
            return Some("the server ended".into());
        }
        if self.livelock {
            return Some("the server does not settle".into());
        }
        None
    }
}

/// One execution of a server, on a thread of its own.
pub fn run<R: Send + 'static>(server: Server, f: impl FnOnce(&mut Net) -> R + Send + 'static) -> R {
    run_with(server, || (), f)
}

/// One whose surroundings are prepared by `before`.
pub fn run_with<R: Send + 'static>(
    server: Server,
    before: impl FnOnce() + Send + 'static,
    f: impl FnOnce(&mut Net) -> R + Send + 'static,
) -> R {
    let t = std::thread::Builder::new().stack_size(4 << 20).spawn(move || {
        tokio::net::reset_ports();
        before();
        mc::scope(|| {
            let out = Rc::new(RefCell::new(None));
            let out2 = out.clone();
            let start = match server {
                Server::Uci => srv_uci::run_main,
                Server::Http => srv_http::run_main,
            };
            let entered = mc::run_main(start, move |main| {
                let mut n = Net { main, hosts: vec![], livelock: false };
                n.settle();
                *out2.borrow_mut() = Some(f(&mut n));
            });
            if !entered {
                eprintln!("harness error: the server did not start a runtime");
                std::process::exit(3)
            }
            let r = out.borrow_mut().take().unwrap();
            r
        })
    });
    match t.unwrap().join() {
        Ok(r) => r,
        Err(_) => {
            eprintln!("harness error: an execution failed outside the code under test");
            std::process::exit(3)
        }
    }
}
