//! In-memory TCP: the harness connects, feeds bytes in chunks of its choice, and
//! bounds how much each write takes.
use std::cell::RefCell;
use std::collections::{HashMap, VecDeque};
use std::io;
use std::net::SocketAddr;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};
use tokio_real::io::{AsyncRead, AsyncWrite, ReadBuf};
pub use tokio_real::net::ToSocketAddrs;

#[derive(Default)]
pub struct Pipe {
    /// Chunks from the host; each poll_read returns at most one chunk's rest.
    rx: VecDeque<Vec<u8>>,
    rx_closed: bool,
    rx_error: bool,
    rx_waker: Option<Waker>,
    /// Bytes written by the server.
    pub tx: Vec<u8>,
    /// Sizes that successive writes may take; default: everything.
    pub tx_grants: VecDeque<usize>,
    tx_closed: bool,
    /// Write side fails (peer reset) once this many bytes are out.
    pub tx_fail_after: Option<usize>,
    /// A write was refused.
    pub tx_failed: bool,
    /// While set, writes are pending (peer does not read).
    tx_blocked: bool,
    tx_waker: Option<Waker>,
    pub server_rx_dropped: bool,
    pub server_tx_dropped: bool,
}

/// Harness side of a connection.
#[derive(Clone)]
pub struct Peer(pub Arc<Mutex<Pipe>>);

impl Peer {
    pub fn feed(&self, b: &[u8]) {
        let w = {
            let mut p = self.0.lock().unwrap();
            p.rx.push_back(b.to_vec());
            p.rx_waker.take()
        };
        w.map(|w| w.wake());
    }
    pub fn close(&self) {
        let w = {
            let mut p = self.0.lock().unwrap();
            p.rx_closed = true;
            p.rx_waker.take()
        };
        w.map(|w| w.wake());
    }
    /// Connection reset: reads fail and writes fail.
    pub fn reset(&self) {
        let (a, b) = {
            let mut p = self.0.lock().unwrap();
            p.rx_error = true;
            p.tx_closed = true;
            (p.rx_waker.take(), p.tx_waker.take())
        };
        a.map(|w| w.wake());
        b.map(|w| w.wake());
    }
    pub fn block_writes(&self, on: bool) {
        let w = {
            let mut p = self.0.lock().unwrap();
            p.tx_blocked = on;
            if on {
                None
            } else {
                p.tx_waker.take()
            }
        };
        w.map(|w| w.wake());
    }
    pub fn written(&self) -> Vec<u8> {
        self.0.lock().unwrap().tx.clone()
    }
    pub fn take_written(&self) -> Vec<u8> {
        std::mem::take(&mut self.0.lock().unwrap().tx)
    }
    pub fn closed_by_server(&self) -> bool {
        let p = self.0.lock().unwrap();
        p.server_rx_dropped && p.server_tx_dropped
    }
}

fn read_pipe(p: &Arc<Mutex<Pipe>>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
    crate::mc::coop(cx, |cx| read_now(p, cx, buf))
}

fn write_pipe(p: &Arc<Mutex<Pipe>>, cx: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> {
    crate::mc::coop(cx, |cx| write_now(p, cx, b))
}

fn read_now(p: &Arc<Mutex<Pipe>>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
    let mut p = p.lock().unwrap();
    if p.rx_error {
        return Poll::Ready(Err(io::ErrorKind::ConnectionReset.into()));
    }
    if buf.remaining() == 0 {
        return Poll::Ready(Ok(()));
    }
    let p = &mut *p;
    let closed = p.rx_closed;
    loop {
        match p.rx.front_mut() {
            Some(c) if c.is_empty() => {
                p.rx.pop_front();
            }
            Some(c) => {
                let n = c.len().min(buf.remaining());
                buf.put_slice(&c[..n]);
                c.drain(..n);
                return Poll::Ready(Ok(()));
            }
            None if closed => return Poll::Ready(Ok(())),
            None => {
                p.rx_waker = Some(cx.waker().clone());
                return Poll::Pending;
            }
        }
    }
}

fn write_now(p: &Arc<Mutex<Pipe>>, cx: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> {
    let mut p = p.lock().unwrap();
    if p.tx_closed || p.tx_fail_after.map_or(false, |n| p.tx.len() >= n) {
        p.tx_failed = true;
        return Poll::Ready(Err(io::ErrorKind::BrokenPipe.into()));
    }
    if p.tx_blocked {
        p.tx_waker = Some(cx.waker().clone());
        return Poll::Pending;
    }
    let mut n = b.len();
    if let Some(g) = p.tx_grants.pop_front() {
        if g == 0 && n > 0 {
            // Not writable right now: pending, then retried.
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        n = n.min(g)
    }
    if let Some(f) = p.tx_fail_after {
        n = n.min(f - p.tx.len())
    }
    p.tx.extend_from_slice(&b[..n]);
    Poll::Ready(Ok(n))
}

#[derive(Debug)]
pub struct TcpStream {
    pipe: Option<PipeRef>,
}

struct PipeRef(Arc<Mutex<Pipe>>);
impl std::fmt::Debug for PipeRef {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Pipe")
    }
}

impl TcpStream {
    pub fn into_split(mut self) -> (tcp::OwnedReadHalf, tcp::OwnedWriteHalf) {
        let p = self.pipe.take().unwrap().0;
        (tcp::OwnedReadHalf(p.clone()), tcp::OwnedWriteHalf(p))
    }
    pub fn split(&mut self) -> (tcp::ReadHalf<'_>, tcp::WriteHalf<'_>) {
        let p = self.pipe();
        (tcp::ReadHalf(tcp::Ref(p)), tcp::WriteHalf(tcp::Ref(p)))
    }
    pub async fn readable(&self) -> io::Result<()> {
        readable(self.pipe()).await
    }
    pub async fn writable(&self) -> io::Result<()> {
        writable(self.pipe()).await
    }
    pub fn try_read(&self, b: &mut [u8]) -> io::Result<usize> {
        try_read(self.pipe(), b)
    }
    pub fn try_write(&self, b: &[u8]) -> io::Result<usize> {
        try_write(self.pipe(), b)
    }
    pub async fn peek(&self, b: &mut [u8]) -> io::Result<usize> {
        peek(self.pipe(), b).await
    }
    pub fn set_linger(&self, _: Option<std::time::Duration>) -> io::Result<()> {
        Ok(())
    }
    pub fn set_ttl(&self, _: u32) -> io::Result<()> {
        Ok(())
    }
    pub fn set_nodelay(&self, _: bool) -> io::Result<()> {
        Ok(())
    }
    pub fn peer_addr(&self) -> io::Result<SocketAddr> {
        Ok(([127, 0, 0, 1], 40000).into())
    }
}

impl std::os::fd::AsRawFd for TcpStream {
    fn as_raw_fd(&self) -> std::os::fd::RawFd {
        -1
    }
}

impl TcpStream {
    fn pipe(&self) -> &Arc<Mutex<Pipe>> {
        &self.pipe.as_ref().unwrap().0
    }
    pub fn local_addr(&self) -> io::Result<SocketAddr> {
        Ok(([127, 0, 0, 1], 7000).into())
    }
    pub fn nodelay(&self) -> io::Result<bool> {
        Ok(false)
    }
    /// Only detects the end of the input.
    pub fn poll_peek(&self, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<usize>> {
        let mut p = self.pipe().lock().unwrap();
        if p.rx_error {
            return Poll::Ready(Err(io::ErrorKind::ConnectionReset.into()));
        }
        if let Some(c) = p.rx.iter().find(|c| !c.is_empty()) {
            let n = c.len().min(buf.remaining());
            buf.put_slice(&c[..n]);
            return Poll::Ready(Ok(n));
        }
        if p.rx_closed {
            return Poll::Ready(Ok(0));
        }
        p.rx_waker = Some(cx.waker().clone());
        Poll::Pending
    }
}

impl AsyncRead for TcpStream {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        read_pipe(self.pipe(), cx, buf)
    }
}
impl AsyncWrite for TcpStream {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> {
        write_pipe(self.pipe(), cx, b)
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        self.pipe().lock().unwrap().server_tx_dropped = true;
        Poll::Ready(Ok(()))
    }
}

impl Drop for TcpStream {
    fn drop(&mut self) {
        if let Some(p) = &self.pipe {
            let mut p = p.0.lock().unwrap();
            p.server_rx_dropped = true;
            p.server_tx_dropped = true;
        }
    }
}

pub mod tcp {
    use super::*;

    pub struct OwnedReadHalf(pub(super) Arc<Mutex<Pipe>>);
    pub struct OwnedWriteHalf(pub(super) Arc<Mutex<Pipe>>);

    impl Drop for OwnedReadHalf {
        fn drop(&mut self) {
            self.0.lock().unwrap().server_rx_dropped = true
        }
    }
    impl Drop for OwnedWriteHalf {
        fn drop(&mut self) {
            self.0.lock().unwrap().server_tx_dropped = true
        }
    }

    impl AsyncRead for OwnedReadHalf {
        fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
            read_pipe(&self.0, cx, buf)
        }
    }
    impl AsyncWrite for OwnedWriteHalf {
        fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> {
            write_pipe(&self.0, cx, b)
        }
        fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
            Poll::Ready(Ok(()))
        }
        fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
            self.0.lock().unwrap().server_tx_dropped = true;
            Poll::Ready(Ok(()))
        }
    }

    impl std::fmt::Debug for OwnedReadHalf {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("OwnedReadHalf")
        }
    }
    impl std::fmt::Debug for OwnedWriteHalf {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("OwnedWriteHalf")
        }
    }

    macro_rules! reads {
        ($($t:tt)*) => {
            impl $($t)* {
                pub fn peer_addr(&self) -> io::Result<SocketAddr> {
                    Ok(PEER.into())
                }
                pub fn local_addr(&self) -> io::Result<SocketAddr> {
                    Ok(LOCAL.into())
                }
                pub async fn readable(&self) -> io::Result<()> {
                    readable(&self.0).await
                }
                pub fn try_read(&self, b: &mut [u8]) -> io::Result<usize> {
                    try_read(&self.0, b)
                }
                pub async fn peek(&mut self, b: &mut [u8]) -> io::Result<usize> {
                    peek(&self.0, b).await
                }
            }
        };
    }
    macro_rules! writes {
        ($($t:tt)*) => {
            impl $($t)* {
                pub fn peer_addr(&self) -> io::Result<SocketAddr> {
                    Ok(PEER.into())
                }
                pub fn local_addr(&self) -> io::Result<SocketAddr> {
                    Ok(LOCAL.into())
                }
                pub async fn writable(&self) -> io::Result<()> {
                    writable(&self.0).await
                }
                pub fn try_write(&self, b: &[u8]) -> io::Result<usize> {
                    try_write(&self.0, b)
                }
            }
        };
    }
    reads!(OwnedReadHalf);
    writes!(OwnedWriteHalf);

    impl OwnedWriteHalf {
        /// As the real one: dropping it does not shut the stream down.
        pub fn forget(self) {
            std::mem::forget(self)
        }
    }

    /// Halves of a borrowed stream.
    #[derive(Clone, Copy)]
    pub struct Ref<'a>(pub(super) &'a Arc<Mutex<Pipe>>);
    impl std::ops::Deref for Ref<'_> {
        type Target = Arc<Mutex<Pipe>>;
        fn deref(&self) -> &Arc<Mutex<Pipe>> {
            self.0
        }
    }
    pub struct ReadHalf<'a>(pub(super) Ref<'a>);
    pub struct WriteHalf<'a>(pub(super) Ref<'a>);
    reads!(ReadHalf<'_>);
    writes!(WriteHalf<'_>);
    impl AsyncRead for ReadHalf<'_> {
        fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
            read_pipe(&self.0, cx, buf)
        }
    }
    impl AsyncWrite for WriteHalf<'_> {
        fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> {
            write_pipe(&self.0, cx, b)
        }
        fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
            Poll::Ready(Ok(()))
        }
        fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
            self.0.lock().unwrap().server_tx_dropped = true;
            Poll::Ready(Ok(()))
        }
    }
}

const PEER: ([u8; 4], u16) = ([127, 0, 0, 1], 40000);
const LOCAL: ([u8; 4], u16) = ([127, 0, 0, 1], 7000);

fn poll_readable(p: &Arc<Mutex<Pipe>>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
    let mut p = p.lock().unwrap();
    if p.rx_error || p.rx_closed || p.rx.iter().any(|c| !c.is_empty()) {
        return Poll::Ready(Ok(()));
    }
    p.rx_waker = Some(cx.waker().clone());
    Poll::Pending
}

async fn readable(p: &Arc<Mutex<Pipe>>) -> io::Result<()> {
    std::future::poll_fn(|cx| crate::mc::coop(cx, |cx| poll_readable(p, cx))).await
}

async fn writable(p: &Arc<Mutex<Pipe>>) -> io::Result<()> {
    std::future::poll_fn(|cx| {
        let mut p = p.lock().unwrap();
        if p.tx_blocked && !p.tx_closed {
            p.tx_waker = Some(cx.waker().clone());
            return Poll::Pending;
        }
        Poll::Ready(Ok(()))
    })
    .await
}

fn try_read(p: &Arc<Mutex<Pipe>>, b: &mut [u8]) -> io::Result<usize> {
    let mut buf = ReadBuf::new(b);
    let mut cx = Context::from_waker(futures_noop());
    match read_now(p, &mut cx, &mut buf) {
        Poll::Ready(r) => r.map(|_| buf.filled().len()),
        Poll::Pending => Err(io::ErrorKind::WouldBlock.into()),
    }
}

fn try_write(p: &Arc<Mutex<Pipe>>, b: &[u8]) -> io::Result<usize> {
    let mut cx = Context::from_waker(futures_noop());
    match write_now(p, &mut cx, b) {
        Poll::Ready(r) => r,
        Poll::Pending => Err(io::ErrorKind::WouldBlock.into()),
    }
}

fn futures_noop() -> &'static Waker {
    Waker::noop()
}

async fn peek(p: &Arc<Mutex<Pipe>>, b: &mut [u8]) -> io::Result<usize> {
    readable(p).await?;
    let p = p.lock().unwrap();
    if p.rx_error {
        return Err(io::ErrorKind::ConnectionReset.into());
    }
    let c = p.rx.iter().find(|c| !c.is_empty());
    Ok(c.map_or(0, |c| {
        let n = c.len().min(b.len());
        b.iter_mut().zip(c.iter()).for_each(|(b, c)| *b = *c);
        n
    }))
}

#[derive(Default)]
struct Backlog {
    queue: VecDeque<io::Result<TcpStream>>,
    waker: Option<Waker>,
}

thread_local! {
    static PORTS: RefCell<HashMap<u16, Arc<Mutex<Backlog>>>> = RefCell::new(HashMap::new());
}

/// Forget all listeners of this thread.
pub fn reset_ports() {
    PORTS.with(|p| p.borrow_mut().clear())
}

/// The ports of this thread that are listened to.
pub fn listening() -> Vec<u16> {
    PORTS.with(|p| p.borrow().keys().copied().collect())
}

/// Another program listens to the port.
pub fn occupy(port: u16) {
    PORTS.with(|p| p.borrow_mut().insert(port, Default::default()));
}

/// Connect as a host to a listening port of this thread.
pub fn host_connect(port: u16) -> Option<Peer> {
    let b = PORTS.with(|p| p.borrow().get(&port).cloned())?;
    let pipe = Arc::new(Mutex::new(Pipe::default()));
    let w = {
        let mut b = b.lock().unwrap();
        b.queue.push_back(Ok(TcpStream { pipe: Some(PipeRef(pipe.clone())) }));
        b.waker.take()
    };
    w.map(|w| w.wake());
    Some(Peer(pipe))
}

/// The next accept on a listening port of this thread fails.
pub fn host_abort(port: u16, errno: i32) -> Option<()> {
    let b = PORTS.with(|p| p.borrow().get(&port).cloned())?;
    let w = {
        let mut b = b.lock().unwrap();
        b.queue.push_back(Err(io::Error::from_raw_os_error(errno)));
        b.waker.take()
    };
    w.map(|w| w.wake());
    Some(())
}

pub struct TcpListener {
    b: Arc<Mutex<Backlog>>,
    port: u16,
}

impl std::fmt::Debug for TcpListener {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "TcpListener({})", self.port)
    }
}

/// Address forms the code under test binds to.
pub trait BindAddr {
    fn port(&self) -> u16;
}
impl BindAddr for std::net::SocketAddrV4 {
    fn port(&self) -> u16 {
        std::net::SocketAddrV4::port(self)
    }
}
impl BindAddr for SocketAddr {
    fn port(&self) -> u16 {
        SocketAddr::port(self)
    }
}
impl BindAddr for (std::net::Ipv4Addr, u16) {
    fn port(&self) -> u16 {
        self.1
    }
}
impl BindAddr for (std::net::IpAddr, u16) {
    fn port(&self) -> u16 {
        self.1
    }
}
impl BindAddr for (&str, u16) {
    fn port(&self) -> u16 {
        self.1
    }
}
impl BindAddr for &str {
    fn port(&self) -> u16 {
        self.rsplit(':').next().and_then(|p| p.parse().ok()).expect("port")
    }
}
impl BindAddr for String {
    fn port(&self) -> u16 {
        self.as_str().port()
    }
}
impl BindAddr for std::net::SocketAddrV6 {
    fn port(&self) -> u16 {
        std::net::SocketAddrV6::port(self)
    }
}
impl BindAddr for (String, u16) {
    fn port(&self) -> u16 {
        self.1
    }
}
impl BindAddr for &[SocketAddr] {
    fn port(&self) -> u16 {
        self[0].port()
    }
}
impl<A: BindAddr> BindAddr for &A {
    fn port(&self) -> u16 {
        (*self).port()
    }
}

fn listen(port: u16) -> io::Result<TcpListener> {
    PORTS.with(|p| match p.borrow_mut().entry(port) {
        std::collections::hash_map::Entry::Occupied(_) => Err(io::ErrorKind::AddrInUse.into()),
        std::collections::hash_map::Entry::Vacant(v) => {
            let b = Arc::new(Mutex::new(Backlog::default()));
            v.insert(b.clone());
            Ok(TcpListener { b, port })
        }
    })
}

thread_local! {
    static STD_PORT: RefCell<u16> = const { RefCell::new(0) };
}

/// The harness intercepts bind(2): the port the next `from_std` listens to.
pub fn std_bound(port: u16) {
    STD_PORT.with(|p| *p.borrow_mut() = port)
}

impl TcpListener {
    pub async fn bind<A: BindAddr>(a: A) -> io::Result<TcpListener> {
        listen(a.port())
    }
    pub fn from_std(_: std::net::TcpListener) -> io::Result<TcpListener> {
        listen(STD_PORT.with(|p| *p.borrow()))
    }
    pub fn local_addr(&self) -> io::Result<SocketAddr> {
        Ok(([127, 0, 0, 1], self.port).into())
    }
    pub fn poll_accept(&self, cx: &mut Context<'_>) -> Poll<io::Result<(TcpStream, SocketAddr)>> {
        crate::mc::coop(cx, |cx| self.accept_now(cx))
    }
    fn accept_now(&self, cx: &mut Context<'_>) -> Poll<io::Result<(TcpStream, SocketAddr)>> {
        let mut b = self.b.lock().unwrap();
        match b.queue.pop_front() {
            Some(s) => Poll::Ready(s.map(|s| (s, ([127, 0, 0, 1], 40000).into()))),
            None => {
                b.waker = Some(cx.waker().clone());
                Poll::Pending
            }
        }
    }
    pub async fn accept(&self) -> io::Result<(TcpStream, SocketAddr)> {
        std::future::poll_fn(|cx| self.poll_accept(cx)).await
    }
}
