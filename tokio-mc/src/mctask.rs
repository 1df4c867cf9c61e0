use crate::mc;
use std::fmt;
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};

pub struct JoinHandle<T> {
    id: mc::TaskId,
    out: Arc<Mutex<Option<T>>>,
}

impl<T> fmt::Debug for JoinHandle<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "JoinHandle({})", self.id)
    }
}

#[derive(Clone, Debug)]
pub struct AbortHandle {
    id: mc::TaskId,
}

impl AbortHandle {
    pub fn abort(&self) {
        mc::abort(self.id)
    }
    pub fn is_finished(&self) -> bool {
        mc::is_done(self.id)
    }
}

#[derive(Debug)]
pub struct JoinError {
    cancelled: bool,
}

impl JoinError {
    pub fn is_cancelled(&self) -> bool {
        self.cancelled
    }
    pub fn is_panic(&self) -> bool {
        !self.cancelled
    }
    pub fn try_into_panic(self) -> Result<Box<dyn std::any::Any + Send + 'static>, JoinError> {
        if self.cancelled {
            return Err(self);
        }
        Ok(self.into_panic())
    }
    pub fn into_panic(self) -> Box<dyn std::any::Any + Send + 'static> {
        Box::new("task panicked")
    }
}

impl fmt::Display for JoinError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(if self.cancelled { "task was cancelled" } else { "task panicked" })
    }
}

impl std::error::Error for JoinError {}

impl<T> JoinHandle<T> {
    pub fn abort(&self) {
        mc::abort(self.id)
    }
    pub fn is_finished(&self) -> bool {
        mc::is_done(self.id)
    }
    pub fn abort_handle(&self) -> AbortHandle {
        AbortHandle { id: self.id }
    }
}

impl<T> Future for JoinHandle<T> {
    type Output = Result<T, JoinError>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        if mc::is_done(self.id) {
            return Poll::Ready(match self.out.lock().unwrap().take() {
                Some(v) => Ok(v),
                None => Err(JoinError { cancelled: mc::is_aborted(self.id) }),
            });
        }
        mc::on_end(self.id, cx.waker());
        Poll::Pending
    }
}

#[track_caller]
fn spawn_inner<F>(fut: F) -> JoinHandle<F::Output>
where
    F: Future + 'static,
    F::Output: 'static,
{
    let out = Arc::new(Mutex::new(None));
    let out2 = out.clone();
    let loc = std::panic::Location::caller();
    let name = format!("{}:{}", loc.file(), loc.line());
    let id = mc::spawn_raw(
        &name,
        Box::pin(async move {
            let v = fut.await;
            *out2.lock().unwrap() = Some(v);
        }),
    );
    mc::library_point(loc);
    JoinHandle { id, out }
}

#[track_caller]
pub fn spawn<F>(fut: F) -> JoinHandle<F::Output>
where
    F: Future + Send + 'static,
    F::Output: Send + 'static,
{
    spawn_inner(fut)
}

#[track_caller]
pub fn spawn_local<F>(fut: F) -> JoinHandle<F::Output>
where
    F: Future + 'static,
    F::Output: 'static,
{
    spawn_inner(fut)
}

#[track_caller]
pub fn spawn_blocking<F, R>(f: F) -> JoinHandle<R>
where
    F: FnOnce() -> R + Send + 'static,
    R: Send + 'static,
{
    spawn_inner(async move { f() })
}

pub fn block_in_place<F, R>(f: F) -> R
where
    F: FnOnce() -> R,
{
    f()
}

/// Minimal JoinSet: spawn, abort_all, join_next, len.
pub struct JoinSet<T> {
    v: Vec<JoinHandle<T>>,
}

impl<T: 'static> Default for JoinSet<T> {
    fn default() -> Self {
        Self::new()
    }
}

impl<T: 'static> JoinSet<T> {
    pub fn new() -> Self {
        JoinSet { v: vec![] }
    }
    pub fn len(&self) -> usize {
        self.v.len()
    }
    pub fn is_empty(&self) -> bool {
        self.v.is_empty()
    }
    #[track_caller]
    pub fn spawn<F>(&mut self, fut: F) -> AbortHandle
    where
        F: Future<Output = T> + Send + 'static,
        T: Send,
    {
        let h = spawn_inner(fut);
        let a = h.abort_handle();
        self.v.push(h);
        a
    }
    pub fn abort_all(&mut self) {
        for h in &self.v {
            h.abort()
        }
    }
    pub fn detach_all(&mut self) {
        self.v.clear()
    }
    pub async fn shutdown(&mut self) {
        self.abort_all();
        while self.join_next().await.is_some() {}
    }
    #[track_caller]
    pub fn spawn_local<F>(&mut self, fut: F) -> AbortHandle
    where
        F: Future<Output = T> + 'static,
    {
        let h = spawn_inner(fut);
        let a = h.abort_handle();
        self.v.push(h);
        a
    }
    #[track_caller]
    pub fn spawn_blocking<F>(&mut self, f: F) -> AbortHandle
    where
        F: FnOnce() -> T + Send + 'static,
        T: Send,
    {
        let h = spawn_inner(async move { f() });
        let a = h.abort_handle();
        self.v.push(h);
        a
    }
    pub fn try_join_next(&mut self) -> Option<Result<T, JoinError>> {
        let i = self.v.iter().position(|h| h.is_finished())?;
        let h = self.v.remove(i);
        let v = h.out.lock().unwrap().take();
        Some(v.ok_or_else(|| JoinError { cancelled: mc::is_aborted(h.id) }))
    }
    pub async fn join_next(&mut self) -> Option<Result<T, JoinError>> {
        std::future::poll_fn(|cx| {
            if self.v.is_empty() {
                return Poll::Ready(None);
            }
            for i in 0..self.v.len() {
                if let Poll::Ready(r) = Pin::new(&mut self.v[i]).poll(cx) {
                    self.v.remove(i);
                    return Poll::Ready(Some(r));
                }
            }
            Poll::Pending
        })
        .await
    }
}

impl<T> Drop for JoinSet<T> {
    fn drop(&mut self) {
        for h in &self.v {
            h.abort()
        }
    }
}
