//! A runtime whose main future runs under the model-checking scheduler.
use std::future::Future;
use std::io;

pub struct Builder;

impl Builder {
    pub fn new_multi_thread() -> Builder {
        Builder
    }
    pub fn new_current_thread() -> Builder {
        Builder
    }
    pub fn enable_all(&mut self) -> &mut Self {
        self
    }
    pub fn enable_io(&mut self) -> &mut Self {
        self
    }
    pub fn enable_time(&mut self) -> &mut Self {
        self
    }
    pub fn worker_threads(&mut self, _: usize) -> &mut Self {
        self
    }
    pub fn thread_name(&mut self, _: impl Into<String>) -> &mut Self {
        self
    }
    pub fn max_blocking_threads(&mut self, _: usize) -> &mut Self {
        self
    }
    pub fn thread_stack_size(&mut self, _: usize) -> &mut Self {
        self
    }
    pub fn build(&mut self) -> io::Result<Runtime> {
        Ok(Runtime)
    }
}

pub struct Runtime;

impl Runtime {
    pub fn new() -> io::Result<Runtime> {
        Ok(Runtime)
    }
    pub fn block_on<F: Future>(&self, f: F) -> F::Output {
        crate::mc::block_on(f)
    }
    #[track_caller]
    pub fn spawn<F>(&self, f: F) -> crate::task::JoinHandle<F::Output>
    where
        F: Future + Send + 'static,
        F::Output: Send + 'static,
    {
        crate::task::spawn(f)
    }
}

/// All tasks belong to the one scheduler.
#[derive(Clone, Debug)]
pub struct Handle;

impl Handle {
    pub fn current() -> Handle {
        Handle
    }
    pub fn try_current() -> Result<Handle, std::convert::Infallible> {
        Ok(Handle)
    }
    #[track_caller]
    pub fn spawn<F>(&self, f: F) -> crate::task::JoinHandle<F::Output>
    where
        F: Future + Send + 'static,
        F::Output: Send + 'static,
    {
        crate::task::spawn(f)
    }
    #[track_caller]
    pub fn spawn_blocking<F, R>(&self, f: F) -> crate::task::JoinHandle<R>
    where
        F: FnOnce() -> R + Send + 'static,
        R: Send + 'static,
    {
        crate::task::spawn_blocking(f)
    }
}

impl Runtime {
    pub fn handle(&self) -> &Handle {
        &Handle
    }
}
