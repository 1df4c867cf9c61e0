//! Facade over tokio for model checking.  Everything not listed here is the
//! real tokio 1.35.1.
#![allow(clippy::all)]

pub use tokio_real::*;

pub mod mc;
mod mctask;
mod mctime;

pub use mctask::spawn;

pub mod task {
    pub use crate::mctask::{
        block_in_place, spawn, spawn_blocking, spawn_local, AbortHandle, JoinError, JoinHandle,
        JoinSet,
    };
    pub use tokio_real::task::{unconstrained, yield_now};
}

pub mod time {
    pub use crate::mctime::{
        error, interval, interval_at, sleep, sleep_until, timeout, timeout_at, Instant, Interval,
        MissedTickBehavior, Sleep, Timeout,
    };
    pub use std::time::Duration;
}

pub mod sync;

#[cfg(feature = "mocknet")]
#[path = "mocknet.rs"]
pub mod net;

#[cfg(feature = "mocknet")]
pub mod runtime;
