//! Virtual time.
use crate::mc;
use std::future::Future;
use std::ops::{Add, AddAssign, Sub, SubAssign};
use std::pin::Pin;
use std::task::{Context, Poll};
use std::time::Duration;

/// Virtual instant: nanoseconds since the scheduler was installed.
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Instant(u64);

fn ns(d: Duration) -> u64 {
    d.as_nanos().min(u64::MAX as u128 / 4) as u64
}

impl Instant {
    pub fn now() -> Instant {
        Instant(mc::now_ns())
    }
    pub fn duration_since(&self, o: Instant) -> Duration {
        Duration::from_nanos(self.0.saturating_sub(o.0))
    }
    pub fn saturating_duration_since(&self, o: Instant) -> Duration {
        self.duration_since(o)
    }
    pub fn checked_duration_since(&self, o: Instant) -> Option<Duration> {
        self.0.checked_sub(o.0).map(Duration::from_nanos)
    }
    pub fn elapsed(&self) -> Duration {
        Instant::now().duration_since(*self)
    }
    pub fn checked_add(&self, d: Duration) -> Option<Instant> {
        self.0.checked_add(ns(d)).map(Instant)
    }
    pub fn checked_sub(&self, d: Duration) -> Option<Instant> {
        self.0.checked_sub(ns(d)).map(Instant)
    }
    pub fn from_std(_: std::time::Instant) -> Instant {
        Instant::now()
    }
}
impl From<std::time::Instant> for Instant {
    fn from(i: std::time::Instant) -> Instant {
        Instant::from_std(i)
    }
}
impl Add<Duration> for Instant {
    type Output = Instant;
    fn add(self, d: Duration) -> Instant {
        Instant(self.0.saturating_add(ns(d)))
    }
}
impl AddAssign<Duration> for Instant {
    fn add_assign(&mut self, d: Duration) {
        *self = *self + d
    }
}
impl Sub<Duration> for Instant {
    type Output = Instant;
    fn sub(self, d: Duration) -> Instant {
        Instant(self.0 - ns(d))
    }
}
impl SubAssign<Duration> for Instant {
    fn sub_assign(&mut self, d: Duration) {
        *self = *self - d
    }
}
impl Sub<Instant> for Instant {
    type Output = Duration;
    fn sub(self, o: Instant) -> Duration {
        self.duration_since(o)
    }
}

#[derive(Debug)]
pub struct Sleep {
    deadline: Instant,
    key: Option<(u64, u64)>,
}

impl Sleep {
    pub fn deadline(&self) -> Instant {
        self.deadline
    }
    pub fn is_elapsed(&self) -> bool {
        mc::now_ns() >= self.deadline.0
    }
    pub fn reset(mut self: Pin<&mut Self>, deadline: Instant) {
        if let Some(k) = self.key.take() {
            mc::del_timer(k)
        }
        self.deadline = deadline;
    }
    fn poll_mut(&mut self, cx: &mut Context<'_>) -> Poll<()> {
        if mc::now_ns() >= self.deadline.0 && self.deadline.0 != u64::MAX {
            if let Some(k) = self.key.take() {
                mc::del_timer(k)
            }
            return Poll::Ready(());
        }
        match self.key {
            Some(k) if mc::set_timer_waker(k, cx.waker()) => (),
            _ => self.key = Some(mc::add_timer(self.deadline.0, cx.waker().clone())),
        }
        Poll::Pending
    }
}

impl Future for Sleep {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        self.poll_mut(cx)
    }
}

impl Drop for Sleep {
    fn drop(&mut self) {
        if let Some(k) = self.key.take() {
            mc::del_timer(k)
        }
    }
}

/// As in the real tokio, timers have a resolution of one millisecond and never
/// fire early, and a sleep that is already due at its first poll still completes
/// then.
pub fn sleep(d: Duration) -> Sleep {
    let t = mc::now_ns().saturating_add(ns(d).max(1_000_000));
    Sleep { deadline: Instant(t), key: None }
}

pub fn sleep_until(deadline: Instant) -> Sleep {
    Sleep { deadline, key: None }
}

pub mod error {
    #[derive(Debug, PartialEq, Eq)]
    pub struct Elapsed(pub(crate) ());
    impl std::fmt::Display for Elapsed {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("deadline has elapsed")
        }
    }
    impl std::error::Error for Elapsed {}
}

pub struct Timeout<F> {
    fut: Pin<Box<F>>,
    sleep: Sleep,
}

impl<F: Future> Future for Timeout<F> {
    type Output = Result<F::Output, error::Elapsed>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        if let Poll::Ready(v) = self.fut.as_mut().poll(cx) {
            return Poll::Ready(Ok(v));
        }
        match self.sleep.poll_mut(cx) {
            Poll::Ready(()) => Poll::Ready(Err(error::Elapsed(()))),
            Poll::Pending => Poll::Pending,
        }
    }
}

pub fn timeout<F: Future>(d: Duration, fut: F) -> Timeout<F> {
    Timeout { fut: Box::pin(fut), sleep: sleep(d) }
}

pub fn timeout_at<F: Future>(t: Instant, fut: F) -> Timeout<F> {
    Timeout { fut: Box::pin(fut), sleep: sleep_until(t) }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
pub enum MissedTickBehavior {
    #[default]
    Burst,
    Delay,
    Skip,
}

#[derive(Debug)]
pub struct Interval {
    sleep: Sleep,
    period: Duration,
    missed: MissedTickBehavior,
}

impl Interval {
    pub async fn tick(&mut self) -> Instant {
        std::future::poll_fn(|cx| self.poll_tick(cx)).await
    }
    pub fn poll_tick(&mut self, cx: &mut Context<'_>) -> Poll<Instant> {
        match self.sleep.poll_mut(cx) {
            Poll::Pending => Poll::Pending,
            Poll::Ready(()) => {
                let t = self.sleep.deadline;
                let now = Instant::now();
                let next = match self.missed {
                    MissedTickBehavior::Burst => t + self.period,
                    MissedTickBehavior::Delay => now + self.period,
                    MissedTickBehavior::Skip => {
                        let mut n = t + self.period;
                        while n <= now {
                            n = n + self.period
                        }
                        n
                    }
                };
                self.sleep = sleep_until(next);
                Poll::Ready(t)
            }
        }
    }
    pub fn reset(&mut self) {
        self.sleep = sleep(self.period);
    }
    pub fn reset_immediately(&mut self) {
        self.sleep = sleep(Duration::ZERO);
    }
    pub fn missed_tick_behavior(&self) -> MissedTickBehavior {
        self.missed
    }
    pub fn set_missed_tick_behavior(&mut self, b: MissedTickBehavior) {
        self.missed = b
    }
    pub fn period(&self) -> Duration {
        self.period
    }
}

pub fn interval(period: Duration) -> Interval {
    interval_at(Instant::now(), period)
}

pub fn interval_at(start: Instant, period: Duration) -> Interval {
    assert!(period > Duration::ZERO, "`period` must be non-zero.");
    Interval { sleep: sleep_until(start), period, missed: MissedTickBehavior::Burst }
}
