//! The controlled scheduler: single-threaded, virtual time, every choice made
//! by an explicit chooser so that executions can be enumerated and replayed.
use std::cell::RefCell;
use std::collections::{BTreeMap, VecDeque};
use std::future::Future;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};

pub type TaskId = usize;
type BoxFut = Pin<Box<dyn Future<Output = ()>>>;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Cand {
    /// Poll this ready task.
    Task(TaskId),
    /// Let the clock jump to the earliest deadline.
    Timer,
    /// Keep running the current task (only at in-task points).
    Continue,
}

/// Decides between candidates; `None` means always candidate 0.
pub type Chooser = Box<dyn FnMut(&[Cand]) -> usize>;

struct Slot {
    fut: Option<BoxFut>,
    running: bool,
    aborted: bool,
    done: bool,
    name: String,
    on_end: Vec<Waker>,
}

struct Ready {
    queue: Mutex<(VecDeque<TaskId>, Vec<bool>)>,
}

impl Ready {
    fn push(&self, id: TaskId) {
        let mut g = self.queue.lock().unwrap();
        if g.1.len() <= id {
            g.1.resize(id + 1, false);
        }
        if !g.1[id] {
            g.1[id] = true;
            g.0.push_back(id);
        }
    }
    fn list(&self) -> Vec<TaskId> {
        self.queue.lock().unwrap().0.iter().copied().collect()
    }
    fn take(&self, id: TaskId) {
        let mut g = self.queue.lock().unwrap();
        if let Some(pos) = g.0.iter().position(|x| *x == id) {
            g.0.remove(pos);
            g.1[id] = false;
        }
    }
}

struct TaskWaker {
    id: TaskId,
    ready: Arc<Ready>,
}

impl Wake for TaskWaker {
    fn wake(self: Arc<Self>) {
        self.ready.push(self.id)
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.ready.push(self.id)
    }
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub polls: u64,
    pub spawned: u64,
    pub timers_fired: u64,
    pub points: u64,
    pub max_ready: usize,
}

struct Sched {
    tasks: Vec<Slot>,
    ready: Arc<Ready>,
    timers: BTreeMap<(u64, u64), Waker>,
    timer_seq: u64,
    now: u64,
    chooser: Option<Chooser>,
    nested: bool,
    timer_choice: bool,
    depth: usize,
    panics: Vec<(TaskId, String, String)>,
    stats: Stats,
    /// In-task points only count when armed, so that set-up is not explored.
    armed: bool,
    steps_left: u64,
}

thread_local! {
    static SCHED: RefCell<Option<Sched>> = const { RefCell::new(None) };
    static PANIC_MSG: RefCell<String> = const { RefCell::new(String::new()) };
}

fn with<R>(f: impl FnOnce(&mut Sched) -> R) -> R {
    SCHED.with(|s| f(s.borrow_mut().as_mut().expect("no model-checking scheduler on this thread")))
}

pub fn active() -> bool {
    SCHED.with(|s| s.borrow().is_some())
}

/// Install a panic hook that stays quiet for panics in scheduled tasks and
/// keeps their message.
pub fn install_panic_hook() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        let in_sched = SCHED.try_with(|s| s.try_borrow().map(|s| s.is_some()).unwrap_or(true)).unwrap_or(false);
        if in_sched {
            let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = info.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "panic".to_string()
            };
            let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            PANIC_MSG.with(|m| *m.borrow_mut() = format!("{msg} at {loc}"));
        } else {
            old(info)
        }
    }));
}

/// Install a scheduler on this thread for the duration of `f`.
pub fn scope<R>(f: impl FnOnce() -> R) -> R {
    struct Guard;
    impl Drop for Guard {
        fn drop(&mut self) {
            // Take the tasks out first: dropping them may call back.
            loop {
                let slots = SCHED.with(|s| {
                    s.borrow_mut().as_mut().map(|s| {
                        s.steps_left = 0;
                        s.armed = false;
                        s.tasks.iter_mut().filter_map(|t| t.fut.take()).collect::<Vec<_>>()
                    })
                });
                match slots {
                    Some(v) if !v.is_empty() => {
                        for fut in v {
                            let _ = catch_unwind(AssertUnwindSafe(|| drop(fut)));
                        }
                    }
                    _ => break,
                }
            }
            let s = SCHED.with(|s| s.borrow_mut().take());
            drop(s);
        }
    }
    SCHED.with(|s| {
        assert!(s.borrow().is_none(), "nested scheduler");
        *s.borrow_mut() = Some(Sched {
            tasks: Vec::new(),
            ready: Arc::new(Ready { queue: Mutex::new((VecDeque::new(), Vec::new())) }),
            timers: BTreeMap::new(),
            timer_seq: 0,
            now: 0,
            chooser: None,
            nested: false,
            timer_choice: false,
            depth: 0,
            panics: Vec::new(),
            stats: Stats::default(),
            armed: false,
            steps_left: u64::MAX,
        });
    });
    let _g = Guard;
    f()
}

/// From now on scheduling choices go to `chooser`; `nested` adds choices at
/// in-task points, `timer_choice` lets a timer fire while tasks are ready.
pub fn arm(chooser: Chooser, nested: bool, timer_choice: bool) {
    with(|s| {
        s.chooser = Some(chooser);
        s.nested = nested;
        s.timer_choice = timer_choice;
        s.armed = true;
    })
}

pub fn disarm() {
    let c = with(|s| {
        s.armed = false;
        s.nested = false;
        s.timer_choice = false;
        s.chooser.take()
    });
    drop(c);
}

pub fn now_ns() -> u64 {
    with(|s| s.now)
}

/// The time, where a scheduler is installed and not at work.
pub fn try_now_ns() -> Option<u64> {
    SCHED.try_with(|s| s.try_borrow().ok().and_then(|s| s.as_ref().map(|s| s.now))).ok().flatten()
}

pub fn stats() -> Stats {
    with(|s| s.stats.clone())
}

/// Panics seen in tasks so far: (task, name, message).
pub fn panics() -> Vec<(TaskId, String, String)> {
    with(|s| s.panics.clone())
}

pub fn is_done(id: TaskId) -> bool {
    with(|s| s.tasks[id].done)
}

pub fn live_tasks() -> usize {
    with(|s| s.tasks.iter().filter(|t| !t.done).count())
}

pub fn spawn_raw(name: &str, fut: BoxFut) -> TaskId {
    let id = with(|s| {
        let id = s.tasks.len();
        s.tasks.push(Slot {
            fut: Some(fut),
            running: false,
            aborted: false,
            done: false,
            name: name.to_string(),
            on_end: Vec::new(),
        });
        s.stats.spawned += 1;
        s.ready.push(id);
        id
    });
    id
}

pub(crate) fn on_end(id: TaskId, w: &Waker) {
    let done = with(|s| {
        if s.tasks[id].done {
            true
        } else {
            s.tasks[id].on_end.push(w.clone());
            false
        }
    });
    if done {
        w.wake_by_ref()
    }
}

pub fn abort(id: TaskId) {
    if !active() {
        return;
    }
    let (fut, wakers) = with(|s| {
        let t = &mut s.tasks[id];
        if t.done {
            return (None, vec![]);
        }
        t.aborted = true;
        if t.running {
            (None, vec![])
        } else {
            t.done = true;
            (t.fut.take(), std::mem::take(&mut t.on_end))
        }
    });
    drop(fut);
    for w in wakers {
        w.wake()
    }
}

pub fn is_aborted(id: TaskId) -> bool {
    with(|s| s.tasks[id].aborted)
}

pub(crate) fn add_timer(deadline: u64, w: Waker) -> (u64, u64) {
    with(|s| {
        s.timer_seq += 1;
        let key = (deadline, s.timer_seq);
        s.timers.insert(key, w);
        key
    })
}

pub(crate) fn set_timer_waker(key: (u64, u64), w: &Waker) -> bool {
    with(|s| match s.timers.get_mut(&key) {
        Some(slot) => {
            if !slot.will_wake(w) {
                *slot = w.clone()
            }
            true
        }
        None => false,
    })
}

pub(crate) fn del_timer(key: (u64, u64)) {
    let w = SCHED.try_with(|s| match s.try_borrow_mut() {
        Ok(mut g) => g.as_mut().and_then(|s| s.timers.remove(&key)),
        Err(_) => None,
    });
    drop(w);
}

thread_local! {
    /// Operations left to the task being polled, as tokio's coop budget.
    static BUDGET: std::cell::Cell<u32> = const { std::cell::Cell::new(u32::MAX) };
}

/// Polls an operation within the budget of the task: tokio makes a task that
/// has done 128 operations yield.
pub fn coop<T>(cx: &mut Context<'_>, poll: impl FnOnce(&mut Context<'_>) -> Poll<T>) -> Poll<T> {
    let left = BUDGET.with(|b| b.get());
    if left == 0 {
        cx.waker().wake_by_ref();
        return Poll::Pending;
    }
    let r = poll(cx);
    if r.is_ready() && left != u32::MAX {
        BUDGET.with(|b| b.set(b.get().saturating_sub(1)))
    }
    r
}

/// The same for a future.
pub async fn coop_future<F: std::future::Future>(f: F) -> F::Output {
    let mut f = std::pin::pin!(f);
    std::future::poll_fn(move |cx| coop(cx, |cx| f.as_mut().poll(cx))).await
}

fn poll_task(id: TaskId) {
    let Some((mut fut, waker)) = with(|s| {
        s.ready.take(id);
        let t = &mut s.tasks[id];
        if t.running || t.done {
            return None;
        }
        let fut = t.fut.take()?;
        t.running = true;
        s.stats.polls += 1;
        s.depth += 1;
        s.steps_left = s.steps_left.saturating_sub(1);
        let w = Waker::from(Arc::new(TaskWaker { id, ready: s.ready.clone() }));
        Some((fut, w))
    }) else {
        return;
    };
    let mut cx = Context::from_waker(&waker);
    let budget = BUDGET.with(|b| b.replace(128));
    let res = catch_unwind(AssertUnwindSafe(|| fut.as_mut().poll(&mut cx)));
    BUDGET.with(|b| b.set(budget));
    let mut drop_fut = None;
    let mut wakers = vec![];
    let panicked = res.is_err();
    let finished = !matches!(res, Ok(Poll::Pending));
    with(|s| {
        s.depth -= 1;
        let t = &mut s.tasks[id];
        t.running = false;
        if finished || t.aborted {
            t.done = true;
            drop_fut = Some(fut);
            wakers = std::mem::take(&mut t.on_end);
        } else {
            t.fut = Some(fut);
        }
        if panicked {
            let name = t.name.clone();
            let msg = PANIC_MSG.with(|m| std::mem::take(&mut *m.borrow_mut()));
            s.panics.push((id, name, msg));
        }
    });
    // Dropping the future of a task can itself panic or send.
    if catch_unwind(AssertUnwindSafe(|| drop(drop_fut))).is_err() {
        with(|s| {
            let msg = PANIC_MSG.with(|m| std::mem::take(&mut *m.borrow_mut()));
            let name = s.tasks[id].name.clone();
            s.panics.push((id, name, format!("in drop: {msg}")))
        });
    }
    for w in wakers {
        w.wake()
    }
}

fn pollable() -> Vec<TaskId> {
    with(|s| {
        let l = s.ready.list();
        let mut out = Vec::with_capacity(l.len());
        for id in l {
            if s.tasks[id].done {
                s.ready.take(id);
            } else if !s.tasks[id].running {
                out.push(id)
            }
        }
        s.stats.max_ready = s.stats.max_ready.max(out.len());
        out
    })
}

fn choose(cands: &[Cand]) -> usize {
    if cands.len() == 1 {
        return 0;
    }
    let mut c = match with(|s| s.chooser.take()) {
        Some(c) => c,
        None => return 0,
    };
    let k = c(cands);
    with(|s| s.chooser = Some(c));
    assert!(k < cands.len(), "chooser out of range");
    k
}

/// Fire all timers with the earliest deadline. False when there is none, or it
/// lies after `limit`.
fn fire_next_timer(limit: u64) -> bool {
    let wakers = with(|s| {
        let Some((&(d, _), _)) = s.timers.iter().next() else { return None };
        if d > limit {
            return None;
        }
        s.now = s.now.max(d);
        let mut v = Vec::new();
        while let Some((&k, _)) = s.timers.iter().next() {
            if k.0 != d {
                break;
            }
            v.push(s.timers.remove(&k).unwrap());
            s.stats.timers_fired += 1;
        }
        Some(v)
    });
    match wakers {
        None => false,
        Some(v) => {
            for w in v {
                w.wake()
            }
            true
        }
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Run {
    Quiescent,
    /// The poll budget ran out: a livelock within the horizon.
    OutOfSteps,
}

/// Run until nothing is ready and no timer is due up to `limit` (ns), then set
/// the clock to `limit`.
pub fn run_to(limit: u64, max_polls: u64) -> Run {
    with(|s| s.steps_left = max_polls);
    loop {
        if with(|s| s.steps_left) == 0 {
            return Run::OutOfSteps;
        }
        let ready = pollable();
        let has_timer = with(|s| s.timers.iter().next().map_or(false, |(k, _)| k.0 <= limit));
        if ready.is_empty() {
            if !fire_next_timer(limit) {
                with(|s| s.now = s.now.max(limit));
                return Run::Quiescent;
            }
            continue;
        }
        let mut cands: Vec<Cand> = ready.iter().map(|t| Cand::Task(*t)).collect();
        if has_timer && with(|s| s.armed && s.timer_choice) {
            cands.push(Cand::Timer);
        }
        match cands[choose(&cands)] {
            Cand::Task(t) => poll_task(t),
            Cand::Timer => {
                fire_next_timer(limit);
            }
            Cand::Continue => unreachable!(),
        }
    }
}

/// Run ready tasks without letting time pass.
pub fn settle(max_polls: u64) -> Run {
    let now = now_ns();
    run_to(now, max_polls)
}

/// A point inside a task at which another task may run first (as another worker
/// thread could).
pub fn point() {
    if !active() {
        return;
    }
    let go = with(|s| {
        s.stats.points += 1;
        s.armed && s.nested && s.depth > 0 && s.steps_left > 0
    });
    if !go {
        return;
    }
    loop {
        let ready = pollable();
        if ready.is_empty() || with(|s| s.steps_left) == 0 {
            return;
        }
        let mut cands = vec![Cand::Continue];
        cands.extend(ready.iter().map(|t| Cand::Task(*t)));
        match cands[choose(&cands)] {
            Cand::Continue => return,
            Cand::Task(t) => poll_task(t),
            Cand::Timer => unreachable!(),
        }
    }
}

/// A point in the pica library, and in no binary.
pub fn library_point(at: &std::panic::Location<'_>) {
    if !at.file().contains("/bin/") {
        point()
    }
}

/// What `Runtime::block_on` runs next to the main future.
type Driver = Box<dyn FnOnce(TaskId)>;

thread_local! {
    static DRIVER: RefCell<Option<Driver>> = const { RefCell::new(None) };
}

struct MainStopped;

/// Calls `start`, which enters `Runtime::block_on`, and then `driver` with the
/// task of the main future. False when `start` returned without doing so.
pub fn run_main(start: impl FnOnce(), driver: impl FnOnce(TaskId) + 'static) -> bool {
    DRIVER.with(|d| *d.borrow_mut() = Some(Box::new(driver)));
    let r = catch_unwind(AssertUnwindSafe(start));
    let unused = DRIVER.with(|d| d.borrow_mut().take()).is_some();
    match r {
        Ok(()) => !unused,
        Err(p) if p.is::<MainStopped>() => true,
        Err(p) => std::panic::resume_unwind(p),
    }
}

/// The main future under the scheduler, until the driver returns.
pub fn block_on<F: std::future::Future>(f: F) -> F::Output {
    let driver = DRIVER.with(|d| d.borrow_mut().take()).expect("block_on outside of run_main");
    let out = std::rc::Rc::new(RefCell::new(None));
    let out2 = out.clone();
    let fut: Pin<Box<dyn std::future::Future<Output = ()> + '_>> = Box::pin(async move {
        let v = f.await;
        *out2.borrow_mut() = Some(v);
    });
    // SAFETY: the task is dropped below, before anything it borrows.
    let fut: BoxFut = unsafe { std::mem::transmute(fut) };
    let id = spawn_raw("main", fut);
    let r = catch_unwind(AssertUnwindSafe(|| driver(id)));
    abort(id);
    if let Err(p) = r {
        std::panic::resume_unwind(p)
    }
    let v = out.borrow_mut().take();
    match v {
        Some(v) => v,
        None => std::panic::resume_unwind(Box::new(MainStopped)),
    }
}
