//! The controlled scheduler.
//!
//! One execution = one call of `run`, on the calling OS thread. Every task and every actor of the
//! harness is a coroutine ("thread" below). A thread can be switched away from only at `point`s
//! (before each visible operation: locking, notifying, socket operations, spawning), when it blocks
//! on a lock or condition, and when a task's poll returns. Everywhere else it runs without
//! interruption, which is no loss of generality as long as threads share data only under locks.
//!
//! At each choice there is a default (given by the policy) and alternatives. An execution is
//! determined by its configuration, of which the list of deviations (position, alternative) is part.

use corosensei::stack::DefaultStack;
use corosensei::{Coroutine, CoroutineResult, Yielder};
use std::cell::{Cell, RefCell};
use std::future::Future;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, Ordering::*};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

use crate::net::Net;

#[derive(Clone, Debug, Default)]
pub struct Config {
    /// 0: run the current thread until it blocks, then the next one in cyclic order. 1: ditto, then the
    /// newest one. 2: round robin at every point. 3: always the oldest one. 4: always the newest one.
    pub policy: u8,
    /// (position of the choice, alternative), ascending.
    pub devs: Vec<(u32, u8)>,
    /// Iteration order of hash maps.
    pub order: u8,
    pub short_reads: bool,
    pub short_writes: bool,
    pub io_errors: bool,
    /// How much the socket buffers towards a client.
    pub capacity: usize,
    /// As many connections as there can be; beyond that, accepting fails with EMFILE.
    pub max_open: Option<usize>,
    /// Accepting may fail with this error.
    pub accept_error: Option<i32>,
    pub max_steps: u64,
}

#[derive(Clone, Debug, Default)]
pub struct Report {
    /// Number of alternatives at each choice.
    pub trace: Vec<u8>,
    pub steps: u64,
    pub switches: u64,
    /// Threads blocked on locks for ever.
    pub deadlock: Option<String>,
    pub livelock: bool,
    /// Panics in tasks of the code under test and in actors.
    pub panics: Vec<String>,
    /// A task went to sleep holding a lock.
    pub lock_across_await: Option<String>,
    /// Actors that were still waiting for something when nothing could happen any more.
    pub stuck: Vec<String>,
    /// Tasks that had not finished by then.
    pub tasks_left: usize,
    /// Threads that could not even be dropped.
    pub leaked: usize,
}

pub(crate) struct WakeFlag(AtomicBool);
impl Wake for WakeFlag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, SeqCst)
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.0.store(true, SeqCst)
    }
}

#[derive(Clone, Copy)]
enum St {
    Ready,
    Wake,
    Cond(*const dyn Fn() -> bool),
    Lock(*const dyn Fn() -> bool, &'static str),
    Idle,
    Done,
}

struct Th {
    co: Option<Coroutine<(), (), (), DefaultStack>>,
    yielder: *const Yielder<(), ()>,
    st: St,
    name: String,
    is_task: bool,
    flag: Arc<WakeFlag>,
    abort: Option<Arc<AtomicBool>>,
    locks_held: u32,
}

pub(crate) struct Rt {
    threads: Vec<Th>,
    /// Indices of those that are not done, ascending.
    live: Vec<u32>,
    cur: usize,
    running: bool,
    next: Option<usize>,
    cfg: Config,
    dev_next: usize,
    report: Report,
    branching: bool,
    killing: bool,
    frozen: bool,
    suspended_panicking: u32,
    pub(crate) net: Net,
    pub(crate) clock: crate::time::Clock,
    pub(crate) signals: crate::signal::Signals,
}

thread_local! {
    static RT: Cell<*mut Rt> = const { Cell::new(std::ptr::null_mut()) };
    static STACKS: RefCell<Vec<DefaultStack>> = const { RefCell::new(vec![]) };
    static ORDER: Cell<u8> = const { Cell::new(0) };
}

thread_local! {
    static COUNTING: Cell<bool> = const { Cell::new(false) };
}

/// Is the code under test running (as opposed to the harness), so that allocations count?
pub fn counting() -> bool {
    COUNTING.with(|c| c.get())
}
pub fn uncounted<R>(f: impl FnOnce() -> R) -> R {
    let was = COUNTING.with(|c| c.replace(false));
    let r = f();
    COUNTING.with(|c| c.set(was));
    r
}

const STACK: usize = 512 * 1024;

pub(crate) fn rt() -> Option<&'static mut Rt> {
    let p = RT.with(|r| r.get());
    if p.is_null() {
        None
    } else {
        Some(unsafe { &mut *p })
    }
}

fn get() -> &'static mut Rt {
    rt().expect("outside of an execution")
}

pub fn order() -> u8 {
    ORDER.with(|o| o.get())
}

impl Rt {
    fn enabled(&self, i: usize) -> bool {
        let t = &self.threads[i];
        match t.st {
            St::Ready => true,
            St::Wake => self.killing || t.flag.0.load(SeqCst),
            St::Cond(f) => self.killing || unsafe { (*f)() },
            St::Lock(f, _) => unsafe { (*f)() },
            St::Idle => self.killing,
            St::Done => false,
        }
    }

    /// A choice between n alternatives; 0 is the default.
    fn choice(&mut self, n: usize) -> usize {
        if !self.branching || n < 2 {
            return 0;
        }
        let pos = self.report.trace.len() as u32;
        self.report.trace.push(n.min(255) as u8);
        if let Some(&(p, alt)) = self.cfg.devs.get(self.dev_next) {
            if p == pos {
                self.dev_next += 1;
                return (alt as usize).min(n - 1);
            }
        }
        0
    }

    /// Which thread runs next? The current thread is a candidate if it is enabled.
    fn pick(&mut self) -> Option<usize> {
        let mut en = [0u32; 64];
        let mut n = 0;
        //in cyclic order, starting after the current one
        let (until_me, after_me) = self.live.split_at(self.live.partition_point(|&i| i as usize <= self.cur));
        for &i in after_me.iter().chain(until_me) {
            if n < 64 && self.enabled(i as usize) {
                en[n] = i;
                n += 1;
            }
        }
        if n == 0 {
            return None;
        }
        let en = &en[..n];
        let fair = self.report.steps > self.cfg.max_steps / 4;
        let cur_enabled = en[n - 1] as usize == self.cur;
        let d = match self.cfg.policy {
            _ if fair => 0,
            0 if cur_enabled => n - 1,
            0 => 0,
            1 if cur_enabled => n - 1,
            2 => 0,
            3 => (0..n).min_by_key(|&k| en[k]).unwrap(),
            _ => (0..n).max_by_key(|&k| en[k]).unwrap(),
        };
        let k = if n > 1 && !fair { self.choice(n) } else { 0 };
        Some(en[(d + k) % n] as usize)
    }
}

/// A scheduling point.
pub fn point(_what: &'static str) {
    let Some(r) = rt() else { return };
    if !r.running {
        return;
    }
    r.report.steps += 1;
    if r.report.steps > r.cfg.max_steps {
        r.report.livelock = true;
        r.frozen = true;
        suspend();
    }
    let me = r.cur;
    r.threads[me].st = St::Ready;
    let next = r.pick().unwrap();
    if next != me {
        r.next = Some(next);
        suspend();
    }
}

//(References to the state must not be held as function arguments across this call.)
fn suspend() {
    let r = get();
    let me = r.cur;
    let p = panicking();
    if p {
        r.suspended_panicking += 1;
    }
    r.report.switches += 1;
    let y = r.threads[me].yielder;
    let counting = COUNTING.with(|c| c.replace(false));
    unsafe { (*y).suspend(()) };
    COUNTING.with(|c| c.set(counting));
    if p {
        get().suspended_panicking -= 1;
    }
}

/// Is the current thread unwinding?
pub(crate) fn panicking() -> bool {
    std::thread::panicking() && rt().map_or(true, |r| r.suspended_panicking == 0)
}

/// Blocks until the lock can be taken.
pub(crate) fn block_on_lock(free: &dyn Fn() -> bool, what: &'static str) {
    if free() {
        return;
    }
    let r = rt().filter(|r| r.running).expect("lock contention outside of an execution");
    let me = r.cur;
    r.threads[me].st = St::Lock(unsafe { std::mem::transmute::<*const dyn Fn() -> bool, *const dyn Fn() -> bool>(free) }, what);
    suspend();
}

pub(crate) fn lock_taken(d: i32) {
    if let Some(r) = rt() {
        if r.running {
            let me = r.cur;
            let l = &mut r.threads[me].locks_held;
            *l = l.wrapping_add(d as u32);
        }
    }
}

/// Blocks the calling actor until the condition holds; false if it never will.
pub fn wait_until(cond: impl Fn() -> bool) -> bool {
    point("wait");
    if cond() {
        return true;
    }
    let r = get();
    let me = r.cur;
    let c: &dyn Fn() -> bool = &cond;
    r.threads[me].st = St::Cond(unsafe { std::mem::transmute::<*const dyn Fn() -> bool, *const dyn Fn() -> bool>(c) });
    suspend();
    cond()
}

/// Blocks the calling actor until no other thread can do anything. False when the execution is being
/// taken down.
pub fn wait_idle() -> bool {
    let r = get();
    let me = r.cur;
    r.threads[me].st = St::Idle;
    suspend();
    !get().killing
}

/// Switches the recording of choices on and off (off: always the default).
pub fn branching(on: bool) {
    get().branching = on;
}

/// A choice made by the environment.
pub fn choose(n: usize) -> usize {
    rt().map_or(0, |r| r.choice(n))
}

pub(crate) fn cfg() -> &'static Config {
    &get().cfg
}

pub fn live_tasks() -> usize {
    let r = get();
    r.live.iter().filter(|&&i| r.threads[i as usize].is_task).count()
}

/// Cancels all tasks, and waits until they are gone (or the execution is being taken down).
pub fn cancel_tasks() {
    for t in &mut get().threads {
        if let Some(a) = &t.abort {
            a.store(true, SeqCst);
            t.flag.0.store(true, SeqCst);
        }
    }
    wait_until(|| live_tasks() == 0);
}

pub fn panics() -> usize {
    get().report.panics.len()
}

pub(crate) fn spawn_thread(name: String, is_task: bool, flag: Arc<WakeFlag>, body: Box<dyn FnOnce()>) -> usize {
    let r = get();
    let stack = STACKS.with(|s| s.borrow_mut().pop()).unwrap_or_else(|| DefaultStack::new(STACK).unwrap());
    let id = r.threads.len();
    let co = Coroutine::with_stack(stack, move |y: &Yielder<(), ()>, ()| {
        get().threads[id].yielder = y;
        if catch_unwind(AssertUnwindSafe(body)).is_err() {
            COUNTING.with(|c| c.set(false));
            let r = get();
            let msg = format!("{}: {}", r.threads[id].name, last_panic());
            r.report.panics.push(msg);
        }
    });
    r.live.push(id as u32);
    r.threads.push(Th { co: Some(co), yielder: std::ptr::null(), st: St::Ready, name, is_task, flag, abort: None, locks_held: 0 });
    id
}

thread_local! {
    #[allow(clippy::type_complexity)]
    static PANIC_TEXT: Cell<Option<fn() -> String>> = const { Cell::new(None) };
}

/// How to obtain the text of the latest panic on this OS thread.
pub fn set_panic_text(f: fn() -> String) {
    PANIC_TEXT.with(|p| p.set(Some(f)));
}

fn last_panic() -> String {
    PANIC_TEXT.with(|p| p.get()).map_or("panicked".into(), |f| f())
}

/// Runs a future as a task of the code under test.
pub(crate) fn spawn_task<F: Future + 'static>(fut: F, done: impl FnOnce(Option<F::Output>) + 'static, abort: Arc<AtomicBool>) -> Waker {
    point("spawn");
    let flag = Arc::new(WakeFlag(AtomicBool::new(true)));
    let waker = Waker::from(flag.clone());
    let n = get().threads.len();
    let f = flag.clone();
    let a = abort.clone();
    let id = spawn_thread(
        format!("task{}", n),
        true,
        flag,
        Box::new(move || {
            let mut fut = Box::pin(fut);
            let r = drive(fut.as_mut(), &f, &abort);
            drop(fut);
            done(r);
        }),
    );
    get().threads[id].abort = Some(a);
    waker
}

fn drive<T>(mut fut: std::pin::Pin<&mut dyn Future<Output = T>>, flag: &Arc<WakeFlag>, abort: &AtomicBool) -> Option<T> {
    let waker = Waker::from(flag.clone());
    let mut cx = Context::from_waker(&waker);
    loop {
        let r = get();
        let me = r.cur;
        r.threads[me].st = St::Wake;
        suspend();
        if get().killing || abort.load(SeqCst) {
            return None;
        }
        flag.0.store(false, SeqCst);
        COUNTING.with(|c| c.set(true));
        let polled = fut.as_mut().poll(&mut cx);
        COUNTING.with(|c| c.set(false));
        if let Poll::Ready(v) = polled {
            return Some(v);
        }
        let r = get();
        let t = &r.threads[r.cur];
        if t.locks_held != 0 && r.report.lock_across_await.is_none() {
            r.report.lock_across_await = Some(t.name.clone());
        }
    }
}

/// Runs a future on the calling actor; None when the execution is being taken down.
pub fn block_on<F: Future>(fut: F) -> Option<F::Output> {
    let mut fut = Box::pin(fut);
    let f: std::pin::Pin<&mut dyn Future<Output = F::Output>> = fut.as_mut();
    let r = get();
    let flag = r.threads[r.cur].flag.clone();
    flag.0.store(true, SeqCst);
    //the future does not outlive this call
    let f: std::pin::Pin<&mut dyn Future<Output = F::Output>> = unsafe { std::mem::transmute(f) };
    drive(f, &flag, &AtomicBool::new(false))
}

/// Starts a thread of the harness (a client, an application thread...).
pub fn actor(name: &str, body: impl FnOnce() + 'static) {
    spawn_thread(name.into(), false, Arc::new(WakeFlag(AtomicBool::new(false))), Box::new(body));
}

/// Runs one execution. `main` is the first actor.
pub fn run(cfg: Config, main: impl FnOnce() + 'static) -> Report {
    assert!(rt().is_none(), "nested executions");
    ORDER.with(|o| o.set(cfg.order));
    let rt_box = Box::new(Rt {
        threads: Vec::with_capacity(64),
        live: Vec::with_capacity(64),
        cur: 0,
        running: false,
        next: None,
        cfg,
        dev_next: 0,
        report: Report::default(),
        branching: true,
        killing: false,
        frozen: false,
        suspended_panicking: 0,
        net: Net::default(),
        clock: Default::default(),
        signals: Default::default(),
    });
    let p = Box::into_raw(rt_box);
    RT.with(|r| r.set(p));
    actor("main", main);
    turn();
    let r = get();
    r.report.tasks_left = live_tasks();
    r.report.stuck = r.threads.iter().filter(|t| !t.is_task && !matches!(t.st, St::Done)).map(|t| t.name.clone()).collect();
    if !r.frozen {
        r.branching = false;
        r.killing = true;
        r.cfg.policy = 0;
        r.cfg.max_steps += 20000;
        let dead = r.report.deadlock.take();
        let n = r.report.panics.len();
        turn();
        let r = get();
        if dead.is_some() || !r.frozen {
            r.report.deadlock = dead;
        }
        r.report.panics.truncate(n);
    }
    let r = get();
    let mut leaked = 0;
    for t in r.threads.drain(..) {
        if let Some(mut co) = t.co {
            if co.started() && !co.done() {
                leaked += 1;
                unsafe { co.force_reset() };
            }
            let stack = co.into_stack();
            STACKS.with(|s| s.borrow_mut().push(stack));
        }
    }
    r.report.leaked = leaked;
    RT.with(|r| r.set(std::ptr::null_mut()));
    let b = unsafe { Box::from_raw(p) };
    if leaked > 0 {
        //threads that were given up may refer to it
        let rep = b.report.clone();
        std::mem::forget(b);
        return rep;
    }
    b.report
}

fn turn() {
    loop {
        let r = get();
        let next = match r.next.take().or_else(|| r.pick()) {
            Some(n) => n,
            None => {
                let blocked: Vec<String> = r
                    .threads
                    .iter()
                    .filter_map(|t| match t.st {
                        St::Lock(_, what) => Some(format!("{} waits for a {}", t.name, what)),
                        _ => None,
                    })
                    .collect();
                if !blocked.is_empty() && r.report.deadlock.is_none() {
                    r.report.deadlock = Some(blocked.join(", "));
                }
                match r.threads.iter().position(|t| matches!(t.st, St::Idle)) {
                    Some(i) => i,
                    None => return,
                }
            }
        };
        r.cur = next;
        r.threads[next].st = St::Ready;
        r.running = true;
        //the list of threads may be reallocated meanwhile
        let mut co = r.threads[next].co.take().unwrap();
        let res = co.resume(());
        let r = get();
        r.running = false;
        match res {
            CoroutineResult::Yield(()) => r.threads[next].co = Some(co),
            CoroutineResult::Return(()) => {
                r.threads[next].st = St::Done;
                r.live.retain(|&i| i as usize != next);
                let stack = co.into_stack();
                STACKS.with(|s| s.borrow_mut().push(stack));
            }
        }
        if r.frozen {
            return;
        }
    }
}
