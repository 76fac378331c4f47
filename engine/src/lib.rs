//! Runs one property's bounded-exhaustive exploration.
//!
//! The command line is `<bin> <PROPERTY> [--replay FILE]`. A supervisor process starts itself again
//! as a worker. In the worker, every case (a `kind` plus a byte payload, from which the case can be
//! rebuilt completely) is announced in shared memory before it is executed, so that when the code
//! under test aborts, overflows its stack or hangs, the supervisor knows which case did it, runs
//! that case alone again, and reports it as a violation only if it fails again. A case that fails
//! only because of what the code under test remembers of earlier cases in the same process is run
//! again after those that its thread executed before it, and if that is not enough, the whole
//! enumeration is run again by one thread, until it fails.

use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub mod guard;
pub mod util;
pub use util::*;

pub const SLOT_DATA: usize = 64 * 1024;
const MAX_VIOLATIONS: usize = 12;
const MAX_HISTORIES: usize = 4;

#[repr(C)]
struct Slot {
    seq: AtomicU64, //odd = case running
    kind_len: AtomicU64,
    len: AtomicU64,
    data: [u8; SLOT_DATA],
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Level {
    Exploration,
    FaultEnumeration,
    ModelChecking,
}

impl Level {
    fn name(self) -> &'static str {
        match self {
            Level::Exploration => "exploration",
            Level::FaultEnumeration => "fault_enumeration",
            Level::ModelChecking => "model_checking",
        }
    }
}

/// What one case reports besides its verdict.
#[derive(Default)]
pub struct Rec {
    /// Is this case non-trivial by the property's `rule`?
    pub nontrivial: bool,
    /// Free-form counters, summed up over all cases.
    pub tags: Vec<(&'static str, u64)>,
    /// Hash of the observable outcome, to count how many different outcomes there were.
    pub outcome: Option<u64>,
    /// How many more executions of the implementation this case stood for (default: 1 per case).
    pub extra_evaluations: u64,
    /// Only set for cases that will be shown as samples.
    pub want_text: bool,
    pub text: String,
}

impl Rec {
    pub fn tag(&mut self, t: &'static str) {
        self.tags.push((t, 1));
    }
    pub fn add(&mut self, t: &'static str, n: u64) {
        self.tags.push((t, n));
    }
}

pub trait Property: Sync {
    fn id(&self) -> &'static str;
    fn level(&self) -> Level;
    /// How cases are made and what makes one non-trivial.
    fn rule(&self) -> String;
    fn bounds(&self) -> String;
    fn assumptions(&self) -> Vec<String> {
        vec![]
    }
    /// Enumerates the whole bounded space.
    fn enumerate(&self, e: &Eng);
    /// Executes one case. This is also what a replay does.
    fn run_case(&self, kind: &str, payload: &[u8], r: &mut Rec) -> Result<(), String>;
    /// Human-readable form of a case for reports.
    fn describe(&self, kind: &str, payload: &[u8]) -> String {
        format!("{} {}", kind, show(payload))
    }
    fn hang_seconds(&self) -> u64 {
        25
    }
    fn threads(&self) -> usize {
        std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8)
    }
    /// Called once in the worker process (and in replays) before anything else.
    fn init(&self) {}
}

type History = Vec<(String, Vec<u8>)>;

#[derive(Clone, Debug, Default)]
struct Violation {
    kind: String,
    payload: Vec<u8>,
    msg: String,
    /// The cases that the thread executed before this one.
    history: History,
    /// Fails only when the enumeration is run by one thread up to this case.
    enumeration: bool,
}

/// The latest cases of a thread.
#[derive(Default)]
struct Ring {
    cases: std::collections::VecDeque<(String, Vec<u8>)>,
    bytes: usize,
}

impl Ring {
    const CASES: usize = 3000;
    const BYTES: usize = 1 << 20;

    fn push(&mut self, kind: &str, payload: &[u8]) {
        let mut entry = (String::new(), vec![]);
        while self.cases.len() >= Self::CASES || (self.bytes > Self::BYTES && !self.cases.is_empty()) {
            entry = self.cases.pop_front().unwrap();
            self.bytes -= entry.1.len();
        }
        entry.0.clear();
        entry.0.push_str(kind);
        entry.1.clear();
        entry.1.extend_from_slice(payload);
        self.bytes += payload.len();
        self.cases.push_back(entry);
    }
    /// All but the latest one, which is the one that failed.
    fn before(&self) -> History {
        self.cases.iter().take(self.cases.len().saturating_sub(1)).cloned().collect()
    }
}

#[derive(Default)]
struct Totals {
    evaluations: u64,
    nontrivial: HashSet<u64>,
    nontrivial_overflow: u64,
    outcomes: HashSet<u64>,
    tags: BTreeMap<String, u64>,
    samples: Vec<(String, String)>,
    per_kind: BTreeMap<String, u64>,
}

pub struct Eng<'p> {
    prop: &'p dyn Property,
    pub tier: Tier,
    pub seed: u64,
    slots: *mut Slot,
    nslots: usize,
    totals: Mutex<Totals>,
    violations: Mutex<Vec<Violation>>,
    stop: AtomicBool,
    deadline: Instant,
    capped: AtomicBool,
    numbers: Mutex<BTreeMap<String, u64>>,
    notes: Mutex<Vec<String>>,
}
unsafe impl Sync for Eng<'_> {}

const DISTINCT_CAP: usize = 4_000_000;

impl<'p> Eng<'p> {
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
    /// Picks the bound for this tier.
    pub fn bound<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough() {
            thorough
        } else {
            quick
        }
    }
    pub fn stopped(&self) -> bool {
        if self.stop.load(Relaxed) {
            return true;
        }
        if Instant::now() > self.deadline {
            self.capped.store(true, Relaxed);
            return true;
        }
        false
    }
    /// Adds to a number reported in the evidence (e.g. "states").
    pub fn number(&self, name: &str, n: u64) {
        *self.numbers.lock().unwrap().entry(name.into()).or_insert(0) += n;
    }
    pub fn note(&self, s: String) {
        self.notes.lock().unwrap().push(s);
    }
    /// Marks the exploration as not exhaustive within its bounds.
    pub fn mark_capped(&self, why: &str) {
        self.capped.store(true, Relaxed);
        self.note(format!("capped: {}", why));
    }
    pub fn violations_found(&self) -> bool {
        !self.violations.lock().unwrap().is_empty()
    }

    /// Runs `f` for the job indexes `0..n`, spread over all threads.
    pub fn par<F: Fn(&mut W, usize) + Sync>(&self, n: usize, f: F) {
        let next = AtomicUsize::new(0);
        let nthreads = self.nslots.min(n.max(1));
        std::thread::scope(|s| {
            for t in 0..nthreads {
                let (next, f) = (&next, &f);
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(s, move || {
                        let mut w = W {
                            eng: self,
                            slot: t,
                            local: Totals::default(),
                            tick: 0,
                            stopped: false,
                            ring: Ring::default(),
                        };
                        loop {
                            let i = next.fetch_add(1, Relaxed);
                            if i >= n || self.stopped() {
                                break;
                            }
                            f(&mut w, i);
                        }
                        w.flush();
                    })
                    .unwrap();
            }
        });
    }

    fn report(&self, mut v: Violation, ring: &Ring) {
        let mut vs = self.violations.lock().unwrap();
        if vs.len() < MAX_HISTORIES {
            v.history = ring.before();
        }
        vs.push(v);
        if vs.len() >= MAX_VIOLATIONS || one_thread() {
            self.stop.store(true, Relaxed);
        }
    }
}

/// A worker thread's handle.
pub struct W<'e> {
    pub eng: &'e Eng<'e>,
    slot: usize,
    local: Totals,
    tick: u32,
    stopped: bool,
    ring: Ring,
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

pub fn take_last_panic() -> String {
    LAST_PANIC.with(|p| std::mem::take(&mut *p.borrow_mut()))
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "(no message)".into());
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = format!("panic at {}: {}", loc, msg));
    }));
}

impl<'e> W<'e> {
    pub fn index(&self) -> usize {
        self.slot
    }
    pub fn stopped(&mut self) -> bool {
        if !self.stopped {
            self.tick = self.tick.wrapping_add(1);
            if self.tick % 256 == 0 {
                self.stopped = self.eng.stopped();
            }
        }
        self.stopped
    }

    /// Executes one case.
    pub fn case(&mut self, kind: &'static str, payload: &[u8]) {
        if self.stopped() {
            return;
        }
        self.announce(kind, payload);
        let n = *self.local.per_kind.get(kind).unwrap_or(&0);
        //a few early cases of each kind serve as samples
        let want_text = (n == 3 || n == 101 || n == 5077) && self.slot == 0;
        let mut r = Rec { want_text, ..Default::default() };
        let prop = self.eng.prop;
        let res = run_caught(prop, kind, payload, &mut r);
        self.retire();
        match self.local.per_kind.get_mut(kind) {
            Some(c) => *c += 1,
            None => {
                self.local.per_kind.insert(kind.to_string(), 1);
            }
        }
        self.account(kind, payload, r, want_text);
        if let Err(msg) = res {
            self.violation(kind, payload, msg);
        }
    }

    fn account(&mut self, kind: &str, payload: &[u8], r: Rec, want_text: bool) {
        let l = &mut self.local;
        l.evaluations += 1 + r.extra_evaluations;
        if r.nontrivial {
            if l.nontrivial.len() < DISTINCT_CAP / 8 {
                l.nontrivial.insert(hash2(hash_bytes(kind.as_bytes()), hash_bytes(payload)));
            } else {
                l.nontrivial_overflow += 1;
            }
        }
        if let Some(o) = r.outcome {
            if l.outcomes.len() < DISTINCT_CAP / 8 {
                l.outcomes.insert(o);
            }
        }
        for (t, n) in r.tags {
            match l.tags.get_mut(t) {
                Some(c) => *c += n,
                None => {
                    l.tags.insert(t.into(), n);
                }
            }
        }
        if want_text {
            let d = self.eng.prop.describe(kind, payload);
            l.samples.push((d, r.text));
        }
    }

    /// Announces what is about to be executed (for explorers that drive executions themselves).
    pub fn announce(&mut self, kind: &str, payload: &[u8]) {
        self.ring.push(kind, payload);
        let slot = unsafe { &mut *self.eng.slots.add(self.slot) };
        let k = kind.len();
        let n = payload.len().min(SLOT_DATA - k);
        slot.data[..k].copy_from_slice(kind.as_bytes());
        slot.data[k..k + n].copy_from_slice(&payload[..n]);
        slot.kind_len.store(k as u64, Relaxed);
        slot.len.store((k + n) as u64, Relaxed);
        slot.seq.fetch_add(1, Release);
    }
    pub fn retire(&mut self) {
        let slot = unsafe { &*self.eng.slots.add(self.slot) };
        slot.seq.fetch_add(1, Release);
    }
    /// For explorers that drive executions themselves: account for one execution.
    pub fn record(&mut self, kind: &'static str, payload: &[u8], r: Rec) {
        let want_text = r.want_text;
        match self.local.per_kind.get_mut(kind) {
            Some(c) => *c += 1,
            None => {
                self.local.per_kind.insert(kind.to_string(), 1);
            }
        }
        self.account(kind, payload, r, want_text);
    }
    pub fn violation(&mut self, kind: &str, payload: &[u8], msg: String) {
        self.eng.report(Violation { kind: kind.into(), payload: payload.to_vec(), msg, ..Default::default() }, &self.ring);
    }

    fn flush(&mut self) {
        let l = std::mem::take(&mut self.local);
        let mut t = self.eng.totals.lock().unwrap();
        t.evaluations += l.evaluations;
        t.nontrivial_overflow += l.nontrivial_overflow;
        for h in l.nontrivial {
            if t.nontrivial.len() < DISTINCT_CAP {
                t.nontrivial.insert(h);
            } else if !t.nontrivial.contains(&h) {
                t.nontrivial_overflow += 1;
            }
        }
        for h in l.outcomes {
            if t.outcomes.len() < DISTINCT_CAP {
                t.outcomes.insert(h);
            }
        }
        for (k, v) in l.tags {
            *t.tags.entry(k).or_insert(0) += v;
        }
        for (k, v) in l.per_kind {
            *t.per_kind.entry(k).or_insert(0) += v;
        }
        t.samples.extend(l.samples);
    }
}

fn run_caught(prop: &dyn Property, kind: &str, payload: &[u8], r: &mut Rec) -> Result<(), String> {
    match catch_unwind(AssertUnwindSafe(|| prop.run_case(kind, payload, r))) {
        Ok(res) => res,
        Err(_) => Err(take_last_panic()),
    }
}

////////////////////////////////////////////////////////////////////////////////
// process structure

fn verif_dir() -> PathBuf {
    std::env::var_os("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|| "/verif".into())
}

pub fn scratch_dir() -> PathBuf {
    PathBuf::from(std::env::var_os("VERIF_SCRATCH").expect("VERIF_SCRATCH is set by the supervisor"))
}

/// Is this the repetition of an enumeration by one thread?
fn one_thread() -> bool {
    std::env::var_os("VERIF_ONE_THREAD").is_some()
}

struct Opts {
    tier: Tier,
    seed: u64,
}

fn opts() -> Opts {
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    Opts { tier, seed }
}

pub fn main(props: &[&dyn Property]) {
    let args: Vec<String> = std::env::args().collect();
    let id = args.get(1).cloned().unwrap_or_default();
    let prop = match props.iter().find(|p| p.id() == id) {
        Some(p) => *p,
        None => {
            eprintln!("unknown property {:?}", id);
            std::process::exit(2);
        }
    };
    let mode = args.get(2).map(|s| s.as_str()).unwrap_or("");
    let code = match mode {
        "" => supervise(prop),
        "--worker" => worker(prop),
        "--one" => one(prop, &args[3]),
        "--replay" => replay(prop, Path::new(&args[3])),
        _ => 2,
    };
    std::process::exit(code);
}

struct Scratch(PathBuf);
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn make_scratch(id: &str) -> Scratch {
    let base = if Path::new("/dev/shm").is_dir() { PathBuf::from("/dev/shm") } else { std::env::temp_dir() };
    let dir = base.join(format!("verif-{}-{}", id, std::process::id()));
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).unwrap();
    std::env::set_var("VERIF_SCRATCH", &dir);
    Scratch(dir)
}

fn map_slots(path: &Path, n: usize, create: bool) -> *mut Slot {
    use std::os::unix::io::AsRawFd;
    let size = n * std::mem::size_of::<Slot>();
    let f = std::fs::OpenOptions::new().read(true).write(true).create(create).truncate(create).open(path).unwrap();
    if create {
        f.set_len(size as u64).unwrap();
    }
    let p = unsafe {
        libc::mmap(
            std::ptr::null_mut(),
            size,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED,
            f.as_raw_fd(),
            0,
        )
    };
    assert!(p != libc::MAP_FAILED);
    p as *mut Slot
}

fn limit_memory(bytes: u64) {
    let l = libc::rlimit { rlim_cur: bytes, rlim_max: bytes };
    unsafe { libc::setrlimit(libc::RLIMIT_AS, &l) };
    let l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
    unsafe { libc::setrlimit(libc::RLIMIT_CORE, &l) };
}

fn die_with_parent() {
    unsafe { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL) };
}

#[derive(Debug)]
enum End {
    Exit(i32),
    Signal(i32),
    TimedOut,
}

fn wait_for(child: &mut std::process::Child, limit: Duration, mut poll: impl FnMut() -> bool) -> End {
    use std::os::unix::process::ExitStatusExt;
    let start = Instant::now();
    loop {
        if let Ok(Some(st)) = child.try_wait() {
            return match st.code() {
                Some(c) => End::Exit(c),
                None => End::Signal(st.signal().unwrap_or(0)),
            };
        }
        if start.elapsed() > limit || poll() {
            let _ = child.kill();
            let _ = child.wait();
            return End::TimedOut;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
}

fn run_one(prop: &dyn Property, history: &History, kind: &str, payload: &[u8]) -> Result<(), String> {
    // Ok(()) = passes, Err(msg) = violation
    let f = scratch_dir().join("one.case");
    let v = Violation { kind: kind.into(), payload: payload.into(), history: history.clone(), ..Default::default() };
    std::fs::write(&f, case_text(prop, &v)).unwrap();
    let exe = std::env::current_exe().unwrap();
    let mut child = std::process::Command::new(exe)
        .arg(prop.id())
        .arg("--one")
        .arg(&f)
        .stdout(std::process::Stdio::piped())
        .stderr(std::process::Stdio::null())
        .spawn()
        .unwrap();
    let end = wait_for(&mut child, Duration::from_secs(prop.hang_seconds() + if history.is_empty() { 20 } else { 60 }), || false);
    match end {
        End::Exit(0) => Ok(()),
        End::Exit(1) => {
            let mut s = String::new();
            use std::io::Read;
            let _ = child.stdout.take().unwrap().read_to_string(&mut s);
            Err(s.trim().to_string())
        }
        End::Exit(c) => Err(format!("the process ended with exit code {}", c)),
        End::Signal(s) => Err(format!("the process was killed by signal {} (crash)", s)),
        End::TimedOut => Err("the case does not terminate".into()),
    }
}

/// Has the enumeration run again by one thread, until it fails or dies.
fn run_enumeration(prop: &dyn Property) -> Result<(), Violation> {
    let result = scratch_dir().join("result");
    let _ = std::fs::remove_file(&result);
    let slots = map_slots(&scratch_dir().join("slots"), prop.threads(), true);
    let exe = std::env::current_exe().unwrap();
    let mut child = std::process::Command::new(exe)
        .arg(prop.id())
        .arg("--worker")
        .env("VERIF_ONE_THREAD", "1")
        .env("VERIF_CAP_S", "240")
        .stderr(std::process::Stdio::null())
        .spawn()
        .unwrap();
    let end = wait_for(&mut child, Duration::from_secs(260), || false);
    let text = std::fs::read_to_string(&result).unwrap_or_default();
    if let End::Signal(_) | End::Exit(1..) = end {
        let slot = unsafe { &*slots };
        if slot.seq.load(Acquire) % 2 == 1 {
            let (kind, payload) = slot_case(slot);
            let msg = format!("the process ended with {:?} (after other cases in the same process)", end);
            return Err(Violation { kind, payload, msg, enumeration: true, ..Default::default() });
        }
    }
    match violations_in(&text).into_iter().next() {
        Some(v) => Err(Violation {
            msg: format!("{} (only after other cases in the same process)", v.msg),
            history: vec![],
            enumeration: true,
            ..v
        }),
        None => Ok(()),
    }
}

fn slot_case(slot: &Slot) -> (String, Vec<u8>) {
    let k = slot.kind_len.load(Relaxed) as usize;
    let len = slot.len.load(Relaxed) as usize;
    (String::from_utf8_lossy(&slot.data[..k]).to_string(), slot.data[k..len].to_vec())
}

fn case_text(prop: &dyn Property, v: &Violation) -> String {
    let clean = |s: &str| s.replace('\n', " ");
    let mut s = format!("property={}\n", prop.id());
    if v.enumeration {
        s.push_str("mode=enumeration\n");
    }
    for (kind, payload) in &v.history {
        s.push_str(&format!("kind={}\npayload={}\n", kind, hex(payload)));
    }
    s.push_str(&format!(
        "kind={}\npayload={}\nmessage={}\ndescription={}\n",
        v.kind,
        hex(&v.payload),
        clean(&v.msg),
        clean(&prop.describe(&v.kind, &v.payload))
    ));
    s
}

/// The cases in a file, which are to be executed in this order.
fn parse_cases(text: &str) -> Option<History> {
    let (mut kind, mut out) = (None, vec![]);
    for l in text.lines() {
        if let Some(k) = l.strip_prefix("kind=") {
            kind = Some(k.to_string());
        } else if let Some(p) = l.strip_prefix("payload=") {
            out.push((kind.take()?, unhex(p)?));
        }
    }
    (!out.is_empty()).then_some(out)
}

/// The violations in a worker's result.
fn violations_in(result: &str) -> Vec<Violation> {
    let mut out = vec![];
    for l in result.lines().filter(|l| l.starts_with("V\t")) {
        let f: Vec<&str> = l.split('\t').collect();
        let history = f[4].split(';').filter_map(|c| c.split_once(':')).filter_map(|(k, p)| Some((k.to_string(), unhex(p)?)));
        out.push(Violation {
            kind: f[1].into(),
            payload: unhex(f[2]).unwrap(),
            msg: String::from_utf8_lossy(&unhex(f[3]).unwrap_or_default()).to_string(),
            history: history.collect(),
            enumeration: false,
        });
    }
    out
}

fn one(prop: &dyn Property, file: &str) -> i32 {
    die_with_parent();
    limit_memory(12 << 30);
    install_panic_hook();
    let cases = match std::fs::read_to_string(file).ok().and_then(|s| parse_cases(&s)) {
        Some(c) => c,
        None => return 2,
    };
    prop.init();
    let mut r = Rec { want_text: true, ..Default::default() };
    //same stack size as the worker threads
    let res: Result<(), String> = std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(16 << 20)
            .spawn_scoped(s, || {
                for (i, (kind, payload)) in cases.iter().enumerate() {
                    r = Rec { want_text: true, ..Default::default() };
                    run_caught(prop, kind, payload, &mut r).map_err(|m| match i {
                        0 => m,
                        _ => format!("{} (after {} other cases in the same process)", m, i),
                    })?;
                }
                Ok(())
            })
            .unwrap()
            .join()
            .unwrap_or_else(|_| Err("the thread panicked".into()))
    });
    match res {
        Ok(()) => {
            println!("ok: {}", cut(&r.text, 6000));
            0
        }
        Err(m) => {
            //(our parent reads this after we have ended, so it has to fit into a pipe; and nobody
            //reads more than that)
            println!("{}", cut(&m, 6000));
            1
        }
    }
}

fn replay(prop: &dyn Property, file: &Path) -> i32 {
    let _scratch = make_scratch(prop.id());
    let text = std::fs::read_to_string(file).unwrap_or_default();
    let mut cases = match parse_cases(&text) {
        Some(c) => c,
        None => {
            eprintln!("cannot read {}", file.display());
            return 2;
        }
    };
    let (kind, payload) = cases.pop().unwrap();
    println!("replaying {}", prop.describe(&kind, &payload));
    let res = if text.contains("\nmode=enumeration\n") {
        println!("(by repeating the enumeration)");
        run_enumeration(prop).map_err(|v| v.msg)
    } else {
        run_one(prop, &cases, &kind, &payload)
    };
    match res {
        Ok(()) => {
            println!("the property holds for this case");
            0
        }
        Err(m) => {
            println!("{}", m);
            println!("VIOLATION property={} replay={}", prop.id(), file.display());
            1
        }
    }
}

fn worker(prop: &dyn Property) -> i32 {
    die_with_parent();
    limit_memory(24 << 30);
    install_panic_hook();
    prop.init();
    let o = opts();
    let n = if one_thread() { 1 } else { prop.threads() };
    let slots = map_slots(&scratch_dir().join("slots"), n, false);
    let cap = match o.tier {
        Tier::Quick => 500,
        Tier::Thorough => 4 * 3600,
    };
    let cap = std::env::var("VERIF_CAP_S").ok().and_then(|s| s.parse().ok()).unwrap_or(cap);
    let eng = Eng {
        prop,
        tier: o.tier,
        seed: o.seed,
        slots,
        nslots: n,
        totals: Default::default(),
        violations: Default::default(),
        stop: AtomicBool::new(false),
        deadline: Instant::now() + Duration::from_secs(cap),
        capped: AtomicBool::new(false),
        numbers: Default::default(),
        notes: Default::default(),
    };
    prop.enumerate(&eng);

    //write down the results
    let t = eng.totals.into_inner().unwrap();
    let mut out = String::new();
    for v in eng.violations.into_inner().unwrap() {
        let history: Vec<String> = v.history.iter().map(|(k, p)| format!("{}:{}", k, hex(p))).collect();
        out.push_str(&format!("V\t{}\t{}\t{}\t{}\n", v.kind, hex(&v.payload), hex(v.msg.as_bytes()), history.join(";")));
    }
    out.push_str(&format!("N\tevaluations\t{}\n", t.evaluations));
    out.push_str(&format!("N\tdistinct_nontrivial\t{}\n", t.nontrivial.len()));
    out.push_str(&format!("N\tnontrivial_beyond_cap\t{}\n", t.nontrivial_overflow));
    out.push_str(&format!("N\tdistinct_outcomes\t{}\n", t.outcomes.len()));
    for (k, v) in eng.numbers.into_inner().unwrap() {
        out.push_str(&format!("N\t{}\t{}\n", k, v));
    }
    for (k, v) in &t.per_kind {
        out.push_str(&format!("K\t{}\t{}\n", k, v));
    }
    for (k, v) in &t.tags {
        out.push_str(&format!("T\t{}\t{}\n", k, v));
    }
    for s in eng.notes.into_inner().unwrap() {
        out.push_str(&format!("O\t{}\n", hex(s.as_bytes())));
    }
    for (d, s) in t.samples.iter().take(12) {
        out.push_str(&format!("S\t{}\t{}\n", hex(d.as_bytes()), hex(s.as_bytes())));
    }
    out.push_str(&format!("C\t{}\n", eng.capped.load(Relaxed)));
    out.push_str("END\n");
    let mut f = std::fs::File::create(scratch_dir().join("result")).unwrap();
    f.write_all(out.as_bytes()).unwrap();
    0
}

fn supervise(prop: &dyn Property) -> i32 {
    let start = Instant::now();
    let o = opts();
    let scratch = make_scratch(prop.id());
    let n = prop.threads();
    let slots = map_slots(&scratch.0.join("slots"), n, true);
    let exe = std::env::current_exe().unwrap();
    let mut child = std::process::Command::new(exe).arg(prop.id()).arg("--worker").spawn().unwrap();

    //watch for cases that do not come to an end
    let mut last: Vec<(u64, Instant)> = vec![(0, Instant::now()); n];
    let limit = match o.tier {
        Tier::Quick => Duration::from_secs(820),
        Tier::Thorough => Duration::from_secs(5 * 3600),
    };
    let mut hung = false;
    let end = wait_for(&mut child, limit, || {
        for (i, l) in last.iter_mut().enumerate() {
            let seq = unsafe { &*slots.add(i) }.seq.load(Acquire);
            if seq != l.0 || seq % 2 == 0 {
                *l = (seq, Instant::now());
            } else if l.1.elapsed() > Duration::from_secs(prop.hang_seconds()) {
                hung = true;
            }
        }
        hung
    });

    let mut violations: Vec<Violation> = vec![];
    let mut error: Option<String> = None;
    let result = std::fs::read_to_string(scratch.0.join("result")).unwrap_or_default();
    match end {
        End::Exit(0) if result.ends_with("END\n") => {}
        ref e => {
            //crashed or hung: which of the cases in flight is to blame?
            for i in 0..n {
                let slot = unsafe { &*slots.add(i) };
                if slot.seq.load(Acquire) % 2 == 1 {
                    let (kind, payload) = slot_case(slot);
                    if let Err(msg) = run_one(prop, &vec![], &kind, &payload) {
                        violations.push(Violation { kind, payload, msg, ..Default::default() });
                        break; //the others were most likely innocent
                    }
                }
            }
            if violations.is_empty() {
                error = Some(format!("the worker ended with {:?}, which no case in flight reproduces", e));
            }
        }
    }
    let mut nums: BTreeMap<String, u64> = BTreeMap::new();
    let mut kinds: Vec<(String, u64)> = vec![];
    let mut tags: Vec<(String, u64)> = vec![];
    let mut samples: Vec<(String, String)> = vec![];
    let mut notes: Vec<String> = vec![];
    let mut capped = false;
    for l in result.lines() {
        let f: Vec<&str> = l.split('\t').collect();
        let txt = |s: &str| String::from_utf8_lossy(&unhex(s).unwrap_or_default()).to_string();
        match f[0] {
            "N" => {
                nums.insert(f[1].into(), f[2].parse().unwrap());
            }
            "K" => kinds.push((f[1].into(), f[2].parse().unwrap())),
            "T" => tags.push((f[1].into(), f[2].parse().unwrap())),
            "O" => notes.push(txt(f[1])),
            "S" => samples.push((txt(f[1]), txt(f[2]))),
            "C" => capped = f[1] == "true",
            _ => {}
        }
    }
    violations.extend(violations_in(&result));
    //smallest first
    violations.sort_by_key(|v| v.payload.len());

    //every violation must reproduce in a process of its own before it is believed
    let known = known_findings(prop.id());
    let is_new = |v: &Violation| !known.iter().any(|(k, _)| *k == format!("{}:{}", v.kind, hex(&v.payload)));
    let mut confirmed: Vec<Violation> = vec![];
    let confirming = Instant::now();
    for v in violations.iter().take(6) {
        //(cases that hang take long to confirm: one is enough)
        if confirming.elapsed() > Duration::from_secs(20) && confirmed.iter().any(is_new) {
            break;
        }
        match run_one(prop, &vec![], &v.kind, &v.payload) {
            Err(msg) => confirmed.push(Violation { msg, history: vec![], ..v.clone() }),
            Ok(()) => {}
        }
    }
    //...or after those before it, if the code under test remembers something of them
    for v in violations.iter().filter(|v| !v.history.is_empty()) {
        if !confirmed.is_empty() || confirming.elapsed() > Duration::from_secs(100) {
            break;
        }
        if let Err(msg) = run_one(prop, &v.history, &v.kind, &v.payload) {
            confirmed.push(Violation { msg, ..v.clone() });
        }
    }
    let died = matches!(end, End::Signal(_) | End::Exit(1..));
    if (!violations.is_empty() || died) && confirmed.is_empty() {
        if let Err(v) = run_enumeration(prop) {
            confirmed.push(v);
        }
    }
    if !violations.is_empty() && confirmed.is_empty() {
        error = Some(format!(
            "{} violations were seen, but none reproduces; first: {} {}: {}",
            violations.len(),
            violations[0].kind,
            show(&violations[0].payload),
            violations[0].msg
        ));
    }

    //known findings: only the exact case listed is excused
    let mut new = vec![];
    let mut seen_known = vec![];
    for v in &confirmed {
        let key = format!("{}:{}", v.kind, hex(&v.payload));
        match known.iter().find(|(k, _)| *k == key) {
            Some((_, what)) => seen_known.push(what.clone()),
            None => new.push(v.clone()),
        }
    }
    for what in &seen_known {
        println!("KNOWN-FINDING: property={} {}", prop.id(), what);
    }

    write_evidence(prop, &o, &nums, &kinds, &tags, &samples, &notes, capped, new.len(), start.elapsed());
    let evals = nums.get("evaluations").copied().unwrap_or(0);
    println!(
        "{}: {} evaluations, {} states, {} transitions, {} outcomes, capped={}, {:.1}s",
        prop.id(),
        evals,
        nums.get("states").copied().unwrap_or(0),
        nums.get("transitions").copied().unwrap_or(0),
        nums.get("distinct_outcomes").copied().unwrap_or(0),
        capped,
        start.elapsed().as_secs_f64()
    );
    for (k, v) in kinds.iter().chain(tags.iter()) {
        println!("    {} = {}", k, v);
    }
    if !new.is_empty() {
        let dir = verif_dir().join("target").join("replays");
        let _ = std::fs::create_dir_all(&dir);
        for (i, v) in new.iter().enumerate() {
            let file = dir.join(format!("{}-{}.case", prop.id(), i));
            let _ = std::fs::write(&file, case_text(prop, v));
            println!("{}: {}", cut(&prop.describe(&v.kind, &v.payload), 1000), cut(&v.msg, 3000));
            println!("VIOLATION property={} replay={}", prop.id(), file.display());
        }
        return 1;
    }
    if let Some(e) = error {
        eprintln!("ERROR: {}", e);
        return 3;
    }
    if evals == 0 {
        eprintln!("ERROR: nothing was explored");
        return 3;
    }
    0
}

/// Lines `known: property=<id> case=<kind>:<hex> <description>` in known_findings.txt.
fn known_findings(id: &str) -> Vec<(String, String)> {
    let text = std::fs::read_to_string(verif_dir().join("known_findings.txt")).unwrap_or_default();
    text.lines()
        .filter_map(|l| {
            let l = l.strip_prefix("known: property=")?;
            let (p, rest) = l.split_once(' ')?;
            let rest = rest.strip_prefix("case=")?;
            let (key, what) = rest.split_once(' ')?;
            (p == id).then(|| (key.to_string(), what.to_string()))
        })
        .collect()
}

#[allow(clippy::too_many_arguments)]
fn write_evidence(
    prop: &dyn Property,
    o: &Opts,
    nums: &BTreeMap<String, u64>,
    kinds: &[(String, u64)],
    tags: &[(String, u64)],
    samples: &[(String, String)],
    notes: &[String],
    capped: bool,
    violations: usize,
    wall: Duration,
) {
    let mut cov = vec![];
    for (k, v) in nums {
        cov.push(format!("{}: {}", js(k), v));
    }
    cov.push(format!("\"rule\": {}", js(&prop.rule())));
    cov.push(format!("\"bounds\": {}", js(&prop.bounds())));
    cov.push(format!("\"exhaustive\": {}", !capped));
    let list = |l: &[(String, u64)]| l.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect::<Vec<_>>().join(", ");
    cov.push(format!("\"cases_by_kind\": {{{}}}", list(kinds)));
    cov.push(format!("\"observed\": {{{}}}", list(tags)));
    let s: Vec<String> = samples
        .iter()
        .map(|(d, t)| format!("{{\"case\": {}, \"observed\": {}}}", js(&cut(d, 700)), js(&cut(t, 900))))
        .collect();
    cov.push(format!("\"samples\": [{}]", s.join(", ")));
    let n: Vec<String> = notes.iter().take(40).map(|s| js(&cut(s, 400))).collect();
    cov.push(format!("\"notes\": [{}]", n.join(", ")));
    let a: Vec<String> = prop.assumptions().iter().map(|s| js(s)).collect();
    let text = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": {},\n \"coverage\": {{\n  {}\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
        js(prop.id()),
        js(if o.tier == Tier::Quick { "quick" } else { "thorough" }),
        o.seed,
        js(prop.level().name()),
        cov.join(",\n  "),
        a.join(", "),
        wall.as_secs_f64(),
        violations
    );
    let dir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let _ = std::fs::write(dir.join(format!("{}.json", prop.id())), text);
}

fn cut(s: &str, n: usize) -> String {
    if s.len() <= n {
        return s.into();
    }
    let mut end = n;
    while !s.is_char_boundary(end) {
        end -= 1;
    }
    format!("{}...", &s[..end])
}
