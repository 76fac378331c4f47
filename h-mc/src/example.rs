//! The example server as a program: its main() runs as an actor of the controlled scheduler.

use crate::app::{event, fail};
use crate::prog_model::*;
use crate::scen::settle_with;
use engine::{Eng, Rec};
use std::cell::RefCell;
use std::collections::{HashMap, HashSet};
use std::ffi::{c_char, CStr, CString};
use std::path::PathBuf;
use std::rc::Rc;
use std::sync::Mutex;
use std::time::Duration;
use tokio::mc;
use tokio::net::{self, Client};

////////////////////////////////////////////////////////////////////////////////
// environment of the program: XDG_RUNTIME_DIR per OS thread, and its log

extern "C" {
    static environ: *const *const c_char;
}
thread_local! {
    static RUNTIME_DIR: RefCell<Option<CString>> = const { RefCell::new(None) };
    static LOG: RefCell<String> = const { RefCell::new(String::new()) };
    /// Result of main(), with what was left then: (socket file, sockets, tasks).
    static RESULT: RefCell<Option<(Result<(), String>, bool, usize, usize)>> = const { RefCell::new(None) };
}

/// The C library's getenv, but the runtime directory is one of the calling thread.
/// # Safety
/// As for the original.
#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const c_char) -> *mut c_char {
    let name = CStr::from_ptr(name).to_bytes();
    if name == b"XDG_RUNTIME_DIR" {
        let p = RUNTIME_DIR.try_with(|d| d.borrow().as_ref().map(|c| c.as_ptr()));
        if let Ok(Some(p)) = p {
            return p as *mut c_char;
        }
    }
    let mut e = environ;
    while !e.is_null() && !(*e).is_null() {
        let b = CStr::from_ptr(*e).to_bytes();
        if b.len() > name.len() && b.starts_with(name) && b[name.len()] == b'=' {
            return (*e).add(name.len() + 1) as *mut c_char;
        }
        e = e.add(1);
    }
    std::ptr::null_mut()
}

struct Logger;
impl log::Log for Logger {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        //(formatting is the program's work, and may take locks)
        let line = r.args().to_string();
        mc::uncounted(|| {
            LOG.with(|l| {
                let mut l = l.borrow_mut();
                l.push_str(&line);
                l.push('\n');
            })
        });
    }
    fn flush(&self) {}
}

pub fn init() {
    static LOGGER: Logger = Logger;
    if log::set_logger(&LOGGER).is_ok() {
        log::set_max_level(log::LevelFilter::Info);
    }
}

fn dir() -> PathBuf {
    thread_local! {
        static DIR: PathBuf = {
            let d = engine::scratch_dir().join(format!("x{:?}", std::thread::current().id()).replace(['(', ')'], "-"));
            std::fs::create_dir_all(&d).unwrap();
            RUNTIME_DIR.with(|r| *r.borrow_mut() = Some(CString::new(d.to_str().unwrap()).unwrap()));
            d
        };
    }
    DIR.with(|d| d.clone())
}
pub fn socket() -> PathBuf {
    dir().join("vt6").join(std::process::id().to_string())
}
/// Before and after each execution.
pub fn reset() {
    LOG.with(|l| l.borrow_mut().clear());
    RESULT.with(|r| r.borrow_mut().take());
    let _ = std::fs::remove_file(socket());
}
pub fn log_text() -> String {
    LOG.with(|l| l.borrow().clone())
}

/// Starts the program.
pub fn program() {
    let path = socket();
    mc::actor("program", move || {
        let r = mc_example::main();
        let left = (path.symlink_metadata().is_ok(), net::server_sockets().1, mc::live_tasks());
        event("program returned");
        RESULT.with(|x| *x.borrow_mut() = Some((r.map_err(|e| e.to_string()), left.0, left.1, left.2)));
    });
}
pub fn running() -> bool {
    RESULT.with(|r| r.borrow().is_none())
}
pub fn interrupt() -> bool {
    event("SIGINT");
    tokio::signal::raise(libc_sigint())
}
fn libc_sigint() -> i32 {
    tokio::signal::unix::SignalKind::interrupt().as_raw_value()
}
pub fn tick() {
    event("a second passes");
    tokio::time::pass(Duration::from_secs(1));
}
/// The program has come to its end, cleanly.
pub fn check_exit() -> Result<(), String> {
    match RESULT.with(|r| r.borrow().clone()) {
        None => Err("the program did not end after SIGINT".into()),
        Some((r, file, sockets, tasks)) => {
            if r.is_err() || file || sockets > 0 || tasks > 0 {
                Err(format!("at its end: result {:?}, socket file present: {}, {} sockets and {} tasks left", r, file, sockets, tasks))
            } else {
                Ok(())
            }
        }
    }
}

////////////////////////////////////////////////////////////////////////////////
// one sequence of operations

struct Peer {
    c: Client,
    got: RefCell<Vec<u8>>,
}

pub struct Run {
    peers: Vec<Rc<Peer>>,
    pub state: State,
    secrets: Vec<Option<Vec<u8>>>,
    printed: [Vec<u8>; 2],
}

impl Run {
    /// Starts the program and reads the printed credentials.
    pub fn start() -> Result<Run, String> {
        program();
        mc::wait_until(|| net::listening(&socket()) || !running());
        mc::wait_idle();
        if !running() {
            return Err(format!("the program ended at once: {:?}", RESULT.with(|r| r.borrow().clone())));
        }
        let log = log_text();
        let find = |kind| printed_secret(&log, kind).ok_or_else(|| "a credential is missing in the log".to_string());
        let (i, o, c) = (find(0)?, find(1)?, find(2)?);
        if i == o || i == c || o == c || i.is_empty() || o.is_empty() || c.is_empty() {
            return Err("the credentials are not different".into());
        }
        Ok(Run { peers: vec![], state: State::new(), secrets: vec![Some(c)], printed: [i, o] })
    }

    pub fn secret(&self, cred: u8) -> Vec<u8> {
        match cred {
            CRED_IN => self.printed[0].clone(),
            CRED_OUT => self.printed[1].clone(),
            CRED_BAD => b"guess".to_vec(),
            n => self.secrets.get((n - CRED_CLIENT) as usize).cloned().flatten().unwrap_or_else(|| b"unknown".to_vec()),
        }
    }

    fn connect(&mut self) -> Result<Rc<Peer>, String> {
        let c = Client::connect(&socket()).ok_or("cannot connect to the server")?;
        let p = Rc::new(Peer { c, got: RefCell::default() });
        self.peers.push(p.clone());
        Ok(p)
    }

    fn settle(&self) {
        settle_with(&mut || {
            let mut any = false;
            for p in &self.peers {
                let v = p.c.take();
                any |= !v.is_empty();
                p.got.borrow_mut().extend(v);
            }
            any
        });
    }

    /// Carries out an operation and checks everything that can be seen afterwards.
    pub fn step(&mut self, op: Op) -> Result<(), String> {
        let bytes = self.state.bytes(op, &|n| self.secret(n));
        let concerned = self.state.apply(op);
        match op.0 {
            k::TICK => tick(),
            k::STOP => {
                interrupt();
            }
            _ => {
                let p = if op.1 == NEW { self.connect()? } else { self.peers[concerned.unwrap()].clone() };
                if !bytes.is_empty() {
                    p.c.send(&bytes);
                }
                match op.0 {
                    k::CLOSE => {
                        p.c.close();
                    }
                    k::SHUT | k::FAREWELL => p.c.shut(),
                    _ => {}
                }
            }
        }
        self.settle();
        self.check()
    }

    fn check(&mut self) -> Result<(), String> {
        for (i, c) in self.state.conns.iter().enumerate() {
            let p = &self.peers[i];
            check_received(c, &p.got.borrow(), &mut self.secrets).map_err(|e| format!("connection {}: {}", i, e))?;
            let closed = p.c.server_closed();
            event(&format!("connection {}: {} bytes, closed: {}", i, p.got.borrow().len(), closed));
            if closed != (c.mode == Mode::Gone) {
                return Err(format!("connection {} is {} but should be {:?}", i, if closed { "closed" } else { "open" }, c.mode));
            }
        }
        let log = log_text();
        if let Some(w) = self.state.words.iter().find(|w| !log.contains(&w[..])) {
            return Err(format!("{} was sent to the standard output, but has not been shown", w));
        }
        if self.state.stopped {
            check_exit()
        } else if running() {
            Ok(())
        } else {
            Err(format!("the program ended: {:?}", RESULT.with(|r| r.borrow().clone())))
        }
    }
}

/// The body of an execution with a sequence of operations.
pub fn sequence(ops: &[Op]) {
    mc::branching(false);
    let run = || -> Result<(), String> {
        let mut r = Run::start()?;
        for (i, &op) in ops.iter().enumerate() {
            r.step(op).map_err(|e| format!("after step {}: {}", i + 1, e))?;
        }
        if !r.state.stopped {
            r.step(Op(k::STOP, 0, 0)).map_err(|e| format!("at the end: {}", e))?;
        }
        Ok(())
    };
    if let Err(e) = run() {
        fail("C23", e);
    }
}

////////////////////////////////////////////////////////////////////////////////
// enumeration

const POLICIES: u8 = 5;

pub fn enumerate(e: &Eng) {
    //all sequences
    let depth = e.bound(3, 4) as usize;
    let mut roots = vec![];
    let s = State::new();
    for a in s.ops(3, 4, true) {
        let mut t = s.clone();
        t.apply(a);
        let l = t.ops(3, 4, true);
        if l.is_empty() {
            roots.push(vec![a]);
        }
        roots.extend(l.into_iter().map(|b| vec![a, b]));
    }
    e.par(roots.len(), |w, i| {
        let mut path = roots[i].clone();
        let mut s = State::new();
        for &o in &path {
            s.apply(o);
        }
        all(w, &mut path, &s, depth);
    });
    //all transitions of the reachable states of the model
    let (max_open, max_slots) = (e.bound(3, 4) as usize, e.bound(4, 5) as usize);
    let max_level = e.bound(30, 60);
    let mut seen: HashSet<Vec<u8>> = HashSet::new();
    seen.insert(s.canonical());
    let mut frontier: Vec<(Vec<Op>, State)> = vec![(vec![], s)];
    let (mut states, mut transitions) = (1u64, 0u64);
    let mut level = 0;
    while !frontier.is_empty() && level < max_level && !e.stopped() {
        level += 1;
        let found: Mutex<HashMap<Vec<u8>, (Vec<Op>, State)>> = Mutex::default();
        let count = std::sync::atomic::AtomicU64::new(0);
        e.par(frontier.len(), |w, i| {
            let (path, s) = &frontier[i];
            for op in s.ops(max_open, max_slots, false) {
                if w.stopped() {
                    return;
                }
                let mut t = s.clone();
                t.apply(op);
                let mut p = path.clone();
                p.push(op);
                if p.len() > depth.min(2) {
                    case(w, &p, ((p.len() + i) % POLICIES as usize) as u8);
                }
                count.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                let key = t.canonical();
                if !seen.contains(&key) {
                    let mut f = found.lock().unwrap();
                    //(the choice of the path must not depend on the order of the threads)
                    match f.get(&key) {
                        Some((q, _)) if encode(q) <= encode(&p) => {}
                        _ => {
                            f.insert(key, (p, t));
                        }
                    }
                }
            }
        });
        transitions += count.into_inner();
        let mut next: Vec<_> = found.into_inner().unwrap().into_iter().collect();
        next.sort_by(|a, b| a.0.cmp(&b.0));
        states += next.len() as u64;
        seen.extend(next.iter().map(|n| n.0.clone()));
        frontier = next.into_iter().map(|n| n.1).collect();
    }
    e.number("states", states);
    e.number("model_transitions_replayed", transitions);
    e.note(format!(
        "program: all sequences of {} operations; then all transitions of the {} model states within {} operations{}, each replayed on the implementation",
        depth,
        states,
        level,
        if frontier.is_empty() { " (all that are reachable)" } else { "" }
    ));
}

fn case(w: &mut engine::W, path: &[Op], policy: u8) {
    let mut p = vec![policy];
    p.extend(encode(path));
    w.case("program", &p);
}

fn all(w: &mut engine::W, path: &mut Vec<Op>, s: &State, depth: usize) {
    if w.stopped() {
        return;
    }
    let ops = if path.len() < depth { s.ops(3, 4, true) } else { vec![] };
    if ops.is_empty() {
        case(w, path, (path.iter().map(|o| o.0 as usize + o.2 as usize).sum::<usize>() % POLICIES as usize) as u8);
        return;
    }
    for op in ops {
        let mut t = s.clone();
        t.apply(op);
        path.push(op);
        all(w, path, &t, depth);
        path.pop();
    }
}

pub fn record(r: &mut Rec, ops: &[Op]) {
    r.nontrivial = ops.len() > 1;
    for o in ops {
        let t = match o.0 {
            k::HELLO | k::PIPED => "hello",
            k::MAKE => "client-make",
            k::END => "client-end",
            k::STOP => "interrupt",
            k::TICK => "tick",
            k::CLOSE | k::SHUT | k::FAREWELL => "disconnect",
            k::JUNK => "junk",
            _ => "other",
        };
        r.tags.push((t, 1));
    }
}

////////////////////////////////////////////////////////////////////////////////
// races

fn bad(what: String) {
    fail("C23", what);
}
impl Run {
    /// Sets the scene with operations of the model.
    pub fn scene(ops: &[Op]) -> Option<Run> {
        mc::branching(false);
        let run = || -> Result<Run, String> {
            let mut r = Run::start()?;
            for &o in ops {
                r.step(o)?;
            }
            Ok(r)
        };
        match run() {
            Ok(r) => {
                mc::branching(true);
                Some(r)
            }
            Err(e) => {
                bad(e);
                None
            }
        }
    }
    /// A client of its own thread: connects, and sends the bytes.
    fn newcomer(&mut self, name: &'static str, bytes: Vec<u8>, cell: &Rc<RefCell<Vec<Rc<Peer>>>>) {
        let cell = cell.clone();
        mc::actor(name, move || {
            if let Some(c) = Client::connect(&socket()) {
                let p = Rc::new(Peer { c, got: RefCell::default() });
                cell.borrow_mut().push(p.clone());
                p.c.send(&bytes);
            }
        });
    }
    fn sender(&self, conn: usize, pieces: Vec<Vec<u8>>) {
        let p = self.peers[conn].clone();
        mc::actor("sender", move || {
            for b in pieces {
                p.c.send(&b);
            }
        });
    }
    fn bytes(&self, op: Op) -> Vec<u8> {
        self.state.bytes(op, &|n| self.secret(n))
    }
    /// All that may still happen has happened.
    fn done(&self, more: &Rc<RefCell<Vec<Rc<Peer>>>>) {
        settle_with(&mut || {
            let mut any = false;
            for p in self.peers.iter().chain(more.borrow().iter()) {
                let v = p.c.take();
                any |= !v.is_empty();
                p.got.borrow_mut().extend(v);
            }
            any
        });
        mc::branching(false);
    }
    /// Goes on with the model (what has happened so far must have been put into it).
    fn go_on(&mut self, ops: &[Op]) {
        mc::branching(false);
        if let Err(e) = self.check() {
            return bad(e);
        }
        for &o in ops.iter().chain([&Op(k::STOP, 0, 0)]) {
            if let Err(e) = self.step(o) {
                return bad(format!("in the end: {}", e));
            }
        }
    }
    /// Takes over connections that have been granted (at most one of each kind) or rejected.
    fn adopt(&mut self, peers: Vec<(Rc<Peer>, Op)>) {
        //winners first: the model grants the first
        let (won, lost): (Vec<_>, Vec<_>) = peers.into_iter().partition(|p| !p.0.c.server_closed());
        for (p, op) in won.into_iter().chain(lost) {
            self.peers.push(p);
            self.state.apply(op);
        }
    }
}
type More = Rc<RefCell<Vec<Rc<Peer>>>>;

fn hello(cred: u8) -> Op {
    Op(k::HELLO, NEW, hello_cred(cred, cred.min(2)))
}
const A: u8 = CRED_CLIENT;
const A1: u8 = CRED_CLIENT + 1;

/// Several clients redeem the same credential at once.
pub fn race_redeem(cred: u8, n: usize) {
    let Some(mut r) = Run::scene(&[]) else { return };
    let more = More::default();
    let b = r.bytes(hello(cred));
    for _ in 0..n {
        r.newcomer("newcomer", b.clone(), &more);
    }
    r.done(&more);
    let l = more.take();
    if l.len() != n {
        return bad("the server did not accept connections".into());
    }
    let open = l.iter().filter(|p| !p.c.server_closed()).count();
    if open != 1 {
        return bad(format!("{} of {} connections were granted the same credential", open, n));
    }
    r.adopt(l.into_iter().map(|p| (p, hello(cred))).collect());
    r.go_on(&[Op(k::TICK, 0, 0), hello(cred)]);
}

/// All printed credentials at once, each twice.
pub fn race_screens() {
    let Some(mut r) = Run::scene(&[]) else { return };
    let sets: Vec<More> = vec![More::default(), More::default()];
    for cred in [CRED_IN, CRED_OUT] {
        let b = r.bytes(hello(cred));
        r.newcomer("newcomer", b.clone(), &sets[cred as usize]);
        r.newcomer("newcomer", b, &sets[cred as usize]);
    }
    r.done(&More::default());
    for cred in [CRED_IN, CRED_OUT] {
        let l = sets[cred as usize].take();
        for p in &l {
            p.got.borrow_mut().extend(p.c.take());
        }
        let open = l.iter().filter(|p| !p.c.server_closed()).count();
        if open != 1 {
            return bad(format!("{} connections were granted the same screen credential", open));
        }
        r.adopt(l.into_iter().map(|p| (p, hello(cred))).collect());
    }
    r.go_on(&[Op(k::TICK, 0, 0)]);
}

/// The secret of a new client is redeemed twice while the client's lifetime is ended.
pub fn race_end() {
    let Some(mut r) = Run::scene(&[hello(A), Op(k::MAKE, 0, 0)]) else { return };
    let more = More::default();
    let b = r.bytes(hello(A1));
    let end = r.bytes(Op(k::END, 0, 0));
    r.sender(0, vec![end]);
    r.newcomer("newcomer", b.clone(), &more);
    r.newcomer("newcomer", b, &more);
    r.done(&more);
    let l = more.take();
    if l.len() != 2 || l.iter().any(|p| !p.c.server_closed()) {
        return bad("a client was connected although its lifetime has been ended".into());
    }
    let granted = crate::refs::render(b"posix1.server-hello", &[b"a1", b"", b"", b""]);
    let n = l.iter().filter(|p| *p.got.borrow() == granted).count();
    if n > 1 || l.iter().any(|p| !granted.starts_with(&p.got.borrow())) {
        return bad("the same secret was honoured twice".into());
    }
    //for what follows, this is as if both had come too late
    for p in l {
        p.got.borrow_mut().clear();
        r.peers.push(p);
    }
    r.state.apply(Op(k::END, 0, 0));
    r.state.apply(hello(A1));
    r.state.apply(hello(A1));
    r.go_on(&[hello(A1), Op(k::MAKE, 0, 1), Op(k::END, 0, 0), Op(k::MAKE, 0, 0), hello(CRED_CLIENT + 3)]);
}

/// Two clients want the same client ID.
pub fn race_make() {
    let Some(mut r) = Run::scene(&[hello(A), Op(k::MAKE, 0, 0), hello(A1)]) else { return };
    //(a1 is in use, so only a2 and below remains for both: they ask for a12)
    let make = Op(k::MAKE, 0, 1);
    let b = r.bytes(make);
    r.sender(0, vec![b.clone()]);
    r.sender(1, vec![b]);
    r.done(&More::default());
    let first = if r.peers[0].got.borrow().ends_with(b"nope,17:core1.client-make,}") { 1 } else { 0 };
    r.state.apply(Op(k::MAKE, first, 1));
    r.state.apply(Op(k::MAKE, 1 - first, 1));
    r.go_on(&[hello(CRED_CLIENT + 2), Op(k::END, 0, 0)]);
}

/// A client makes another one while its own lifetime is ended.
pub fn race_make_end() {
    let Some(mut r) = Run::scene(&[hello(A), Op(k::MAKE, 0, 0), hello(A1)]) else { return };
    let (make, end) = (r.bytes(Op(k::MAKE, 1, 1)), r.bytes(Op(k::END, 0, 0)));
    r.sender(0, vec![end]);
    r.sender(1, vec![make]);
    r.done(&More::default());
    //the reply to client-make may or may not have been sent
    let mut got = r.peers[1].got.borrow().clone();
    let hello_len = match &r.state.conns[1].out[0] {
        Piece::Bytes(b) => b.len(),
        _ => 0,
    };
    let tail = got.split_off(hello_len.min(got.len()));
    if !tail.is_empty() {
        if let Some((s, rest)) = split_new(&tail) {
            if !rest.is_empty() {
                return bad("more than a reply".into());
            }
            //this secret must be void
            r.state.slots += 1;
            r.secrets.push(Some(s));
            r.state.conns[1].out.push(Piece::New(2));
        } else {
            r.peers[1].got.replace(got);
        }
    }
    r.state.apply(Op(k::END, 0, 0));
    let mut then = vec![];
    if r.state.slots == 3 {
        then.push(hello(CRED_CLIENT + 2));
    }
    then.push(Op(k::MAKE, 0, 1));
    then.push(hello(CRED_CLIENT + r.state.slots as u8));
    r.go_on(&then);
}

/// Clients that misbehave, while others are served.
pub fn misbehave() {
    let Some(mut r) = Run::scene(&[hello(A), hello(CRED_IN), hello(CRED_OUT)]) else { return };
    let more = More::default();
    let want = Op(k::WANT, 0, 0);
    let b = r.bytes(want);
    r.sender(0, vec![b[..7].to_vec(), b[7..].to_vec()]);
    let wrong = r.bytes(Op(k::HELLO, NEW, hello_cred(CRED_BAD, 2)));
    r.newcomer("guesser", wrong, &more);
    r.newcomer("babbler", [b'}'; 1500].to_vec(), &more);
    let out = r.peers[2].clone();
    mc::actor("output", move || {
        out.c.send(b"some ");
        out.c.send(b"{1|bytes");
        out.c.close();
    });
    mc::actor("clock", tick);
    r.done(&more);
    if more.borrow().iter().any(|p| !p.c.server_closed()) {
        return bad("a client is connected without a valid hello".into());
    }
    r.state.apply(want);
    r.state.apply(Op(k::TICK, 0, 0));
    r.state.apply(Op(k::CLOSE, 2, 0));
    r.go_on(&[want, Op(k::TICK, 0, 0), Op(k::MAKE, 0, 0), hello(A1)]);
}

/// The interrupt comes as soon as there is a socket.
pub fn interrupt_early() {
    program();
    mc::actor("user", || {
        if mc::wait_until(|| net::listening(&socket())) && !interrupt() {
            bad("SIGINT would have killed the program, leaving its socket behind".into());
        }
    });
    let more = More::default();
    let m = more.clone();
    mc::actor("client", move || {
        if mc::wait_until(|| net::listening(&socket())) {
            if let Some(c) = Client::connect(&socket()) {
                c.send(b"{1|");
                m.borrow_mut().push(Rc::new(Peer { c, got: RefCell::default() }));
            }
        }
    });
    settle_with(&mut || false);
    mc::branching(false);
    if let Err(e) = check_exit() {
        bad(e);
    }
    if more.borrow().iter().any(|p| !p.c.server_closed()) {
        bad("a connection was left open".into());
    }
}

/// The interrupt comes while clients are served.
pub fn interrupt_busy(twice: bool) {
    let Some(mut r) = Run::scene(&[hello(A), hello(CRED_IN), hello(CRED_OUT)]) else { return };
    let more = More::default();
    let make = r.bytes(Op(k::MAKE, 0, 0));
    r.sender(0, vec![make]);
    if twice {
        mc::actor("user", || {
            interrupt();
        });
    } else {
        r.newcomer("newcomer", r.bytes(hello(A)), &more);
    }
    r.sender(2, vec![b"output".to_vec()]);
    mc::actor("clock", tick);
    mc::actor("user", || {
        interrupt();
    });
    r.done(&more);
    if let Err(e) = check_exit() {
        bad(e);
    }
    if r.peers.iter().chain(more.borrow().iter()).any(|p| !p.c.server_closed()) {
        bad("a connection was left open".into());
    }
}

////////////////////////////////////////////////////////////////////////////////
// growing numbers

fn growing(f: impl FnOnce(&mut Run) -> Result<(), String>) {
    mc::branching(false);
    let run = || -> Result<(), String> {
        let mut r = Run::start()?;
        f(&mut r)?;
        if !running() {
            return Err(format!("the program ended: {:?}", RESULT.with(|r| r.borrow().clone())));
        }
        interrupt();
        r.settle();
        if r.peers.iter().any(|p| !p.c.server_closed()) {
            return Err("a connection was left open".into());
        }
        check_exit()
    };
    if let Err(e) = run() {
        bad(e);
    }
}
impl Run {
    fn newcomer_says(&mut self, bytes: &[u8]) -> Result<Rc<Peer>, String> {
        let p = self.connect()?;
        p.c.send(bytes);
        self.settle_one(&p);
        Ok(p)
    }
    fn settle_one(&self, p: &Peer) {
        settle_with(&mut || {
            let v = p.c.take();
            let any = !v.is_empty();
            p.got.borrow_mut().extend(v);
            any
        });
    }
    /// Sends and returns the reply.
    fn ask(&self, p: &Peer, bytes: &[u8]) -> Vec<u8> {
        p.got.borrow_mut().clear();
        p.c.send(bytes);
        self.settle_one(p);
        p.got.borrow().clone()
    }
    fn first_client(&mut self) -> Result<Rc<Peer>, String> {
        let h = self.bytes(hello(A));
        let p = self.newcomer_says(&h)?;
        expect("the reply to the first hello", &p.got.borrow(), &server_hello("a"))?;
        Ok(p)
    }
    /// Makes a client ID and returns its secret.
    fn make(&mut self, p: &Peer, id: &str) -> Result<Vec<u8>, String> {
        let reply = self.ask(p, &crate::refs::render(b"core1.client-make", &[id.as_bytes(), b"", b"", b""]));
        let Some((s, [])) = split_new(&reply) else {
            return Err(format!("the reply to client-make {} was {}", id, engine::show(&reply)));
        };
        if s.is_empty() || self.secrets.contains(&Some(s.clone())) {
            return Err("the secret is empty or has been issued before".into());
        }
        self.secrets.push(Some(s.clone()));
        Ok(s)
    }
    fn want(&self, p: &Peer) -> Result<(), String> {
        let b = crate::refs::render(b"want", &[b"core1"]);
        expect("the reply to want", &self.ask(p, &b), &crate::refs::render(b"have", &[b"core1.0"]))
    }
}
fn client_hello(secret: &[u8]) -> Vec<u8> {
    crate::refs::render(b"posix1.client-hello", &[secret])
}
fn server_hello(id: &str) -> Vec<u8> {
    crate::refs::render(b"posix1.server-hello", &[id.as_bytes(), b"", b"", b""])
}
fn client_end(id: &str) -> Vec<u8> {
    crate::refs::render(b"core1.client-end", &[id.as_bytes()])
}
fn expect(what: &str, got: &[u8], want: &[u8]) -> Result<(), String> {
    if got == want {
        return Ok(());
    }
    Err(format!("{} was {} instead of {}", what, engine::show(got), engine::show(want)))
}

/// n clients are made and connect, and all of them are served until their lifetime is ended.
pub fn many_clients(n: usize) {
    growing(|r| {
        let a = r.first_client()?;
        let ids: Vec<String> = (0..n).map(|i| format!("a{}x{}", i % 2, i)).collect();
        let mut l = vec![];
        for id in &ids {
            let s = r.make(&a, id)?;
            let p = r.newcomer_says(&client_hello(&s))?;
            expect("the reply to hello", &p.got.borrow(), &server_hello(id))?;
            l.push((p, s));
        }
        //(a prefix of an ID in use cannot be made)
        expect("the reply to client-make", &r.ask(&a, &crate::refs::render(b"core1.client-make", &[b"a1x", b"", b"", b""])), &match n {
            1 => return Ok(()),
            _ => crate::refs::render(b"nope", &[b"core1.client-make"]),
        })?;
        for (p, s) in &l {
            r.want(p)?;
            let again = r.newcomer_says(&client_hello(s))?;
            if !again.c.server_closed() || !again.got.borrow().is_empty() {
                return Err("a secret was honoured twice".into());
            }
        }
        //every other one ends
        a.c.send(&client_end("a0x"));
        r.settle();
        for (i, (p, _)) in l.iter().enumerate() {
            if p.c.server_closed() != (i % 2 == 0) {
                return Err(format!("after the end of a0x*, connection of {} is open: {}", ids[i], i % 2 == 0));
            }
        }
        for (i, (p, _)) in l.iter().enumerate().filter(|x| x.0 % 2 == 1) {
            r.want(p).map_err(|e| format!("{}: {}", ids[i], e))?;
        }
        r.want(&a)
    });
}

/// n clients are made and ended before any of them connects; then the last one is made once more.
pub fn many_ended(n: usize) {
    growing(|r| {
        let a = r.first_client()?;
        let mut l = vec![];
        for _ in 0..n {
            l.push(r.make(&a, "a1")?);
            expect("the reply to client-end", &r.ask(&a, &client_end("a1")), b"")?;
        }
        let s = r.make(&a, "a1")?;
        for old in &l {
            if !r.newcomer_says(&client_hello(old))?.c.server_closed() {
                return Err("the secret of a client whose lifetime has been ended was honoured".into());
            }
        }
        let p = r.newcomer_says(&client_hello(&s))?;
        expect("the reply to hello", &p.got.borrow(), &server_hello("a1"))?;
        r.want(&p)
    });
}

/// IDs of n more characters than that of the first client: taken while in use, whether their clients
/// are connected or not, and free again once their clients' lifetime has been ended.
pub fn long_ids(n: usize) {
    growing(|r| {
        let a = r.first_client()?;
        let make = |id: &str| crate::refs::render(b"core1.client-make", &[id.as_bytes(), b"", b"", b""]);
        let nope = crate::refs::render(b"nope", &[b"core1.client-make"]);
        let id: String = "a".chars().chain((0..n).map(|i| (b'a' + (i % 26) as u8) as char)).collect();
        let below = format!("{}x", id);
        let taken = |r: &mut Run, ids: &[&str]| -> Result<(), String> {
            for i in ids {
                expect(&format!("the reply to client-make {}", i), &r.ask(&a, &make(i)), &nope)?;
            }
            Ok(())
        };
        for round in 0..3 {
            let s = r.make(&a, &id)?;
            taken(r, &["a", &id])?;
            let p = r.newcomer_says(&client_hello(&s))?;
            expect("the reply to hello", &p.got.borrow(), &server_hello(&id))?;
            r.want(&p)?;
            taken(r, &["a", &id])?;
            if n > 1 {
                taken(r, &[&id[..n]])?;
            }
            //its own client below it, connected in every other round
            let t = r.make(&p, &below)?;
            let q = match round % 2 {
                1 => None,
                _ => Some(r.newcomer_says(&client_hello(&t))?),
            };
            if let Some(q) = &q {
                expect("the reply to hello", &q.got.borrow(), &server_hello(&below))?;
                r.want(q)?;
            }
            taken(r, &["a", &id, &below])?;
            a.c.send(&client_end(&id));
            r.settle();
            if !p.c.server_closed() || q.iter().any(|q| !q.c.server_closed()) {
                return Err(format!("after the end of {}, one of its connections is open", id));
            }
            r.want(&a)?;
            for old in [&s, &t] {
                let o = r.newcomer_says(&client_hello(old))?;
                if !o.c.server_closed() || !o.got.borrow().is_empty() {
                    return Err("the secret of a client whose lifetime has been ended was honoured".into());
                }
            }
        }
        Ok(())
    });
}

/// n wrong guesses, and idle connections; then the right secrets.
pub fn many_guesses(n: usize) {
    growing(|r| {
        for i in 0..n {
            match i % 4 {
                0 => {
                    r.connect()?;
                }
                k => {
                    let ty = ["posix1.stdin-hello", "posix1.stdout-hello", "posix1.client-hello"][k - 1];
                    let p = r.newcomer_says(&crate::refs::render(ty.as_bytes(), &[format!("guess{}", i).as_bytes()]))?;
                    if !p.c.server_closed() || !p.got.borrow().is_empty() {
                        return Err(format!("guess {} was not turned down", i));
                    }
                }
            }
        }
        let a = r.first_client()?;
        let (i, o) = (r.bytes(hello(CRED_IN)), r.bytes(hello(CRED_OUT)));
        let (i, o) = (r.newcomer_says(&i)?, r.newcomer_says(&o)?);
        r.want(&a)?;
        tick();
        r.settle();
        expect("what was typed in", &i.got.borrow(), b"Hello stdin.\n")?;
        o.c.send(b"word0");
        r.settle_one(&o);
        if !log_text().contains("word0") {
            return Err("the output was not shown".into());
        }
        Ok(())
    });
}

/// Everything that resembles a secret at its n-th character (or ends there), before and after the
/// secret itself is used.
pub fn near_misses(n: usize) {
    growing(|r| {
        let a = r.first_client()?;
        let below = r.make(&a, "a1")?;
        let right = [(2, below.clone()), (0, r.printed[0].clone()), (1, r.printed[1].clone())];
        let turned_down = |r: &mut Run, kind: usize, guess: &[u8]| -> Result<(), String> {
            let p = r.newcomer_says(&crate::refs::render(HELLOS[kind].as_bytes(), &[guess]))?;
            if !p.c.server_closed() || !p.got.borrow().is_empty() {
                return Err(format!("{} was accepted as the secret of a {}", engine::show(guess), HELLOS[kind]));
            }
            Ok(())
        };
        for used in [false, true] {
            for (kind, secret) in &right {
                for guess in resembling(secret, n - 1) {
                    turned_down(r, *kind, &guess)?;
                }
                for other in (0..3).filter(|k| k != kind) {
                    turned_down(r, other, secret)?;
                }
                if used {
                    turned_down(r, *kind, secret)?;
                }
            }
            if !used {
                let p = r.newcomer_says(&client_hello(&below))?;
                expect("the reply to hello", &p.got.borrow(), &server_hello("a1"))?;
                for cred in [CRED_IN, CRED_OUT] {
                    let h = r.bytes(hello(cred));
                    if r.newcomer_says(&h)?.c.server_closed() {
                        return Err(format!("a right {} was turned down", HELLOS[cred as usize]));
                    }
                }
            }
        }
        r.want(&a)
    });
}

/// Texts that are like the secret, but not at the i-th character.
fn resembling(secret: &[u8], i: usize) -> Vec<Vec<u8>> {
    let (head, tail) = secret.split_at(i.min(secret.len()));
    let mut l = vec![];
    for insert in ["", " ", "\0", "\n", "=", "A", "%", "é", "\u{200b}"] {
        l.push([head, insert.as_bytes()].concat());
        l.push([head, insert.as_bytes(), tail].concat());
        l.push([insert.as_bytes(), tail].concat());
        if let [c, rest @ ..] = tail {
            l.push([head, insert.as_bytes(), rest].concat());
            l.push([head, &[*c], insert.as_bytes(), tail].concat());
        }
    }
    if let [c, rest @ ..] = tail {
        for x in [c ^ 1, c ^ 32, c ^ 64, c + 1] {
            l.push([head, &[x], rest].concat());
        }
        l.push([head, rest, &[*c]].concat());
    }
    l.push([tail, head].concat());
    l.push(head.to_ascii_lowercase());
    l.push([&head.to_ascii_uppercase(), tail].concat());
    l.push([secret, head].concat());
    l.retain(|g| g != secret);
    l.sort();
    l.dedup();
    l
}

/// Bytes that make no text, n of them in a row or after n other ones: as first message, between
/// messages, in an argument, and as output.
pub fn odd_bytes(n: usize) {
    growing(|r| {
        let a = r.first_client()?;
        let h = r.bytes(hello(CRED_OUT));
        let o = r.newcomer_says(&h)?;
        for (k, (odd, rest)) in [("\u{e9}", 1), ("\u{20ac}", 1), ("\u{20ac}", 2), ("\u{1f600}", 3), ("\u{feff}", 3), ("\0", 0), ("\u{85}", 2)].iter().enumerate() {
            let (odd, rest) = odd.as_bytes().split_at(*rest);
            let lead = |c: &[u8]| -> Vec<u8> { c.iter().copied().cycle().take(n).collect() };
            for (j, b) in [[&lead(b"x"), odd, rest].concat(), [&lead(b"x"), odd].concat(), lead(odd), lead(rest), lead(&[odd, rest].concat()), lead(b"\xff\xfe")].iter().enumerate() {
                if b.is_empty() {
                    continue;
                }
                let p = r.newcomer_says(b)?;
                if !p.c.server_closed() || !p.got.borrow().is_empty() {
                    return Err("something that is no message was accepted as the first message".into());
                }
                let h = crate::refs::render(b"posix1.client-hello", &[b]);
                let p = r.newcomer_says(&h)?;
                if !p.c.server_closed() || !p.got.borrow().is_empty() {
                    return Err("a wrong secret was accepted".into());
                }
                a.c.send(b);
                r.settle_one(&a);
                r.want(&a)?;
                let m = crate::refs::render(b"foo1.bar", &[b"x", b]);
                if m.len() <= 1024 {
                    expect("the reply to foo1.bar", &r.ask(&a, &m), &crate::refs::render(b"have", &[b"foo1"]))?;
                }
                //(also cut in the middle of a character)
                o.c.send(b);
                r.settle_one(&o);
                o.c.send(rest);
                r.settle_one(&o);
                let word = format!("word{}x{}", k, j);
                o.c.send(word.as_bytes());
                r.settle_one(&o);
                if !log_text().contains(&word) {
                    return Err("the output was not shown".into());
                }
                if o.c.server_closed() || a.c.server_closed() {
                    return Err("a connection was closed".into());
                }
            }
        }
        Ok(())
    });
}

/// n seconds pass, before and after someone reads the standard input, who sometimes lags behind.
pub fn many_ticks(n: usize) {
    growing(|r| {
        for _ in 0..n {
            tick();
            mc::wait_idle();
        }
        let a = r.first_client()?;
        let h = r.bytes(hello(CRED_IN));
        let i = r.newcomer_says(&h)?;
        for k in 0..n {
            tick();
            mc::wait_idle();
            if k % 7 == 6 {
                r.settle_one(&i);
            }
        }
        r.settle();
        expect("what was typed in", &i.got.borrow(), &b"Hello stdin.\n".repeat(n))?;
        r.want(&a)
    });
}
