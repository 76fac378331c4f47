//! The scenarios: scripts of the main actor, and what they check at the end.

use crate::app::*;
use crate::example;
use crate::refs::render;
use std::cell::{Cell, RefCell};
use std::path::PathBuf;
use std::rc::Rc;
use tokio::mc::{self, actor, wait_idle, wait_until, Config};
use tokio::net::{self, Client};
use vt6::server::tokio::Dispatch;

pub struct Scn {
    pub name: &'static str,
    /// The properties in whose check this scenario is explored.
    pub props: &'static [&'static str],
    pub cfg: fn(&mut Config),
    pub body: fn(),
}

pub struct Cl {
    pub c: Client,
    pub who: String,
    pub got: RefCell<Vec<u8>>,
    /// Does the harness read what is sent to this client whenever the server is idle?
    pub reading: Cell<bool>,
    pub closed: Cell<bool>,
}
pub type C = Rc<Cl>;

impl Cl {
    pub fn send(&self, b: &[u8]) {
        event(&format!("{} sends {} bytes", self.who, b.len()));
        self.c.send(b);
    }
    pub fn close(&self) {
        event(&format!("{} closes", self.who));
        self.closed.set(true);
        self.c.close();
    }
    pub fn shut(&self) {
        event(&format!("{} shuts", self.who));
        self.c.shut();
    }
    pub fn up(&self) -> bool {
        !self.closed.get() && !self.c.server_closed()
    }
    pub fn key(&self) -> Option<Key> {
        mon(|m| m.who.get(&self.who).copied())
    }
}

thread_local! {
    static CLIENTS: RefCell<Vec<C>> = const { RefCell::new(vec![]) };
    static PATH: RefCell<PathBuf> = RefCell::new(PathBuf::new());
}

pub fn forget_all_but(who: &str) {
    CLIENTS.with(|c| c.borrow_mut().retain(|c| c.who == who));
}
pub fn forget_clients() {
    CLIENTS.with(|c| c.borrow_mut().clear());
}
pub fn set_path(p: PathBuf) {
    PATH.with(|x| x.replace(p));
}
fn path() -> PathBuf {
    PATH.with(|x| x.borrow().clone())
}
fn clients() -> Vec<C> {
    CLIENTS.with(|c| c.borrow().clone())
}

////////////////////////////////////////////////////////////////////////////////
// building blocks

pub fn server() {
    set_dispatch(Some(Dispatch::new(path(), App).unwrap()));
    serve();
}

/// Runs the event loop of the dispatch.
fn serve() {
    actor("server", || {
        let Some(r) = mc::block_on(async { dispatch().run_listener().await }) else { return };
        event("server returned");
        let socket_file = path().symlink_metadata().is_ok();
        let open = net::server_sockets().1;
        mon(|m| {
            m.result = Some(Ended {
                result: r.map_err(|e| e.to_string()),
                socket_file,
                open_sockets: open,
                opened: m.opened,
                closed: m.closed,
                connectors: m.connectors,
            })
        });
    });
}

/// Runs the event loop of the same dispatch once more after it has failed.
pub fn serve_again() {
    let _ = std::fs::remove_file(path());
    mon(|m| m.result = None);
    serve();
    settle();
}

/// Starts the server and waits until its socket exists.
pub fn start() {
    mc::branching(false);
    server();
    wait_until(|| net::listening(&path()));
    settle();
    //(so that every kind of operation on the locks has occurred, see mc_std)
    broadcast(|_| {});
    mon(|m| {
        m.bc_next = 0;
        m.bc_must.clear();
    });
}

pub fn connect(who: &str) -> C {
    let c = Client::connect(&path()).expect("server is listening");
    add(who, c)
}
fn add(who: &str, c: Client) -> C {
    let c = Rc::new(Cl { c, who: who.into(), got: RefCell::default(), reading: Cell::new(true), closed: Cell::new(false) });
    CLIENTS.with(|l| l.borrow_mut().push(c.clone()));
    event(&format!("{} connects", who));
    c
}
/// The message with which a client introduces itself.
pub fn hello(who: &str) -> Vec<u8> {
    let (ty, secret) = match who.split_once(':') {
        Some(("in", s)) => ("posix1.stdin-hello", format!("i-{}", s)),
        Some((_, s)) => ("posix1.stdout-hello", format!("o-{}", s)),
        None => ("posix1.client-hello", format!("c-{}", who)),
    };
    render(ty.as_bytes(), &[secret.as_bytes()])
}
pub fn join(who: &str) -> C {
    let c = connect(who);
    c.send(&hello(who));
    settle();
    if c.key().is_none() {
        fail("C18", format!("client {} was not served", who));
    }
    c
}
pub fn msg(ty: &str, args: &[&[u8]]) -> Vec<u8> {
    render(ty.as_bytes(), args)
}
pub fn echo(s: &str) -> Vec<u8> {
    msg("t1.echo", &[s.as_bytes()])
}

/// Waits until the server is idle, with all clients that read having read everything.
pub fn settle() -> bool {
    loop {
        if !wait_idle() {
            return false;
        }
        let mut any = false;
        for c in clients() {
            if c.reading.get() && !c.closed.get() {
                let v = c.c.take();
                any |= !v.is_empty();
                c.got.borrow_mut().extend(v);
            }
        }
        if !any {
            return true;
        }
    }
}

/// Waits until the server is idle and `read`, which reads what the clients have got, finds nothing more.
pub fn settle_with(read: &mut dyn FnMut() -> bool) -> bool {
    loop {
        if !wait_idle() {
            return false;
        }
        if !read() {
            return true;
        }
    }
}

/// An actor that reads what arrives for the client while other things happen.
pub fn reader(c: &C, chunk: usize) {
    c.reading.set(false);
    let c = c.clone();
    actor("reader", move || loop {
        let c2 = c.clone();
        if !wait_until(move || c2.c.available() > 0 || c2.c.eof()) || c.closed.get() {
            return;
        }
        let v = c.c.take_some(chunk);
        if v.is_empty() {
            return;
        }
        c.got.borrow_mut().extend(v);
    });
}

/// A client that sends pieces one after the other.
pub fn sender(c: &C, pieces: Vec<Vec<u8>>) {
    let c = c.clone();
    actor("sender", move || {
        for p in pieces {
            c.send(&p);
        }
    });
}
/// Splits at the given positions.
fn cut(b: &[u8], at: &[usize]) -> Vec<Vec<u8>> {
    let mut v = vec![];
    let mut last = 0;
    for &a in at.iter().chain([&b.len()]) {
        v.push(b[last..a].to_vec());
        last = a;
    }
    v
}
pub fn cat(l: &[Vec<u8>]) -> Vec<u8> {
    l.concat()
}

pub fn go() {
    mc::branching(true);
}

////////////////////////////////////////////////////////////////////////////////
// checks

/// Everything enqueued has arrived, once, in order (for clients that are up and reading: all of it).
pub fn check_delivery() {
    for c in clients() {
        let Some(k) = c.key() else { continue };
        let want = mon(|m| m.enq.get(&k).cloned().unwrap_or_default());
        let got = c.got.borrow();
        if c.up() {
            if *got != want {
                fail("C15", format!("{} received {} where {} was enqueued", c.who, engine::show(&got), engine::show(&want)));
            }
        } else if !want.starts_with(&got) {
            fail("C15", format!("{} received {} although {} was enqueued", c.who, engine::show(&got), engine::show(&want)));
        }
    }
}

/// Broadcasts have been executed on whom they had to be, once.
pub fn check_broadcasts() {
    for c in clients().iter().filter(|c| c.up() && c.reading.get()) {
        let Some(k) = c.key() else { continue };
        let count = |b: &[u8]| b.windows(6).filter(|w| w == b"t1.all").count();
        let (sent, got) = (mon(|m| m.enq.get(&k).map_or(0, |b| count(b))), count(&c.got.borrow()));
        if sent != got {
            fail("C16", format!("broadcasts sent {} messages to {}, {} arrived", sent, c.who, got));
        }
    }
    let up: Vec<(String, Key)> = clients().iter().filter(|c| c.up()).filter_map(|c| Some((c.who.clone(), c.key()?))).collect();
    let (n, runs, must) = mon(|m| (m.bc_next, m.bc_runs.clone(), m.bc_must.clone()));
    for n in 0..n {
        let r = runs.get(&n).cloned().unwrap_or_default();
        for (who, k) in &up {
            let times = r.iter().filter(|x| x.0 == *k).count();
            if times == 0 && must[&n].contains(k) {
                fail("C16", format!("broadcast {} was never executed on connection {}, which was up all the time", n, who));
            }
        }
        for (k, _) in &r {
            let times = r.iter().filter(|x| x.0 == *k).count();
            if times > 1 {
                fail("C16", format!("broadcast {} was executed {} times on one connection", n, times));
                break;
            }
        }
    }
}

/// The given messages of the client have been handled, in order and once.
pub fn check_handled(who: &str, want: &[Vec<u8>]) {
    let got = mon(|m| m.handled.get(who).cloned().unwrap_or_default());
    if got != want {
        let list = |l: &[Vec<u8>]| l.iter().map(|m| engine::show(m)).collect::<Vec<_>>().join(" ");
        fail("C25", format!("of client {}: sent {}, handled {}", who, list(want), list(&got)));
    }
}
/// The client got exactly these bytes since position `from`.
pub fn check_got(c: &C, from: usize, want: &[u8]) {
    let got = c.got.borrow();
    if &got[from.min(got.len())..] != want {
        fail("C25", format!("{} received {} instead of {}", c.who, engine::show(&got[from.min(got.len())..]), engine::show(want)));
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Snapshot {
    connections: isize,
    sockets: usize,
    tasks: usize,
    connectors: isize,
}
pub fn snapshot() -> Snapshot {
    let (tasks, sockets) = (mc::live_tasks(), net::server_sockets().1);
    mon(|m| Snapshot { connections: m.opened as isize - m.closed as isize, sockets, tasks, connectors: m.connectors })
}
/// Everything that the connections which have come and gone since had, is gone.
pub fn check_gone(before: &Snapshot) {
    let now = snapshot();
    if now != *before {
        fail("C17", format!("after the connections ended: {:?}, before they were opened: {:?}", now, before));
    }
    let (accepted, opened) = (net::server_sockets().0, mon(|m| m.opened));
    if accepted != opened {
        fail("C17", format!("{} connections accepted, {} reported opened", accepted, opened));
    }
}
pub fn check_running() {
    if let Some(e) = mon(|m| m.result.clone()) {
        fail("C18", format!("the event loop ended: {:?}", e.result));
    }
}
/// Was the client's one message handled?
fn check_admitted(who: &str, yes: bool) {
    let n = mon(|m| m.handled.get(who).map_or(0, |h| h.len()));
    if (n == 1) != yes || n > 1 {
        fail("C18", format!("{} messages of client {}, who {}, were handled", n, who, if yes { "must have been admitted by now" } else { "cannot have been admitted yet" }));
    }
}
pub fn check_up(c: &C) {
    if !c.up() {
        fail("C17", format!("connection of {} was closed although nothing was wrong with it", c.who));
    }
}
/// The other client is still served.
pub fn check_served(c: &C) {
    check_up(c);
    let from = c.got.borrow().len();
    c.send(&echo("still"));
    settle();
    if !c.got.borrow()[from..].ends_with(&echo("still")) {
        fail("C17", format!("client {} is not served any more", c.who));
        fail("C18", format!("client {} is not served any more", c.who));
    }
}

/// The application knows of every error that the server has seen, and of no other.
pub fn check_errors() {
    let (mut seen, mut told) = (net::faults(), mon(|m| m.io_errors.clone()));
    seen.sort();
    told.sort();
    if seen.len() != told.len() || !seen.iter().all(|e| told.iter().filter(|t| t.contains(e)).count() >= seen.iter().filter(|s| *s == e).count()) {
        fail("C26", format!("the server met the errors {:?}; the application was told of {:?}", seen, told));
    }
}

/// Ends every scenario: a new client is served, and shutdown works.
pub fn finish() {
    mc::branching(false);
    if mon(|m| m.result.is_some()) {
        fail("C18", format!("the event loop ended: {:?}", mon(|m| m.result.clone())));
        return;
    }
    let z = join("zz");
    z.send(&echo("probe"));
    settle();
    if !z.got.borrow().ends_with(&echo("probe")) {
        fail("C18", "a new client was not served afterwards".into());
    }
    check_delivery();
    check_errors();
    dispatch().shutdown();
    settle();
    check_ended(true);
}

pub fn check_ended(must: bool) {
    let Some(e) = mon(|m| m.result.clone()) else {
        if must {
            fail("C19", "the event loop did not return after shutdown()".into());
        }
        return;
    };
    let bad = |b: bool, what: String| {
        if b {
            fail("C19", what);
        }
    };
    bad(e.result.is_err(), format!("the event loop returned {:?}", e.result));
    bad(e.socket_file, "the socket file was still there when the event loop had returned".into());
    bad(e.open_sockets != 0, format!("{} client sockets were open when the event loop had returned", e.open_sockets));
    //(a task that has nothing more to do than to end may do that after the event loop has returned)
    let tasks = mc::live_tasks();
    bad(tasks != 0, format!("{} tasks of the server were left when the event loop had returned", tasks));
    bad(e.opened != e.closed, format!("{} connections were reported opened, {} closed when the event loop had returned", e.opened, e.closed));
    bad(e.connectors != 0, format!("{} connectors were alive when the event loop had returned", e.connectors));
    for c in clients() {
        bad(!c.closed.get() && !c.c.server_closed(), format!("client {} was still connected", c.who));
    }
    let (opened, closed) = mon(|m| (m.opened, m.closed));
    bad(opened != e.opened || closed != e.closed, "the application was notified after the event loop had returned".into());
    check_errors();
}

/// The event loop might have failed, but as a shutdown has been requested, it ends the next time.
fn check_retried() {
    mc::branching(false);
    match mon(|m| m.result.clone()) {
        Some(e) if e.result.is_err() => serve_again(),
        _ => {}
    }
    check_ended(true);
}

fn thread(name: &'static str, f: impl FnOnce() + 'static) {
    actor(name, f);
}

////////////////////////////////////////////////////////////////////////////////
// scenarios

pub fn plain(c: &mut Config) {
    c.capacity = 1 << 16;
}
pub fn narrow(c: &mut Config) {
    c.capacity = 24;
    c.short_writes = true;
    c.short_reads = true;
}
fn reads(c: &mut Config) {
    c.capacity = 1 << 16;
    c.short_reads = true;
}
fn writes(c: &mut Config) {
    c.capacity = 1 << 16;
    c.short_writes = true;
}
pub fn page(c: &mut Config) {
    c.capacity = 3000;
    c.short_writes = true;
}
fn errors(c: &mut Config) {
    c.capacity = 1 << 16;
    c.io_errors = true;
}
/// There are descriptors for two connections only.
fn full(c: &mut Config) {
    c.capacity = 1 << 16;
    c.max_open = Some(2);
}
const EIO: i32 = 5;
/// Accepting may fail with an error nobody expects.
fn accept_errors(c: &mut Config) {
    c.capacity = 1 << 16;
    c.accept_error = Some(EIO);
}
fn tiny_errors(c: &mut Config) {
    c.capacity = 8;
    c.io_errors = true;
}
fn tiny(c: &mut Config) {
    c.capacity = 8;
}

/// The application asks for the shutdown while the server tells it of something.
fn shutdown_from_inside(how: Calls) {
    start();
    let (a, o) = (join("a"), join("out:s"));
    mon(|m| m.calls = how);
    go();
    match how {
        Calls::Shutdown => thread("closer", move || a.close()),
        Calls::ShutdownOpened => thread("newcomer", || {
            if let Some(b) = Client::connect(&path()) {
                add("b", b).send(&hello("b"));
            }
        }),
        _ => thread("screen", move || o.send(b"text")),
    }
    thread("app", || {
        tell_all("x", false);
    });
    settle();
    mc::branching(false);
    check_ended(true);
}

pub const SCENARIOS: &[Scn] = &[
    Scn { name: "echo", props: &["C15", "C25"], cfg: narrow, body: || {
        start();
        let a = join("a");
        let from = a.got.borrow().len();
        let m = [echo("one"), msg("t1.quiet", &[b"x"]), echo("two")];
        go();
        sender(&a, cut(&cat(&m), &[5, 40]));
        settle();
        check_handled("a", &m);
        check_got(&a, from, &cat(&[echo("one"), echo("two")]));
        check_up(&a);
        check_delivery();
        finish();
    } },
    Scn { name: "echo2", props: &["C15", "C25", "C18", "C26"], cfg: reads, body: || {
        start();
        let (a, b) = (join("a"), join("b"));
        let (fa, fb) = (a.got.borrow().len(), b.got.borrow().len());
        let (m, n) = ([echo("one"), echo("two")], [echo("drei"), echo("vier")]);
        go();
        sender(&a, cut(&cat(&m), &[7, 30]));
        sender(&b, cut(&cat(&n), &[20]));
        settle();
        check_handled("a", &m);
        check_handled("b", &n);
        check_got(&a, fa, &cat(&m));
        check_got(&b, fb, &cat(&n));
        check_delivery();
        finish();
    } },
    Scn { name: "echo-and-app", props: &["C15", "C16"], cfg: writes, body: || {
        start();
        let a = join("a");
        go();
        sender(&a, vec![echo("one"), echo("two")]);
        thread("app", || {
            tell_all("x", false);
            tell_all("y", false);
        });
        settle();
        check_handled("a", &[echo("one"), echo("two")]);
        check_broadcasts();
        check_delivery();
        finish();
    } },
    Scn { name: "bulk", props: &["C15", "C16"], cfg: page, body: || {
        start();
        let (s, a) = (join("in:s"), join("a"));
        go();
        thread("app1", || {
            type_in("s", (0..5000u32).map(|i| (i % 251) as u8).collect());
            type_in("s", vec![7; 10]);
        });
        thread("app2", || {
            type_in("s", (0..3073u32).map(|i| (i % 13) as u8 + b'a').collect());
        });
        let _ = a;
        settle();
        check_broadcasts();
        check_delivery();
        check_up(&s);
        finish();
    } },
    Scn { name: "burst", props: &["C15"], cfg: page, body: || {
        start();
        let a = join("a");
        reader(&a, 2500);
        go();
        sender(&a, vec![msg("t1.burst", &[b"9", b"1000"]), echo("end")]);
        settle();
        check_delivery();
        check_handled("a", &[msg("t1.burst", &[b"9", b"1000"]), echo("end")]);
        finish();
    } },
    Scn { name: "burst-app", props: &["C15"], cfg: page, body: || {
        start();
        let (a, b) = (join("a"), join("b"));
        go();
        sender(&a, vec![msg("t1.burst", &[b"5", b"1000"]), msg("t1.burst", &[b"4", b"900"])]);
        sender(&b, vec![msg("t1.burst", &[b"3", b"1000"])]);
        thread("app", || {
            tell_all("x", false);
        });
        settle();
        check_broadcasts();
        check_delivery();
        finish();
    } },
    Scn { name: "rounds", props: &["C15", "C25"], cfg: plain, body: || {
        start();
        let a = join("a");
        let from = a.got.borrow().len();
        a.reading.set(false);
        let a2 = a.clone();
        go();
        thread("peer", move || {
            for i in 0..3 {
                let m = echo(&format!("round{}", i));
                a2.send(&m);
                let (c, n) = (a2.clone(), m.len());
                if !wait_until(move || c.c.available() >= n) {
                    return;
                }
                let v = a2.c.take();
                a2.got.borrow_mut().extend(v);
            }
        });
        thread("app", || {
            type_in("none", vec![1]);
        });
        settle();
        check_got(&a, from, &cat(&[echo("round0"), echo("round1"), echo("round2")]));
        a.reading.set(true);
        settle();
        check_delivery();
        finish();
    } },
    Scn { name: "typing", props: &["C15", "C16"], cfg: writes, body: || {
        start();
        let (s, t, a) = (join("in:s"), join("in:t"), join("a"));
        go();
        sender(&a, vec![msg("t1.in", &[b"s", b"hello"]), msg("t1.in", &[b"t", b"HELLO"])]);
        thread("app", || {
            type_in("s", b"world".to_vec());
        });
        settle();
        for (c, l) in [(&s, 10), (&t, 5)] {
            if c.got.borrow().len() != l {
                fail("C15", format!("{} received {}", c.who, engine::show(&c.got.borrow())));
            }
        }
        check_broadcasts();
        check_delivery();
        finish();
    } },
    Scn { name: "broadcasters", props: &["C16", "C18"], cfg: plain, body: || {
        start();
        let (a, _b) = (join("a"), join("b"));
        go();
        thread("app1", || {
            tell_all("x", false);
        });
        thread("app2", || {
            tell_all("y", false);
        });
        sender(&a, vec![echo("one")]);
        settle();
        check_broadcasts();
        check_delivery();
        finish();
    } },
    Scn { name: "broadcasters3", props: &["C16"], cfg: plain, body: || {
        start();
        let _a = join("a");
        go();
        for (name, tag) in [("app1", "x"), ("app2", "y"), ("app3", "z")] {
            thread(name, move || {
                tell_all(tag, false);
                tell_all(tag, false);
            });
        }
        settle();
        check_broadcasts();
        check_delivery();
        finish();
    } },
    Scn { name: "broadcast-accept", props: &["C16", "C15"], cfg: plain, body: || {
        start();
        let _a = join("a");
        go();
        thread("app", || {
            tell_all("x", true);
            tell_all("y", true);
        });
        thread("newcomer", || {
            let c = connect("c");
            c.send(&hello("c"));
        });
        settle();
        check_broadcasts();
        check_delivery();
        finish();
    } },
    Scn { name: "broadcast-knock", props: &["C16"], cfg: plain, body: || {
        //accepting a connection that then does nothing
        start();
        let _a = join("a");
        go();
        thread("app", || {
            tell_all("x", false);
        });
        thread("newcomer", || {
            connect("c");
        });
        settle();
        check_broadcasts();
        check_delivery();
        finish();
    } },
    Scn { name: "broadcast-silent", props: &["C16"], cfg: plain, body: || {
        //a connection that has not said anything yet is alive, too
        start();
        let q = connect("q");
        settle();
        go();
        thread("app", || {
            tell_all("x", true);
        });
        thread("app2", || {
            tell_all("y", true);
        });
        settle();
        if q.got.borrow().len() != msg("t1.all", &[b"x"]).len() * 2 {
            fail("C16", format!("the silent connection received {} after two broadcasts", engine::show(&q.got.borrow())));
        }
        q.send(&hello("q"));
        settle();
        check_broadcasts();
        check_delivery();
        finish();
    } },
    Scn { name: "broadcast-handler", props: &["C16", "C15"], cfg: plain, body: || {
        start();
        let (a, b) = (join("a"), join("b"));
        go();
        sender(&a, vec![msg("t1.bc", &[])]);
        sender(&b, vec![msg("t1.nested", &[])]);
        settle();
        if mon(|m| m.bc_next) != 4 {
            fail("C16", format!("{} of 4 broadcasts were enqueued", mon(|m| m.bc_next)));
        }
        check_broadcasts();
        check_delivery();
        finish();
    } },
    Scn { name: "broadcast-close", props: &["C16", "C17"], cfg: plain, body: || {
        start();
        let b = join("b");
        let before = snapshot();
        let a = join("a");
        go();
        thread("app", || {
            tell_all("x", false);
            tell_all("y", false);
        });
        thread("closer", move || a.close());
        settle();
        check_broadcasts();
        check_delivery();
        check_gone(&before);
        check_served(&b);
        finish();
    } },
    Scn { name: "broadcast-kill", props: &["C16", "C17"], cfg: plain, body: || {
        start();
        let a = join("a");
        let before = snapshot();
        let b = join("b");
        go();
        sender(&a, vec![msg("t1.kill", &[b"b"]), echo("after")]);
        sender(&b, vec![echo("one")]);
        thread("app", || {
            tell_all("x", false);
        });
        settle();
        if b.up() {
            fail("C17", "a connection set to teardown by a broadcast was not closed".into());
        }
        check_broadcasts();
        check_delivery();
        check_handled("a", &[msg("t1.kill", &[b"b"]), echo("after")]);
        check_gone(&before);
        check_served(&a);
        finish();
    } },
    Scn { name: "close", props: &["C17", "C18", "C26"], cfg: plain, body: || {
        start();
        let b = join("b");
        let before = snapshot();
        let a = join("a");
        go();
        sender(&b, vec![echo("one")]);
        thread("closer", move || {
            a.send(&echo("last"));
            a.close();
        });
        settle();
        check_gone(&before);
        check_delivery();
        check_handled("b", &[echo("one")]);
        check_served(&b);
        finish();
    } },
    Scn { name: "half-close", props: &["C17", "C25", "C26"], cfg: reads, body: || {
        start();
        let b = join("b");
        let before = snapshot();
        let a = join("a");
        let m = [msg("t1.quiet", &[b"1"]), echo("2"), msg("t1.quiet", &[b"3"])];
        go();
        let (a2, p) = (a.clone(), cut(&cat(&m), &[25]));
        thread("closer", move || {
            for p in p {
                a2.send(&p);
            }
            a2.shut();
        });
        settle();
        check_handled("a", &m);
        check_delivery();
        check_gone(&before);
        check_served(&b);
        finish();
    } },
    Scn { name: "output-close", props: &["C25", "C17"], cfg: reads, body: || {
        start();
        let before = snapshot();
        let o = connect("out:s");
        go();
        let data = [hello("out:s"), b"some output{1".to_vec(), b" and more".to_vec()];
        let (o2, d) = (o.clone(), data.clone());
        thread("program", move || {
            o2.send(&cat(&d[..2]));
            o2.send(&d[2]);
            o2.shut();
        });
        settle();
        let got = mon(|m| m.stdout.get("s").cloned().unwrap_or_default());
        if got != cat(&data[1..]) {
            fail("C25", format!("of {} on stdout, {} was received", engine::show(&cat(&data[1..])), engine::show(&got)));
        }
        check_gone(&before);
        finish();
    } },
    Scn { name: "hello-race", props: &["C25", "C17"], cfg: reads, body: || {
        start();
        let before = snapshot();
        go();
        for who in ["a", "b"] {
            thread("newcomer", move || {
                let c = connect(who);
                c.send(&cat(&[hello(who), echo(who)]));
                c.shut();
            });
        }
        settle();
        check_handled("a", &[echo("a")]);
        check_handled("b", &[echo("b")]);
        check_gone(&before);
        check_delivery();
        finish();
    } },
    Scn { name: "close-early", props: &["C17", "C18"], cfg: plain, body: || {
        start();
        let before = snapshot();
        go();
        thread("one", || connect("one").close());
        thread("two", || {
            let c = connect("two");
            c.send(b"{2|3:");
            c.close();
        });
        settle();
        check_gone(&before);
        finish();
    } },
    Scn { name: "close-pending", props: &["C17", "C15", "C26"], cfg: tiny, body: || {
        start();
        let b = join("b");
        let before = snapshot();
        let a = join("a");
        go();
        a.reading.set(false);
        a.send(&msg("t1.burst", &[b"5", b"1000"]));
        sender(&b, vec![echo("one")]);
        let a2 = a.clone();
        thread("closer", move || {
            wait_until(|| mon(|m| m.handled.contains_key("a")));
            a2.got.borrow_mut().extend(a2.c.take());
            a2.close();
        });
        settle();
        check_gone(&before);
        check_delivery();
        check_served(&b);
        finish();
    } },
    Scn { name: "die", props: &["C17", "C26"], cfg: plain, body: || {
        start();
        let b = join("b");
        let before = snapshot();
        let a = join("a");
        go();
        sender(&a, vec![cat(&[echo("one"), msg("t1.die", &[])]), echo("never")]);
        thread("app", || {
            tell_all("x", false);
        });
        settle();
        if a.up() {
            fail("C17", "a connection set to teardown by its handler was not closed".into());
        }
        check_handled("a", &[echo("one"), msg("t1.die", &[])]);
        check_broadcasts();
        check_delivery();
        check_gone(&before);
        check_served(&b);
        finish();
    } },
    Scn { name: "three-ends", props: &["C17", "C26"], cfg: plain, body: || {
        start();
        let d = join("d");
        let before = snapshot();
        let (a, b, c) = (join("a"), join("b"), join("out:s"));
        go();
        sender(&d, vec![msg("t1.kill", &[b"b"])]);
        sender(&b, vec![echo("one")]);
        sender(&a, vec![msg("t1.die", &[])]);
        thread("closer", move || c.close());
        settle();
        check_gone(&before);
        check_delivery();
        check_served(&d);
        finish();
    } },
    Scn { name: "kill-twice", props: &["C17", "C16"], cfg: plain, body: || {
        //two ways of ending the same connection
        start();
        let c = join("c");
        let before = snapshot();
        let (a, b) = (join("a"), join("b"));
        go();
        sender(&a, vec![msg("t1.kill", &[b"b"])]);
        sender(&c, vec![msg("t1.kill", &[b"b"]), msg("t1.kill", &[b"a"])]);
        thread("closer", move || b.close());
        settle();
        check_broadcasts();
        check_delivery();
        check_gone(&before);
        check_served(&c);
        finish();
    } },
    Scn { name: "replaced", props: &["C17", "C15"], cfg: plain, body: || {
        //a newcomer, while another connection is being ended in two ways
        start();
        let c = join("c");
        let before = snapshot();
        let a = join("a");
        go();
        sender(&c, vec![msg("t1.kill", &[b"a"])]);
        thread("closer", move || {
            a.send(&echo("last"));
            a.close();
        });
        thread("newcomer", || {
            let b = connect("b");
            b.send(&cat(&[hello("b"), echo("one")]));
        });
        settle();
        check_handled("b", &[echo("one")]);
        check_delivery();
        let b = clients().into_iter().find(|c| c.who == "b").expect("it was created above");
        check_served(&b);
        check_served(&c);
        b.close();
        settle();
        check_gone(&before);
        finish();
    } },
    Scn { name: "calls-back", props: &["C16", "C18", "C17"], cfg: plain, body: || {
        //an application that uses the dispatch from inside of everything that the server calls
        start();
        let a = join("a");
        let before = snapshot();
        let (b, o) = (join("b"), join("out:s"));
        mon(|m| m.calls = Calls::Broadcasts);
        go();
        let (b2, o2) = (b.clone(), o.clone());
        sender(&a, vec![cat(&[b"junk".to_vec(), echo("one")])]);
        thread("screen", move || {
            o2.send(b"text");
            o2.close();
        });
        thread("closer", move || b2.close());
        settle();
        mc::branching(false);
        check_broadcasts();
        check_delivery();
        check_gone(&before);
        let n = connect("in:s");
        n.send(b"{");
        n.close();
        settle();
        check_broadcasts();
        check_gone(&before);
        check_served(&a);
        finish();
    } },
    Scn { name: "calls-back-newcomer", props: &["C16", "C18"], cfg: plain, body: || {
        start();
        let a = join("a");
        mon(|m| m.calls = Calls::Broadcasts);
        go();
        thread("newcomer", || {
            let b = connect("b");
            b.send(&cat(&[hello("b"), msg("core1.client-make", &[b"bb"])]));
        });
        sender(&a, vec![msg("t1.die", &[])]);
        thread("app", || {
            tell_all("x", false);
        });
        settle();
        mc::branching(false);
        let b = clients().into_iter().find(|c| c.who == "b").expect("it was created above");
        check_broadcasts();
        check_delivery();
        check_served(&b);
        finish();
    } },
    Scn { name: "shutdown-at-end-of-other", props: &["C19"], cfg: plain, body: || shutdown_from_inside(Calls::Shutdown) },
    Scn { name: "shutdown-at-arrival", props: &["C19"], cfg: plain, body: || shutdown_from_inside(Calls::ShutdownOpened) },
    Scn { name: "shutdown-at-output", props: &["C19"], cfg: plain, body: || shutdown_from_inside(Calls::ShutdownStdout) },
    Scn { name: "end-screens", props: &["C17"], cfg: narrow, body: || {
        //one broadcast ends everything except one client, whatever the others are doing
        start();
        let a = join("a");
        let before = snapshot();
        let (_i, o) = (join("in:s"), join("out:s"));
        go();
        thread("app", || {
            type_in("s", b"typed".to_vec());
            end_all_but("a");
        });
        thread("screen", move || {
            o.send(b"text");
            o.close();
        });
        settle();
        mc::branching(false);
        check_delivery();
        check_gone(&before);
        check_served(&a);
        finish();
    } },
    Scn { name: "io-errors", props: &["C17", "C18", "C26"], cfg: errors, body: || {
        start();
        let before = snapshot();
        let (a, b) = (join("a"), join("b"));
        go();
        sender(&a, vec![echo("one"), echo("two")]);
        sender(&b, vec![echo("drei")]);
        thread("app", || {
            tell_all("x", false);
        });
        settle();
        mc::branching(false);
        check_broadcasts();
        check_delivery();
        for c in [a, b] {
            if c.up() {
                check_served(&c);
                c.close();
            }
        }
        settle();
        check_gone(&before);
        finish();
    } },
    Scn { name: "io-errors-screens", props: &["C26"], cfg: errors, body: || {
        start();
        let before = snapshot();
        let (i, o) = (join("in:s"), join("out:s"));
        go();
        thread("app", || {
            type_in("s", b"typed".to_vec());
        });
        sender(&o, vec![b"output".to_vec(), b" more".to_vec()]);
        settle();
        mc::branching(false);
        for c in [i, o] {
            c.close();
        }
        settle();
        check_gone(&before);
        finish();
    } },
    Scn { name: "io-errors-pending", props: &["C26"], cfg: tiny_errors, body: || {
        //clients that go away with output waiting for them, or with input they never sent in full
        start();
        let b = join("b");
        let before = snapshot();
        let (a, c) = (join("a"), join("c"));
        a.reading.set(false);
        go();
        sender(&a, vec![msg("t1.burst", &[b"2", b"30"])]);
        thread("closer", move || a.close());
        thread("closer", move || {
            c.send(b"{1|6:t1.e");
            c.close();
        });
        settle();
        mc::branching(false);
        b.close();
        settle();
        let _ = before;
        finish();
    } },
    Scn { name: "accept-fails", props: &["C26"], cfg: accept_errors, body: || {
        start();
        let a = join("a");
        go();
        sender(&a, vec![echo("one")]);
        for who in ["b", "c"] {
            thread("client", move || {
                if let Some(c) = Client::connect(&path()) {
                    add(who, c).send(&hello(who));
                }
            });
        }
        settle();
        mc::branching(false);
        let (faults, result) = (net::accept_faults(), mon(|m| m.result.clone()));
        check_errors();
        let cause = std::io::Error::from_raw_os_error(EIO).to_string();
        match result {
            None if faults == 0 => finish(),
            None => fail("C26", "accepting failed, and the event loop did not end".into()),
            Some(e) => {
                if faults == 0 || !e.result.as_ref().is_err_and(|e| e.contains(&cause)) {
                    fail("C26", format!("accepting failed {} times with {:?}, and the event loop returned {:?}", faults, cause, e.result));
                }
            }
        }
    } },
    Scn { name: "bind-fails", props: &["C26"], cfg: plain, body: || {
        mc::branching(false);
        let base = path();
        let dir = base.with_extension("d");
        let _ = std::fs::remove_file(&dir);
        let _ = std::fs::remove_dir_all(&dir);
        for obstacle in ["nothing there", "file", "directory", "stale socket", "no directory", "a file for directory"] {
            let inside = dir.join("socket");
            set_path(inside.clone());
            let below = inside.clone();
            match obstacle {
                "no directory" => {}
                "a file for directory" => std::fs::write(&dir, b"precious").unwrap(),
                _ => {
                    std::fs::create_dir(&dir).unwrap();
                    match obstacle {
                        "file" => std::fs::write(&below, b"precious").unwrap(),
                        "directory" => std::fs::create_dir(&below).unwrap(),
                        "stale socket" => drop(std::os::unix::net::UnixListener::bind(&below).unwrap()),
                        _ => {}
                    }
                }
            }
            let look = || (std::fs::symlink_metadata(&below).ok().map(|m| m.file_type()), std::fs::read(&below).ok(), std::fs::read(&dir).ok());
            let before = look();
            set_dispatch(Some(Dispatch::new(path(), App).unwrap()));
            if obstacle != "nothing there" {
                mon(|m| m.result = None);
                serve();
                settle();
                match mon(|m| m.result.clone()) {
                    None => fail("C26", format!("{} in the place of the socket, and the event loop runs", obstacle)),
                    Some(e) if e.result.is_ok() => fail("C26", format!("{} in the place of the socket, and the event loop returned Ok", obstacle)),
                    Some(_) => {}
                }
                if look() != before {
                    fail("C26", format!("{} in the place of the socket is not what it was any more", obstacle));
                }
                let _ = std::fs::remove_file(&dir);
                let _ = std::fs::remove_dir_all(&dir);
                std::fs::create_dir(&dir).unwrap();
            }
            //without the obstacle, it works
            mon(|m| m.result = None);
            serve();
            settle();
            forget_clients();
            join("a");
            finish();
            set_dispatch(None);
            let _ = std::fs::remove_dir_all(&dir);
        }
        set_path(base);
        forget_clients();
    } },
    Scn { name: "reject", props: &["C17", "C18", "C26"], cfg: plain, body: || {
        //clients that do not get past the handshake
        start();
        let b = join("b");
        let before = snapshot();
        go();
        thread("bad1", || connect("bad1").send(&msg("posix1.client-hello", &[b"wrong"])));
        thread("bad2", || connect("bad2").send(&msg("want", &[b"core1"])));
        sender(&b, vec![echo("one")]);
        settle();
        check_gone(&before);
        check_served(&b);
        check_delivery();
        finish();
    } },
    Scn { name: "refuse", props: &["C18", "C17"], cfg: plain, body: || {
        //messages that make the application's own handler end the connection
        start();
        let b = join("b");
        let before = snapshot();
        let (a, c) = (join("a"), join("c"));
        go();
        sender(&a, vec![echo("one"), msg("t1.refuse", &[]), echo("two")]);
        sender(&c, vec![cat(&[msg("t1.vanish", &[]), echo("two")])]);
        sender(&b, vec![echo("one")]);
        settle();
        check_gone(&before);
        check_handled("c", &[msg("t1.vanish", &[])]);
        check_served(&b);
        check_delivery();
        finish();
    } },
    Scn { name: "misbehave", props: &["C18", "C25"], cfg: reads, body: || {
        start();
        let (a, b) = (join("a"), join("b"));
        go();
        let long = "t1.".to_string() + &"x".repeat(1010);
        sender(&a, vec![msg(&long, &[]), [b'}'; 1500].to_vec(), b"{1|1000:".to_vec(), vec![b'y'; 2000], b"{9999999999999999999999|".to_vec(), vec![0xff, 0xe2, 0x82, 0, b'"', 0x1b]]);
        sender(&b, vec![echo("one")]);
        settle();
        check_handled("b", &[echo("one")]);
        check_served(&b);
        check_delivery();
        finish();
    } },
    Scn { name: "nope-overflow", props: &["C18", "C15"], cfg: plain, body: || {
        //the reply to this message would exceed the limit
        start();
        let b = join("b");
        let a = join("a");
        go();
        let long = "x".repeat(1008) + "1.a";
        sender(&a, vec![echo("one"), msg("posix1.client-hello", &[&[b'z'; 900]]), msg(&long, &[]), echo("two")]);
        sender(&b, vec![echo("one")]);
        settle();
        check_served(&b);
        check_delivery();
        finish();
    } },
    Scn { name: "stalled", props: &["C18", "C17", "C26"], cfg: tiny, body: || {
        //a client that never reads does not stop the others
        start();
        let (a, b) = (join("a"), join("b"));
        a.reading.set(false);
        go();
        sender(&a, vec![msg("t1.burst", &[b"5", b"900"]), echo("two")]);
        sender(&b, vec![echo("one")]);
        thread("app", || {
            tell_all("x", false);
        });
        settle();
        check_handled("a", &[msg("t1.burst", &[b"5", b"900"]), echo("two")]);
        check_broadcasts();
        check_up(&a);
        check_served(&b);
        a.reading.set(true);
        settle();
        check_delivery();
        finish();
    } },
    Scn { name: "full", props: &["C18", "C17"], cfg: full, body: || {
        //as many connections as possible; the next one waits for its turn
        start();
        let before = snapshot();
        let (a, b) = (join("a"), join("b"));
        go();
        thread("client", || {
            connect("c").send(&cat(&[hello("c"), echo("one")]));
        });
        sender(&a, vec![echo("one")]);
        settle();
        check_running();
        check_admitted("c", false);
        sender(&b, vec![echo("two")]);
        thread("closer", move || a.close());
        settle();
        check_running();
        check_admitted("c", true);
        mc::branching(false);
        for c in clients() {
            if c.up() {
                check_served(&c);
                c.close();
            }
        }
        settle();
        check_gone(&before);
        check_delivery();
        finish();
    } },
    Scn { name: "full-race", props: &["C18", "C17", "C25", "C26"], cfg: full, body: || {
        //some come while others go, by each way of going
        start();
        let before = snapshot();
        let (a, b) = (join("a"), join("b"));
        go();
        for who in ["c", "d"] {
            thread("client", move || {
                connect(who).send(&cat(&[hello(who), echo("one")]));
            });
        }
        sender(&b, vec![msg("t1.die", &[])]);
        thread("closer", move || a.close());
        settle();
        check_running();
        for who in ["c", "d"] {
            check_admitted(who, true);
        }
        mc::branching(false);
        for c in clients() {
            if c.up() {
                check_served(&c);
                c.close();
            }
        }
        settle();
        check_gone(&before);
        check_delivery();
        finish();
    } },
    Scn { name: "full-shutdown", props: &["C19"], cfg: full, body: || {
        start();
        let (a, b) = (join("a"), join("b"));
        go();
        thread("client", || {
            if let Some(c) = Client::connect(&path()) {
                add("c", c).send(&hello("c"));
            }
        });
        sender(&b, vec![echo("one")]);
        thread("closer", move || a.close());
        thread("stopper", || dispatch().shutdown());
        settle();
        check_ended(true);
        check_delivery();
    } },
    Scn { name: "shutdown-idle", props: &["C19"], cfg: plain, body: || {
        server();
        thread("stopper", || {
            if wait_until(|| net::listening(&path())) {
                dispatch().shutdown();
            }
        });
        settle();
        check_ended(true);
    } },
    Scn { name: "shutdown-early", props: &["C19"], cfg: plain, body: || {
        //at any moment since the dispatch exists
        server();
        thread("stopper", || dispatch().shutdown());
        thread("client", || {
            if let Some(c) = Client::connect(&path()) {
                add("a", c).send(&hello("a"));
            }
        });
        settle();
        check_ended(true);
    } },
    Scn { name: "x-redeem-client", props: &["C23"], cfg: reads, body: || example::race_redeem(crate::prog_model::CRED_CLIENT, 3) },
    Scn { name: "x-redeem-stdin", props: &["C23"], cfg: plain, body: || example::race_redeem(crate::prog_model::CRED_IN, 3) },
    Scn { name: "x-redeem-stdout", props: &["C23"], cfg: plain, body: || example::race_redeem(crate::prog_model::CRED_OUT, 2) },
    Scn { name: "x-redeem-screens", props: &["C23"], cfg: plain, body: example::race_screens },
    Scn { name: "x-end", props: &["C23"], cfg: plain, body: example::race_end },
    Scn { name: "x-make", props: &["C23"], cfg: writes, body: example::race_make },
    Scn { name: "x-make-end", props: &["C23"], cfg: plain, body: example::race_make_end },
    Scn { name: "x-misbehave", props: &["C23"], cfg: reads, body: example::misbehave },
    Scn { name: "x-interrupt-early", props: &["C23"], cfg: plain, body: example::interrupt_early },
    Scn { name: "x-interrupt-busy", props: &["C23"], cfg: plain, body: || example::interrupt_busy(false) },
    Scn { name: "x-interrupt-twice", props: &["C23"], cfg: plain, body: || example::interrupt_busy(true) },
    Scn { name: "shutdown-connect", props: &["C19", "C18"], cfg: plain, body: || {
        start();
        go();
        thread("client", || {
            if let Some(c) = Client::connect(&path()) {
                let c = add("a", c);
                c.send(&cat(&[hello("a"), echo("one")]));
            }
        });
        thread("stopper", || dispatch().shutdown());
        settle();
        check_ended(true);
        check_delivery();
    } },
    Scn { name: "shutdown-active", props: &["C19", "C17", "C16", "C26"], cfg: plain, body: || {
        start();
        let (a, b, o) = (join("a"), join("b"), join("out:s"));
        let i = join("in:s");
        go();
        sender(&a, vec![echo("one"), msg("t1.bc", &[])]);
        sender(&o, vec![b"out".to_vec()]);
        thread("closer", move || b.close());
        thread("stopper", || dispatch().shutdown());
        settle();
        check_ended(true);
        check_delivery();
        check_broadcasts();
        let _ = i;
    } },
    Scn { name: "shutdown-stalled", props: &["C19"], cfg: tiny, body: || {
        start();
        let a = join("a");
        a.reading.set(false);
        go();
        sender(&a, vec![msg("t1.burst", &[b"5", b"900"])]);
        thread("stopper", || dispatch().shutdown());
        settle();
        check_ended(true);
    } },
    Scn { name: "shutdown-twice", props: &["C19"], cfg: plain, body: || {
        start();
        let a = join("a");
        go();
        sender(&a, vec![echo("one")]);
        for _ in 0..2 {
            thread("stopper", || dispatch().shutdown());
        }
        settle();
        dispatch().shutdown();
        check_ended(true);
    } },
    Scn { name: "shutdown-handler", props: &["C19"], cfg: plain, body: || {
        start();
        let (a, b) = (join("a"), join("b"));
        go();
        sender(&a, vec![cat(&[msg("t1.shutdown", &[]), echo("one")]), echo("two")]);
        sender(&b, vec![msg("t1.bc", &[]), msg("t1.die", &[])]);
        settle();
        check_ended(true);
        check_delivery();
    } },
    Scn { name: "shutdown-broadcast", props: &["C19"], cfg: plain, body: || {
        start();
        let a = join("a");
        let _b = join("b");
        go();
        sender(&a, vec![echo("one"), msg("t1.kill", &[b"b"])]);
        thread("app", || {
            broadcast(|_| dispatch().shutdown());
        });
        settle();
        check_ended(true);
        check_delivery();
    } },
    Scn { name: "shutdown-run-again", props: &["C19"], cfg: plain, body: || {
        //the event loop of the same dispatch is run once more after it has ended
        start();
        let a = join("a");
        let before = a.got.borrow().len();
        a.send(&echo("one"));
        settle();
        dispatch().shutdown();
        settle();
        check_ended(true);
        mon(|m| m.result = None);
        serve();
        settle();
        let b = join("b");
        b.send(&echo("two"));
        settle();
        check_got(&a, before, &echo("one"));
        if !b.got.borrow().ends_with(&echo("two")) {
            fail("C19", "a client of the second run was not served".into());
        }
        go();
        sender(&b, vec![echo("three")]);
        thread("client", || {
            if let Some(c) = Client::connect(&path()) {
                add("c", c).send(&hello("c"));
            }
        });
        thread("stopper", || dispatch().shutdown());
        settle();
        check_ended(true);
        check_delivery();
    } },
    Scn { name: "shutdown-retry-bind", props: &["C19"], cfg: plain, body: || {
        //the event loop fails, and is run again after some time, with the request at any moment
        std::fs::write(path(), b"in the way").unwrap();
        go();
        server();
        thread("stopper", || dispatch().shutdown());
        settle();
        check_retried();
    } },
    Scn { name: "shutdown-retry-accept", props: &["C19"], cfg: plain, body: || {
        start();
        net::fail_next(net::Op::Accept, EIO);
        go();
        thread("client", || {
            if let Some(c) = Client::connect(&path()) {
                add("a", c).send(&hello("a"));
            }
        });
        thread("stopper", || dispatch().shutdown());
        settle();
        check_retried();
    } },
    Scn { name: "shutdown-retry-connected", props: &["C19"], cfg: plain, body: || {
        //with a connection from before the failure, and another one from after it
        start();
        let a = join("a");
        net::fail_next(net::Op::Accept, EIO);
        connect("b");
        settle();
        a.send(&echo("one"));
        settle();
        serve_again();
        let c = join("c");
        go();
        sender(&a, vec![echo("two")]);
        sender(&c, vec![echo("three")]);
        thread("stopper", || dispatch().shutdown());
        settle();
        check_ended(true);
    } },
    Scn { name: "shutdown-late", props: &["C19", "C17"], cfg: plain, body: || {
        //connections that come while the server goes, and broadcasts afterwards
        start();
        go();
        for who in ["a", "b"] {
            thread("client", move || {
                if let Some(c) = Client::connect(&path()) {
                    add(who, c).send(&hello(who));
                }
            });
        }
        thread("stopper", || {
            dispatch().shutdown();
            tell_all("x", true);
        });
        settle();
        check_ended(true);
        check_delivery();
    } },
];

/// Connections come and go; the memory in use must not grow.
pub fn cycles(how: u8, n: usize) {
    start();
    let d = join("d");
    let mut used = vec![];
    for i in 0..n {
        match how {
            0 => join("a").close(),
            1 => {
                let a = join("a");
                a.send(&echo("one"));
                a.shut();
            }
            2 => join("a").send(&msg("t1.die", &[])),
            3 => {
                join("a");
                d.send(&msg("t1.kill", &[b"a"]));
            }
            4 => connect("one").close(),
            5 => {
                let o = join("out:s");
                o.send(b"output");
                settle();
                o.close();
            }
            6 => {
                let a = join("a");
                a.reading.set(false);
                a.send(&msg("t1.burst", &[b"9", b"1000"]));
                settle();
                a.close();
            }
            7 => connect("bad").send(&msg("want", &[b"core1"])),
            8 => {
                let s = join("in:s");
                type_in("s", vec![1; 9000]);
                settle();
                s.close();
            }
            _ => {
                //the connection stays
                tell_all("x", false);
                d.send(&msg("t1.burst", &[b"5", b"1000"]));
            }
        }
        settle();
        forget_all_but("d");
        used.push(crate::in_use());
        let _ = i;
    }
    let third = used[n / 2];
    if used[n - 1] > third {
        fail("C17", format!("{} bytes in use after {} connections had come and gone, {} after {}", used[n - 1], n, third, n / 2 + 1));
    }
    finish();
}
pub const ENDINGS: u8 = 10;
