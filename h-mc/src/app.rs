//! The application that the explored server runs, and what it records. Everything is per OS thread
//! (one execution runs on one OS thread).

use crate::refs;
use std::cell::RefCell;
use std::collections::BTreeMap;
use vt6::common::core::msg::{self, EncodeMessage, MessageFormatter};
use vt6::common::core::{ClientID, ModuleIdentifier};
use vt6::server::tokio::Dispatch;
use ::tokio::mc;
use vt6::server::{self, *};

/// Identifies a connection (hash of the dispatch's ID for it).
pub type Key = u64;

#[derive(Default)]
pub struct Mon {
    /// Everything put into send queues, by connection.
    pub enq: BTreeMap<Key, Vec<u8>>,
    /// Who a connection turned out to be ("a" for client a, "in:s" and "out:s" for screen s).
    pub who: BTreeMap<String, Key>,
    /// Messages handled after the handshake, by client.
    pub handled: BTreeMap<String, Vec<Vec<u8>>>,
    pub stdout: BTreeMap<String, Vec<u8>>,
    pub discarded: Vec<u8>,
    /// Executions of broadcasts: number of the broadcast -> (connection, was it torn down already).
    pub bc_runs: BTreeMap<u32, Vec<(Key, bool)>>,
    pub bc_next: u32,
    pub opened: usize,
    pub closed: usize,
    /// The I/O errors the application was told of.
    pub io_errors: Vec<String>,
    pub connectors: isize,
    pub registered: Vec<(String, String)>,
    pub result: Option<Ended>,
    /// Connections that a broadcast must reach (if they stay up), by the number of the broadcast.
    pub bc_must: BTreeMap<u32, Vec<Key>>,
    /// The application's own functions use the dispatch.
    pub calls: Calls,
    /// What went wrong: (property, description).
    pub fails: Vec<(&'static str, String)>,
    /// The script has come to its end.
    pub done: bool,
    /// Digest of the order of events.
    pub digest: u64,
    /// The events themselves, if wanted.
    pub log: Option<Vec<String>>,
}

#[derive(Clone, Copy, Debug, Default, PartialEq)]
pub enum Calls {
    #[default]
    Nothing,
    /// broadcasts, from each function that the server calls (and from the connectors' ends)
    Broadcasts,
    /// shutdown(), when a connection has ended
    Shutdown,
    /// shutdown(), when a connection has been opened
    ShutdownOpened,
    /// shutdown(), when a screen's output comes in
    ShutdownStdout,
}

/// How things stood when run_listener() returned.
#[derive(Clone, Debug)]
pub struct Ended {
    pub result: Result<(), String>,
    pub socket_file: bool,
    pub open_sockets: usize,
    pub opened: usize,
    pub closed: usize,
    pub connectors: isize,
}

thread_local! {
    static MON: RefCell<Mon> = RefCell::new(Mon::default());
    static DISPATCH: RefCell<Option<Dispatch<App>>> = const { RefCell::new(None) };
}

pub fn mon<R>(f: impl FnOnce(&mut Mon) -> R) -> R {
    ::tokio::mc::uncounted(|| MON.with(|m| f(&mut m.borrow_mut())))
}
pub fn event(what: &str) {
    mon(|m| {
        m.digest = engine::hash2(m.digest, engine::hash_bytes(what.as_bytes()));
        if let Some(l) = &mut m.log {
            l.push(what.to_string());
        }
    })
}
pub fn reset(log: bool) {
    mon(|m| *m = Mon { log: log.then(Vec::new), ..Mon::default() });
}
pub fn fail(property: &'static str, what: String) {
    event(&format!("FAIL {} {}", property, what));
    mon(|m| m.fails.push((property, what)));
}
pub fn set_dispatch(d: Option<Dispatch<App>>) {
    DISPATCH.with(|x| x.replace(d));
}
pub fn leak_dispatch() {
    DISPATCH.with(|x| std::mem::forget(x.take()));
}
pub fn dispatch() -> Dispatch<App> {
    DISPATCH.with(|x| x.borrow().clone()).expect("server is started")
}

/// The server has called the application, which may use the dispatch then.
fn called(by: &'static str) {
    let calls = mon(|m| m.calls);
    let there = mc::uncounted(|| DISPATCH.with(|d| d.try_borrow().is_ok_and(|d| d.is_some())));
    match (calls, by) {
        (Calls::Broadcasts, _) if there => {
            tell_all(by, false);
        }
        (Calls::Shutdown, "closed") | (Calls::ShutdownOpened, "opened") | (Calls::ShutdownStdout, "stdout") if there => dispatch().shutdown(),
        _ => {}
    }
}

#[derive(Clone, Copy, Debug)]
pub struct App;

#[derive(Debug)]
pub struct MsgConn(ClientIdentity);
impl MessageConnector for MsgConn {
    fn new(id: ClientIdentity) -> Self {
        mon(|m| m.connectors += 1);
        MsgConn(id)
    }
    fn identity(&self) -> &ClientIdentity {
        &self.0
    }
}
impl Drop for MsgConn {
    fn drop(&mut self) {
        mon(|m| m.connectors -= 1);
        called("drop-msg");
    }
}

#[derive(Debug)]
pub struct OutConn(pub ScreenIdentity);
impl StdoutConnector for OutConn {
    fn new(id: ScreenIdentity) -> Self {
        mon(|m| m.connectors += 1);
        OutConn(id)
    }
    fn receive(&mut self, buf: &[u8]) {
        let s = self.0.screen_id().to_string();
        event(&format!("stdout {} {}", s, buf.len()));
        mon(|m| m.stdout.entry(s.clone()).or_default().extend_from_slice(buf));
        called("stdout");
    }
}
impl Drop for OutConn {
    fn drop(&mut self) {
        mon(|m| m.connectors -= 1);
        called("drop-out");
    }
}

impl Application for App {
    type MessageConnector = MsgConn;
    type StdoutConnector = OutConn;
    type MessageHandler = Outer<server::core::MessageHandler<RejectHandler>>;
    type HandshakeHandler = Shake<server::core::HandshakeHandler<RejectHandler>>;

    fn notify(&self, n: &Notification) {
        if n.is_error() != matches!(n, Notification::ConnectionIOError(_)) {
            fail("C26", format!("is_error() of {:?} is {}", n, n.is_error()));
        }
        //(applications write it into their log)
        let text = mc::uncounted(|| n.to_string());
        let what = match n {
            Notification::ConnectionOpened => {
                mon(|m| m.opened += 1);
                "opened"
            }
            Notification::ConnectionClosed => {
                let bad = mon(|m| {
                    m.closed += 1;
                    m.closed > m.opened
                });
                if bad {
                    fail("C17", "a connection was reported closed before it was reported opened".into());
                }
                "closed"
            }
            Notification::ConnectionIOError(_) => {
                mon(|m| m.io_errors.push(text));
                "error"
            }
            Notification::IncomingBytesDiscarded(b) => {
                let b = b.to_vec();
                mon(|m| m.discarded.extend(b));
                "discarded"
            }
        };
        event(what);
        called(what);
    }
    fn register_client(&self, i: ClientIdentity) -> ClientCredentials {
        let c = ClientCredentials::generate();
        mon(|m| m.registered.push((i.client_id().as_str().into(), c.secret().into())));
        called("register");
        c
    }
    fn unregister_clients(&self, _: ClientSelector) {}
    fn has_clients(&self, _: ClientSelector) -> bool {
        false
    }
    fn authorize_client(&self, secret: &str) -> Option<ClientIdentity> {
        called("auth-client");
        let id = secret.strip_prefix("c-")?;
        Some(ClientIdentity::new(&ClientID::parse(id)?))
    }
    fn find_client(&self, _: ClientID<'_>) -> Option<ClientIdentity> {
        None
    }
    fn authorize_stdin(&self, secret: &str) -> Option<ScreenIdentity> {
        called("auth-stdin");
        secret.strip_prefix("i-").map(ScreenIdentity::new)
    }
    fn authorize_stdout(&self, secret: &str) -> Option<ScreenIdentity> {
        called("auth-stdout");
        secret.strip_prefix("o-").map(ScreenIdentity::new)
    }
}

////////////////////////////////////////////////////////////////////////////////
// handlers

pub fn key<D: server::Dispatch<App>>(conn: &Connection<App, D>) -> Key {
    let id = conn.id();
    let n = std::mem::size_of::<D::ConnectionID>();
    let b = unsafe { std::slice::from_raw_parts(&id as *const _ as *const u8, n) };
    engine::hash_bytes(b)
}

pub struct Raw<'a>(pub &'a str, pub &'a [&'a [u8]]);
impl EncodeMessage for Raw<'_> {
    fn encode(&self, buf: &mut [u8]) -> Result<usize, msg::BufferTooSmallError> {
        let mut f = MessageFormatter::new(buf, self.0, self.1.len());
        for a in self.1 {
            f.add_argument(*a);
        }
        f.finalize()
    }
}

/// Records and enqueues a message.
pub fn say<D: server::Dispatch<App>>(conn: &mut Connection<App, D>, ty: &str, args: &[&[u8]]) {
    let k = key(conn);
    let b = refs::render(ty.as_bytes(), args);
    event(&format!("enqueue {}", ty));
    mon(|m| m.enq.entry(k).or_default().extend_from_slice(&b));
    conn.enqueue_message(&Raw(ty, args));
}
fn said<D: server::Dispatch<App>>(conn: &Connection<App, D>, ty: &str, args: &[&[u8]]) {
    let k = key(conn);
    let b = refs::render(ty.as_bytes(), args);
    mon(|m| m.enq.entry(k).or_default().extend_from_slice(&b));
}
pub fn input<D: server::Dispatch<App>>(conn: &mut Connection<App, D>, b: &[u8]) {
    let k = key(conn);
    event("stdin");
    mon(|m| m.enq.entry(k).or_default().extend_from_slice(b));
    conn.enqueue_stdin(b);
}

/// Enqueues a broadcast; returns its number.
pub fn broadcast(action: impl Fn(&mut Connection<App, Dispatch<App>>) + Send + Sync + 'static) -> u32 {
    use vt6::server::Dispatch as _;
    let n = mon(|m| {
        m.bc_next += 1;
        let n = m.bc_next - 1;
        m.bc_must.insert(n, m.who.values().copied().collect());
        n
    });
    dispatch().enqueue_broadcast(Box::new(move |c| {
        let (k, dead) = (key(c), matches!(c.state(), ConnectionState::Teardown));
        event(&format!("broadcast {} {}", n, k));
        mon(|m| m.bc_runs.entry(n).or_default().push((k, dead)));
        action(c)
    }));
    n
}

/// Broadcasts a message to everyone who can receive one.
pub fn tell_all(tag: &'static str, handshaking: bool) -> u32 {
    broadcast(move |c| {
        if matches!(c.state(), ConnectionState::Msgio(_)) || handshaking && c.state().can_receive_messages() {
            say(c, "t1.all", &[tag.as_bytes()]);
        }
    })
}

/// Broadcasts a message, with another broadcast to follow from the first execution, and so on.
fn chain(n: usize) {
    let first = std::sync::atomic::AtomicBool::new(true);
    broadcast(move |c| {
        if matches!(c.state(), ConnectionState::Msgio(_)) {
            say(c, "t1.all", &[b"chain"]);
            if n > 1 && first.swap(false, std::sync::atomic::Ordering::SeqCst) {
                chain(n - 1);
            }
        }
    });
}

/// A chain of broadcasts, the `at`-th of which (counted from the last) ends the connection of a client.
pub fn chain_ending(n: usize, at: usize, victim: &'static str) -> u32 {
    let first = std::sync::atomic::AtomicBool::new(true);
    broadcast(move |c| {
        if n > 1 && first.swap(false, std::sync::atomic::Ordering::SeqCst) {
            chain_ending(n - 1, at, victim);
        }
        if n == at && matches!(c.state(), ConnectionState::Msgio(m) if m.identity().client_id().as_str() == victim) {
            c.set_state(ConnectionState::Teardown);
        } else if matches!(c.state(), ConnectionState::Msgio(_)) {
            say(c, "t1.all", &[b"chain"]);
        }
    })
}

/// Broadcasts the end of all connections except that of a client.
pub fn end_all_but(who: &'static str) -> u32 {
    broadcast(move |c| {
        if !matches!(c.state(), ConnectionState::Msgio(m) if m.identity().client_id().as_str() == who) {
            c.set_state(ConnectionState::Teardown);
        }
    })
}

/// Broadcasts input for a screen.
pub fn type_in(screen: &'static str, data: Vec<u8>) -> u32 {
    broadcast(move |c| {
        if c.state().can_receive_stdin_for_screen(&ScreenIdentity::new(screen)) {
            input(c, &data);
        }
    })
}

#[derive(Default)]
pub struct Shake<H>(H);
impl<H: HandshakeHandler<App>> Handler<App> for Shake<H> {
    fn handle<D: server::Dispatch<App>>(&self, m: &msg::Message, conn: &mut Connection<App, D>) -> Result<(), HandlerError> {
        mc::uncounted(|| format!("{} in {}", m, conn.state().type_name()));
        let r = self.0.handle(m, conn);
        let k = key(conn);
        let who = match conn.state() {
            ConnectionState::Msgio(c) => c.identity().client_id().as_str().to_string(),
            ConnectionState::Stdin(s) => format!("in:{}", s.screen_id()),
            ConnectionState::Stdout(c) => format!("out:{}", c.0.screen_id()),
            _ => return r,
        };
        event(&format!("handshake {}", who));
        mon(|m| m.who.insert(who.clone(), k));
        if matches!(conn.state(), ConnectionState::Msgio(_)) {
            said(conn, "posix1.server-hello", &[who.as_bytes(), b"", b"", b""]);
        }
        r
    }
    fn handle_error<D: server::Dispatch<App>>(&self, e: &msg::ParseError, conn: &mut Connection<App, D>) {
        mc::uncounted(|| format!("{} at {}", e.kind, e.offset));
        self.0.handle_error(e, conn)
    }
}
impl<H: HandshakeHandler<App>> HandshakeHandler<App> for Shake<H> {}

#[derive(Default)]
pub struct Outer<H>(H);
impl<H: MessageHandler<App>> MessageHandler<App> for Outer<H> {
    fn get_supported_module_version(&self, m: &ModuleIdentifier<'_>) -> Option<u16> {
        self.0.get_supported_module_version(m)
    }
}
impl<H: MessageHandler<App>> Handler<App> for Outer<H> {
    fn handle<D: server::Dispatch<App>>(&self, m: &msg::Message, conn: &mut Connection<App, D>) -> Result<(), HandlerError> {
        let who = match conn.state() {
            ConnectionState::Msgio(c) => c.identity().client_id().as_str().to_string(),
            _ => "?".into(),
        };
        mc::uncounted(|| format!("{} in {}", m, conn.state().type_name()));
        let ty = m.parsed_type().as_str().to_string();
        let args: Vec<&[u8]> = m.arguments().collect();
        let raw = refs::render(ty.as_bytes(), &args);
        event(&format!("handle {} {}", who, ty));
        mon(|m| m.handled.entry(who.clone()).or_default().push(raw.clone()));
        let text = |i: usize| args.get(i).map_or("", |a| std::str::from_utf8(a).unwrap_or(""));
        match &ty[..] {
            "t1.echo" => say(conn, "t1.echo", &args),
            //n replies with an argument of the given length
            "t1.burst" => {
                let (n, len): (usize, usize) = (text(0).parse().unwrap(), text(1).parse().unwrap());
                for i in 0..n {
                    say(conn, "t1.burst", &[&vec![b'a' + (i % 26) as u8; len]]);
                }
            }
            "t1.bc" => {
                tell_all("bc", false);
            }
            "t1.many" => {
                for _ in 0..text(0).parse().unwrap() {
                    tell_all("bc", false);
                }
            }
            "t1.chain" => chain(text(0).parse().unwrap()),
            //broadcasts before and after a chain of them that ends somebody's connection
            "t1.among" => {
                let n = |i: usize| text(i).parse::<usize>().unwrap();
                for _ in 0..n(0) {
                    tell_all("bc", false);
                }
                chain_ending(n(1), n(2), if n(4) == 0 { "b" } else { "a" });
                for _ in 0..n(3) {
                    tell_all("bc", false);
                }
            }
            "t1.nested" => {
                broadcast(|c| {
                    if matches!(c.state(), ConnectionState::Msgio(_)) {
                        say(c, "t1.all", &[b"outer"]);
                        tell_all("inner", false);
                    }
                });
            }
            //tear down the connection of the given client
            "t1.kill" => {
                let victim = text(0).to_string();
                broadcast(move |c| {
                    let hit = matches!(c.state(), ConnectionState::Msgio(m) if m.identity().client_id().as_str() == victim);
                    if hit {
                        c.set_state(ConnectionState::Teardown);
                    }
                });
            }
            "t1.in" => {
                let (screen, data) = (ScreenIdentity::new(text(0)), args[1].to_vec());
                broadcast(move |c| {
                    if c.state().can_receive_stdin_for_screen(&screen) {
                        input(c, &data);
                    }
                });
            }
            "t1.die" => conn.set_state(ConnectionState::Teardown),
            //dismantles the connection because of an error
            "t1.refuse" => {
                conn.set_state(ConnectionState::Teardown);
                return Err(HandlerError::InvalidMessage);
            }
            "t1.vanish" => {
                conn.set_state(ConnectionState::Teardown);
                return Err(HandlerError::UnknownMessageType);
            }
            "t1.shutdown" => dispatch().shutdown(),
            "t1.quiet" => {}
            _ => {
                let r = self.0.handle(m, conn);
                match (&r, &ty[..]) {
                    (Ok(()), "want") => match text(0) {
                        v @ ("core1" | "posix1") => said(conn, "have", &[format!("{}.0", v).as_bytes()]),
                        v => said(conn, "have", &[v.as_bytes()]),
                    },
                    (Ok(()), "core1.client-make") => {
                        let s = mon(|m| m.registered.last().unwrap().1.clone());
                        said(conn, "core1.client-new", &[s.as_bytes()]);
                    }
                    (Ok(()), _) => {}
                    (Err(HandlerError::InvalidMessage), _) => said(conn, "nope", &[ty.as_bytes()]),
                    (Err(HandlerError::UnknownMessageType), _) => match ty.split_once('.') {
                        Some((v @ ("core1" | "posix1"), _)) => said(conn, "have", &[format!("{}.0", v).as_bytes()]),
                        Some((v, _)) => said(conn, "have", &[v.as_bytes()]),
                        None => said(conn, "nope", &[ty.as_bytes()]),
                    },
                }
                return r;
            }
        }
        Ok(())
    }
    fn handle_error<D: server::Dispatch<App>>(&self, e: &msg::ParseError, conn: &mut Connection<App, D>) {
        mc::uncounted(|| format!("{} at {}", e.kind, e.offset));
        self.0.handle_error(e, conn)
    }
}
