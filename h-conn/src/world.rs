//! The real connection code (`server::Connection`, the library's handlers, the real receive buffer)
//! with an in-memory dispatch and an application that records everything.

use crate::refs;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};
use vt6::common::core::msg::{self, EncodeMessage, MessageFormatter};
use vt6::common::core::{ClientID, ModuleIdentifier};
use vt6::server::{self, *};

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum Ev {
    /// A message reached the handlers.
    Handled(usize, Vec<u8>),
    /// A message was put into the connection's send queue.
    Reply(usize, Vec<u8>),
    Discard(usize, Vec<u8>),
    Stdout(String, Vec<u8>),
    Stdin(usize, Vec<u8>),
    AuthClient(Vec<u8>, Option<String>),
    AuthStdin(Vec<u8>, Option<String>),
    AuthStdout(Vec<u8>, Option<String>),
    Register(String, [Option<String>; 3]),
    /// (strictly, id)
    Unregister(bool, String),
    IoError(usize),
}

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct Reg {
    pub id: String,
    pub screens: [Option<String>; 3],
    pub secret: Vec<u8>,
    pub redeemed: bool,
}

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct Scr {
    pub screen: String,
    pub secret: Vec<u8>,
    pub redeemed: bool,
}

#[derive(Default)]
pub struct AppState {
    pub clients: Vec<Reg>,
    pub stdin: Vec<Scr>,
    pub stdout: Vec<Scr>,
    pub log: Vec<Ev>,
    pub cur: usize,
    /// How often the application was asked about registrations.
    pub queries: u64,
    /// How often the last handler of the chain was told about input that is no message.
    pub errors: u64,
    /// Every secret issued so far; number k is shown as token k.
    pub secrets: Vec<Vec<u8>>,
}

thread_local! {
    static STDOUT: RefCell<Vec<(String, Vec<u8>)>> = const { RefCell::new(vec![]) };
}

impl AppState {
    fn flush_stdout(&mut self) {
        STDOUT.with(|s| {
            for (screen, b) in s.borrow_mut().drain(..) {
                self.log.push(Ev::Stdout(screen, b));
            }
        });
    }
    fn push(&mut self, e: Ev) {
        self.flush_stdout();
        self.log.push(e);
    }
    /// Replaces secrets (which are random) by their tokens.
    pub fn normalise(&self, b: &[u8]) -> Vec<u8> {
        let mut v = b.to_vec();
        for (k, s) in self.secrets.iter().enumerate() {
            //presets have their tokens as secrets
            if s.len() < 8 || s.starts_with(b"~SECRET-") {
                continue;
            }
            let mut i = 0;
            while i + s.len() <= v.len() {
                if v[i..i + s.len()] == s[..] {
                    let t = token(k, s.len());
                    v[i..i + s.len()].copy_from_slice(&t);
                    i += s.len();
                } else {
                    i += 1;
                }
            }
        }
        v
    }
    fn issue_client(&mut self) -> (ClientCredentials, Vec<u8>) {
        let c = ClientCredentials::generate();
        let s = c.secret().as_bytes().to_vec();
        self.secrets.push(s.clone());
        (c, s)
    }
}

pub const PRESET_LEN: usize = 32;

pub fn token(k: usize, len: usize) -> Vec<u8> {
    let mut t = format!("~SECRET-{}", k).into_bytes();
    t.resize(len, b'~');
    t
}

pub fn prefix(p: &str, s: &str) -> bool {
    s.len() >= p.len() && s.as_bytes()[..p.len()] == p.as_bytes()[..]
}

/// Is `id` a member, by the definition in the property (not by asking the library)?
pub fn selected(strictly: bool, sel: &str, id: &str) -> bool {
    prefix(sel, id) && !(strictly && sel == id)
}

fn sel_parts(s: &ClientSelector) -> (bool, String) {
    match s {
        ClientSelector::StrictlyBelow(id) => (true, id.as_str().to_string()),
        ClientSelector::AtOrBelow(id) => (false, id.as_str().to_string()),
    }
}

fn make_identity(r: &Reg) -> ClientIdentity {
    let mut i = ClientIdentity::new(&ClientID::parse(&r.id).unwrap());
    if let Some(ref s) = r.screens[0] {
        i = i.with_stdin(s);
    }
    if let Some(ref s) = r.screens[1] {
        i = i.with_stdout(s);
    }
    if let Some(ref s) = r.screens[2] {
        i = i.with_stderr(s);
    }
    i
}

pub fn identity_parts(i: &ClientIdentity) -> (String, [Option<String>; 3]) {
    (
        i.client_id().as_str().to_string(),
        [i.stdin_screen_id().map(String::from), i.stdout_screen_id().map(String::from), i.stderr_screen_id().map(String::from)],
    )
}

#[derive(Clone)]
pub struct App(pub Arc<Mutex<AppState>>);

impl std::fmt::Debug for App {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str("App")
    }
}

#[derive(Debug)]
pub struct MsgConn(ClientIdentity);
impl MessageConnector for MsgConn {
    fn new(id: ClientIdentity) -> Self {
        MsgConn(id)
    }
    fn identity(&self) -> &ClientIdentity {
        &self.0
    }
}

#[derive(Debug)]
pub struct OutConn(pub ScreenIdentity);
impl StdoutConnector for OutConn {
    fn new(id: ScreenIdentity) -> Self {
        OutConn(id)
    }
    fn receive(&mut self, buf: &[u8]) {
        STDOUT.with(|s| s.borrow_mut().push((self.0.screen_id().into(), buf.to_vec())));
    }
}

impl Application for App {
    type MessageConnector = MsgConn;
    type StdoutConnector = OutConn;
    type MessageHandler = Outer<server::core::MessageHandler<Foo2<RejectHandler>>>;
    type HandshakeHandler = Outer<server::core::HandshakeHandler<RejectHandler>>;

    fn notify(&self, n: &Notification) {
        //(applications write it into their log)
        let _ = n.to_string();
        let mut s = self.0.lock().unwrap();
        let cur = s.cur;
        match n {
            Notification::IncomingBytesDiscarded(b) => {
                let b = b.to_vec();
                s.push(Ev::Discard(cur, b))
            }
            Notification::ConnectionIOError(_) => s.push(Ev::IoError(cur)),
            _ => {}
        }
    }
    fn register_client(&self, i: ClientIdentity) -> ClientCredentials {
        let mut s = self.0.lock().unwrap();
        let (c, secret) = s.issue_client();
        let (id, screens) = identity_parts(&i);
        s.push(Ev::Register(id.clone(), screens.clone()));
        s.clients.push(Reg { id, screens, secret, redeemed: false });
        c
    }
    fn unregister_clients(&self, sel: ClientSelector) {
        let mut s = self.0.lock().unwrap();
        let (strictly, id) = sel_parts(&sel);
        s.clients.retain(|r| !selected(strictly, &id, &r.id));
        s.push(Ev::Unregister(strictly, id));
    }
    fn has_clients(&self, sel: ClientSelector) -> bool {
        let mut s = self.0.lock().unwrap();
        s.queries += 1;
        let (strictly, id) = sel_parts(&sel);
        s.clients.iter().any(|r| selected(strictly, &id, &r.id))
    }
    fn authorize_client(&self, secret: &str) -> Option<ClientIdentity> {
        let mut s = self.0.lock().unwrap();
        let found = s.clients.iter_mut().find(|r| r.secret == secret.as_bytes() && !r.redeemed).map(|r| {
            r.redeemed = true;
            make_identity(r)
        });
        s.push(Ev::AuthClient(secret.as_bytes().to_vec(), found.as_ref().map(|i| identity_parts(i).0)));
        found
    }
    fn find_client(&self, id: ClientID<'_>) -> Option<ClientIdentity> {
        let mut s = self.0.lock().unwrap();
        s.queries += 1;
        s.clients.iter().find(|r| r.id == id.as_str()).map(make_identity)
    }
    fn authorize_stdin(&self, secret: &str) -> Option<ScreenIdentity> {
        let mut s = self.0.lock().unwrap();
        let found = s.stdin.iter_mut().find(|r| r.secret == secret.as_bytes() && !r.redeemed).map(|r| {
            r.redeemed = true;
            r.screen.clone()
        });
        s.push(Ev::AuthStdin(secret.as_bytes().to_vec(), found.clone()));
        found.map(|f| ScreenIdentity::new(&f))
    }
    fn authorize_stdout(&self, secret: &str) -> Option<ScreenIdentity> {
        let mut s = self.0.lock().unwrap();
        let found = s.stdout.iter_mut().find(|r| r.secret == secret.as_bytes() && !r.redeemed).map(|r| {
            r.redeemed = true;
            r.screen.clone()
        });
        s.push(Ev::AuthStdout(secret.as_bytes().to_vec(), found.clone()));
        found.map(|f| ScreenIdentity::new(&f))
    }
}

////////////////////////////////////////////////////////////////////////////////
// handlers

/// Outermost handler: records what is handled.
#[derive(Default)]
pub struct Outer<H>(H);

fn raw(m: &msg::Message) -> Vec<u8> {
    let args: Vec<&[u8]> = m.arguments().collect();
    refs::render(m.parsed_type().as_str().as_bytes(), &args)
}

impl<H: Handler<App>> Handler<App> for Outer<H> {
    fn handle<D: server::Dispatch<App>>(&self, m: &msg::Message, conn: &mut Connection<App, D>) -> Result<(), HandlerError> {
        {
            let d = conn.dispatch();
            let mut s = d.application().0.lock().unwrap();
            let cur = s.cur;
            s.push(Ev::Handled(cur, raw(m)));
        }
        let _ = format!("{} in {}", m, conn.state().type_name());
        self.0.handle(m, conn)
    }
    fn handle_error<D: server::Dispatch<App>>(&self, e: &msg::ParseError, conn: &mut Connection<App, D>) {
        let _ = format!("{} at {}", e.kind, e.offset);
        self.0.handle_error(e, conn)
    }
}
impl<H: MessageHandler<App>> MessageHandler<App> for Outer<H> {
    fn get_supported_module_version(&self, m: &ModuleIdentifier<'_>) -> Option<u16> {
        self.0.get_supported_module_version(m)
    }
}
impl<H: HandshakeHandler<App>> HandshakeHandler<App> for Outer<H> {}

pub struct RawMsg {
    pub ty: &'static str,
    pub args: Vec<Vec<u8>>,
}
impl EncodeMessage for RawMsg {
    fn encode(&self, buf: &mut [u8]) -> Result<usize, msg::BufferTooSmallError> {
        let mut f = MessageFormatter::new(buf, self.ty, self.args.len());
        for a in &self.args {
            f.add_argument(&a[..]);
        }
        f.finalize()
    }
}

/// A further module, chained behind the library's handler: foo2.7
#[derive(Default)]
pub struct Foo2<Next>(Next);

impl<Next: server::core::MessageHandlerExt<App>> MessageHandler<App> for Foo2<Next> {
    fn get_supported_module_version(&self, m: &ModuleIdentifier<'_>) -> Option<u16> {
        if m.as_str() == "foo2" {
            Some(7)
        } else if let Some(major) = m.as_str().strip_prefix("vers").and_then(|v| v.parse::<u16>().ok()) {
            //modules with a minor version of every size
            Some(major.wrapping_sub(2))
        } else {
            self.0.get_supported_module_version(m)
        }
    }
}
impl<Next: server::core::MessageHandlerExt<App>> server::core::MessageHandlerExt<App> for Foo2<Next> {}
impl<Next: server::core::MessageHandlerExt<App>> Handler<App> for Foo2<Next> {
    fn handle<D: server::Dispatch<App>>(&self, m: &msg::Message, conn: &mut Connection<App, D>) -> Result<(), HandlerError> {
        let args: Vec<Vec<u8>> = m.arguments().map(|a| a.to_vec()).collect();
        match m.parsed_type().as_str() {
            "foo2.ping" => {
                if !args.is_empty() {
                    return Err(HandlerError::InvalidMessage);
                }
                conn.enqueue_message(&RawMsg { ty: "foo2.pong", args });
                Ok(())
            }
            "foo2.two" => {
                conn.enqueue_message(&RawMsg { ty: "foo2.one", args: vec![] });
                conn.enqueue_message(&RawMsg { ty: "foo2.other", args: vec![] });
                Ok(())
            }
            "foo2.quiet" => Ok(()),
            "foo2.die" => {
                conn.set_state(ConnectionState::Teardown);
                Ok(())
            }
            //dismantles the connection because of an error
            "foo2.refuse" => {
                conn.set_state(ConnectionState::Teardown);
                Err(HandlerError::InvalidMessage)
            }
            "foo2.vanish" => {
                conn.set_state(ConnectionState::Teardown);
                Err(HandlerError::UnknownMessageType)
            }
            //turns the connection into another one
            "foo2.out" => {
                conn.set_state(ConnectionState::Stdout(OutConn(ScreenIdentity::new("s9"))));
                Ok(())
            }
            "foo2.bc" => {
                conn.dispatch().enqueue_broadcast(Box::new(move |c| {
                    if let ConnectionState::Msgio(_) = c.state() {
                        c.enqueue_message(&RawMsg { ty: "foo2.all", args: args.clone() });
                    }
                }));
                Ok(())
            }
            _ => self.0.handle(m, conn),
        }
    }
    fn handle_error<D: server::Dispatch<App>>(&self, e: &msg::ParseError, conn: &mut Connection<App, D>) {
        conn.dispatch().application().0.lock().unwrap().errors += 1;
        self.0.handle_error(e, conn)
    }
}

////////////////////////////////////////////////////////////////////////////////
// the dispatch

pub struct MockInner {
    app: App,
    #[allow(clippy::type_complexity)]
    queue: Mutex<Vec<Box<dyn Fn(&mut Connection<App, Mock>) + Send + Sync>>>,
}

#[derive(Clone)]
pub struct Mock(Arc<MockInner>);

impl server::Dispatch<App> for Mock {
    type ConnectionID = usize;
    fn application(&self) -> &App {
        &self.0.app
    }
    fn enqueue_broadcast(&self, action: Box<dyn Fn(&mut Connection<App, Self>) + Send + Sync>) {
        self.0.queue.lock().unwrap().push(action);
    }
    fn enqueue_message<M: EncodeMessage>(&self, conn: &mut Connection<App, Self>, m: &M) {
        assert!(conn.state().can_receive_messages(), "enqueue_message() on a connection in state {}", conn.state().type_name());
        let mut buf = [0u8; 4072];
        match m.encode(&mut buf) {
            Ok(n) => {
                let id = conn.id();
                let mut s = self.0.app.0.lock().unwrap();
                s.push(Ev::Reply(id, buf[..n].to_vec()));
            }
            //like the real dispatch: a reply that cannot be sent ends the connection
            Err(_) => conn.set_state(ConnectionState::Teardown),
        }
    }
    fn enqueue_stdin(&self, conn: &mut Connection<App, Self>, buf: &[u8]) {
        assert!(conn.state().can_receive_stdin(), "enqueue_stdin() on a connection in state {}", conn.state().type_name());
        let id = conn.id();
        let mut s = self.0.app.0.lock().unwrap();
        s.push(Ev::Stdin(id, buf.to_vec()));
    }
}

#[derive(Clone, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Mode {
    Handshake,
    Msgio(String, [Option<String>; 3]),
    Stdin(String),
    Stdout(String),
    Teardown,
}

pub struct World {
    pub app: App,
    pub dispatch: Mock,
    pub conns: BTreeMap<usize, (Connection<App, Mock>, bytes::BytesMut)>,
    next: usize,
}

impl World {
    pub fn new() -> World {
        STDOUT.with(|s| s.borrow_mut().clear());
        let app = App(Arc::new(Mutex::new(AppState::default())));
        let dispatch = Mock(Arc::new(MockInner { app: app.clone(), queue: Mutex::new(vec![]) }));
        World { app, dispatch, conns: BTreeMap::new(), next: 0 }
    }
    pub fn state(&self) -> std::sync::MutexGuard<'_, AppState> {
        self.app.0.lock().unwrap()
    }
    /// Registers a client as the terminal itself would (with a secret of the application's choice).
    pub fn preset_client(&mut self, id: &str, screens: [Option<String>; 3]) -> usize {
        let mut s = self.state();
        let secret = token(s.secrets.len(), PRESET_LEN);
        s.secrets.push(secret.clone());
        s.clients.push(Reg { id: id.into(), screens, secret, redeemed: false });
        s.secrets.len() - 1
    }
    pub fn preset_screen(&mut self, screen: &str) -> (usize, usize) {
        let mut s = self.state();
        let k = s.secrets.len();
        let (a, b) = (token(k, PRESET_LEN), token(k + 1, PRESET_LEN));
        s.secrets.extend([a.clone(), b.clone()]);
        s.stdin.push(Scr { screen: screen.into(), secret: a, redeemed: false });
        s.stdout.push(Scr { screen: screen.into(), secret: b, redeemed: false });
        (k, k + 1)
    }
    pub fn secret(&self, k: usize) -> Vec<u8> {
        self.state().secrets[k].clone()
    }
    pub fn open(&mut self) -> usize {
        let id = self.next;
        self.next += 1;
        let c = Connection::new(self.dispatch.clone(), id);
        self.conns.insert(id, (c, bytes::BytesMut::with_capacity(1024)));
        id
    }
    /// Delivers bytes like one read of the receiver job does.
    pub fn feed(&mut self, id: usize, b: &[u8]) {
        self.state().cur = id;
        if let Some((conn, buf)) = self.conns.get_mut(&id) {
            buf.extend_from_slice(b);
            if !buf.is_empty() {
                conn.handle_incoming(buf);
            }
        }
        self.state().flush_stdout();
        self.broadcasts();
    }
    pub fn broadcasts(&mut self) {
        loop {
            let q = std::mem::take(&mut *self.dispatch.0.queue.lock().unwrap());
            if q.is_empty() {
                break;
            }
            for b in q {
                for (id, (c, _)) in self.conns.iter_mut() {
                    self.app.0.lock().unwrap().cur = *id;
                    b(c);
                }
            }
        }
        self.state().flush_stdout();
    }
    pub fn mode(&self, id: usize) -> Mode {
        match self.conns[&id].0.state() {
            ConnectionState::Handshake => Mode::Handshake,
            ConnectionState::Msgio(c) => {
                let (id, s) = identity_parts(c.identity());
                Mode::Msgio(id, s)
            }
            ConnectionState::Stdin(s) => Mode::Stdin(s.screen_id().into()),
            ConnectionState::Stdout(c) => Mode::Stdout(c.0.screen_id().into()),
            ConnectionState::Teardown => Mode::Teardown,
        }
    }
    pub fn pending(&self, id: usize) -> Vec<u8> {
        self.conns[&id].1.to_vec()
    }
    pub fn take_log(&mut self) -> Vec<Ev> {
        let mut s = self.state();
        std::mem::take(&mut s.log)
    }
    /// The log since the last call, with secrets replaced by their tokens and adjacent pieces of raw
    /// data joined.
    pub fn events(&mut self) -> Vec<Ev> {
        let log = self.take_log();
        let s = self.state();
        canonical(log.into_iter().map(|e| norm_ev(&s, e)).collect())
    }
    pub fn modes(&self) -> Vec<Mode> {
        (0..self.next).map(|i| if self.conns.contains_key(&i) { self.mode(i) } else { Mode::Teardown }).collect()
    }
    /// The peer went away.
    pub fn close(&mut self, id: usize) {
        self.conns.remove(&id);
    }
    /// Registrations with normalised secrets, sorted.
    pub fn registry(&self) -> Vec<Reg> {
        let s = self.state();
        let mut v: Vec<Reg> = s.clients.iter().map(|r| Reg { secret: s.normalise(&r.secret), ..r.clone() }).collect();
        v.sort_by(|a, b| (&a.id, &a.secret).cmp(&(&b.id, &b.secret)));
        v
    }
}

fn norm_ev(s: &AppState, e: Ev) -> Ev {
    match e {
        Ev::Handled(c, b) => Ev::Handled(c, s.normalise(&b)),
        Ev::Reply(c, b) => Ev::Reply(c, s.normalise(&b)),
        Ev::Discard(c, b) => Ev::Discard(c, s.normalise(&b)),
        Ev::Stdout(c, b) => Ev::Stdout(c, s.normalise(&b)),
        Ev::AuthClient(b, r) => Ev::AuthClient(s.normalise(&b), r),
        Ev::AuthStdin(b, r) => Ev::AuthStdin(s.normalise(&b), r),
        Ev::AuthStdout(b, r) => Ev::AuthStdout(s.normalise(&b), r),
        e => e,
    }
}

/// Joins adjacent pieces of raw data (how they are cut is up to the reads).
pub fn canonical(log: Vec<Ev>) -> Vec<Ev> {
    let mut out: Vec<Ev> = vec![];
    for e in log {
        match (out.last_mut(), &e) {
            (Some(Ev::Discard(c, b)), Ev::Discard(d, x)) if c == d => b.extend_from_slice(x),
            (Some(Ev::Stdout(c, b)), Ev::Stdout(d, x)) if c == d => b.extend_from_slice(x),
            (Some(Ev::Stdin(c, b)), Ev::Stdin(d, x)) if c == d => b.extend_from_slice(x),
            (_, Ev::Discard(_, b)) | (_, Ev::Stdout(_, b)) | (_, Ev::Stdin(_, b)) if b.is_empty() => {}
            _ => out.push(e),
        }
    }
    out
}

pub fn show_ev(e: &Ev) -> String {
    use engine::show;
    match e {
        Ev::Handled(c, b) => format!("handled #{} {}", c, show(b)),
        Ev::Reply(c, b) => format!("reply #{} {}", c, show(b)),
        Ev::Discard(c, b) => format!("discard #{} {}", c, show(b)),
        Ev::Stdout(s, b) => format!("stdout {} {}", s, show(b)),
        Ev::Stdin(c, b) => format!("stdin #{} {}", c, show(b)),
        Ev::AuthClient(s, r) => format!("authorize_client {} -> {:?}", show(s), r),
        Ev::AuthStdin(s, r) => format!("authorize_stdin {} -> {:?}", show(s), r),
        Ev::AuthStdout(s, r) => format!("authorize_stdout {} -> {:?}", show(s), r),
        Ev::Register(i, s) => format!("register {} {:?}", i, s),
        Ev::Unregister(s, i) => format!("unregister {}{}", if *s { "strictly below " } else { "at or below " }, i),
        Ev::IoError(c) => format!("io-error #{}", c),
    }
}

pub fn show_log(l: &[Ev]) -> String {
    l.iter().map(show_ev).collect::<Vec<_>>().join("; ")
}
