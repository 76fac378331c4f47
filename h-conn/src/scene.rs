//! The scene that most explorations start from, and the menus of things a client can send.

use crate::model::Model;
use crate::refs;
use crate::world::*;
use std::sync::OnceLock;

/// Token numbers of the secrets in the scene that are not redeemed yet.
pub const SECRET_FRESH: usize = 3; //client "c"
pub const SECRET_STDIN: usize = 4; //screen s1
pub const SECRET_STDOUT: usize = 5;
pub const SECRET_USED: usize = 0; //client "a", redeemed by the setup

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Start {
    Handshake,
    Msgio,
    Stdin,
    Stdout,
}

impl Start {
    pub fn from(b: u8) -> Start {
        [Start::Handshake, Start::Msgio, Start::Stdin, Start::Stdout][b as usize]
    }
}

/// The connection under test.
pub const SUBJECT: usize = 3;

pub fn secret(k: usize) -> Vec<u8> {
    token(k, PRESET_LEN)
}
pub fn hello(kind: &str, k: usize) -> Vec<u8> {
    refs::render(format!("posix1.{}-hello", kind).as_bytes(), &[&secret(k)])
}
pub fn m(ty: &str, args: &[&str]) -> Vec<u8> {
    let a: Vec<&[u8]> = args.iter().map(|a| a.as_bytes()).collect();
    refs::render(ty.as_bytes(), &a)
}

fn issued_len() -> usize {
    static L: OnceLock<usize> = OnceLock::new();
    *L.get_or_init(|| vt6::server::ClientCredentials::generate().secret().len())
}

fn screens() -> [Option<String>; 3] {
    [Some("s1".into()), None, Some("e".into())]
}

pub trait Sut {
    fn client(&mut self, id: &str, s: [Option<String>; 3]);
    fn screen(&mut self, id: &str);
    fn connect(&mut self) -> usize;
    fn send(&mut self, c: usize, b: &[u8]);
}
impl Sut for World {
    fn client(&mut self, id: &str, s: [Option<String>; 3]) {
        self.preset_client(id, s);
    }
    fn screen(&mut self, id: &str) {
        self.preset_screen(id);
    }
    fn connect(&mut self) -> usize {
        self.open()
    }
    fn send(&mut self, c: usize, b: &[u8]) {
        self.feed(c, b)
    }
}
impl Sut for Model {
    fn client(&mut self, id: &str, s: [Option<String>; 3]) {
        self.preset_client(id, s);
    }
    fn screen(&mut self, id: &str) {
        self.preset_screen(id)
    }
    fn connect(&mut self) -> usize {
        self.open()
    }
    fn send(&mut self, c: usize, b: &[u8]) {
        self.feed(c, b)
    }
}

/// Clients a (screens), a1 and b are connected as #0..#2; #3 is the connection under test: a fresh
/// one, or one that has done its handshake (in msgio mode as client "c").
fn setup(s: &mut dyn Sut, start: Start) {
    s.client("a", screens());
    s.client("a1", [None, None, None]);
    s.client("b", [None, None, None]);
    s.client("c", [None, Some("s1".into()), None]);
    s.screen("s1");
    s.client("c9", [None, None, None]); //a registration that was not redeemed yet
    s.client("c5", [None, None, None]);
    s.screen("s2");
    for k in 0..3 {
        let c = s.connect();
        s.send(c, &hello("client", k));
    }
    let c = s.connect();
    assert_eq!(c, SUBJECT);
    match start {
        Start::Handshake => {}
        Start::Msgio => s.send(c, &hello("client", SECRET_FRESH)),
        Start::Stdin => s.send(c, &hello("stdin", SECRET_STDIN)),
        Start::Stdout => s.send(c, &hello("stdout", SECRET_STDOUT)),
    }
    if start == Start::Msgio {
        //one client below the subject is connected, too
        let c = s.connect();
        s.send(c, &hello("client", 7)); //c5
    }
}

pub fn world(start: Start) -> World {
    let mut w = World::new();
    setup(&mut w, start);
    w.take_log();
    w
}

pub fn model(start: Start) -> Model {
    let mut m = Model { secret_len: issued_len(), ..Default::default() };
    setup(&mut m, start);
    m.log.clear();
    m.replies_too_long = 0;
    m
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Snap {
    pub events: Vec<Ev>,
    pub modes: Vec<Mode>,
    pub pending: Vec<u8>,
    pub registry: Vec<Reg>,
}

impl Snap {
    pub fn of_world(w: &mut World, subject: usize) -> Snap {
        let modes = w.modes();
        let pending = if modes[subject] == Mode::Teardown { vec![] } else { let p = w.pending(subject); w.state().normalise(&p) };
        let registry = w.registry();
        Snap { events: w.events(), modes, pending, registry }
    }
    pub fn of_model(m: &mut Model, subject: usize) -> Snap {
        let modes: Vec<Mode> = m.conns.iter().map(|c| c.mode.clone()).collect();
        let pending = if modes[subject] == Mode::Teardown { vec![] } else { m.conns[subject].pending.clone() };
        let registry = m.registry();
        Snap { events: canonical(std::mem::take(&mut m.log)), modes, pending, registry }
    }
    /// How much of the input is discarded along with a dying connection does not matter.
    pub fn forget_dead(mut self, subject: usize) -> Snap {
        if self.modes[subject] == Mode::Teardown {
            while matches!(self.events.last(), Some(Ev::Discard(c, _)) if *c == subject) {
                self.events.pop();
            }
        }
        self
    }
    pub fn diff(&self, o: &Snap) -> String {
        if self.events != o.events {
            format!("[{}] instead of [{}]", show_log(&self.events), show_log(&o.events))
        } else if self.modes != o.modes {
            format!("connections in {:?} instead of {:?}", self.modes, o.modes)
        } else if self.pending != o.pending {
            format!("pending input {} instead of {}", engine::show(&self.pending), engine::show(&o.pending))
        } else {
            format!("registrations {:?} instead of {:?}", self.registry, o.registry)
        }
    }
    pub fn hash(&self) -> u64 {
        use std::hash::{Hash, Hasher};
        let mut h = std::collections::hash_map::DefaultHasher::new();
        (&self.events, &self.modes, &self.pending, &self.registry).hash(&mut h);
        h.finish()
    }
}

/// Messages that a client in msgio mode may send, without broadcasts.
pub fn messages() -> Vec<Vec<u8>> {
    vec![
        m("want", &["core1"]),
        m("want", &["foo2"]),
        m("want", &["bar3"]),
        m("want", &["core1.0"]),
        m("want", &[]),
        m("want", &["core1", "core1"]),
        m("have", &["core1.0"]),
        m("nope", &["want"]),
        m("core1.client-make", &["c1", "", "", ""]),
        m("core1.client-make", &["c12", "s1", "", "x"]),
        m("core1.client-make", &["c", "", "", ""]),
        m("core1.client-make", &["a2", "", "", ""]),
        m("core1.client-make", &["c1", "", ""]),
        m("core1.client-end", &["c1"]),
        m("core1.client-end", &["c5"]),
        m("core1.client-end", &["c"]),
        m("core1.client-end", &["a1"]),
        m("core1.client-end", &["c-"]),
        m("core1.set", &["a.b", "1"]),
        m("core2.client-make", &["c1", "", "", ""]),
        m("posix1.client-hello", &["x"]),
        hello("client", 6),
        hello("stdin", SECRET_STDIN),
        hello("stdout", SECRET_STDOUT),
        m("posix1.server-hello", &["c", "", "", ""]),
        m("foo2.ping", &[]),
        m("foo2.ping", &["x"]),
        m("foo2.two", &[]),
        m("foo2.quiet", &["{1|4:want,}"]),
        m("foo2.die", &[]),
        m("foo2.refuse", &["x"]),
        m("foo2.vanish", &[]),
        m("foo2.out", &[]),
        m("foo2.zzz", &[]),
        m("foo3.ping", &[]),
        m("bar1.x", &["", "\0", "}"]),
    ]
}

/// Things that are no complete message.
pub fn garbage() -> Vec<Vec<u8>> {
    [
        &b"x"[..],
        b"{",
        b"}",
        b"\n",
        b"\xff\x00",
        b"\xc3",
        b"\xa9\xe2\x82",
        b"garbage{more",
        b"{1|4:wanx,}",
        b"{0|}",
        b"{01|4:want,}",
        b"{2|4:want,5:core1}",
        b"{1|4:want,",
        b"{2|4:want,30:",
        b"{9",
        b"{99999999999999999999|",
        b"{1|18446744073709551615:",
        b"{1|4:want;}",
        b"{1|4:want,}}",
        b"{{1|4:want,}",
        b"{2|4:want,11:{1|4:want,}",
        b"{3|9:foo2.ping,1:{,x",
    ]
    .iter()
    .map(|g| g.to_vec())
    .collect()
}

pub fn first_messages() -> Vec<Vec<u8>> {
    let mut v = vec![
        hello("client", SECRET_FRESH),
        hello("client", 6),
        hello("client", SECRET_USED),
        hello("client", SECRET_STDIN),
        hello("client", SECRET_STDOUT),
        hello("stdin", SECRET_STDIN),
        hello("stdin", SECRET_STDOUT),
        hello("stdin", SECRET_FRESH),
        hello("stdout", SECRET_STDOUT),
        hello("stdout", SECRET_STDIN),
        hello("stdout", SECRET_FRESH),
        hello("server", SECRET_FRESH),
        hello("parent", SECRET_FRESH),
        m("posix1.client-hello", &[]),
        m("posix1.client-hello", &[""]),
        m("posix1.client-hello", &["wrong"]),
        m("posix1.client-hello", &[std::str::from_utf8(&secret(3)).unwrap(), ""]),
        m("posix1.stdin-hello", &[std::str::from_utf8(&secret(4)).unwrap(), ""]),
        m("posix1.stdout-hello", &[std::str::from_utf8(&secret(5)).unwrap(), ""]),
        m("posix1.stdin-hello", &[]),
        m("posix1.stdout-hello", &["wrong"]),
        refs::render(b"posix1.client-hello", &[b"\xff"]),
        refs::render(b"posix1.client-hello", &[&secret(3)[..31]]),
        refs::render(b"posix1.client-hello", &[&[&secret(3)[..], b"x"].concat()]),
        refs::render(b"posix2.client-hello", &[&secret(3)]),
        refs::render(b"core1.client-hello", &[&secret(3)]),
        refs::render(b"posix1.stdin-hello", &[&secret(8)]), //screen s2
        refs::render(b"posix1.stdout-hello", &[&secret(9)]),
    ];
    v.extend(messages());
    v
}
