//! Reference model of the example server as a program: what its clients may see, derived from
//! vt6/foundation, vt6/core and vt6/posix. Shared by the exploration under the controlled scheduler
//! and by the one over real sockets.

use crate::refs::render;

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Mode {
    Shake,
    Msg(String),
    In,
    Out,
    Gone,
}

/// What a client must have received.
#[derive(Clone, Debug, PartialEq)]
pub enum Piece {
    Bytes(Vec<u8>),
    /// A core1.client-new message with the secret of this number.
    New(usize),
}

#[derive(Clone, Debug)]
pub struct Conn {
    pub mode: Mode,
    pub out: Vec<Piece>,
    pub peer_closed: bool,
    /// The last piece need not arrive, or not completely.
    pub lossy: bool,
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Reg {
    pub id: String,
    pub screens: bool,
    pub redeemed: bool,
    pub slot: usize,
}

#[derive(Clone, Debug)]
pub struct State {
    pub regs: Vec<Reg>,
    /// Secrets issued so far.
    pub slots: usize,
    pub in_used: bool,
    pub out_used: bool,
    pub conns: Vec<Conn>,
    pub stopped: bool,
    /// Words sent to the standard output.
    pub words: Vec<String>,
}

pub const NEW: u8 = 255;
pub const IDS: [&str; 4] = ["a1", "a12", "b", "a"];
pub const MODULES: [&str; 3] = ["core1", "posix1", "foo1"];
/// Kinds of hello messages.
pub const HELLOS: [&str; 3] = ["posix1.stdin-hello", "posix1.stdout-hello", "posix1.client-hello"];
/// Credentials: stdin, stdout, a wrong one, then the secrets of clients.
pub const CRED_IN: u8 = 0;
pub const CRED_OUT: u8 = 1;
pub const CRED_BAD: u8 = 2;
pub const CRED_CLIENT: u8 = 3;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Op(pub u8, pub u8, pub u8);

pub mod k {
    pub const HELLO: u8 = 0;
    pub const IDLE: u8 = 1;
    pub const MAKE: u8 = 2;
    pub const END: u8 = 3;
    pub const WANT: u8 = 4;
    pub const OTHER: u8 = 5;
    pub const JUNK: u8 = 6;
    pub const CLOSE: u8 = 7;
    pub const SHUT: u8 = 8;
    pub const DATA: u8 = 9;
    pub const TICK: u8 = 10;
    pub const PIPED: u8 = 11;
    pub const STOP: u8 = 12;
    /// The last message of the connection, and its end right behind it.
    pub const FAREWELL: u8 = 13;
}

pub fn hello_cred(cred: u8, kind: u8) -> u8 {
    cred * 3 + kind
}

impl State {
    pub fn new() -> State {
        State {
            regs: vec![Reg { id: "a".into(), screens: false, redeemed: false, slot: 0 }],
            slots: 1,
            in_used: false,
            out_used: false,
            conns: vec![],
            stopped: false,
            words: vec![],
        }
    }

    pub fn open(&self) -> usize {
        self.conns.iter().filter(|c| c.mode != Mode::Gone).count()
    }

    /// States that nothing can tell apart are equal in this form.
    pub fn canonical(&self) -> Vec<u8> {
        let mut regs: Vec<(&str, bool, bool)> = self.regs.iter().map(|r| (&r.id[..], r.screens, r.redeemed)).collect();
        regs.sort();
        let mut conns: Vec<&Mode> = self.conns.iter().map(|c| &c.mode).filter(|m| **m != Mode::Gone).collect();
        conns.sort();
        let dead = self.slots > self.regs.len();
        format!("{:?} {:?} {} {} {} {}", regs, conns, self.in_used, self.out_used, dead, self.stopped).into_bytes()
    }

    /// The bytes that the operation sends. Secrets are looked up with `secret` (None: it is not known).
    pub fn bytes(&self, op: Op, secret: &dyn Fn(u8) -> Vec<u8>) -> Vec<u8> {
        let Op(kind, _, b) = op;
        match kind {
            k::HELLO => render(HELLOS[b as usize % 3].as_bytes(), &[&secret(b / 3)]),
            k::PIPED => [render(HELLOS[2].as_bytes(), &[&secret(b)]), render(b"want", &[b"core1"])].concat(),
            k::MAKE => {
                let (id, s) = (IDS[b as usize % 4], b / 4 > 0);
                let screen: &[u8] = if s { b"screen1" } else { b"" };
                render(b"core1.client-make", &[id.as_bytes(), screen, b"", screen])
            }
            k::END => render(b"core1.client-end", &[IDS[b as usize].as_bytes()]),
            k::WANT => render(b"want", &[MODULES[b as usize].as_bytes()]),
            k::OTHER => match b {
                0 => render(b"foo1.bar", &[b"x\xe9"]),
                1 => render(HELLOS[2].as_bytes(), &[&secret(CRED_BAD)]),
                2 => render(b"have", &[b"core1"]),
                3 => render(b"core1.frobnicate", &[]),
                4 => render(b"want", &[b"core1.0"]),
                _ => render(b"core1.client-make", &[b"a1"]),
            },
            k::JUNK => match b {
                0 => b"x\xff\xe2\x82z".to_vec(),
                _ => [b"{1|2000:".to_vec(), vec![b'x'; 1100]].concat(),
            },
            k::DATA => format!("word{}", b).into_bytes(),
            k::FAREWELL => render(b"want", &[b"core1"]),
            _ => vec![],
        }
    }

    fn hello(&mut self, c: usize, cred: u8, kind: u8) {
        let granted = match (kind, cred) {
            (0, CRED_IN) if !self.in_used => {
                self.in_used = true;
                Mode::In
            }
            (1, CRED_OUT) if !self.out_used => {
                self.out_used = true;
                Mode::Out
            }
            (2, n) if n >= CRED_CLIENT => match self.regs.iter_mut().find(|r| r.slot == (n - CRED_CLIENT) as usize && !r.redeemed) {
                Some(r) => {
                    r.redeemed = true;
                    let screen: &[u8] = if r.screens { b"screen1" } else { b"" };
                    let hello = render(b"posix1.server-hello", &[r.id.as_bytes(), screen, b"", screen]);
                    self.conns[c].out.push(Piece::Bytes(hello));
                    Mode::Msg(r.id.clone())
                }
                None => Mode::Gone,
            },
            _ => Mode::Gone,
        };
        self.conns[c].mode = granted;
    }

    /// Carries out the operation; returns the number of the connection concerned.
    pub fn apply(&mut self, op: Op) -> Option<usize> {
        let Op(kind, a, b) = op;
        if kind == k::TICK {
            for c in &mut self.conns {
                if c.mode == Mode::In {
                    c.out.push(Piece::Bytes(b"Hello stdin.\n".to_vec()));
                }
            }
            return None;
        }
        if kind == k::STOP {
            self.stopped = true;
            for c in &mut self.conns {
                c.mode = Mode::Gone;
            }
            return None;
        }
        let c = if a == NEW {
            self.conns.push(Conn { mode: Mode::Shake, out: vec![], peer_closed: false, lossy: false });
            self.conns.len() - 1
        } else {
            a as usize
        };
        let mode = self.conns[c].mode.clone();
        let mut reply = None;
        match (kind, &mode) {
            (k::IDLE, _) => {}
            (k::HELLO, Mode::Shake) => self.hello(c, b / 3, b % 3),
            (k::PIPED, Mode::Shake) => {
                self.hello(c, b, 2);
                if self.conns[c].mode != Mode::Gone {
                    reply = Some(render(b"have", &[b"core1.0"]));
                }
            }
            (k::CLOSE | k::SHUT, _) => {
                self.conns[c].mode = Mode::Gone;
                self.conns[c].peer_closed |= kind == k::CLOSE;
            }
            (k::DATA, Mode::Out) => self.words.push(format!("word{}", b)),
            (k::MAKE, Mode::Msg(me)) => {
                let (id, screens) = (IDS[b as usize % 4], b / 4 > 0);
                if below(id, me) && !self.regs.iter().any(|r| r.id.starts_with(id)) {
                    self.regs.push(Reg { id: id.into(), screens, redeemed: false, slot: self.slots });
                    self.conns[c].out.push(Piece::New(self.slots));
                    self.slots += 1;
                } else {
                    reply = Some(render(b"nope", &[b"core1.client-make"]));
                }
            }
            (k::END, Mode::Msg(me)) => {
                let id = IDS[b as usize];
                if below(id, me) {
                    self.regs.retain(|r| !r.id.starts_with(id));
                    for x in &mut self.conns {
                        if matches!(&x.mode, Mode::Msg(i) if i.starts_with(id)) {
                            x.mode = Mode::Gone;
                        }
                    }
                } else {
                    reply = Some(render(b"nope", &[b"core1.client-end"]));
                }
            }
            (k::WANT, Mode::Msg(_)) => {
                let m = MODULES[b as usize];
                reply = Some(match b {
                    0 | 1 => render(b"have", &[format!("{}.0", m).as_bytes()]),
                    _ => render(b"have", &[m.as_bytes()]),
                });
            }
            (k::OTHER, Mode::Msg(_)) => {
                reply = Some(match b {
                    0 => render(b"have", &[b"foo1"]),
                    1 => render(b"nope", &[HELLOS[2].as_bytes()]),
                    2 => render(b"nope", &[b"have"]),
                    3 => render(b"have", &[b"core1.0"]),
                    4 => render(b"nope", &[b"want"]),
                    _ => render(b"nope", &[b"core1.client-make"]),
                });
            }
            (k::JUNK, Mode::Msg(_)) => {}
            (k::FAREWELL, Mode::Msg(_)) => {
                reply = Some(render(b"have", &[b"core1.0"]));
                self.conns[c].mode = Mode::Gone;
                self.conns[c].lossy = true;
            }
            //(anything on stdin, anything but a hello in the handshake)
            (_, Mode::Shake | Mode::In) => self.conns[c].mode = Mode::Gone,
            _ => unreachable!("{:?} in {:?}", op, mode),
        }
        if let Some(r) = reply {
            self.conns[c].out.push(Piece::Bytes(r));
        }
        Some(c)
    }

    /// The operations to try in this state.
    pub fn ops(&self, max_open: usize, max_slots: usize, rich: bool) -> Vec<Op> {
        let mut l = vec![];
        if self.stopped {
            return l;
        }
        l.push(Op(k::TICK, 0, 0));
        //secrets that make a difference: those of registered clients, and the latest one that is void
        let mut slots: Vec<usize> = self.regs.iter().map(|r| r.slot).collect();
        slots.extend((0..self.slots).rev().find(|s| !slots.contains(s)));
        let creds: Vec<u8> = [CRED_IN, CRED_OUT, CRED_BAD].into_iter().chain(slots.iter().map(|&s| s as u8 + CRED_CLIENT)).collect();
        let shaking: Vec<u8> = self.conns.iter().enumerate().filter(|c| c.1.mode == Mode::Shake).map(|c| c.0 as u8).take(1).collect();
        let mut on: Vec<u8> = shaking;
        if self.open() < max_open {
            on.push(NEW);
            l.push(Op(k::IDLE, NEW, 0));
        }
        for &c in &on {
            for &cred in &creds {
                for kind in 0..3 {
                    let right = kind == cred.min(2) && cred != CRED_BAD;
                    if right || rich || (cred as usize + kind as usize + self.slots) % 3 == 0 {
                        l.push(Op(k::HELLO, c, hello_cred(cred, kind)));
                    }
                }
                if cred >= CRED_CLIENT && (rich || c == NEW) {
                    l.push(Op(k::PIPED, c, cred));
                }
            }
            if c == NEW {
                l.push(Op(k::JUNK, c, 0));
                l.push(Op(k::JUNK, c, 1));
                l.push(Op(k::WANT, c, 0));
            }
        }
        for (i, c) in self.conns.iter().enumerate() {
            let i = i as u8;
            match &c.mode {
                Mode::Gone => continue,
                Mode::Msg(_) => {
                    for b in 0..IDS.len() as u8 {
                        if self.slots < max_slots {
                            l.push(Op(k::MAKE, i, b));
                            if b < 2 {
                                l.push(Op(k::MAKE, i, b + 4));
                            }
                        }
                        l.push(Op(k::END, i, b));
                    }
                    l.extend((0..3).map(|b| Op(k::WANT, i, b)));
                    l.extend((0..6).map(|b| Op(k::OTHER, i, b)));
                    l.push(Op(k::JUNK, i, 0));
                    l.push(Op(k::JUNK, i, 1));
                    l.push(Op(k::FAREWELL, i, 0));
                }
                Mode::Out => l.push(Op(k::DATA, i, self.words.len() as u8)),
                Mode::In => l.push(Op(k::JUNK, i, 0)),
                Mode::Shake => {
                    l.push(Op(k::JUNK, i, 0));
                    l.push(Op(k::WANT, i, 0));
                    l.push(Op(k::MAKE, i, 0));
                }
            }
            l.push(Op(k::CLOSE, i, 0));
            l.push(Op(k::SHUT, i, 0));
        }
        l.push(Op(k::STOP, 0, 0));
        l
    }
}

fn below(id: &str, of: &str) -> bool {
    id.starts_with(of) && id.len() > of.len()
}

pub fn encode(ops: &[Op]) -> Vec<u8> {
    ops.iter().flat_map(|o| [o.0, o.1, o.2]).collect()
}
pub fn decode(b: &[u8]) -> Vec<Op> {
    b.chunks_exact(3).map(|c| Op(c[0], c[1], c[2])).collect()
}

pub fn describe(ops: &[Op]) -> String {
    let names = ["hello", "connect", "client-make", "client-end", "want", "other", "junk", "close", "half-close", "data", "tick", "hello+want", "interrupt", "want+half-close"];
    let l: Vec<String> = ops
        .iter()
        .map(|o| {
            let on = if o.1 == NEW { "new connection".into() } else { format!("connection {}", o.1) };
            let what = match o.0 {
                k::HELLO => format!(" {} with credential {}", HELLOS[o.2 as usize % 3], o.2 / 3),
                k::MAKE | k::END => format!(" {}", IDS[o.2 as usize % 4]),
                k::WANT => format!(" {}", MODULES[o.2 as usize]),
                _ => format!(" {}", o.2),
            };
            format!("{}: {}{}", on, names[o.0 as usize], what)
        })
        .collect();
    l.join("; ")
}

/// Splits a received core1.client-new message off the front: (secret, rest).
pub fn split_new(b: &[u8]) -> Option<(Vec<u8>, &[u8])> {
    let head = b"{2|16:core1.client-new,";
    let rest = b.strip_prefix(&head[..])?;
    let colon = rest.iter().position(|&x| x == b':')?;
    let n: usize = std::str::from_utf8(&rest[..colon]).ok()?.parse().ok()?;
    let rest = &rest[colon + 1..];
    let secret = rest.get(..n)?.to_vec();
    let rest = rest[n..].strip_prefix(b",}")?;
    Some((secret, rest))
}

/// Compares what has been received with what must have been. Learns the secrets that occur for the
/// first time. On success, returns what is left over in `got`.
pub fn compare<'a>(want: &[Piece], got: &'a [u8], secrets: &mut Vec<Option<Vec<u8>>>) -> Result<&'a [u8], String> {
    let mut rest = got;
    for p in want {
        match p {
            Piece::Bytes(b) => match rest.strip_prefix(&b[..]) {
                Some(r) => rest = r,
                None => return Err(format!("received {} where {} had to come", engine::show(rest), engine::show(b))),
            },
            Piece::New(n) => {
                let Some((s, r)) = split_new(rest) else {
                    return Err(format!("received {} where core1.client-new had to come", engine::show(rest)));
                };
                rest = r;
                while secrets.len() <= *n {
                    secrets.push(None);
                }
                match &secrets[*n] {
                    Some(old) if *old == s => {}
                    Some(_) => return Err("another secret than before".into()),
                    None if s.is_empty() || secrets.contains(&Some(s.clone())) => return Err("the secret is empty or has been issued before".into()),
                    None => secrets[*n] = Some(s),
                }
            }
        }
    }
    Ok(rest)
}

/// Checks everything that has been received on a connection.
pub fn check_received(c: &Conn, got: &[u8], secrets: &mut Vec<Option<Vec<u8>>>) -> Result<(), String> {
    let n = c.out.len();
    if c.lossy {
        let rest = compare(&c.out[..n - 1], got, secrets)?;
        return match &c.out[n - 1] {
            Piece::Bytes(b) if b.starts_with(rest) => Ok(()),
            _ => Err(format!("received {} at the end", engine::show(rest))),
        };
    }
    let rest = compare(&c.out, got, secrets)?;
    if rest.is_empty() {
        Ok(())
    } else {
        Err(format!("received {} on top of what had to come", engine::show(rest)))
    }
}

/// Finds the secret in a log that contains the message of this type.
pub fn printed_secret(log: &str, kind: usize) -> Option<Vec<u8>> {
    let needle = format!("{}:{},", HELLOS[kind].len(), HELLOS[kind]);
    let rest = &log[log.find(&needle)? + needle.len()..];
    let (n, rest) = rest.split_once(':')?;
    Some(rest.get(..n.parse().ok()?)?.as_bytes().to_vec())
}
