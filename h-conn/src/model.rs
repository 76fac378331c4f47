//! The reference server: what the specification says about every byte a client sends.

use crate::refs::{self, Out, K};
use crate::world::{selected, token, Ev, Mode, Reg, Scr, PRESET_LEN};

#[derive(Clone)]
pub struct MConn {
    pub mode: Mode,
    pub pending: Vec<u8>,
}

/// Secrets are tokens throughout.
#[derive(Clone, Default)]
pub struct Model {
    pub clients: Vec<Reg>,
    pub stdin: Vec<Scr>,
    pub stdout: Vec<Scr>,
    pub conns: Vec<MConn>,
    pub log: Vec<Ev>,
    pub issued: usize,
    /// Length of the secrets that the implementation issues.
    pub secret_len: usize,
    pub replies_too_long: u64,
    pub deferred: Vec<Deferred>,
}

#[derive(Clone)]
pub enum Deferred {
    End(String),
    All(Vec<Vec<u8>>),
}

impl Model {
    pub fn preset_client(&mut self, id: &str, screens: [Option<String>; 3]) -> usize {
        self.register(id, screens, PRESET_LEN)
    }
    fn register(&mut self, id: &str, screens: [Option<String>; 3], secret_len: usize) -> usize {
        let secret = token(self.issued, secret_len);
        self.issued += 1;
        self.clients.push(Reg { id: id.into(), screens, secret, redeemed: false });
        self.issued - 1
    }
    pub fn preset_screen(&mut self, screen: &str) {
        let n = self.issued;
        self.issued += 2;
        self.stdin.push(Scr { screen: screen.into(), secret: token(n, PRESET_LEN), redeemed: false });
        self.stdout.push(Scr { screen: screen.into(), secret: token(n + 1, PRESET_LEN), redeemed: false });
    }
    pub fn open(&mut self) -> usize {
        self.conns.push(MConn { mode: Mode::Handshake, pending: vec![] });
        self.conns.len() - 1
    }
    pub fn registry(&self) -> Vec<Reg> {
        let mut v = self.clients.clone();
        v.sort_by(|a, b| (&a.id, &a.secret).cmp(&(&b.id, &b.secret)));
        v
    }

    /// One read of connection `c` returned `b`.
    pub fn feed(&mut self, c: usize, b: &[u8]) {
        self.conns[c].pending.extend_from_slice(b);
        loop {
            let conn = &mut self.conns[c];
            if conn.pending.is_empty() {
                break;
            }
            match conn.mode.clone() {
                Mode::Teardown => break,
                Mode::Stdin(_) => {
                    //a client must not send anything on its standard input
                    conn.mode = Mode::Teardown;
                    let all = std::mem::take(&mut conn.pending);
                    self.log.push(Ev::Discard(c, all));
                }
                Mode::Stdout(s) => {
                    let all = std::mem::take(&mut conn.pending);
                    self.log.push(Ev::Stdout(s, all));
                }
                Mode::Handshake | Mode::Msgio(..) => {
                    let window = conn.pending.len().min(1024);
                    match refs::parse(&conn.pending[..window]) {
                        Out::Err { kind: K::Eof, .. } if window < 1024 => break,
                        Out::Err { .. } => {
                            let next = conn.pending[1..].iter().position(|&b| b == b'{').map(|n| n + 1);
                            let rest = conn.pending.split_off(next.unwrap_or(conn.pending.len()));
                            let garbage = std::mem::replace(&mut conn.pending, rest);
                            if conn.mode == Mode::Handshake {
                                conn.mode = Mode::Teardown;
                            }
                            self.log.push(Ev::Discard(c, garbage));
                        }
                        Out::Msg { ty, args, len } => {
                            conn.pending.drain(..len);
                            let a: Vec<&[u8]> = args.iter().map(|a| &a[..]).collect();
                            self.log.push(Ev::Handled(c, refs::render(&ty, &a)));
                            if conn.mode == Mode::Handshake {
                                self.handshake(c, &ty, &a);
                            } else {
                                self.message(c, &ty, &a);
                            }
                        }
                    }
                }
            }
        }
        for d in std::mem::take(&mut self.deferred) {
            match d {
                Deferred::End(id) => {
                    for k in &mut self.conns {
                        if matches!(k.mode, Mode::Msgio(ref i, _) if selected(false, &id, i)) {
                            k.mode = Mode::Teardown;
                        }
                    }
                }
                Deferred::All(args) => {
                    for k in 0..self.conns.len() {
                        if matches!(self.conns[k].mode, Mode::Msgio(..)) {
                            let a: Vec<&[u8]> = args.iter().map(|a| &a[..]).collect();
                            self.reply(k, b"foo2.all", &a);
                        }
                    }
                }
            }
        }
    }

    fn reply(&mut self, c: usize, ty: &[u8], args: &[&[u8]]) {
        let m = refs::render(ty, args);
        if m.len() > 1024 {
            //cannot be sent as one message
            self.conns[c].mode = Mode::Teardown;
            self.replies_too_long += 1;
        } else {
            self.log.push(Ev::Reply(c, m));
        }
    }

    fn handshake(&mut self, c: usize, ty: &[u8], args: &[&[u8]]) {
        let secret = match args {
            [s] if refs::is_utf8(s) => s.to_vec(),
            _ => vec![],
        };
        let one = args.len() == 1 && refs::is_utf8(args[0]);
        let mode = match ty {
            b"posix1.client-hello" if one => {
                let found = self.clients.iter_mut().find(|r| r.secret == secret && !r.redeemed);
                let m = found.map(|r| {
                    r.redeemed = true;
                    (r.id.clone(), r.screens.clone())
                });
                self.log.push(Ev::AuthClient(secret, m.as_ref().map(|m| m.0.clone())));
                m.map(|(i, s)| Mode::Msgio(i, s))
            }
            b"posix1.stdin-hello" if one => {
                let found = self.stdin.iter_mut().find(|r| r.secret == secret && !r.redeemed);
                let m = found.map(|r| {
                    r.redeemed = true;
                    r.screen.clone()
                });
                self.log.push(Ev::AuthStdin(secret, m.clone()));
                m.map(Mode::Stdin)
            }
            b"posix1.stdout-hello" if one => {
                let found = self.stdout.iter_mut().find(|r| r.secret == secret && !r.redeemed);
                let m = found.map(|r| {
                    r.redeemed = true;
                    r.screen.clone()
                });
                self.log.push(Ev::AuthStdout(secret, m.clone()));
                m.map(Mode::Stdout)
            }
            _ => None,
        };
        let mode = mode.unwrap_or(Mode::Teardown);
        self.conns[c].mode = mode.clone();
        if let Mode::Msgio(id, screens) = mode {
            let s: Vec<&[u8]> = screens.iter().map(|s| s.as_deref().unwrap_or("").as_bytes()).collect();
            self.reply(c, b"posix1.server-hello", &[id.as_bytes(), s[0], s[1], s[2]]);
        }
    }

    fn message(&mut self, c: usize, ty: &[u8], args: &[&[u8]]) {
        let me = match self.conns[c].mode {
            Mode::Msgio(ref id, _) => id.clone(),
            _ => unreachable!(),
        };
        let version = |m: &[u8]| -> Option<u32> {
            match m {
                b"core1" | b"posix1" => Some(0),
                b"foo2" => Some(7),
                //(the minor version of module vers<k> is k - 2 modulo 2^16)
                _ if m.starts_with(b"vers") && refs::module_identifier(m).is_some() => std::str::from_utf8(&m[4..]).ok().and_then(|v| v.parse::<u16>().ok()).map(|v| v.wrapping_sub(2) as u32),
                _ => None,
            }
        };
        let have = |m: &[u8]| -> Vec<u8> {
            let mut v = m.to_vec();
            if let Some(n) = version(m) {
                v.extend_from_slice(format!(".{}", n).as_bytes());
            }
            v
        };
        match ty {
            b"want" => match args {
                [m] if refs::module_identifier(m).is_some() => {
                    let h = have(m);
                    self.reply(c, b"have", &[&h]);
                }
                _ => self.reply(c, b"nope", &[b"want"]),
            },
            b"have" | b"nope" => self.reply(c, b"nope", &[ty]),
            b"posix1.client-hello" | b"posix1.stdin-hello" | b"posix1.stdout-hello" => self.reply(c, b"nope", &[ty]),
            b"core1.client-make" => {
                let valid = args.len() == 4 && refs::is_client_id(args[0]) && args[1..].iter().all(|a| refs::is_utf8(a));
                let text = |a: &[u8]| String::from_utf8(a.to_vec()).unwrap();
                if !valid || !selected(true, &me, &text(args[0])) {
                    return self.reply(c, b"nope", &[ty]);
                }
                let id = text(args[0]);
                if self.clients.iter().any(|r| selected(false, &id, &r.id)) {
                    return self.reply(c, b"nope", &[ty]);
                }
                let s = |i: usize| Some(text(args[i])).filter(|s| !s.is_empty());
                let screens = [s(1), s(2), s(3)];
                self.log.push(Ev::Register(id.clone(), screens.clone()));
                let k = self.register(&id, screens, self.secret_len);
                let t = token(k, self.secret_len);
                self.reply(c, b"core1.client-new", &[&t]);
            }
            b"core1.client-end" => {
                let valid = args.len() == 1 && refs::is_client_id(args[0]);
                if !valid || !selected(true, &me, std::str::from_utf8(args[0]).unwrap()) {
                    return self.reply(c, b"nope", &[ty]);
                }
                let id = String::from_utf8(args[0].to_vec()).unwrap();
                self.clients.retain(|r| !selected(false, &id, &r.id));
                self.log.push(Ev::Unregister(false, id.clone()));
                self.deferred.push(Deferred::End(id));
            }
            b"foo2.ping" => {
                if args.is_empty() {
                    self.reply(c, b"foo2.pong", &[])
                } else {
                    self.reply(c, b"nope", &[ty])
                }
            }
            b"foo2.two" => {
                self.reply(c, b"foo2.one", &[]);
                self.reply(c, b"foo2.other", &[]);
            }
            b"foo2.quiet" => {}
            b"foo2.refuse" | b"foo2.vanish" => self.conns[c].mode = Mode::Teardown,
            b"foo2.out" => self.conns[c].mode = Mode::Stdout("s9".into()),
            b"foo2.die" => self.conns[c].mode = Mode::Teardown,
            b"foo2.bc" => self.deferred.push(Deferred::All(args.iter().map(|a| a.to_vec()).collect())),
            _ => {
                let (m, _) = refs::scoped_identifier(ty).unwrap();
                let h = have(m);
                self.reply(c, b"have", &[&h]);
            }
        }
    }
}
