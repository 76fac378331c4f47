//! C11 and C12: what a connection does with messages, against the reference server.

use crate::model::Model;
use crate::p_split::{many, numbers, show_chunks, show_many, sized};
use crate::refs;
use crate::scene::*;
use crate::world::*;
use engine::*;

pub struct C11;
pub struct C12;

pub struct Both {
    pub w: World,
    pub m: Model,
}

impl Both {
    pub fn new(start: Start) -> Both {
        Both { w: world(start), m: model(start) }
    }
    pub fn step(&mut self, c: usize, chunk: &[u8]) -> Result<Snap, String> {
        self.step_as(c, chunk, |s| s)
    }
    /// `view` leaves what is to be compared.
    pub fn step_as(&mut self, c: usize, chunk: &[u8], view: impl Fn(Snap) -> Snap) -> Result<Snap, String> {
        self.w.feed(c, chunk);
        self.m.feed(c, chunk);
        let a = view(Snap::of_world(&mut self.w, c).forget_dead(c));
        let b = view(Snap::of_model(&mut self.m, c).forget_dead(c));
        if a != b {
            return Err(a.diff(&b));
        }
        Ok(a)
    }
}

/// What C11 is about: messages, replies and skipped input. (Registrations and other connections are
/// C13's business.)
fn conversation(mut s: Snap) -> Snap {
    s.events.retain(|e| matches!(e, Ev::Handled(..) | Ev::Reply(..) | Ev::Discard(..)));
    s.registry.clear();
    s.modes.truncate(SUBJECT + 1);
    s.modes.drain(..SUBJECT.min(s.modes.len()));
    s
}

fn pack_numbers(l: &[u32]) -> Vec<u8> {
    l.iter().flat_map(|n| n.to_le_bytes()).collect()
}

fn unpack_numbers(p: &[u8]) -> Vec<usize> {
    p.chunks(4).map(|c| u32::from_le_bytes(c.try_into().unwrap()) as usize).collect()
}

/// A handshake of a client with an ID of n[0] characters and the given lengths of the IDs of its screens,
/// or (of its streams) with these screens.
fn identity(n: &[usize], r: &mut Rec) -> Result<(), String> {
    let text = |c: &str, n: usize| c.repeat(n);
    let id = text("c", n[0]);
    let screens: Vec<Option<String>> = (1..4).map(|i| Some(text(["x", "Y", "-"][i - 1], n[i])).filter(|s| !s.is_empty())).collect();
    let mut b = Both::new(Start::Handshake);
    let two: &mut [&mut dyn Sut] = &mut [&mut b.w, &mut b.m];
    for s in two {
        s.client(&id, [screens[0].clone(), screens[1].clone(), screens[2].clone()]); //secret 10
        for x in screens.iter().flatten() {
            s.screen(x);
        }
    }
    r.nontrivial = true;
    let arg = |i: usize| screens[i].as_ref().map_or(&b""[..], |s| s.as_bytes());
    if refs::render(b"posix1.server-hello", &[id.as_bytes(), arg(0), arg(1), arg(2)]).len() > 1024 {
        //Which mode a client is in whom no server-hello can name is not ours to say. It must not get half
        //a reply, and it does not take part in the following.
        r.tag("the server-hello does not fit into a message");
        let mut alone = Both::new(Start::Handshake);
        alone.w.client(&id, [screens[0].clone(), screens[1].clone(), screens[2].clone()]);
        alone.w.feed(SUBJECT, &hello("client", 10));
        let s = Snap::of_world(&mut alone.w, SUBJECT);
        ensure!(!s.events.iter().any(|e| matches!(e, Ev::Reply(..))), "a reply of more than 1024 bytes was sent: {}", show_log(&s.events));
    } else {
        b.step_as(SUBJECT, &hello("client", 10), handshake_only)?;
        r.tag("became a message socket");
        b.step(SUBJECT, &m("want", &["core1"]))?;
    }
    for (i, x) in screens.iter().flatten().enumerate() {
        for (k, kind) in ["stdin", "stdout"].iter().enumerate() {
            let (c, d) = (b.w.open(), b.m.open());
            assert_eq!(c, d);
            b.step_as(c, &hello(kind, 11 + 2 * i + k), handshake_only)?;
            let right = match b.w.mode(c) {
                Mode::Stdin(s) => k == 0 && &s == x,
                Mode::Stdout(s) => k == 1 && &s == x,
                _ => false,
            };
            ensure!(right, "after {}-hello for screen {}, the connection is in {:?}", kind, x, b.w.mode(c));
        }
    }
    Ok(())
}

/// What C12 is about: everything up to and including the outcome of the handshake.
fn handshake_only(mut s: Snap) -> Snap {
    let done = s.events.iter().position(|e| matches!(e, Ev::AuthClient(_, Some(_)) | Ev::AuthStdin(_, Some(_)) | Ev::AuthStdout(_, Some(_))));
    if let Some(k) = done {
        //a server-hello is the next event if this is a message socket
        let n = if matches!(s.events[k], Ev::AuthClient(..)) { k + 2 } else { k + 1 };
        if s.events.len() > n {
            //what happens after the handshake is not compared here
            s.events.truncate(n);
            s.modes.clear();
            s.pending.clear();
            s.registry.clear();
        }
    }
    s
}

fn dead(s: &Snap) -> bool {
    s.modes.first() == Some(&Mode::Teardown)
}

fn run(start: Start, chunks: &[&[u8]], r: &mut Rec) -> Result<Snap, String> {
    let mut b = Both::new(start);
    let mut last = None;
    for c in chunks {
        b.w.state().errors = 0;
        let s = b.step_as(SUBJECT, c, conversation).map_err(|e| format!("after {}: {}", show_chunks(chunks), e))?;
        if start == Start::Msgio {
            let (told, skipped) = (b.w.state().errors, s.events.iter().any(|e| matches!(e, Ev::Discard(SUBJECT, _))));
            ensure!(told == 0 || skipped, "after {}: a parse error was reported to the handlers, but nothing was skipped", show_chunks(chunks));
            ensure!(told > 0 || !skipped || dead(&s), "after {}: input was skipped, but the handlers were not told", show_chunks(chunks));
        }
        for ev in &s.events {
            match ev {
                Ev::Handled(..) => r.tag("message handled"),
                Ev::Reply(..) => r.tag("reply"),
                Ev::Discard(..) => r.tag("garbage skipped"),
                _ => {}
            }
            r.nontrivial = true;
        }
        last = Some(s);
    }
    r.add("replies too long for a message", b.m.replies_too_long);
    let s = last.unwrap();
    r.outcome = Some(s.hash());
    Ok(s)
}

fn arg_menu() -> Vec<Vec<u8>> {
    [
        &b""[..], b"core1", b"core2", b"foo2", b"foo3", b"posix1", b"posix2", b"core1.0", b"core", b"core0", b"core01", b"core65535", b"core65536", b"1", b"-", b"c", b"c1", b"c12", b"c5", b"c9", b"a", b"a1", b"b9", b"C1", b"c-1",
        b"c 1", b"c\xff", b"c1\n", b"s1", b"\xc3\xa9", b"\xc3", b"{1|4:want,}", b"want", b"foo2.ping", b"t",
    ]
    .iter()
    .map(|a| a.to_vec())
    .collect()
}
const TYPES: [&str; 26] = [
    "want", "have", "nope", "core1.client-make", "core1.client-new", "core1.client-end", "core1.sub", "core1.pub", "core1.set", "core1.x", "core2.client-make", "core2.x", "core65535.x", "posix1.client-hello", "posix1.server-hello", "posix1.parent-hello", "posix1.stdin-hello",
    "posix1.stdout-hello", "posix1.x", "posix2.client-hello", "foo2.ping", "foo2.quiet", "foo2.x", "foo1.ping", "foo3.ping", "_9.-",
];

/// [start] [number of chunks] chunks...
fn payload(start: Start, chunks: &[&[u8]]) -> Vec<u8> {
    [&[start as u8][..], &pack(chunks)].concat()
}

fn describe(p: &[u8]) -> String {
    format!("{} on a connection in mode {:?}", show_chunks(&unpack(&p[1..])), Start::from(p[0]))
}

impl Property for C11 {
    fn id(&self) -> &'static str {
        "C11"
    }
    fn level(&self) -> Level {
        Level::ModelChecking
    }
    fn rule(&self) -> String {
        "A case is a sequence of reads on an established message socket of client c (with other clients around it). It is executed on the real Connection and handlers and on a reference server written from the specification, \
         and after every read the messages handled, the replies on all connections, the skipped input, the mode and the pending input must be equal. Non-trivial: something observable happens."
            .into()
    }
    fn bounds(&self) -> String {
        "all sequences of up to 3 pieces from the menus of 33 messages and 22 kinds of garbage in one read (pairs also bytewise and in separate reads; thorough: sequences of 4 from a smaller menu); 26 message types with all argument lists of up to 2 from a menu of 35 (client-make and client-end with every combination of ID and screens); \
         message types of all lengths and arguments up to the 1024-byte limit including replies that would not fit; module names one or two edits away from the supported ones, and with all versions below 66000; a module of each major version with a minor version of each size; client identities of long IDs; 10 pieces repeated up to 4097 (thorough: 70000) times"
            .into()
    }
    fn run_case(&self, kind: &str, p: &[u8], r: &mut Rec) -> Result<(), String> {
        if kind == "many" {
            let s = many(&p[1..]);
            run(Start::Msgio, &[&s, &m("foo2.ping", &[])], r)?;
            let chunks: Vec<&[u8]> = s.chunks(1024).collect();
            run(Start::Msgio, &chunks, r)?;
            r.extra_evaluations += 1;
            return Ok(());
        }
        let chunks = unpack(&p[1..]);
        run(Start::from(p[0]), &chunks, r)?;
        if chunks.len() == 1 && chunks[0].len() < 80 {
            let bytes: Vec<&[u8]> = chunks[0].chunks(1).collect();
            run(Start::from(p[0]), &bytes, &mut Rec::default())?;
            r.extra_evaluations += 1;
        }
        Ok(())
    }
    fn describe(&self, kind: &str, p: &[u8]) -> String {
        if kind == "many" {
            return show_many(&p[1..]);
        }
        describe(p)
    }
    fn enumerate(&self, e: &Eng) {
        let l = numbers(e);
        e.par(l.len(), |w, i| w.case("many", &[&[Start::Msgio as u8][..], &l[i]].concat()));
        let mut pieces = messages();
        pieces.push(m("foo2.bc", &["x"]));
        pieces.extend(garbage());
        let n = pieces.len();
        e.par(n, |w, i| {
            w.case("seq", &payload(Start::Msgio, &[&pieces[i]]));
            for j in 0..n {
                w.case("seq", &payload(Start::Msgio, &[&[&pieces[i][..], &pieces[j]].concat()]));
                w.case("seq", &payload(Start::Msgio, &[&pieces[i], &pieces[j]]));
            }
        });
        e.par(n * n, |w, k| {
            let (i, j) = (k / n, k % n);
            for l in 0..n {
                w.case("seq", &payload(Start::Msgio, &[&[&pieces[i][..], &pieces[j], &pieces[l]].concat()]));
            }
        });
        if e.thorough() {
            let sub: Vec<usize> = (0..n).filter(|k| k % 3 != 1).collect();
            let s = sub.len();
            e.par(s * s, |w, k| {
                for l in 0..s {
                    for q in 0..s {
                        let c = [&pieces[sub[k / s]][..], &pieces[sub[k % s]], &pieces[sub[l]], &pieces[sub[q]]].concat();
                        w.case("seq", &payload(Start::Msgio, &[&c]));
                    }
                }
            });
        }
        //types and arguments
        let args = arg_menu();
        e.par(TYPES.len(), |w, t| {
            let ty = TYPES[t].as_bytes();
            w.case("args", &payload(Start::Msgio, &[&refs::render(ty, &[])]));
            for a in &args {
                w.case("args", &payload(Start::Msgio, &[&refs::render(ty, &[a])]));
                for b in &args {
                    w.case("args", &payload(Start::Msgio, &[&refs::render(ty, &[a, b])]));
                }
                w.case("args", &payload(Start::Msgio, &[&refs::render(ty, &[a, b"", b""])]));
                w.case("args", &payload(Start::Msgio, &[&refs::render(ty, &[a, b"", b"", b"", b""])]));
            }
        });
        //every byte of a type and of an argument
        e.par(256, |w, v| {
            let v = v as u8;
            for base in ["want", "have", "core1.set", "core1.client-make", "foo2.ping"] {
                for i in 0..=base.len() {
                    let mut ins = base.as_bytes().to_vec();
                    ins.insert(i, v);
                    w.case("types", &payload(Start::Msgio, &[&refs::render(&ins, &[])]));
                    if i < base.len() {
                        let mut rep = base.as_bytes().to_vec();
                        rep[i] = v;
                        w.case("types", &payload(Start::Msgio, &[&[&refs::render(&rep, &[b"core1"])[..], &m("foo2.ping", &[])].concat()]));
                    }
                }
            }
            for base in ["core1", "c1", "foo2"] {
                for i in 0..=base.len() {
                    let mut ins = base.as_bytes().to_vec();
                    ins.insert(i, v);
                    for ty in ["want", "core1.client-end", "have"] {
                        w.case("types", &payload(Start::Msgio, &[&refs::render(ty.as_bytes(), &[&ins])]));
                    }
                    w.case("types", &payload(Start::Msgio, &[&refs::render(b"core1.client-make", &[&ins, b"", b"", b""])]));
                }
            }
        });
        //module names next to those that are supported, asked for and used
        let module = |w: &mut W, name: &[u8]| {
            w.case("types", &payload(Start::Msgio, &[&[refs::render(b"want", &[name]), refs::render(&[name, b".x"].concat(), &[])].concat()]));
        };
        e.par(256, |w, v| {
            let v = [v as u8];
            for base in ["core1", "posix1", "foo2", "foo3", "core10", "posix21"] {
                let b = base.as_bytes();
                for i in 0..=b.len() {
                    for k in i..=b.len() {
                        //(a replacement if one more is left out than put in)
                        if k <= i + 2 {
                            module(w, &[&b[..i], &v, &b[k..]].concat());
                        }
                    }
                    if v[0] == b'1' {
                        module(w, &b[..i]);
                        module(w, &[&b[..i], b".", &b[i..]].concat());
                    }
                    for u in b"01279oOx_-" {
                        module(w, &[&b[..i], &v, &[*u], &b[i..]].concat());
                    }
                }
            }
        });
        e.par(660, |w, i| {
            for n in i * 100..i * 100 + 100 {
                for base in ["core", "posix", "foo", "vers", "x"] {
                    module(w, format!("{}{}", base, n).as_bytes());
                }
            }
        });
        e.par(60, |w, n| {
            for base in ["core", "posix", "foo"] {
                for t in [format!("{}{}", base, "1".repeat(n)), format!("{}1", base.repeat(n)), format!("{}{}1", base, "_".repeat(n)), format!("{}1{}1", base, base.repeat(n)), format!("{}{}1", base.to_uppercase(), "o".repeat(n))] {
                    module(w, t.as_bytes());
                }
            }
        });
        //creating clients
        let ids: [&[u8]; 10] = [b"c1", b"c12", b"c5", b"c51", b"c9", b"c", b"d", b"a1", b"", b"c-"];
        let scr: [&[u8]; 6] = [b"", b"s1", b"nosuch", b"\xff", b"{", b"\xe2\x82\xac"];
        e.par(ids.len(), |w, i| {
            for a in scr {
                for b in scr {
                    for c in scr {
                        let one = refs::render(b"core1.client-make", &[ids[i], a, b, c]);
                        w.case("make", &payload(Start::Msgio, &[&one]));
                        //the same again, and ended and made again
                        let end = refs::render(b"core1.client-end", &[ids[i]]);
                        w.case("make", &payload(Start::Msgio, &[&[&one[..], &one, &end, &one].concat()]));
                    }
                }
            }
        });
        //lengths
        let top = 1024;
        e.par(top, |w, total| {
            for (ty, extra) in [("foo2.zzz", 0), ("core1.client-end", 0), ("want", 0), ("foo3.x", 2), ("core1.client-make", 3)] {
                if total >= ty.len() + 12 + 5 * extra {
                    let mut c = sized(ty, extra, total);
                    w.case("long", &payload(Start::Msgio, &[&c]));
                    c.extend(m("foo2.ping", &[]));
                    w.case("long", &payload(Start::Msgio, &[&c]));
                }
            }
            //long types: the reply names them
            if total > 0 && total < 1017 {
                let name = "m".repeat(total);
                for ty in [format!("{}1.x", name), format!("{}65535.x", name), format!("core1.{}", name), format!("{}1.{}", &name[..total / 2], &name[total / 2..])] {
                    let c = refs::render(ty.as_bytes(), &[]);
                    if c.len() <= 1024 {
                        w.case("long", &payload(Start::Msgio, &[&c]));
                        w.case("long", &payload(Start::Msgio, &[&[&c[..], &m("foo2.ping", &[])].concat()]));
                    }
                    let c = refs::render(b"want", &[ty[..ty.len() - 2].as_bytes()]);
                    if c.len() <= 1024 {
                        w.case("long", &payload(Start::Msgio, &[&c]));
                    }
                }
                //the new client's ID
                let id = format!("c{}", &name);
                let c = refs::render(b"core1.client-make", &[id.as_bytes(), b"", b"", b""]);
                if c.len() <= 1024 {
                    w.case("long", &payload(Start::Msgio, &[&[&c[..], &refs::render(b"core1.client-end", &[id.as_bytes()])].concat()]));
                }
            }
        });
    }
}

impl Property for C12 {
    fn id(&self) -> &'static str {
        "C12"
    }
    fn level(&self) -> Level {
        Level::ModelChecking
    }
    fn rule(&self) -> String {
        "A case is a sequence of reads on a fresh connection, executed on the real code and on the reference server with equal events, modes, registrations and pending input after every read up to the outcome of the handshake; additionally, while the real connection is in handshake mode or torn down there must be \
         no reply on it, no application call but the authorization of its first message, and no effect of input after teardown. Non-trivial: the connection left handshake mode."
            .into()
    }
    fn bounds(&self) -> String {
        "61 first pieces (hellos of all kinds with fresh, redeemed, foreign, truncated and extended secrets, every message of the message menu, 22 kinds of garbage) x 62 second pieces, in one read and in separate reads; all prefixes of hellos; every replacement of every byte of the three valid hellos by every value, every deletion, \
         and every insertion of every value; first messages around the length limit and with any number of arguments; two connections redeeming the same secret in both orders; identities with every combination of screens, and with client and screen IDs of every length up to 1059"
            .into()
    }
    fn run_case(&self, kind: &str, p: &[u8], r: &mut Rec) -> Result<(), String> {
        if kind == "identity" {
            return identity(&unpack_numbers(p), r);
        }
        let start = Start::from(p[0]);
        let chunks = unpack(&p[1..]);
        let mut b = Both::new(start);
        b.w.state().queries = 0;
        let mut first = true;
        let mut was = Mode::Handshake;
        for (k, c) in chunks.iter().enumerate() {
            //in kind "race", the reads go to two connections alternately
            let id = if kind == "race" && k % 2 == 1 {
                if k == 1 {
                    b.w.open();
                    b.m.open();
                }
                SUBJECT + 1
            } else {
                SUBJECT
            };
            if matches!(b.m.conns[id].mode, Mode::Msgio(..)) {
                //what is allowed after the handshake is not the point here
                b.w.feed(id, c);
                b.m.feed(id, c);
                b.w.take_log();
                b.m.log.clear();
                was = b.w.mode(SUBJECT);
                continue;
            }
            let s = b.step_as(id, c, handshake_only).map_err(|e| format!("after {}: {}", show_chunks(&chunks[..k + 1]), e))?;
            if kind == "race" {
                r.outcome = Some(hash2(r.outcome.unwrap_or(0), s.hash()));
                continue;
            }
            let mode = b.w.mode(SUBJECT);
            if was == Mode::Teardown {
                ensure!(s.events.is_empty() && mode == Mode::Teardown, "input after the teardown had an effect: {}", show_log(&s.events));
            }
            if matches!(mode, Mode::Handshake | Mode::Teardown) && was == Mode::Handshake {
                for ev in &s.events {
                    match ev {
                        Ev::Handled(..) if first => first = false,
                        Ev::AuthClient(_, None) | Ev::AuthStdin(_, None) | Ev::AuthStdout(_, None) => {}
                        Ev::Discard(..) => {}
                        //a hello that succeeded, whose connection was torn down by the following bytes
                        _ if s.events.iter().any(|e| matches!(e, Ev::AuthClient(_, Some(_)) | Ev::AuthStdin(_, Some(_)))) => {}
                        e => return Err(format!("a connection without successful handshake caused: {}", show_ev(e))),
                    }
                }
                if s.events.iter().all(|e| !matches!(e, Ev::AuthClient(_, Some(_)))) {
                    ensure!(b.w.state().queries == 0, "a connection without successful handshake made the application look up clients");
                }
            }
            was = mode;
            r.outcome = Some(hash2(r.outcome.unwrap_or(0), s.hash()));
        }
        let mode = b.w.mode(SUBJECT);
        r.nontrivial = mode != Mode::Handshake;
        r.tag(match mode {
            Mode::Handshake => "still in handshake mode",
            Mode::Msgio(..) => "became a message socket",
            Mode::Stdin(_) => "became a stdin socket",
            Mode::Stdout(_) => "became a stdout socket",
            Mode::Teardown => "torn down",
        });
        Ok(())
    }
    fn describe(&self, kind: &str, p: &[u8]) -> String {
        if kind == "identity" {
            return format!("lengths of client ID and of the screen IDs of its standard streams (0: none): {:?}", unpack_numbers(p));
        }
        format!("{}: {}", kind, describe(p))
    }
    fn enumerate(&self, e: &Eng) {
        //identities of all sizes
        e.par(1060, |w, n| {
            let n = n as u32;
            if n > 0 {
                w.case("identity", &pack_numbers(&[n, 0, 0, 0]));
                w.case("identity", &pack_numbers(&[n, 1, 2, 3]));
                w.case("identity", &pack_numbers(&[1, n, 0, 0]));
                w.case("identity", &pack_numbers(&[1, 0, n, 0]));
                w.case("identity", &pack_numbers(&[1, 0, 0, n]));
                w.case("identity", &pack_numbers(&[n / 4 + 1, n / 4, (n + 1) / 4, (n + 2) / 4]));
                w.case("identity", &pack_numbers(&[n, n, n, n]));
            }
            if n < 256 {
                let k = |i: u32| [0, 1, 9, 100][(n >> (2 * i)) as usize % 4];
                w.case("identity", &pack_numbers(&[k(0) + 1, k(1), k(2), k(3)]));
            }
        });
        let mut pieces = first_messages();
        pieces.extend(garbage());
        pieces.push(vec![b'{'; 1100]);
        let n = pieces.len();
        let more = m("foo2.ping", &[]);
        e.par(n, |w, i| {
            let a = &pieces[i][..];
            w.case("first", &payload(Start::Handshake, &[a]));
            w.case("first", &payload(Start::Handshake, &[a, &more, &hello("client", 6), b"x", &more]));
            for p in &pieces {
                w.case("first", &payload(Start::Handshake, &[a, p, &more]));
                w.case("first", &payload(Start::Handshake, &[&[a, p].concat(), &more, b"{1|4:want,}"]));
                for q in &pieces {
                    w.case("first", &payload(Start::Handshake, &[&[a, p, q].concat()]));
                    if e.thorough() {
                        w.case("first", &payload(Start::Handshake, &[a, p, q]));
                    }
                }
            }
            //incomplete
            for j in 1..a.len() {
                for q in [&b"}"[..], b"{", b"x", b",}", &more[..], &a[j..]] {
                    w.case("cut", &payload(Start::Handshake, &[&a[..j], q, &more]));
                    w.case("cut", &payload(Start::Handshake, &[&[&a[..j], q].concat(), &more]));
                }
            }
        });
        let valid = [hello("client", SECRET_FRESH), hello("stdin", SECRET_STDIN), hello("stdout", SECRET_STDOUT)];
        e.par(256, |w, v| {
            for h in &valid {
                for i in 0..=h.len() {
                    let mut x = h.clone();
                    x.insert(i, v as u8);
                    w.case("edit", &payload(Start::Handshake, &[&x, &more]));
                    if i < h.len() {
                        let mut x = h.clone();
                        x[i] = v as u8;
                        w.case("edit", &payload(Start::Handshake, &[&x, &more]));
                        if v == 0 {
                            let mut x = h.clone();
                            x.remove(i);
                            w.case("edit", &payload(Start::Handshake, &[&x, &more]));
                        }
                    }
                }
            }
        });
        //the type names with edits but a correct length, and secrets of other lengths
        e.par(256, |w, v| {
            for (kind, k) in [("client", SECRET_FRESH), ("stdin", SECRET_STDIN), ("stdout", SECRET_STDOUT)] {
                let ty = format!("posix1.{}-hello", kind).into_bytes();
                for i in 0..=ty.len() {
                    let mut x = ty.clone();
                    x.insert(i, v as u8);
                    w.case("edit", &payload(Start::Handshake, &[&refs::render(&x, &[&secret(k)]), &more]));
                    if i < ty.len() {
                        let mut x = ty.clone();
                        x[i] = v as u8;
                        w.case("edit", &payload(Start::Handshake, &[&refs::render(&x, &[&secret(k)]), &more]));
                    }
                }
                let s = secret(k);
                for i in 0..=s.len() {
                    let mut x = s.clone();
                    x.insert(i, v as u8);
                    w.case("edit", &payload(Start::Handshake, &[&refs::render(&ty, &[&x]), &more]));
                    w.case("edit", &payload(Start::Handshake, &[&refs::render(&ty, &[&s[..i]]), &more]));
                    w.case("edit", &payload(Start::Handshake, &[&refs::render(&ty, &[&s, &[v as u8]]), &more]));
                }
            }
        });
        e.par(1040, |w, total| {
            if total > 40 {
                for ty in ["posix1.client-hello", "posix1.stdin-hello", "posix1.stdout-hello", "want"] {
                    w.case("long", &payload(Start::Handshake, &[&sized(ty, 0, total), &more]));
                }
            }
        });
        //any number of arguments
        e.par(505, |w, n| {
            for ty in ["want", "foo2.x", "core1.client-end", "posix1.client-hello", "posix1.stdin-hello", "posix1.stdout-hello"] {
                let args: Vec<&[u8]> = vec![b""; n];
                let c = refs::render(ty.as_bytes(), &args);
                if c.len() <= 1024 {
                    w.case("long", &payload(Start::Handshake, &[&c, &hello("client", 6), &more]));
                    w.case("long", &payload(Start::Handshake, &[&[&c[..], &hello("client", 6), &more].concat()]));
                }
            }
        });
        //two connections and one secret
        e.par(pieces.len(), |w, i| {
            for p in &pieces {
                w.case("race", &payload(Start::Handshake, &[&pieces[i], p, &more, &more]));
                let j = p.len() / 2;
                w.case("race", &payload(Start::Handshake, &[&pieces[i][..1], &p[..j], &pieces[i][1..], &p[j..], &more, &more]));
            }
        });
    }
}
