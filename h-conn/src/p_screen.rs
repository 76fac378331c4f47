//! C14: stdin and stdout sockets.

use crate::p_reply::Both;
use crate::p_split::show_chunks;
use crate::scene::*;
use crate::world::*;
use engine::*;
use vt6::server::{ConnectionState, Dispatch, ScreenIdentity};

pub struct C14;

fn payload(start: Start, chunks: &[&[u8]]) -> Vec<u8> {
    [&[start as u8][..], &pack(chunks)].concat()
}

const LONG: &str = "0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdefx";
const LONG2: &str = "0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdefy";
const SCREENS: [&str; 21] = [
    "s1", "s2", "s", "S1", "s12", "", " ", "s1 ", " s1", "s 1", "s1\n", "s1\0", "s\u{0}1", "s1/", "s01", "1s", "\u{e9}", "e\u{301}", "\u{c9}", LONG, LONG2,
];

impl Property for C14 {
    fn id(&self) -> &'static str {
        "C14"
    }
    fn level(&self) -> Level {
        Level::ModelChecking
    }
    fn rule(&self) -> String {
        "A case is a sequence of reads on a fresh connection starting with a stdout or stdin handshake, or on an established screen socket, executed on the real code: after a stdout handshake exactly the bytes after it must have reached the sink of that screen, in order, and nothing else may have happened; \
         anything received on a stdin socket must tear it down with nothing handled. Kind enqueue: input for one screen broadcast to connections of all kinds. Non-trivial: at least one byte after the handshake, or input enqueued."
            .into()
    }
    fn bounds(&self) -> String {
        "all byte strings of up to 2 bytes, all strings of up to 4 over 12 structural bytes, all sequences of 2 pieces from the menus of messages and garbage, sizes around the buffer and message limits up to 70000 bytes; in the read of the handshake, in separate reads, and cut at every position; 21 screen names that differ in little (case, blanks, control characters, one character at the end of 257, composed and decomposed accents)".into()
    }
    fn run_case(&self, kind: &str, p: &[u8], r: &mut Rec) -> Result<(), String> {
        if kind == "enqueue" {
            return enqueue(p, r);
        }
        let start = Start::from(p[0]);
        let chunks = unpack(&p[1..]);
        let all: Vec<u8> = chunks.concat();
        let mut b = Both::new(start);
        let mut fed = 0;
        let mut out: Vec<u8> = vec![];
        let mut handled = 0;
        let so = hello("stdout", SECRET_STDOUT);
        let si = hello("stdin", SECRET_STDIN);
        let is_stdout = start == Start::Stdout || start == Start::Handshake && all.starts_with(&so);
        let skip = match start {
            Start::Handshake if is_stdout => so.len(),
            Start::Handshake => si.len(),
            _ => 0,
        };
        for c in &chunks {
            let s = b.step(SUBJECT, c).map_err(|e| format!("after {}: {}", show_chunks(&chunks), e))?;
            fed += c.len();
            for e in &s.events {
                match e {
                    Ev::Stdout(screen, bytes) if is_stdout && screen == "s1" => out.extend_from_slice(bytes),
                    Ev::Handled(SUBJECT, _) if skip > 0 => handled += 1,
                    Ev::AuthStdin(..) | Ev::AuthStdout(..) if skip > 0 && handled == 1 => {}
                    Ev::Discard(SUBJECT, _) if !is_stdout => {}
                    e => return Err(format!("a {} socket caused: {}", if is_stdout { "stdout" } else { "stdin" }, show_ev(e))),
                }
            }
            ensure!(handled <= 1, "something after the handshake was handled as a message");
            let after = fed.saturating_sub(skip);
            if fed >= skip {
                if is_stdout {
                    ensure!(out == all[skip..fed], "the sink of the screen received {} instead of {}", show(&out), show(&all[skip..fed]));
                    ensure!(b.w.mode(SUBJECT) == Mode::Stdout("s1".into()), "the stdout socket is now in {:?}", b.w.mode(SUBJECT));
                } else {
                    let want = if after > 0 { Mode::Teardown } else { Mode::Stdin("s1".into()) };
                    ensure!(b.w.mode(SUBJECT) == want, "the stdin socket is now in {:?} after {} bytes on it", b.w.mode(SUBJECT), after);
                }
            }
        }
        r.nontrivial = fed > skip;
        r.tag(if is_stdout { "stdout" } else { "stdin" });
        r.outcome = Some(hash2(hash_bytes(&out), is_stdout as u64));
        Ok(())
    }
    fn describe(&self, kind: &str, p: &[u8]) -> String {
        if kind == "enqueue" {
            return format!("input for screen {:?}", SCREENS[p[0] as usize]);
        }
        format!("{} on a connection in mode {:?}", show_chunks(&unpack(&p[1..])), Start::from(p[0]))
    }
    fn enumerate(&self, e: &Eng) {
        let hellos = [hello("stdout", SECRET_STDOUT), hello("stdin", SECRET_STDIN)];
        let content = |w: &mut W, c: &[u8]| {
            for h in &hellos {
                w.case("reads", &payload(Start::Handshake, &[&[h, c].concat()]));
            }
            for st in [Start::Stdout, Start::Stdin] {
                w.case("reads", &payload(st, &[c]));
            }
        };
        let cuts = |w: &mut W, c: &[u8]| {
            for h in &hellos {
                let all = [h, c].concat();
                for i in 1..all.len() {
                    w.case("reads", &payload(Start::Handshake, &[&all[..i], &all[i..]]));
                }
                let each: Vec<&[u8]> = all.chunks(1).collect();
                w.case("reads", &payload(Start::Handshake, &each));
            }
            for st in [Start::Stdout, Start::Stdin] {
                for i in 1..c.len() {
                    w.case("reads", &payload(st, &[&c[..i], &c[i..]]));
                }
            }
        };
        e.par(256, |w, a| {
            content(w, &[a as u8]);
            for b in 0..=255u8 {
                content(w, &[a as u8, b]);
            }
        });
        let alphabet = b"{}|:,019w\n\x00\xff";
        for len in 3..=e.bound(4, 5) {
            let total = (alphabet.len() as u64).pow(len as u32);
            e.par(64, |w, job| {
                let mut s = vec![];
                let mut k = job as u64;
                while k < total && !w.stopped() {
                    nth_string(alphabet, len, k, &mut s);
                    content(w, &s);
                    k += 64;
                }
            });
        }
        let mut pieces = messages();
        pieces.extend(garbage());
        pieces.extend([hello("stdout", 9), hello("client", 6), hello("stdin", 8)]);
        e.par(pieces.len(), |w, i| {
            content(w, &pieces[i]);
            cuts(w, &pieces[i]);
            for p in &pieces {
                content(w, &[&pieces[i][..], p].concat());
            }
        });
        let mut sizes: Vec<usize> = (950..1100).collect();
        sizes.extend([2047, 2048, 2049, 4071, 4072, 4073, 8192, 16384, 32768, 60000]);
        e.par(sizes.len(), |w, i| {
            for fill in [&b"{"[..], b"x", b"{1|4:want,}", b"\x00\xff", b"{1|99999:"] {
                let c: Vec<u8> = fill.iter().copied().cycle().take(sizes[i]).collect();
                content(w, &c);
                for at in [1, 500, 1023, 1024, 1025] {
                    if at < c.len() {
                        w.case("reads", &payload(Start::Stdout, &[&c[..at], &c[at..]]));
                        w.case("reads", &payload(Start::Handshake, &[&[&hellos[0][..], &c[..at]].concat(), &c[at..]]));
                    }
                }
            }
        });
        e.par(SCREENS.len() * 5, |w, i| w.case("enqueue", &[(i % SCREENS.len()) as u8, (i / SCREENS.len()) as u8]));
    }
}

/// One connection in each state and for each screen; input for one of the screens is broadcast.
fn enqueue(p: &[u8], r: &mut Rec) -> Result<(), String> {
    let target = SCREENS[p[0] as usize];
    let mut w = World::new();
    w.preset_client("a", [Some("s1".into()), Some("s1".into()), None]);
    let c = w.open();
    w.feed(c, &hello("client", 0));
    let mut expect = vec![];
    for s in SCREENS {
        let (i, o) = w.preset_screen(s);
        let c = w.open();
        let secret = w.secret(i);
        w.feed(c, &crate::refs::render(b"posix1.stdin-hello", &[&secret]));
        ensure!(w.mode(c) == Mode::Stdin(s.into()), "stdin socket of {:?} in {:?}", s, w.mode(c));
        if s == target {
            expect.push(c);
        }
        let c = w.open();
        let secret = w.secret(o);
        w.feed(c, &crate::refs::render(b"posix1.stdout-hello", &[&secret]));
        ensure!(w.mode(c) == Mode::Stdout(s.into()), "stdout socket of {:?} in {:?}", s, w.mode(c));
    }
    w.open();
    let dead = w.open();
    w.feed(dead, b"x");
    if p[1] == 1 {
        //the screen's own stdin socket has misbehaved before
        w.feed(expect[0], b"y");
        expect.clear();
    }
    w.take_log();
    let before = w.modes();
    for (id, (conn, _)) in w.conns.iter_mut() {
        let mode = &before[*id];
        let st = conn.state();
        ensure!(st.can_receive_messages() == matches!(mode, Mode::Handshake | Mode::Msgio(..)), "can_receive_messages() in {:?} is {}", mode, st.can_receive_messages());
        ensure!(st.can_receive_stdin() == matches!(mode, Mode::Stdin(_)), "can_receive_stdin() in {:?} is {}", mode, st.can_receive_stdin());
        ensure!(
            st.can_receive_stdin_for_screen(&ScreenIdentity::new(target)) == (*mode == Mode::Stdin(target.into())),
            "can_receive_stdin_for_screen({:?}) in {:?} is {}",
            target,
            mode,
            st.can_receive_stdin_for_screen(&ScreenIdentity::new(target))
        );
        ensure!(conn.message_connector().is_some() == matches!(mode, Mode::Msgio(..)), "message_connector() in {:?}", mode);
        let out = conn.stdout_connector().map(|c| c.0.screen_id().to_string());
        ensure!(out == if let Mode::Stdout(s) = mode { Some(s.clone()) } else { None }, "stdout_connector() in {:?} is that of {:?}", mode, out);
    }
    let lens = [0usize, 1, 5, 1024, 5000];
    let input: Vec<u8> = (0..lens[p[1] as usize % 5]).map(|i| i as u8).collect();
    let (id, inp) = (ScreenIdentity::new(target), input.clone());
    w.dispatch.enqueue_broadcast(Box::new(move |c| {
        if c.state().can_receive_stdin_for_screen(&id) {
            c.enqueue_stdin(&inp);
        } else if let ConnectionState::Stdin(_) = c.state() {
            assert!(c.state().can_receive_stdin());
        }
    }));
    w.broadcasts();
    let ev = w.events();
    let want: Vec<Ev> = expect.iter().filter(|_| !input.is_empty()).map(|c| Ev::Stdin(*c, input.clone())).collect();
    ensure!(ev == want, "input for {:?} reached {} instead of {}", target, show_log(&ev), show_log(&want));
    ensure!(before == w.modes(), "input changed connection modes");
    r.nontrivial = true;
    r.tag("stdin enqueued");
    Ok(())
}
