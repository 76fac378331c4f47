//! The same things in growing numbers and sizes: every case is one execution (under each base policy)
//! with n messages, bytes, broadcasts, connections...

use crate::app::*;
use crate::example;
use crate::scen::*;
use tokio::mc::{self, Config};
use tokio::net;

const EINTR: i32 = 4;
const EAGAIN: i32 = 11;
const ENOMEM: i32 = 12;
const ENFILE: i32 = 23;
const EMFILE: i32 = 24;
const ENOBUFS: i32 = 105;

/// What the event loop does when accepting fails with this error, with or without another client.
fn accept_error(errno: i32, others: bool) {
    //(EAGAIN and EINTR are not failures, and whether a lack of memory is like too many open files is not said)
    if [EAGAIN, EINTR, ENOMEM, ENOBUFS].contains(&errno) {
        return;
    }
    let too_many = [EMFILE, ENFILE].contains(&errno);
    if too_many && !others {
        return;
    }
    let cause = std::io::Error::from_raw_os_error(errno).to_string();
    start();
    let a = if others { Some(join("a")) } else { None };
    net::fail_next(net::Op::Accept, errno);
    let b = connect("b");
    b.send(&hello("b"));
    settle();
    if net::fault_is_pending() {
        fail("C26", "the connection was not tried to be accepted".into());
    }
    match mon(|m| m.result.clone()) {
        None if too_many => {
            let a = a.unwrap();
            check_served(&a);
            a.close();
            settle();
            check_served(&b);
            finish();
        }
        None => fail("C26", format!("accepting failed with {:?}, and the event loop did not end", cause)),
        Some(e) => {
            if too_many {
                fail("C18", format!("accepting failed with {:?}, and the event loop ended with {:?}", cause, e.result));
                return;
            }
            if !e.result.as_ref().is_err_and(|e| e.contains(&cause)) {
                fail("C26", format!("accepting failed with {:?}, and the event loop returned {:?}", cause, e.result));
            }
            //without the socket file in the way, the event loop can be run again
            if let Some(a) = a {
                a.close();
            }
            b.close();
            settle();
            forget_clients();
            serve_again();
            if let Some(e) = mon(|m| m.result.clone()) {
                fail("C26", format!("accepting failed with {:?}, and the event loop could not be run again: {:?}", cause, e.result));
                return;
            }
            finish();
        }
    }
}

pub struct Scale {
    pub name: &'static str,
    pub props: &'static [&'static str],
    pub cfg: fn(&mut Config),
    /// The largest n (quick, thorough).
    pub max: (usize, usize),
    /// All n up to this are tried, not only those around powers of two.
    pub dense: usize,
    pub body: fn(usize),
}

impl Scale {
    /// Everything up to `dense`, and beyond that the powers of two (and 1000, 10000...) and their neighbours.
    pub fn sizes(&self, thorough: bool) -> Vec<usize> {
        let max = if thorough { self.max.1 } else { self.max.0 };
        let dense = if thorough { self.dense * 4 } else { self.dense };
        let mut l: Vec<usize> = (1..=dense.min(max)).collect();
        for p in (0..28).map(|k| 1usize << k).chain([10, 100, 1000, 10000, 100000]) {
            l.extend([p.saturating_sub(1), p, p + 1].iter().filter(|&&n| n > dense && n <= max));
        }
        l.push(max);
        l.sort_unstable();
        l.dedup();
        l
    }
}

fn wide(c: &mut Config) {
    c.capacity = 1 << 16;
}

fn id(i: usize) -> String {
    format!("n{}", i)
}

pub const SCALES: &[Scale] = &[
    Scale { name: "n-messages-at-once", props: &["C15", "C25", "C18"], cfg: wide, max: (1025, 8193), dense: 20, body: |n| {
        start();
        let a = join("a");
        let from = a.got.borrow().len();
        let m: Vec<Vec<u8>> = (0..n).map(|i| echo(&id(i))).collect();
        a.send(&cat(&m));
        settle();
        check_handled("a", &m);
        check_got(&a, from, &cat(&m));
        check_up(&a);
        check_delivery();
        finish();
    } },
    Scale { name: "n-messages-one-by-one", props: &["C15", "C25"], cfg: wide, max: (1025, 8193), dense: 0, body: |n| {
        start();
        let a = join("a");
        let from = a.got.borrow().len();
        let m: Vec<Vec<u8>> = (0..n).map(|i| echo(&id(i))).collect();
        for m in &m {
            a.send(m);
            settle();
        }
        check_handled("a", &m);
        check_got(&a, from, &cat(&m));
        check_up(&a);
        check_delivery();
        finish();
    } },
    Scale { name: "n-long-messages", props: &["C15", "C25", "C18"], cfg: wide, max: (129, 1025), dense: 12, body: |n| {
        start();
        let a = join("a");
        let from = a.got.borrow().len();
        //(1024 bytes each)
        let m: Vec<Vec<u8>> = (0..n).map(|i| echo(&format!("{:01003}", i))).collect();
        let (b, mut at) = (cat(&m), 0);
        //in pieces that do not fit the messages
        while at < b.len() {
            let end = (at + 1500).min(b.len());
            a.send(&b[at..end]);
            at = end;
        }
        settle();
        check_handled("a", &m);
        check_got(&a, from, &cat(&m));
        check_up(&a);
        check_delivery();
        finish();
    } },
    Scale { name: "n-replies-unread", props: &["C15", "C18"], cfg: page, max: (1025, 8193), dense: 40, body: |n| {
        start();
        let (a, b) = (join("a"), join("b"));
        a.reading.set(false);
        let m = msg("t1.burst", &[n.to_string().as_bytes(), b"900"]);
        a.send(&m);
        a.send(&echo("end"));
        settle();
        check_served(&b);
        a.reading.set(true);
        settle();
        check_handled("a", &[m, echo("end")]);
        check_up(&a);
        check_delivery();
        finish();
    } },
    Scale { name: "n-short-replies-unread", props: &["C15"], cfg: narrow_capacity, max: (2049, 16385), dense: 0, body: |n| {
        start();
        let a = join("a");
        a.reading.set(false);
        a.send(&msg("t1.burst", &[n.to_string().as_bytes(), b"3"]));
        settle();
        a.reading.set(true);
        settle();
        check_up(&a);
        check_delivery();
        finish();
    } },
    Scale { name: "pages-filled-to-n", props: &["C15"], cfg: wide, max: (1000, 1000), dense: 1000, body: |n| {
        //what is enqueued while the server is busy with one read fills the send buffers without gaps, so
        //that this comes to every sum around their size
        start();
        let a = join("a");
        let piece = |k: usize, len: usize| msg("t1.burst", &[k.to_string().as_bytes(), len.to_string().as_bytes()]);
        let m = [piece(3, 995), piece(1, n), piece(2, 3), piece(1, 995), piece(4, n), piece(1, 0)];
        a.send(&cat(&m));
        settle();
        check_handled("a", &m);
        check_up(&a);
        check_delivery();
    } },
    Scale { name: "n-connections-ended-at-once", props: &["C17", "C16"], cfg: page, max: (257, 1025), dense: 20, body: |n| {
        start();
        let d = join("d");
        let before = snapshot();
        let l: Vec<C> = (0..n)
            .map(|i| match i % 5 {
                0 => join(&format!("in:{}", id(i))),
                1 => join(&id(i)),
                2 => connect(&id(i)),
                3 => join(&format!("out:{}", id(i))),
                _ => {
                    let c = join(&id(i));
                    c.reading.set(false);
                    c.send(&msg("t1.burst", &[b"9", b"1000"]));
                    c
                }
            })
            .collect();
        settle();
        end_all_but("d");
        settle();
        for c in &l {
            if !c.closed.get() && !c.c.server_closed() {
                fail("C17", format!("the connection of {} was not closed when a broadcast ended it", c.who));
            }
        }
        check_gone(&before);
        check_served(&d);
        check_broadcasts();
        finish();
    } },
    Scale { name: "end-among-broadcasts", props: &["C17", "C16"], cfg: page, max: (539, 539), dense: 539, body: |n| {
        //a broadcast ends a connection, among others that are enqueued before it, after it and by it
        let (at, n) = (n % 6, n / 6);
        let (rounds, n) = (1 + n % 5, n / 5);
        let (before, n) = (n % 3, n / 3);
        let (after, own) = (n % 3, n / 3);
        start();
        let d = join("d");
        let snap = snapshot();
        let (a, b) = (join("a"), join("b"));
        if own == 2 {
            chain_ending(rounds, 1 + at, "b");
        } else {
            let t = |n: usize| n.to_string().into_bytes();
            a.send(&msg("t1.among", &[&t(before), &t(rounds), &t(1 + at), &t(after), &t(own)]));
        }
        settle();
        let (victim, other) = if own == 1 { (&a, &b) } else { (&b, &a) };
        if at < rounds && !victim.c.server_closed() {
            fail("C17", "a connection was not closed when a broadcast among others ended it".into());
        }
        check_up(other);
        check_broadcasts();
        check_delivery();
        check_served(other);
        check_served(&d);
        a.close();
        b.close();
        settle();
        check_gone(&snap);
        finish();
    } },
    Scale { name: "n-bytes-of-input", props: &["C15"], cfg: wide, max: (1 << 20, 1 << 24), dense: 0, body: |n| {
        start();
        let s = join("in:s");
        s.reading.set(false);
        type_in("s", (0..n).map(|i| (i % 251) as u8).collect());
        type_in("s", vec![7; 10]);
        settle();
        s.reading.set(true);
        settle();
        check_broadcasts();
        check_up(&s);
        check_delivery();
        finish();
    } },
    Scale { name: "n-pages-of-input", props: &["C15"], cfg: page, max: (65, 513), dense: 33, body: |n| {
        start();
        let s = join("in:s");
        s.reading.set(false);
        type_in("s", (0..n * 4072).map(|i| (i % 241) as u8).collect());
        settle();
        s.reading.set(true);
        settle();
        check_up(&s);
        check_delivery();
        finish();
    } },
    Scale { name: "n-inputs", props: &["C15", "C16"], cfg: page, max: (1025, 8193), dense: 20, body: |n| {
        start();
        let s = join("in:s");
        s.reading.set(false);
        for i in 0..n {
            type_in("s", vec![(i % 251) as u8; 100 + i % 7]);
        }
        settle();
        s.reading.set(true);
        settle();
        check_broadcasts();
        check_up(&s);
        check_delivery();
        finish();
    } },
    Scale { name: "n-broadcasts-of-a-handler", props: &["C16", "C15", "C18"], cfg: wide, max: (1025, 4097), dense: 40, body: |n| {
        start();
        let (a, _b) = (join("a"), join("b"));
        a.send(&msg("t1.many", &[n.to_string().as_bytes()]));
        settle();
        check_broadcasts();
        check_delivery();
        finish();
    } },
    Scale { name: "n-nested-broadcasts", props: &["C16", "C18"], cfg: wide, max: (513, 4097), dense: 20, body: |n| {
        start();
        let (a, _b) = (join("a"), join("b"));
        a.send(&msg("t1.chain", &[n.to_string().as_bytes()]));
        settle();
        check_broadcasts();
        check_delivery();
        if mon(|m| m.bc_next as usize) != n {
            fail("C16", format!("{} of {} nested broadcasts were enqueued", mon(|m| m.bc_next), n));
        }
        finish();
    } },
    Scale { name: "n-broadcasts-of-a-thread", props: &["C16", "C15"], cfg: wide, max: (1025, 4097), dense: 0, body: |n| {
        start();
        let (a, _b) = (join("a"), join("b"));
        mc::actor("app", move || {
            for _ in 0..n {
                tell_all("x", false);
            }
        });
        a.send(&echo("one"));
        settle();
        check_broadcasts();
        check_delivery();
        finish();
    } },
    Scale { name: "n-connections", props: &["C16", "C17", "C18", "C25"], cfg: wide, max: (257, 1025), dense: 10, body: |n| {
        start();
        let d = join("d");
        let before = snapshot();
        let l: Vec<C> = (0..n)
            .map(|i| match i % 4 {
                2 => connect(&id(i)),
                3 => join(&format!("out:{}", id(i))),
                _ => join(&id(i)),
            })
            .collect();
        tell_all("x", false);
        settle();
        check_broadcasts();
        let talk = |c: &C, s: &str| {
            let from = c.got.borrow().len();
            c.send(&echo(s));
            settle();
            check_got(c, from, &echo(s));
            check_up(c);
        };
        for c in l.iter().filter(|c| c.key().is_some() && !c.who.contains(':')) {
            talk(c, "one");
        }
        //every second one goes
        for c in l.iter().step_by(2) {
            c.close();
        }
        settle();
        for c in l.iter().skip(1).step_by(4) {
            talk(c, "two");
        }
        tell_all("y", false);
        settle();
        check_broadcasts();
        check_delivery();
        check_served(&d);
        for c in l.iter().skip(1).step_by(2) {
            check_up(c);
            c.close();
        }
        settle();
        check_gone(&before);
        check_served(&d);
        finish();
    } },
    Scale { name: "n-connections-in-turn", props: &["C17", "C18"], cfg: wide, max: (1025, 65537), dense: 0, body: |n| {
        start();
        let d = join("d");
        let before = snapshot();
        for i in 0..n {
            let c = join("c");
            match i % 3 {
                0 => c.close(),
                1 => c.send(&msg("t1.die", &[])),
                _ => c.shut(),
            }
            settle();
            if !c.closed.get() && !c.c.server_closed() {
                fail("C17", format!("connection {} was not closed", i));
            }
            forget_all_but("d");
        }
        check_gone(&before);
        check_served(&d);
        finish();
    } },
    Scale { name: "shutdown-with-n-connections", props: &["C19"], cfg: page, max: (257, 1025), dense: 20, body: |n| {
        start();
        for i in 0..n {
            match i % 5 {
                0 => {
                    join(&id(i));
                }
                1 => {
                    connect(&id(i));
                }
                2 => {
                    join(&format!("out:{}", id(i)));
                }
                3 => {
                    let c = join(&format!("in:{}", id(i)));
                    c.reading.set(false);
                }
                _ => {
                    let c = join(&id(i));
                    c.reading.set(false);
                    c.send(&msg("t1.burst", &[b"9", b"1000"]));
                }
            }
        }
        settle();
        dispatch().shutdown();
        settle();
        check_ended(true);
    } },
    Scale { name: "accept-error-n", props: &["C26", "C18"], cfg: wide, max: (133, 133), dense: 133, body: |n| accept_error(n as i32, true) },
    Scale { name: "first-accept-error-n", props: &["C26"], cfg: wide, max: (133, 133), dense: 133, body: |n| accept_error(n as i32, false) },
    Scale { name: "io-error-n", props: &["C26", "C17"], cfg: wide, max: (133, 133), dense: 133, body: |n| {
        let errno = n as i32;
        if [EAGAIN, EINTR].contains(&errno) {
            return;
        }
        start();
        let before = snapshot();
        for (op, who) in [(net::Op::Read, "a"), (net::Op::Write, "a"), (net::Op::Read, "in:s"), (net::Op::Write, "in:s"), (net::Op::Read, "out:s")] {
            let (b, c) = (join("b"), join(who));
            net::fail_next(op, errno);
            match (op, who) {
                (net::Op::Write, "in:s") => {
                    type_in("s", b"typed".to_vec());
                }
                _ => c.send(&echo("one")),
            }
            settle();
            if net::fault_is_pending() {
                fail("C26", format!("{:?} of {} was not tried", op, who));
            }
            check_errors();
            if !c.c.server_closed() {
                fail("C17", format!("after an error ({}), the connection is left open", std::io::Error::from_raw_os_error(errno)));
            }
            check_served(&b);
            b.close();
            c.close();
            settle();
            forget_clients();
            check_gone(&before);
        }
        finish();
    } },
    Scale { name: "x-n-clients", props: &["C23"], cfg: wide, max: (129, 513), dense: 20, body: example::many_clients },
    Scale { name: "x-n-ended-clients", props: &["C23"], cfg: wide, max: (257, 1025), dense: 20, body: example::many_ended },
    Scale { name: "x-ids-of-n-characters", props: &["C23"], cfg: wide, max: (257, 1025), dense: 20, body: example::long_ids },
    Scale { name: "x-n-guesses", props: &["C23"], cfg: wide, max: (257, 2049), dense: 12, body: example::many_guesses },
    Scale { name: "x-near-misses-at-n", props: &["C23"], cfg: wide, max: (256, 1025), dense: 48, body: example::near_misses },
    Scale { name: "x-n-odd-bytes", props: &["C23"], cfg: wide, max: (257, 4097), dense: 20, body: example::odd_bytes },
    Scale { name: "x-n-seconds", props: &["C23"], cfg: wide, max: (1025, 65537), dense: 20, body: example::many_ticks },
    Scale { name: "n-bytes-of-output", props: &["C25", "C18"], cfg: wide, max: (1 << 20, 1 << 24), dense: 0, body: |n| {
        start();
        let b: Vec<u8> = (0..n).map(|i| (i % 251) as u8).collect();
        let o = connect("out:s");
        //together with the handshake
        o.send(&[hello("out:s"), b.clone()].concat());
        settle();
        check_output(&b);
        o.send(b"more");
        o.shut();
        settle();
        check_output(&[b, b"more".to_vec()].concat());
        finish();
    } },
    Scale { name: "n-bytes-at-a-time", props: &["C25"], cfg: wide, max: (1025, 65537), dense: 60, body: |n| {
        //whenever the server is idle, it has processed everything that has been sent
        start();
        let o = connect("out:s");
        for p in hello("out:s").chunks(n) {
            o.send(p);
            settle();
        }
        let mut want = vec![];
        for k in 0..3 {
            let b: Vec<u8> = (0..n).map(|i| ((i + k) % 251) as u8).collect();
            o.send(&b);
            want.extend(b);
            settle();
            check_output(&want);
        }
        let a = connect("a");
        let m = [msg("t1.quiet", &[b"1"]), echo("2"), msg("t1.quiet", &[&vec![b'x'; n.min(900)]]), msg("have", &[]), echo("3")];
        let all = cat(&[hello("a"), cat(&m)]);
        let (mut sent, mut ends) = (0, vec![hello("a").len()]);
        for x in &m {
            ends.push(ends[ends.len() - 1] + x.len());
        }
        for p in all.chunks(n) {
            a.send(p);
            sent += p.len();
            settle();
            let complete = ends.iter().filter(|&&e| e <= sent).count().saturating_sub(1);
            check_handled("a", &m[..complete]);
        }
        let from = mon(|m| m.discarded.len());
        for k in 1..=3 {
            a.send(&vec![b'}'; n]);
            settle();
            let got = mon(|m| m.discarded.len()) - from;
            if got != n * k {
                fail("C25", format!("of {} bytes of garbage, {} were discarded", n * k, got));
            }
        }
        //what is not allowed at all
        for who in ["in:s", "b"] {
            let before = snapshot();
            let i = connect(who);
            if who == "in:s" {
                i.send(&hello(who));
                settle();
            }
            i.send(&vec![b'}'; n]);
            settle();
            if !i.c.eof() {
                fail("C25", format!("{} bytes sent on {} have no effect", n, who));
            }
            i.c.close();
            settle();
            check_gone(&before);
        }
        check_up(&a);
        check_delivery();
        finish();
    } },
    Scale { name: "n-odd-bytes", props: &["C25", "C18"], cfg: wide, max: (513, 4097), dense: 40, body: |n| {
        start();
        let a = join("a");
        let mut want = vec![];
        let mut said = vec![];
        for (k, c) in ["\u{e9}", "\u{20ac}", "\u{1f600}", "\u{feff}", "\0", "\u{85}"].iter().enumerate() {
            let c = c.as_bytes();
            for (j, b) in [c.repeat(n), [&b"x".repeat(n)[..], c].concat(), [&b"x"[..], &c.repeat(n)].concat(), c[c.len() - 1..].repeat(n), [&b"\n".repeat(n)[..], &c[..1]].concat()].iter().enumerate() {
                let e = echo(&format!("e{}x{}", k, j));
                //(together with a message, and the next time not)
                let from = a.got.borrow().len();
                match j % 2 {
                    0 => a.send(&[&b[..], &e].concat()),
                    _ => {
                        a.send(b);
                        settle();
                        a.send(&e);
                    }
                }
                settle();
                check_got(&a, from, &e);
                said.push(e);
                want.extend_from_slice(b);
            }
        }
        check_handled("a", &said);
        let o = connect("out:s");
        o.send(&hello("out:s"));
        settle();
        for b in want.chunks(n + 1) {
            o.send(b);
            settle();
        }
        check_output(&want);
        let p = connect("p");
        p.send(&want);
        settle();
        check_up(&a);
        check_delivery();
        finish();
    } },
    Scale { name: "n-bytes-of-garbage", props: &["C25", "C18"], cfg: wide, max: (1 << 18, 1 << 22), dense: 0, body: |n| {
        start();
        let a = join("a");
        let from = a.got.borrow().len();
        let mut b: Vec<u8> = (0..n).map(|i| b"{,|x:0}"[i % 7]).collect();
        b.push(b'}');
        b.extend(echo("one"));
        a.send(&b);
        settle();
        check_handled("a", &[echo("one")]);
        check_got(&a, from, &echo("one"));
        check_up(&a);
        check_delivery();
        finish();
    } },
];

fn narrow_capacity(c: &mut Config) {
    c.capacity = 24;
}
fn check_output(want: &[u8]) {
    let got = mon(|m| m.stdout.get("s").cloned().unwrap_or_default());
    if got != want {
        fail("C25", format!("stdout received {} bytes ({}) instead of {}", got.len(), engine::show(&got[..got.len().min(50)]), want.len()));
    }
}
