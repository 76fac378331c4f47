//! C10: how a stream is cut into reads does not matter.

use crate::refs::{self, Out, K};
use crate::scene::*;
use crate::world::*;
use engine::*;

pub struct C10;

/// Runs the real code on the chunks; the snapshot afterwards, with the invariants of every step checked.
fn run(start: Start, chunks: &[&[u8]]) -> Result<Snap, String> {
    let mut w = world(start);
    let mut events = vec![];
    let mut fed: Vec<u8> = vec![];
    for c in chunks {
        w.feed(SUBJECT, c);
        fed.extend_from_slice(c);
        events.extend(w.events());
        let mode = w.mode(SUBJECT);
        if mode == Mode::Teardown {
            continue;
        }
        let p = w.pending(SUBJECT);
        match mode {
            Mode::Handshake | Mode::Msgio(..) => {
                if !p.is_empty() {
                    ensure!(
                        matches!(refs::parse(&p), Out::Err { kind: K::Eof, .. }) && p.len() < 1024,
                        "after the chunks {}: {} bytes are left pending that are no proper prefix of a message: {}",
                        show_chunks(chunks),
                        p.len(),
                        show(&p)
                    );
                }
            }
            _ => ensure!(p.is_empty(), "after the chunks {}: {} bytes left pending in {:?}", show_chunks(chunks), p.len(), mode),
        }
        let mut acc: Vec<u8> = vec![];
        for e in &events {
            match e {
                Ev::Handled(SUBJECT, b) | Ev::Discard(SUBJECT, b) | Ev::Stdout(_, b) => acc.extend_from_slice(b),
                _ => {}
            }
        }
        acc.extend_from_slice(&p);
        ensure!(acc == fed, "after the chunks {}: handled, discarded, delivered and pending bytes are together {} but {} was received", show_chunks(chunks), show(&acc), show(&fed));
    }
    let mut s = Snap::of_world(&mut w, SUBJECT);
    s.events = canonical(events);
    if s.modes[SUBJECT] == Mode::Teardown {
        let mut acc: Vec<u8> = vec![];
        for e in &s.events {
            match e {
                Ev::Handled(SUBJECT, b) | Ev::Discard(SUBJECT, b) | Ev::Stdout(_, b) => acc.extend_from_slice(b),
                _ => {}
            }
        }
        ensure!(fed.starts_with(&acc), "after the chunks {}: handled and discarded bytes are together {}, which was not received like that", show_chunks(chunks), show(&acc));
    }
    Ok(s.forget_dead(SUBJECT))
}

pub fn show_chunks(c: &[&[u8]]) -> String {
    let v: Vec<String> = c.iter().take(12).map(|b| show(b)).collect();
    format!("[{}{}]", v.join(" | "), if c.len() > 12 { format!(" ... {} chunks", c.len()) } else { String::new() })
}

fn compare(start: Start, chunks: &[&[u8]], want: &Snap) -> Result<(), String> {
    let got = run(start, chunks)?;
    if &got != want {
        return Err(format!("the chunks {} lead to {} if received at once", show_chunks(chunks), got.diff(want)));
    }
    Ok(())
}

const SIZES: [usize; 9] = [1, 2, 3, 7, 64, 1000, 1023, 1024, 1025];

fn fixed_sizes(start: Start, s: &[u8], whole: &Snap, r: &mut Rec) -> Result<(), String> {
    for size in SIZES {
        if size < s.len() {
            let chunks: Vec<&[u8]> = s.chunks(size).collect();
            compare(start, &chunks, whole)?;
            r.extra_evaluations += 1;
        }
    }
    Ok(())
}

fn flavours(r: &mut Rec, s: &Snap) {
    r.outcome = Some(s.hash());
    match s.modes[SUBJECT] {
        Mode::Handshake => r.tag("left in handshake mode"),
        Mode::Msgio(..) => r.tag("left in message mode"),
        Mode::Stdin(_) => r.tag("left in stdin mode"),
        Mode::Stdout(_) => r.tag("left in stdout mode"),
        Mode::Teardown => r.tag("left in teardown"),
    }
    if !s.pending.is_empty() {
        r.tag("input left pending");
    }
    r.nontrivial = !s.events.is_empty();
}

impl Property for C10 {
    fn id(&self) -> &'static str {
        "C10"
    }
    fn level(&self) -> Level {
        Level::ModelChecking
    }
    fn rule(&self) -> String {
        "A case is a byte stream for one connection (fresh, or in message, stdin or stdout mode) together with a family of ways to cut it; \
         every cut is executed on the real Connection, handlers and receive buffer, and the complete observable state (calls, replies, discarded and stdout bytes, \
         modes of all connections, registrations, pending input) compared with receiving the stream at once. Non-trivial: the stream causes at least one event."
            .into()
    }
    fn bounds(&self) -> String {
        "kind pairs: for every j<i, receiving [0,j) then [j,i) leaves the same state as receiving [0,i) at once, which by induction on the number of reads covers all 2^(n-1) cuts of the stream; \
         single pieces from the menus of messages and garbage in every mode and every third sequence of 2 (thorough: all sequences of 2). kind ends: all two-read cuts of the complete stream plus uniform reads of 1,2,3,7,64,1000,1023,1024,1025 bytes; \
         all sequences of 2 pieces, sequences of 3 from a sub-menu (thorough: all sequences of 3), and streams around the 1024-byte message limit. kind all: literally all 2^(n-1) cuts of every string of up to 4 (thorough: 5) bytes over 12 structural bytes and of 5 (thorough: 6) over 8, and of short message pairs. \
         kind many: 13 pieces repeated up to 4097 (thorough: 70000) times, in uniform reads of 8 sizes up to 65536."
            .into()
    }
    fn assumptions(&self) -> Vec<String> {
        vec![
            "how much input is discarded with a connection that is being torn down is not compared".into(),
            "the induction for kind pairs takes the compared state for the complete state of a connection; kinds ends and all do not rely on it".into(),
        ]
    }
    fn run_case(&self, kind: &str, payload: &[u8], r: &mut Rec) -> Result<(), String> {
        let start = Start::from(payload[0]);
        let s = &payload[1..];
        let n = s.len();
        match kind {
            "many" => {
                let s = many(s);
                let whole = run(start, &[&s])?;
                for size in [61, 1000, 1023, 1024, 1025, 4096, 8191, 65536] {
                    if size < s.len() {
                        let chunks: Vec<&[u8]> = s.chunks(size).collect();
                        compare(start, &chunks, &whole)?;
                        r.extra_evaluations += 1;
                    }
                }
                flavours(r, &whole);
            }
            "pairs" => {
                let mut whole = vec![];
                for i in 0..=n {
                    whole.push(run(start, &[&s[..i]])?);
                }
                for i in 1..=n {
                    for j in 1..i {
                        compare(start, &[&s[..j], &s[j..i]], &whole[i])?;
                    }
                }
                r.extra_evaluations += (n + n * n.saturating_sub(1) / 2) as u64;
                fixed_sizes(start, s, &whole[n], r)?;
                r.add("cuts covered by induction (log2)", n.saturating_sub(1) as u64);
                flavours(r, &whole[n]);
            }
            "ends" => {
                let whole = run(start, &[s])?;
                for j in 1..n {
                    compare(start, &[&s[..j], &s[j..]], &whole)?;
                }
                r.extra_evaluations += n.saturating_sub(1) as u64;
                fixed_sizes(start, s, &whole, r)?;
                flavours(r, &whole);
            }
            "all" => {
                let whole = run(start, &[s])?;
                for mask in 1..(1u32 << n.saturating_sub(1)) {
                    let mut chunks: Vec<&[u8]> = vec![];
                    let mut from = 0;
                    for i in 1..n {
                        if mask & (1 << (i - 1)) != 0 {
                            chunks.push(&s[from..i]);
                            from = i;
                        }
                    }
                    chunks.push(&s[from..]);
                    compare(start, &chunks, &whole)?;
                }
                r.extra_evaluations += (1u64 << n.saturating_sub(1)) - 1;
                flavours(r, &whole);
            }
            _ => unreachable!(),
        }
        Ok(())
    }
    fn describe(&self, kind: &str, p: &[u8]) -> String {
        if kind == "many" {
            return format!("cuts of {} in mode {:?}", show_many(&p[1..]), Start::from(p[0]));
        }
        format!("{} cuts of {} in mode {:?}", kind, show(&p[1..]), Start::from(p[0]))
    }
    fn enumerate(&self, e: &Eng) {
        let mut pieces = messages();
        pieces.extend(garbage());
        let np = pieces.len();
        let mode = |s: Start, b: &[u8]| -> Vec<u8> { [&[s as u8][..], b].concat() };
        //message mode
        e.par(np, |w, i| {
            w.case("pairs", &mode(Start::Msgio, &pieces[i]));
            for j in 0..np {
                let kind = if e.thorough() || (i + j) % 3 == 0 { "pairs" } else { "ends" };
                w.case(kind, &mode(Start::Msgio, &[&pieces[i][..], &pieces[j]].concat()));
            }
        });
        let sub: Vec<usize> = if e.thorough() { (0..np).collect() } else { (0..np).filter(|k| k % 4 == 0 || *k >= np - 6).collect() };
        e.par(np * sub.len(), |w, k| {
            let (i, j) = (k / sub.len(), sub[k % sub.len()]);
            for &l in &sub {
                w.case("ends", &mode(Start::Msgio, &[&pieces[i][..], &pieces[j], &pieces[l]].concat()));
            }
        });
        //handshake
        let first = first_messages();
        e.par(first.len(), |w, i| {
            w.case("pairs", &mode(Start::Handshake, &first[i]));
            for (j, p) in pieces.iter().chain(&first).enumerate() {
                w.case(if e.thorough() || (i + j) % 3 == 0 { "pairs" } else { "ends" }, &mode(Start::Handshake, &[&first[i][..], p].concat()));
            }
        });
        e.par(np, |w, i| {
            for f in &first {
                w.case(if e.thorough() { "pairs" } else { "ends" }, &mode(Start::Handshake, &[&pieces[i][..], f].concat()));
            }
        });
        //the other modes
        e.par(np, |w, i| {
            for st in [Start::Stdin, Start::Stdout] {
                w.case("pairs", &mode(st, &pieces[i]));
                for j in 0..np {
                    w.case("ends", &mode(st, &[&pieces[i][..], &pieces[j]].concat()));
                }
            }
        });
        //short strings, all cuts
        let alphabet = b"{}|:,0124w\n\xff";
        let maxlen = e.bound(5, 6);
        for len in 1..=maxlen {
            let alphabet: &[u8] = if len == maxlen { b"{}|:,14w" } else { alphabet };
            let total = (alphabet.len() as u64).pow(len as u32);
            let jobs = 64.min(total) as usize;
            e.par(jobs, |w, job| {
                let mut s = vec![];
                let mut k = job as u64;
                while k < total && !w.stopped() {
                    nth_string(alphabet, len, k, &mut s);
                    w.case("all", &mode(Start::Msgio, &s));
                    if len <= 3 {
                        for st in [Start::Handshake, Start::Stdin, Start::Stdout] {
                            w.case("all", &mode(st, &s));
                        }
                    }
                    k += jobs as u64;
                }
            });
        }
        let short: Vec<Vec<u8>> = vec![
            m("nope", &[]),
            b"{1|4:have,}".to_vec(),
            b"{{1|4:have,}".to_vec(),
            b"{1|4:have,}{1".to_vec(),
            b"{1|5:a1.b,}".to_vec(),
            b"{2|4:have,0:,}".to_vec(),
            b"}{1|4:want,}x".to_vec(),
        ];
        e.par(short.len(), |w, i| w.case("all", &mode(Start::Msgio, &short[i])));
        //around the limit
        let mut long: Vec<(Start, Vec<u8>)> = vec![];
        let tail = m("foo2.ping", &[]);
        let sizes: Vec<usize> = if e.thorough() { (1000..1050).collect() } else { (1019..1031).collect() };
        for &total in &sizes {
            for (ty, extra) in [("foo2.quiet", 0), ("foo2.ping", 0), ("want", 0), ("core1.set", 1)] {
                let msg = sized(ty, extra, total);
                for t in [&[][..], &tail[..], b"x", b"{"] {
                    for lead in [&[][..], b"xx", &tail[..]] {
                        long.push((Start::Msgio, [lead, &msg, t].concat()));
                    }
                }
            }
            let msg = sized("posix1.client-hello", 0, total);
            long.push((Start::Handshake, [&msg[..], &tail].concat()));
            //an incomplete message
            let msg = sized("foo2.quiet", 0, 3000);
            long.push((Start::Msgio, msg[..total].to_vec()));
            long.push((Start::Msgio, [&msg[..total], b"{", &tail].concat()));
            long.push((Start::Handshake, msg[..total].to_vec()));
            //garbage
            let mut g = vec![b'x'; total];
            long.push((Start::Msgio, [&g[..], &tail].concat()));
            g[0] = b'{';
            g[1] = b'9';
            long.push((Start::Msgio, [&g[..], &tail].concat()));
            long.push((Start::Msgio, [&b"{1|9999:"[..], &vec![b'w'; total], &tail].concat()));
            long.push((Start::Msgio, [&b"{1|9999:"[..], &vec![b'{'; total], &tail].concat()));
            long.push((Start::Stdout, vec![b'{'; total]));
        }
        long.push((Start::Msgio, tail.repeat(150)));
        long.push((Start::Msgio, [&vec![b'g'; 3000][..], &tail].concat()));
        long.push((Start::Msgio, vec![b'{'; 2100]));
        long.push((Start::Msgio, b"{9".repeat(1100)));
        e.par(long.len(), |w, i| w.case("ends", &mode(long[i].0, &long[i].1)));
        let l = numbers(e);
        e.par(l.len(), |w, i| {
            w.case("many", &mode(Start::Msgio, &l[i]));
            w.case("many", &mode(Start::Stdout, &l[i]));
        });
    }
}

/// Long streams: [piece] [number], the piece again and again.
pub fn many(p: &[u8]) -> Vec<u8> {
    let n = u32::from_le_bytes(p[1..5].try_into().unwrap()) as usize;
    let mut v = repeated()[p[0] as usize].repeat(n);
    v.extend(m("foo2.two", &[]));
    v
}
pub fn show_many(p: &[u8]) -> String {
    format!("{} x {}, then foo2.two", u32::from_le_bytes(p[1..5].try_into().unwrap()), show(&repeated()[p[0] as usize]))
}
pub fn repeated() -> Vec<Vec<u8>> {
    vec![
        m("foo2.ping", &[]),
        m("foo2.quiet", &["x"]),
        m("want", &["core1"]),
        [&b"x"[..], &m("foo2.ping", &[])].concat(),
        [&b"{"[..], &m("foo2.zzz", &["}"])].concat(),
        b"{9".to_vec(),
        b"g".to_vec(),
        [m("core1.client-make", &["c1", "", "", ""]), m("core1.client-end", &["c1"])].concat(),
        m("have", &[]),
        sized("foo2.quiet", 0, 1024),
        "\u{e9}".as_bytes().to_vec(),
        b"\xff".to_vec(),
        "\u{20ac}}".as_bytes().to_vec(),
    ]
}
/// The cases of kind "many": [piece] [number].
pub fn numbers(e: &Eng) -> Vec<Vec<u8>> {
    let (most, bytes) = e.bound((4097, 130_000), (70_000, 1_100_000));
    let mut l = vec![];
    for (i, p) in repeated().iter().enumerate() {
        for k in 1..20u32 {
            for n in [(1u32 << k) - 1, 1 << k, (1 << k) + 1] {
                if n as usize <= most && n as usize * p.len() <= bytes {
                    l.push([&[i as u8][..], &n.to_le_bytes()].concat());
                }
            }
        }
    }
    l.reverse();
    l
}

/// A message of the given total length: `extra` empty arguments and one of filler.
pub fn sized(ty: &str, extra: usize, total: usize) -> Vec<u8> {
    for pad in (0..=total).rev() {
        let p = vec![b'p'; pad];
        let mut args: Vec<&[u8]> = vec![b""; extra];
        args.push(&p);
        let m = refs::render(ty.as_bytes(), &args);
        if m.len() == total {
            return m;
        }
        if m.len() < total {
            //lengths jump where a length gains a digit; use one more argument there
            return sized(ty, extra + 1, total);
        }
    }
    panic!("no message of {} bytes", total)
}
