//! C01 (parsing), C02 (round trip), C03 (buffer limits), C22 (display form).

use crate::gen::*;
use crate::refs::{self, Out, Phase, Ref, K};
use engine::guard::GuardBuf;
use engine::*;
use std::cell::RefCell;
use std::collections::{HashMap, VecDeque};
use vt6::common::core::msg::{self, Message, MessageFormatter, ParseErrorKind};

thread_local! {
    static GUARD: RefCell<GuardBuf> = RefCell::new(GuardBuf::new(256 * 1024));
    static GUARD2: RefCell<GuardBuf> = RefCell::new(GuardBuf::new(64 * 1024));
}

fn kind_of(k: &ParseErrorKind) -> K {
    use ParseErrorKind::*;
    match k {
        UnexpectedEOF => K::Eof,
        ExpectedMessageOpener => K::Opener,
        ExpectedMessageCloser => K::Closer,
        ExpectedDecimalNumber => K::Decimal,
        DecimalNumberTooLarge => K::TooLarge,
        DecimalNumberHasLeadingZeroes => K::LeadingZeroes,
        ExpectedListSigil => K::ListSigil,
        ExpectedStringSigil => K::StringSigil,
        ExpectedStringCloser => K::StringCloser,
        ExpectedMessageType => K::NoType,
        InvalidMessageType => K::BadType,
    }
}

fn inside(outer: &[u8], inner: &[u8]) -> bool {
    let (o, i) = (outer.as_ptr() as usize, inner.as_ptr() as usize);
    inner.is_empty() || (i >= o && i + inner.len() <= o + outer.len())
}

/// Parses with the real parser, from a buffer that ends right before an inaccessible page, and
/// converts the result for comparison.
pub fn real_parse(input: &[u8]) -> Result<Out, String> {
    GUARD.with(|g| {
        let mut g = g.borrow_mut();
        let buf: &[u8] = g.load(input);
        match Message::parse(buf) {
            Ok((m, len)) => {
                let announced = m.arguments().len();
                ensure!(announced <= input.len(), "arguments().len() is {}", announced);
                let mut args = vec![];
                for a in m.arguments() {
                    ensure!(inside(buf, a), "an argument lies outside of the input");
                    args.push(a.to_vec());
                    ensure!(args.len() <= announced, "more arguments than announced ({})", announced);
                }
                ensure!(args.len() == announced, "{} arguments, but {} announced", args.len(), announced);
                let t = m.parsed_type();
                ensure!(buf[..] == input[..], "the input was modified");
                Ok(Out::Msg { ty: t.as_str().as_bytes().to_vec(), args, len })
            }
            Err(e) => {
                ensure!(e.buffer.as_ptr() == buf.as_ptr() && e.buffer.len() == buf.len(), "ParseError.buffer is not the input");
                ensure!(
                    e.is_incomplete() == (e.kind == ParseErrorKind::UnexpectedEOF),
                    "is_incomplete() does not match the kind {:?}",
                    e.kind
                );
                Ok(Out::Err { kind: kind_of(&e.kind), offset: e.offset })
            }
        }
    })
}

fn outcome_hash(o: &Out) -> u64 {
    match o {
        Out::Msg { args, len, .. } => hash2(1, hash2(args.len() as u64, *len as u64)),
        Out::Err { kind, offset } => hash2(2, hash2(*kind as u64, *offset as u64)),
    }
}

fn tag_of(o: &Out) -> &'static str {
    match o {
        Out::Msg { .. } => "accepted",
        Out::Err { kind, .. } => match kind {
            K::Eof => "incomplete",
            K::Opener => "err-opener",
            K::Closer => "err-closer",
            K::Decimal => "err-decimal",
            K::TooLarge => "err-too-large",
            K::LeadingZeroes => "err-leading-zeroes",
            K::ListSigil => "err-list-sigil",
            K::StringSigil => "err-string-sigil",
            K::StringCloser => "err-string-closer",
            K::NoType => "err-no-type",
            K::BadType => "err-bad-type",
        },
    }
}

////////////////////////////////////////////////////////////////////////////////
// canonical states of the reference automaton

#[derive(Clone, PartialEq, Eq, Hash)]
struct Key {
    phase: Phase,
    digits: Vec<u8>,
    remaining: u128,
    first: bool,
    need: u128,
    //what the part of the message type seen so far can still become; other contents do not matter
    ty: Vec<u8>,
    done: Option<(bool, K)>,
}

/// Maps a partial message type to a representative with the same future.
fn type_class(s: &[u8]) -> Vec<u8> {
    for w in [&b"want"[..], b"have", b"nope"] {
        if w.starts_with(s) {
            return s.to_vec();
        }
    }
    let dead = b"!".to_vec();
    let name = s.iter().position(|b| !(b.is_ascii_alphabetic() || *b == b'_' || *b == b'-')).unwrap_or(s.len());
    if name == 0 || s[0] == b'-' {
        return dead;
    }
    let mut out = b"a".to_vec();
    let rest = &s[name..];
    let digits = rest.iter().position(|b| !b.is_ascii_digit()).unwrap_or(rest.len());
    let (d, rest) = rest.split_at(digits);
    if d.first() == Some(&b'0') || d.len() > 5 || (d.len() == 5 && d > &b"65535"[..]) {
        return dead;
    }
    let limit = &b"65535"[..d.len()];
    out.extend(match d.cmp(limit) {
        std::cmp::Ordering::Less => vec![b'1'; d.len()],
        std::cmp::Ordering::Equal => d.to_vec(),
        std::cmp::Ordering::Greater => vec![b'7'; d.len()],
    });
    if rest.is_empty() {
        return out;
    }
    if d.is_empty() || rest[0] != b'.' {
        return dead;
    }
    out.push(b'.');
    let member = &rest[1..];
    if member.is_empty() {
        return out;
    }
    if !refs::is_identifier(member) {
        return dead;
    }
    out.push(b'm');
    out
}

fn key_of(r: &Ref) -> Key {
    Key {
        phase: r.phase,
        digits: r.digits.clone(),
        remaining: r.remaining,
        first: r.first,
        need: r.need,
        ty: if r.first { type_class(&r.cur) } else { vec![] },
        done: r.result.as_ref().map(|o| match o {
            Out::Msg { .. } => (true, K::Eof),
            Out::Err { kind, .. } => (false, *kind),
        }),
    }
}

const BIG: &[&[u8]] = &[b"18446744073709551615", b"18446744073709551616", b"99999999999999999999"];

//numbers are explored up to `max`, and along the digits of the largest ones
fn digits_in_bounds(d: &[u8], max: u128) -> bool {
    if d.len() <= 1 {
        return true;
    }
    if d[0] == b'0' {
        return d.len() <= 2;
    }
    if d.len() <= 3 && d.iter().fold(0u128, |a, b| a * 10 + (b - b'0') as u128) <= max {
        return true;
    }
    BIG.iter().any(|b| b.starts_with(d) || (d.starts_with(b) && d.len() == b.len() + 1))
}

const WALK: &[u8] = b"{}|:,0123456789awnthveop-_.\xff ";

pub struct C01;

/// Inputs too long to be spelled out: a shape and a size.
fn large(p: &[u8]) -> Vec<u8> {
    let n = u32::from_le_bytes(p[1..5].try_into().unwrap()) as usize;
    let content = vec![b'q'; n];
    match p[0] {
        0 => refs::render(b"want", &[&content]),
        1 => {
            let mut m = refs::render(b"want", &[&content]);
            m.pop();
            m
        }
        2 => {
            let m = refs::render(b"want", &[&content]);
            m[..m.len() - 2].to_vec()
        }
        3 => refs::render(&content, &[]),
        4 => refs::render(&[b"a1.", &content[..]].concat(), &[b"x"]),
        5 => refs::render(b"a1.b", &vec![&b"x"[..]; n]),
        6 => refs::render(b"a1.b", &vec![&b""[..]; n]),
        7 => {
            let mut m = refs::render(b"a1.b", &vec![&b"x"[..]; n]);
            m.pop();
            m
        }
        //one item more than there is
        8 => {
            let m = refs::render(b"a1.b", &vec![&b"x"[..]; n]);
            let bar = m.iter().position(|&b| b == b'|').unwrap();
            [format!("{{{}", n + 2).as_bytes(), &m[bar..]].concat()
        }
        //one item less
        9 => {
            let m = refs::render(b"a1.b", &vec![&b"x"[..]; n]);
            let bar = m.iter().position(|&b| b == b'|').unwrap();
            [format!("{{{}", n).as_bytes(), &m[bar..]].concat()
        }
        10 => [refs::render(b"want", &[b"a"]), content].concat(),
        11 => [refs::render(b"want", &[&content]), b"{1|4:want,}".to_vec()].concat(),
        12 => refs::render(b"a1.b", &[&content, b"x", &content]),
        13 => {
            let mut m = refs::render(b"want", &[&content]);
            let l = m.len();
            m[l - 2] = b';';
            m
        }
        _ => {
            let mut m = refs::render(b"want", &[&content]);
            let l = m.len();
            m[l - 1] = b',';
            m
        }
    }
}

impl Property for C01 {
    fn id(&self) -> &'static str {
        "C01"
    }
    fn level(&self) -> Level {
        Level::ModelChecking
    }
    fn rule(&self) -> String {
        "States are the canonical states of a reference automaton for the wire grammar (phase, digits, items and bytes \
         still missing, class of the message type so far). Each is reached on the real parser through up to K different \
         inputs; from each, all 256 next bytes and all suffixes up to a length are executed on the real parser and every \
         result (message, incomplete, or error kind and position) is compared with the automaton's. In addition: all \
         strings up to a length over a structural alphabet, all single edits of a corpus of messages, boundary numbers in \
         every place. Non-trivial: the input gets past the item count."
            .into()
    }
    fn bounds(&self) -> String {
        "automaton: numbers up to 12 (13 thorough) plus the usize boundary, paths up to 26 (34) bytes; strings: length \
         6 (7) over 11 structural bytes, 5 (6) behind each of 4 prefixes; edits: all bytes at all positions of 300+ messages; \
         15 shapes of input with contents, types, item counts and trailing data of sizes around all powers of 2 and 10 up to \
         2^20 (2^24); message types and arguments of up to 1030 bytes with one that differs"
            .into()
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["usize has 64 bits (the sandbox's target)".into()]
    }

    fn run_case(&self, kind: &str, p: &[u8], r: &mut Rec) -> Result<(), String> {
        let expanded;
        let p = if kind == "large" {
            expanded = large(p);
            &expanded[..]
        } else {
            p
        };
        let want = refs::parse(p);
        let got = real_parse(p)?;
        r.tag(tag_of(&want));
        r.outcome = Some(outcome_hash(&got));
        r.nontrivial = match &want {
            Out::Msg { .. } => true,
            Out::Err { offset, .. } => *offset > 3,
        };
        if r.want_text {
            r.text = format!("{:?}", got);
        }
        ensure!(got == want, "parser says {:?}, the grammar says {:?}", got, want);
        Ok(())
    }

    fn enumerate(&self, e: &Eng) {
        //1. walk through the reference automaton
        let max_num = e.bound(12, 13);
        let max_len = e.bound(26, 34);
        let reps_per_key = e.bound(2, 6);
        let mut seen: HashMap<Key, u32> = HashMap::new();
        let mut queue: VecDeque<(Ref, Vec<u8>)> = VecDeque::new();
        let mut paths: Vec<Vec<u8>> = vec![];
        let start = Ref::new();
        seen.insert(key_of(&start), 1);
        queue.push_back((start, vec![]));
        let mut transitions = 0u64;
        while let Some((r, path)) = queue.pop_front() {
            paths.push(path.clone());
            if r.result.is_some() || path.len() >= max_len {
                continue;
            }
            for &b in WALK {
                let mut n = r.clone();
                n.step(b);
                transitions += 1;
                if !digits_in_bounds(&n.digits, max_num) || n.cur.len() > 9 {
                    continue;
                }
                if n.remaining > max_num && n.args.len() > 1 {
                    continue; //a huge item count never gets any closer to zero
                }
                let c = seen.entry(key_of(&n)).or_insert(0);
                if *c >= reps_per_key {
                    continue;
                }
                *c += 1;
                let mut p = path.clone();
                p.push(b);
                queue.push_back((n, p));
            }
        }
        e.number("states", seen.len() as u64);
        e.number("model_transitions_walked", transitions);
        e.number("transitions", paths.len() as u64 * 257);
        e.number("traces_validated_against_impl", paths.len() as u64 * 257);
        let suffixes: Vec<Vec<u8>> = {
            let mut v = vec![];
            let mut s = vec![];
            for len in 1..=2usize {
                for i in 0..(STRUCTURE.len() as u64).pow(len as u32) {
                    nth_string(STRUCTURE, len, i, &mut s);
                    v.push(s.clone());
                }
            }
            v.push(b"{1|4:want,}".to_vec());
            v
        };
        let chunk = 64;
        e.par(paths.len().div_ceil(chunk), |w, j| {
            for p in &paths[j * chunk..((j + 1) * chunk).min(paths.len())] {
                w.case("walk", p);
                let mut s = p.clone();
                s.push(0);
                let n = p.len();
                for b in 0..=255u8 {
                    s[n] = b;
                    w.case("walk+byte", &s);
                }
                for x in &suffixes {
                    s.truncate(n);
                    s.extend_from_slice(x);
                    w.case("walk+suffix", &s);
                }
            }
        });

        //2. all short strings
        let n = e.bound(6, 7);
        all_strings(e, STRUCTURE, 0, n, &|w, s| {
            w.case("string", s);
        });
        for prefix in [&b"{1|"[..], b"{2|4:want,", b"{1|4:", b"{2|4:a1.b,1:"] {
            all_strings(e, STRUCTURE, 0, e.bound(5, 6), &|w, s| {
                let mut v = prefix.to_vec();
                v.extend_from_slice(s);
                w.case("prefix+string", &v);
            });
        }

        //3. edits of well-formed messages
        let base = base_messages();
        e.par(base.len(), |w, j| {
            edits(w, &base[j], &mut |w, s| {
                w.case("edit", s);
            });
            let mut s = base[j].clone();
            s.push(0);
            for b in 0..=255 {
                *s.last_mut().unwrap() = b;
                w.case("trailing", &s);
            }
        });
        //...and pairs of edits of short ones
        let short: Vec<&Vec<u8>> = base.iter().filter(|m| m.len() <= e.bound(18, 40)).collect();
        e.par(short.len(), |w, j| {
            let m = short[j];
            for a in 0..m.len() {
                for b in a + 1..m.len() {
                    let mut s = m.clone();
                    for &x in STRUCTURE {
                        for &y in STRUCTURE {
                            s[a] = x;
                            s[b] = y;
                            w.case("double-edit", &s);
                        }
                    }
                }
            }
        });

        //4. numbers everywhere
        let nums = decimals();
        e.par(nums.len(), |w, j| {
            let n = &nums[j];
            for tail in ["", "|", ":", "|4:want,}", "|4:want,1:a,}", "|4:want,1:a,1:b,}", "x"] {
                w.case("number", format!("{{{}{}", n, tail).as_bytes());
            }
            for body in ["want,}", "want", "core1.sub,}", "", "wantwant,}", "wan,t,}"] {
                w.case("number", format!("{{1|{}:{}", n, body).as_bytes());
            }
            for body in ["a,}", "", "aa,}", ",}", "abcdefghijkl,}"] {
                w.case("number", format!("{{2|4:want,{}:{}", n, body).as_bytes());
                w.case("number", format!("{{2|4:want,{}{}", n, body).as_bytes());
                w.case("number", format!("{{3|4:want,1:a,{}:{}", n, body).as_bytes());
            }
            //content that really has that many bytes
            if let Ok(n) = n.parse::<usize>() {
                if n <= 4096 {
                    let c = vec![b'q'; n];
                    let m = refs::render(b"want", &[&c]);
                    w.case("number", &m);
                    w.case("number", &m[..m.len() - 1]);
                    w.case("number", &m[..m.len() - 2]);
                    let t = refs::render(&c, &[]);
                    w.case("number", &t);
                }
            }
        });
        //5. item counts that are right, one too small, one too large
        e.par(420, |w, n| {
            let mut body = b"4:nope,".to_vec();
            for i in 0..n {
                body.extend_from_slice(format!("{}:{},", i.to_string().len(), i).as_bytes());
            }
            for c in [n, n + 1, n + 2] {
                let mut m = format!("{{{}|", c).into_bytes();
                m.extend_from_slice(&body);
                w.case("count", &m);
                m.push(b'}');
                w.case("count", &m);
                m.extend_from_slice(b"{1|4:want,}");
                w.case("count", &m);
            }
        });
        let big = sizes(2, e.bound(1 << 20, 1 << 24) + 1);
        e.par(big.len() * 15, |w, i| {
            let (n, shape) = (big[big.len() - 1 - i / 15], i % 15);
            let mut p = vec![shape as u8];
            p.extend((n as u32).to_le_bytes());
            w.case("large", &p);
        });
        //...long ones with something unusual in one place
        odd_strings(e, b'a', b"-.10 \xff", 130, e.bound(400, 1030), &|w, s| {
            w.case("type", &refs::render(&[s, b"1.b"].concat(), &[]));
            w.case("type", &refs::render(&[b"a1.", s].concat(), &[b"x"]));
        });
        odd_strings(e, b'q', b",}{\x00\xff", 130, 1010, &|w, s| w.case("type", &refs::render(b"want", &[s, b"x"])));
        //6. all short message types over class representatives
        all_strings(e, b"aZ_-.0196 \xc3\xa9\x00", 0, e.bound(5, 6), &|w, s| {
            w.case("type", &refs::render(s, &[]));
            if s.len() <= 4 {
                let mut t = s.to_vec();
                t.extend_from_slice(b"1.b");
                w.case("type", &refs::render(&t, &[b"x"]));
                let mut t = b"a1.".to_vec();
                t.extend_from_slice(s);
                w.case("type", &refs::render(&t, &[b"x"]));
            }
        });
    }
}

////////////////////////////////////////////////////////////////////////////////

/// Formats using the real formatter into the given buffer.
pub fn real_format(buf: &mut [u8], ty: &str, args: &[&[u8]]) -> Result<usize, usize> {
    let mut f = MessageFormatter::new(buf, ty, args.len());
    for a in args {
        f.add_argument(*a);
    }
    f.finalize().map_err(|msg::BufferTooSmallError(n)| n)
}

pub struct C02;

fn check_iteration(m: &Message, args: &[Vec<u8>]) -> Result<(), String> {
    for round in 0..2 {
        ensure!(m.arguments().len() == args.len(), "announces {} arguments instead of {}", m.arguments().len(), args.len());
        let got: Vec<&[u8]> = m.arguments().collect();
        ensure!(got.len() == args.len() && got.iter().zip(args).all(|(a, b)| a == b), "iteration {} yields {:?}", round, got);
    }
    //an iterator continued from a clone, and its remaining length
    let mut it = m.arguments();
    for i in 0..args.len().min(12) {
        let rest: Vec<&[u8]> = it.clone().collect();
        ensure!(it.len() == args.len() - i, "remaining length is {} instead of {}", it.len(), args.len() - i);
        check_announcement(&it, &args[i..])?;
        ensure!(rest.len() == args.len() - i && rest.iter().zip(&args[i..]).all(|(a, b)| a == b), "clone at {} yields {:?}", i, rest);
        let n = it.next();
        ensure!(n == Some(&args[i][..]), "item {} is {:?}", i, n);
    }
    let mut it = m.arguments();
    for _ in 0..args.len() {
        it.next();
    }
    ensure!(it.len() == 0 && it.next().is_none() && it.next().is_none(), "iteration does not stay at its end");
    check_announcement(&it, &[])
}

/// What an exact-size iterator announces besides len(): everything that the standard library
/// derives from it, and the methods that move through it in bigger steps.
fn check_announcement(it: &msg::MessageIterator, rest: &[Vec<u8>]) -> Result<(), String> {
    let n = rest.len();
    ensure!(it.size_hint() == (n, Some(n)), "size_hint() is {:?} with {} items left", it.size_hint(), n);
    ensure!(it.clone().count() == n, "count() is {} with {} items left", it.clone().count(), n);
    ensure!(it.clone().last() == rest.last().map(|a| &a[..]), "last() is {:?}", it.clone().last());
    for k in [0, 1, 2, n.saturating_sub(1), n, n + 1, usize::MAX] {
        let mut j = it.clone();
        let (got, left) = (j.nth(k), n.saturating_sub(k.saturating_add(1)));
        ensure!(got == rest.get(k).map(|a| &a[..]), "nth({}) of {} is {:?}", k, n, got);
        ensure!(j.len() == left && j.count() == left, "nth({}) of {} does not leave {}", k, n, left);
        let left = n.saturating_sub(k);
        ensure!(it.clone().skip(k).len() == left, "skip({}) of {} announces {}", k, n, it.clone().skip(k).len());
        ensure!(it.clone().take(k).len() == n.min(k), "take({}) of {} announces {}", k, n, it.clone().take(k).len());
    }
    ensure!(it.clone().zip(rest).len() == n && it.clone().enumerate().len() == n && it.clone().peekable().len() == n, "an adapter announces something else than {}", n);
    Ok(())
}

impl Property for C02 {
    fn id(&self) -> &'static str {
        "C02"
    }
    fn level(&self) -> Level {
        Level::Exploration
    }
    fn rule(&self) -> String {
        "Case 'roundtrip': a message type and a list of argument byte strings is formatted, parsed, and compared, including \
         repeated, cloned and interrupted argument iteration and what the iterator announces at each point. Case 'accepted': an input; if the parser accepts it, \
         formatting what it returned must give the very bytes. Non-trivial: a round trip with an argument, or an accepted \
         input."
            .into()
    }
    fn bounds(&self) -> String {
        "all lists of up to 3 arguments from a menu of 16 look-alike strings (4 in thorough) x 8 types; all 1- and 2-byte \
         arguments; all argument lengths up to the message limit; up to 330 arguments; accepted: all strings up to length \
         6 (7) over 11 bytes behind 3 prefixes, all single edits of 300+ messages, all types of up to 5 class characters; \
         arguments of up to 1007 bytes with one that differs"
            .into()
    }

    fn run_case(&self, kind: &str, p: &[u8], r: &mut Rec) -> Result<(), String> {
        if kind == "accepted" {
            let got = GUARD.with(|g| -> Result<Option<usize>, String> {
                let mut g = g.borrow_mut();
                let buf: &[u8] = g.load(p);
                match Message::parse(buf) {
                    Err(_) => Ok(None),
                    Ok((m, len)) => {
                        let args: Vec<&[u8]> = m.arguments().collect();
                        let mut out = vec![0u8; 1024];
                        let t = m.parsed_type();
                        let n = real_format(&mut out, t.as_str(), &args)
                            .map_err(|n| format!("formatting an accepted message lacks {} bytes", n))?;
                        ensure!(n == len, "accepted {} bytes, but formatting gives {}", len, n);
                        ensure!(out[..n] == p[..n], "accepted {}, but the message's form is {}", show(&p[..n]), show(&out[..n]));
                        let owned: Vec<Vec<u8>> = args.iter().map(|a| a.to_vec()).collect();
                        check_iteration(&m, &owned)?;
                        Ok(Some(n))
                    }
                }
            })?;
            r.nontrivial = got.is_some();
            r.tag(if got.is_some() { "accepted" } else { "not accepted" });
            return Ok(());
        }
        let parts = unpack(p);
        let ty = std::str::from_utf8(parts[0]).unwrap();
        let args = &parts[1..];
        r.nontrivial = !args.is_empty();
        let mut buf = vec![0xAAu8; 1024];
        let n = real_format(&mut buf, ty, args).map_err(|n| format!("formatting lacks {} bytes", n))?;
        ensure!(n <= 1024, "formatted length {}", n);
        r.outcome = Some(hash_bytes(&buf[..n]));
        let wire = &buf[..n];
        GUARD.with(|g| {
            let mut g = g.borrow_mut();
            let input: &[u8] = g.load(wire);
            let (m, len) = Message::parse(input).map_err(|e| format!("{} does not parse: {}", show(wire), e))?;
            ensure!(len == n, "formatted {} bytes, but {} parsed", n, len);
            ensure!(m.parsed_type().as_str() == ty, "type became {:?}", m.parsed_type().as_str());
            let owned: Vec<Vec<u8>> = args.iter().map(|a| a.to_vec()).collect();
            check_iteration(&m, &owned)
        })?;
        //the result does not change when more bytes follow
        let mut more = wire.to_vec();
        more.extend_from_slice(b"{9|");
        let (_, len) = Message::parse(&more).map_err(|e| format!("does not parse with bytes following: {}", e))?;
        ensure!(len == n, "length with bytes following is {}", len);
        if r.want_text {
            r.text = show(wire);
        }
        Ok(())
    }

    fn describe(&self, kind: &str, p: &[u8]) -> String {
        if kind == "accepted" {
            return format!("input {}", show(p));
        }
        let parts = unpack(p);
        format!("message {}", parts.iter().map(|p| show(p)).collect::<Vec<_>>().join(" "))
    }

    fn enumerate(&self, e: &Eng) {
        let menu = arg_menu();
        let n = menu.len();
        let depth = e.bound(3, 4);
        for k in 0..=depth {
            let total = n.pow(k as u32);
            e.par(total, |w, mut i| {
                let mut parts: Vec<&[u8]> = vec![b""];
                for _ in 0..k {
                    parts.push(&menu[i % n]);
                    i /= n;
                }
                for ty in TYPES.iter().take(if k == 4 { 1 } else { TYPES.len() }) {
                    parts[0] = ty;
                    if refs::render(ty, &parts[1..]).len() <= 1024 {
                        w.case("roundtrip", &pack(&parts));
                    }
                }
            });
        }
        e.par(256, |w, a| {
            w.case("roundtrip", &pack(&[b"want", &[a as u8]]));
            for b in 0..=255u8 {
                w.case("roundtrip", &pack(&[b"a1.b", &[a as u8, b]]));
                w.case("roundtrip", &pack(&[b"a1.b", &[a as u8], &[b]]));
            }
        });
        e.par(1024, |w, len| {
            for fill in [b'x', b',', b'}', 0, 255] {
                let a = vec![fill; len];
                for (pre, post) in [(0usize, 0usize), (1, 0), (0, 1)] {
                    let mut parts: Vec<&[u8]> = vec![b"want"];
                    parts.extend(std::iter::repeat_n(&b"12"[..], pre));
                    parts.push(&a);
                    parts.extend(std::iter::repeat_n(&b"}"[..], post));
                    if refs::render(b"want", &parts[1..]).len() <= 1024 {
                        w.case("roundtrip", &pack(&parts));
                    }
                }
            }
        });
        odd_strings(e, b'x', b",}{\x00\xff", 130, 1007, &|w, s| w.case("roundtrip", &pack(&[b"want", s])));
        odd_strings(e, b'7', b":,|", 60, 300, &|w, s| w.case("roundtrip", &pack(&[b"a1.b", b"}", s, b"{"])));
        e.par(340, |w, n| {
            for a in [&b""[..], b"a", b"}", b"0:,"] {
                let mut parts: Vec<&[u8]> = vec![b"core1.x"];
                parts.extend(std::iter::repeat_n(a, n));
                if refs::render(b"core1.x", &parts[1..]).len() <= 1024 {
                    w.case("roundtrip", &pack(&parts));
                }
            }
        });
        for prefix in [&b"{1|4:want,"[..], b"{2|4:want,", b"{3|4:a1.b,"] {
            all_strings(e, STRUCTURE, 0, e.bound(6, 7), &|w, s| {
                let mut v = prefix.to_vec();
                v.extend_from_slice(s);
                w.case("accepted", &v);
            });
        }
        let base = base_messages();
        e.par(base.len(), |w, j| {
            edits(w, &base[j], &mut |w, s| {
                w.case("accepted", s);
            })
        });
        all_strings(e, b"aZ_-.019{, ", 0, 5, &|w, s| {
            w.case("accepted", &refs::render(s, &[]));
            let mut t = b"a1.".to_vec();
            t.extend_from_slice(s);
            w.case("accepted", &refs::render(&t, &[b"x"]));
            let mut t = s.to_vec();
            t.extend_from_slice(b"1.b");
            w.case("accepted", &refs::render(&t, &[]));
        });
        let nums = decimals();
        e.par(nums.len(), |w, j| {
            let n = &nums[j];
            w.case("accepted", format!("{{{}|4:want,1:a,}}", n).as_bytes());
            w.case("accepted", format!("{{2|{}:want,1:a,}}", n).as_bytes());
            w.case("accepted", format!("{{2|4:want,{}:a,}}", n).as_bytes());
            w.case("accepted", format!("{{2|4:want,{}:,}}", n).as_bytes());
        });
    }
}

////////////////////////////////////////////////////////////////////////////////

pub struct C03;

/// Typed messages as formatting targets too, to cover `EncodeMessage`.
fn typed(buf: &mut [u8], ty: &str, args: &[&[u8]]) -> Option<Result<usize, usize>> {
    use msg::EncodeMessage;
    use vt6::msg::core::*;
    use vt6::msg::posix::*;
    let s = |i: usize| std::str::from_utf8(args[i]).ok();
    let r = match (ty, args.len()) {
        ("posix1.client-hello", 1) => ClientHello { secret: s(0)? }.encode(buf),
        ("posix1.stdout-hello", 1) => StdoutHello { secret: s(0)? }.encode(buf),
        ("core1.client-new", 1) => ClientNew { secret: s(0)? }.encode(buf),
        ("core1.client-make", 4) => ClientMake {
            client_id: vt6::common::core::ClientID::parse(s(0)?)?,
            stdin_screen_id: Some(s(1)?).filter(|s| !s.is_empty()),
            stdout_screen_id: Some(s(2)?).filter(|s| !s.is_empty()),
            stderr_screen_id: Some(s(3)?).filter(|s| !s.is_empty()),
        }
        .encode(buf),
        _ => return None,
    };
    Some(r.map_err(|msg::BufferTooSmallError(n)| n))
}

impl Property for C03 {
    fn id(&self) -> &'static str {
        "C03"
    }
    fn level(&self) -> Level {
        Level::Exploration
    }
    fn rule(&self) -> String {
        "A case is a message and a buffer length; the message is formatted into buffers of that length (ending right \
         before, and starting right after, an inaccessible page) with 2 different previous contents, generically and as \
         typed message, and compared with the message's one wire form and the exact number of missing bytes. Non-trivial: \
         the buffer is within 3 bytes of the needed size, or the 1024-byte limit decides."
            .into()
    }
    fn bounds(&self) -> String {
        "messages: 8 types x up to 2 arguments from a menu of 16, argument lengths that give every total size from 990 to \
         1060 and 2000; buffer lengths: all from 0 to needed+3, and 1020..=1030, 1100, 2048, 4096, 65536; \
         all buffer lengths from 1020 to 6020 (10020) with messages around the limit and around the buffer's size; arguments around all powers of 2 \
         and 10 up to 2^20 (2^24)"
            .into()
    }

    fn run_case(&self, kind: &str, p: &[u8], r: &mut Rec) -> Result<(), String> {
        let (content, lens);
        let parts = if kind == "large" {
            lens = [&p[0..4], &p[4..8]];
            content = vec![b'L'; u32::from_le_bytes(lens[1].try_into().unwrap()) as usize];
            vec![lens[0], b"core1.client-new", &content]
        } else {
            unpack(p)
        };
        let buflen = u32::from_le_bytes(parts[0].try_into().unwrap()) as usize;
        let ty = std::str::from_utf8(parts[1]).unwrap();
        let args = &parts[2..];
        let wire = refs::render(parts[1], args);
        let avail = buflen.min(1024);
        r.nontrivial = wire.len().abs_diff(buflen) <= 3 || wire.len() > 1024 || buflen > 1024;
        let want = if wire.len() <= avail { Ok(wire.len()) } else { Err(wire.len() - avail) };
        r.tag(if want.is_ok() { "fits" } else { "does not fit" });
        r.outcome = Some(hash2(buflen as u64, wire.len() as u64));
        let mut first: Option<Vec<u8>> = None;
        for fill in [0x00u8, 0xFF] {
            for variant in 0..3 {
                GUARD2.with(|g| -> Result<(), String> {
                    let mut g = g.borrow_mut();
                    let buf = if variant == 1 { g.start(buflen) } else { g.end(buflen) };
                    buf.fill(fill);
                    let got = if variant == 2 {
                        match typed(buf, ty, args) {
                            None => return Ok(()),
                            Some(r) => r,
                        }
                    } else {
                        real_format(buf, ty, args)
                    };
                    ensure!(got == want, "buffer of {}: formatting {} returns {:?} instead of {:?}", buflen, show(&wire), got, want);
                    if got.is_ok() {
                        ensure!(buf[..wire.len()] == wire[..], "wrote {} instead of {}", show(&buf[..wire.len()]), show(&wire));
                        ensure!(buf[wire.len()..].iter().all(|&b| b == fill), "bytes behind the message were modified");
                        let b = buf[..wire.len()].to_vec();
                        ensure!(first.is_none() || first.as_ref() == Some(&b), "the result depends on the buffer's contents");
                        first = Some(b);
                    } else {
                        ensure!(buf[avail..].iter().all(|&b| b == fill), "bytes behind the 1024-byte limit were modified");
                    }
                    Ok(())
                })?;
            }
        }
        if r.want_text {
            r.text = format!("{:?}", want);
        }
        Ok(())
    }

    fn describe(&self, kind: &str, p: &[u8]) -> String {
        if kind == "large" {
            let n = |i: usize| u32::from_le_bytes(p[i..i + 4].try_into().unwrap());
            return format!("buffer of {}, message core1.client-new with an argument of {} bytes", n(0), n(4));
        }
        let parts = unpack(p);
        let buflen = u32::from_le_bytes(parts[0].try_into().unwrap());
        format!("buffer of {}, message {}", buflen, parts[1..].iter().map(|p| show(p)).collect::<Vec<_>>().join(" "))
    }

    fn enumerate(&self, e: &Eng) {
        let menu = arg_menu();
        let mut msgs: Vec<Vec<Vec<u8>>> = vec![];
        for ty in TYPES {
            msgs.push(vec![ty.to_vec()]);
            for a in &menu {
                msgs.push(vec![ty.to_vec(), a.clone()]);
            }
        }
        for a in &menu {
            for b in &menu {
                msgs.push(vec![b"have".to_vec(), a.clone(), b.clone()]);
            }
        }
        for ty in [&b"posix1.client-hello"[..], b"posix1.stdout-hello", b"core1.client-new"] {
            for n in [0usize, 1, 9, 10, 99, 100, 101] {
                msgs.push(vec![ty.to_vec(), vec![b's'; n]]);
            }
        }
        for a in ["", "s", "screen-one"] {
            for b in ["", "t"] {
                for c in ["", "uu"] {
                    msgs.push(vec![b"core1.client-make".to_vec(), b"a1".to_vec(), a.into(), b.into(), c.into()]);
                }
            }
        }
        e.par(msgs.len(), |w, i| {
            let m = &msgs[i];
            let args: Vec<&[u8]> = m[1..].iter().map(|a| &a[..]).collect();
            let need = refs::render(&m[0], &args).len();
            let lens = (0..=need + 3).chain(1020..=1030).chain([1100, 2048, 4096, 65536]);
            for n in lens {
                let nb = (n as u32).to_le_bytes();
                let mut parts: Vec<&[u8]> = vec![&nb];
                parts.extend(m.iter().map(|a| &a[..]));
                w.case("format", &pack(&parts));
            }
        });
        //sizes around the limit, with one or several arguments, as generic and typed messages
        let shapes: &[(&[u8], usize)] = &[
            (b"want", 1),
            (b"want", 2),
            (b"a1.b", 3),
            (b"posix1.client-hello", 1),
            (b"core1.client-new", 1),
            (b"core1.client-make", 4),
        ];
        let jobs: Vec<(usize, usize)> = (0..shapes.len()).flat_map(|s| (940..=1060).map(move |n| (s, n))).collect();
        e.par(jobs.len(), |w, i| {
            let (s, n) = jobs[i];
            let (ty, nargs) = shapes[s];
            let long = vec![b'Q'; n];
            let mut args: Vec<&[u8]> = vec![b"aa"; nargs - 1];
            args.push(&long);
            let need = refs::render(ty, &args).len();
            if !(990..=1060).contains(&need) {
                return;
            }
            let mut lens: Vec<usize> = (need - 4..=need + 3).collect();
            lens.extend([0, 1, 500, 1000, 1022, 1023, 1024, 1025, 1026, 1100, 4096, 65536]);
            if e.thorough() {
                lens.extend(0..1100);
            }
            lens.sort();
            lens.dedup();
            for n in lens {
                let nb = (n as u32).to_le_bytes();
                let mut parts: Vec<&[u8]> = vec![&nb, ty];
                parts.extend(&args);
                w.case("limit", &pack(&parts));
            }
        });
        //buffers of all sizes, with messages that would fit into them if there were no limit
        e.par(e.bound(5000, 9000), |w, i| {
            let n = 1020 + i;
            for m in [980usize, 1000, 1001, 1002, 1003, 1010, n - 40, n - 24, n - 22, n - 21, n - 20] {
                let mut p = (n as u32).to_le_bytes().to_vec();
                p.extend((m as u32).to_le_bytes());
                w.case("large", &p);
            }
        });
        let big = sizes(900, 40_000);
        e.par(big.len(), |w, i| {
            for n in [0, 10, 1023, 1024, 1025, 4072, 4096].into_iter().chain(big.iter().copied()) {
                let mut p = (n as u32).to_le_bytes().to_vec();
                p.extend((big[i] as u32).to_le_bytes());
                w.case("large", &p);
            }
        });
        let big = sizes(60_000, e.bound(1 << 20, 1 << 24) + 1);
        e.par(big.len(), |w, i| {
            for n in [0u32, 1000, 1024, 1025, 4072] {
                let mut p = n.to_le_bytes().to_vec();
                p.extend((big[i] as u32).to_le_bytes());
                w.case("large", &p);
            }
        });
        //far beyond the limit, and the limit crossed by an early or a late part of the message
        e.par(40, |w, i| {
            let big = vec![b'B'; 900 + 37 * i];
            for args in [vec![&big[..], b"tail"], vec![b"head", &big[..]], vec![&big[..], &big[..]], vec![b"x"; 10 * i + 1]] {
                for n in [0usize, 10, 1000, 1023, 1024, 1025, 3000] {
                    let nb = (n as u32).to_le_bytes();
                    let mut parts: Vec<&[u8]> = vec![&nb, b"a1.b"];
                    parts.extend(&args);
                    w.case("beyond", &pack(&parts));
                }
            }
        });
    }
}

////////////////////////////////////////////////////////////////////////////////

pub struct C22;

/// Reads the display form back: the type and every argument, or None if it is malformed.
pub fn read_display(s: &str) -> Option<(String, Vec<Vec<u8>>)> {
    let s = s.strip_prefix('(')?.strip_suffix(')')?;
    let b = s.as_bytes();
    let mut i = 0;
    while i < b.len() && b[i] != b' ' {
        i += 1;
    }
    let ty = s[..i].to_string();
    let mut args = vec![];
    while i < b.len() {
        if b[i] != b' ' {
            return None;
        }
        i += 1;
        let mut arg = vec![];
        if i < b.len() && b[i] == b'"' {
            i += 1;
            loop {
                match *b.get(i)? {
                    b'"' => {
                        i += 1;
                        break;
                    }
                    b'\\' => {
                        let c = *b.get(i + 1)?;
                        i += 2;
                        match c {
                            b'n' => arg.push(b'\n'),
                            b'r' => arg.push(b'\r'),
                            b't' => arg.push(b'\t'),
                            b'\\' | b'\'' | b'"' => arg.push(c),
                            b'0' => arg.push(0),
                            b'x' => {
                                let h = std::str::from_utf8(b.get(i..i + 2)?).ok()?;
                                arg.push(u8::from_str_radix(h, 16).ok()?);
                                i += 2;
                            }
                            _ => return None,
                        }
                    }
                    c => {
                        arg.push(c);
                        i += 1;
                    }
                }
            }
        } else {
            let start = i;
            while i < b.len() && b[i] != b' ' {
                i += 1;
            }
            arg.extend_from_slice(&b[start..i]);
            //a bare argument consists of harmless characters only
            if arg.is_empty() || !arg.iter().all(|&c| c.is_ascii_alphanumeric() || b"._-".contains(&c)) {
                return None;
            }
        }
        args.push(arg);
    }
    Some((ty, args))
}

impl Property for C22 {
    fn id(&self) -> &'static str {
        "C22"
    }
    fn level(&self) -> Level {
        Level::Exploration
    }
    fn rule(&self) -> String {
        "A case is a message; it is formatted, parsed and displayed, and an independent reader must get the type and every \
         argument back from the one-line printable ASCII text (which implies that different messages never look the same), also \
         when it is formatted with a width or precision. \
         Non-trivial: an argument needs quoting."
            .into()
    }
    fn bounds(&self) -> String {
        "all arguments of 1 and 2 bytes, alone and in pairs of 1 byte; all strings of length 3 (4) over 14 delicate bytes; \
         all lists of up to 3 (4) arguments from a menu of 16; arguments of up to 1030 (5000) bytes, and lists of up to 400, with \
         one that differs from the rest; every length and number of arguments up to 1000, \
         and around all powers of 2 and 10 up to 2^16 (2^18)"
            .into()
    }

    fn run_case(&self, kind: &str, p: &[u8], r: &mut Rec) -> Result<(), String> {
        let (expanded, fill);
        let parts = if kind == "large" {
            let n = u32::from_le_bytes(p[2..6].try_into().unwrap()) as usize;
            fill = vec![p[1]; n];
            expanded = if p[0] == 0 { vec![&b"want"[..], &fill] } else { std::iter::once(&b"want"[..]).chain(fill.chunks(1)).collect() };
            expanded
        } else {
            unpack(p)
        };
        let ty = std::str::from_utf8(parts[0]).unwrap();
        let args = &parts[1..];
        let wire = refs::render(parts[0], args);
        let (m, _) = Message::parse(&wire).map_err(|e| format!("cannot parse {}: {}", show(&wire), e))?;
        let text = format!("{}", m);
        ensure!(text.bytes().all(|b| (0x20..0x7f).contains(&b)), "{:?} is not a line of printable ASCII", text);
        //a width applies to the text as a whole, or not at all, but not to its characters
        let wide = format!("{:~>5}", m);
        ensure!(wide == text, "with a width of 5, {:?} turns into {:?}", text, wide);
        if text.len() < 60 {
            let wide = format!("{:~^70}", m);
            ensure!(wide.trim_matches('~') == text, "with a width of 70, {:?} turns into {:?}", text, wide);
            let cut = format!("{:.100}", m);
            ensure!(cut == text, "with a precision of 100, {:?} turns into {:?}", text, cut);
            let cut = format!("{:.0}", m);
            ensure!(cut == text || cut.is_empty(), "with a precision of 0, {:?} turns into {:?}", text, cut);
        }
        let (t, a) = read_display(&text).ok_or_else(|| format!("{:?} cannot be read back", text))?;
        ensure!(t == ty, "{:?} shows the type {:?}", text, t);
        ensure!(a.len() == args.len() && a.iter().zip(args).all(|(x, y)| x == y), "{:?} reads back as {:?}", text, a);
        //harmless arguments appear verbatim
        let harmless = |a: &[u8]| !a.is_empty() && a.iter().all(|&c| c.is_ascii_alphanumeric() || b"._-".contains(&c));
        r.nontrivial = args.iter().any(|a| !harmless(a));
        if !r.nontrivial {
            let mut want = format!("({}", ty);
            for a in args {
                want.push(' ');
                want.push_str(std::str::from_utf8(a).unwrap());
            }
            want.push(')');
            ensure!(text == want, "{:?} should be {:?}", text, want);
        } else {
            //...and each other one is quoted
            let quoted = args.iter().filter(|a| !harmless(a)).count();
            let mut rest = text.as_str();
            let mut found = 0;
            while let Some(i) = rest.find(" \"") {
                found += 1;
                rest = &rest[i + 2..];
            }
            ensure!(found >= quoted, "{:?}: not every unsafe argument is quoted", text);
        }
        r.outcome = Some(hash_bytes(text.as_bytes()));
        if r.want_text {
            r.text = text;
        }
        Ok(())
    }

    fn describe(&self, kind: &str, p: &[u8]) -> String {
        if kind == "large" {
            let n = u32::from_le_bytes(p[2..6].try_into().unwrap());
            let what = if p[0] == 0 { "an argument of that many" } else { "that many arguments of one" };
            return format!("message want with {}: {} x {}", what, n, show(&p[1..2]));
        }
        format!("message {}", unpack(p).iter().map(|p| show(p)).collect::<Vec<_>>().join(" "))
    }

    fn enumerate(&self, e: &Eng) {
        e.par(256, |w, a| {
            let a = a as u8;
            w.case("display", &pack(&[b"want", &[a]]));
            for b in 0..=255u8 {
                w.case("display", &pack(&[b"a1.b", &[a, b]]));
                w.case("display", &pack(&[b"a1.b", &[a], &[b]]));
                w.case("display", &pack(&[b"a1.b", &[b'x', a, b]]));
            }
        });
        all_strings(e, b"a \"\\')(n0x\n\0\xff.", 0, e.bound(4, 5), &|w, s| {
            w.case("display", &pack(&[b"nope", s]));
            if s.len() <= 3 {
                w.case("display", &pack(&[b"nope", s, b"z"]));
                w.case("display", &pack(&[b"nope", b"z", s]));
            }
        });
        let menu = arg_menu();
        let n = menu.len();
        for k in 0..=e.bound(3usize, 4) {
            e.par(n.pow(k as u32), |w, mut i| {
                let mut parts: Vec<&[u8]> = vec![b""];
                for _ in 0..k {
                    parts.push(&menu[i % n]);
                    i /= n;
                }
                for ty in TYPES.iter().take(if k >= 3 { 1 } else { TYPES.len() }) {
                    parts[0] = ty;
                    w.case("display", &pack(&parts));
                }
            });
        }
        odd_strings(e, b'a', b" \"\\\x00\xff", 130, e.bound(1030, 5000), &|w, s| {
            w.case("display", &pack(&[b"want", s]));
            if s.len() < 400 {
                w.case("display", &pack(&[b"want", s, b"b"]));
                let mut parts: Vec<&[u8]> = vec![b"want"];
                parts.extend(s.chunks(1));
                w.case("display", &pack(&parts));
            }
        });
        odd_strings(e, 0xff, b"a\"", 40, 300, &|w, s| w.case("display", &pack(&[b"want", s])));
        let mut lens: Vec<usize> = (0..1000).collect();
        lens.extend(sizes(1000, e.bound(1 << 16, 1 << 18) + 1));
        e.par(lens.len(), |w, i| {
            for fill in [b'a', b' ', 0u8, b'\\'] {
                w.case("large", &[&[0, fill][..], &(lens[i] as u32).to_le_bytes()].concat());
                w.case("large", &[&[1, fill][..], &(lens[i] as u32).to_le_bytes()].concat());
            }
        });
    }
}
