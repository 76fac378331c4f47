//! C05 (identifier grammars), C06 (generated client IDs), C08 (selectors and identities).

use crate::gen::*;
use crate::p_values::enc;
use crate::refs;
use engine::*;
use std::collections::HashMap;
use vt6::client::core::ClientIDSuffix;
use vt6::common::core::*;
use vt6::server::{ClientIdentity, ClientSelector, ScreenIdentity};

pub struct C05;

fn disp<T: std::fmt::Display>(what: &str, v: &T, s: &str) -> Result<(), String> {
    let d = v.to_string();
    ensure!(d == s, "{} parsed from {:?} displays as {:?}", what, s, d);
    Ok(())
}

fn encd<T: EncodeArgument>(what: &str, v: &T, s: &str) -> Result<(), String> {
    let e = enc(v)?;
    ensure!(e == s.as_bytes(), "{} parsed from {:?} encodes as {}", what, s, show(&e));
    Ok(())
}

fn check_ident(i: &Identifier<'_>, want: &[u8], whole: &str) -> Result<(), String> {
    ensure!(i.as_str().as_bytes() == want, "identifier part of {:?} is {:?}", whole, i.as_str());
    disp("Identifier", i, std::str::from_utf8(want).unwrap())?;
    encd("Identifier", i, std::str::from_utf8(want).unwrap())
}

fn check_module(m: &ModuleIdentifier<'_>, want: &[u8], whole: &str) -> Result<(), String> {
    let (name, version) = refs::module_identifier(want).unwrap();
    let want = std::str::from_utf8(want).unwrap();
    ensure!(m.as_str() == want, "module part of {:?} is {:?}", whole, m.as_str());
    disp("ModuleIdentifier", m, want)?;
    encd("ModuleIdentifier", m, want)?;
    ensure!(m.major_version() == version, "major version of {:?} is {}", whole, m.major_version());
    check_ident(&m.name(), name, whole)?;
    ensure!(format!("{}{}", m.name(), m.major_version()) == want, "the parts of {:?} do not recombine", want);
    for minor in [0u16, 1, 9, 10, 65535] {
        let v = m.with_minor_version(minor);
        let text = format!("{}.{}", want, minor);
        ensure!(v.minor_version() == minor && v.module() == *m, "with_minor_version({}) of {:?} has other parts", minor, want);
        disp("ModuleVersion", &v, &text)?;
        encd("ModuleVersion", &v, &text)?;
    }
    Ok(())
}

/// What every type says about the given string; Err if anything is off.
fn check_string(s: &str) -> Result<u32, String> {
    let b = s.as_bytes();
    let mut accepted = 0;
    macro_rules! both {
        ($t:ident, $want:expr, $bit:expr) => {{
            let want: bool = $want;
            let got = $t::parse(s);
            ensure!(got.is_some() == want, "{}::parse({:?}) is {:?}", stringify!($t), s, got.map(|g| g.to_string()));
            let dec = $t::decode_argument(b);
            ensure!(dec == got, "{}::decode_argument({:?}) differs from parse()", stringify!($t), s);
            let opt = <Option<$t> as DecodeArgument>::decode_argument(b);
            ensure!(
                if b.is_empty() { opt == Some(None) } else { opt.is_some() == want && opt.map(|o| o.is_some()).unwrap_or(true) },
                "Option<{}> decodes {:?} wrongly",
                stringify!($t),
                s
            );
            if want {
                accepted |= 1 << $bit;
            }
            if let Some(ref v) = got {
                disp(stringify!($t), v, s)?;
                encd(stringify!($t), v, s)?;
                encd(stringify!(Option<$t>), &Some(v), s)?;
                ensure!(Some(v.clone()) == dec, "{:?}: not equal to itself", s);
            }
            got
        }};
    }
    if let Some(v) = both!(ClientID, refs::is_client_id(b), 0) {
        ensure!(v.as_str() == s, "ClientID {:?} says as_str {:?}", s, v.as_str());
    }
    if let Some(v) = both!(Identifier, refs::is_identifier(b), 1) {
        check_ident(&v, b, s)?;
    }
    if let Some(v) = both!(ModuleIdentifier, refs::module_identifier(b).is_some(), 2) {
        check_module(&v, b, s)?;
    }
    if let Some(v) = both!(ModuleVersion, refs::module_version(b).is_some(), 3) {
        let (m, minor) = refs::module_version(b).unwrap();
        ensure!(v.minor_version() == minor, "minor version of {:?} is {}", s, v.minor_version());
        check_module(&v.module(), m, s)?;
        ensure!(format!("{}.{}", v.module(), v.minor_version()) == s, "the parts of {:?} do not recombine", s);
    }
    if let Some(v) = both!(ScopedIdentifier, refs::scoped_identifier(b).is_some(), 4) {
        let (m, i) = refs::scoped_identifier(b).unwrap();
        ensure!(v.as_str() == s, "ScopedIdentifier {:?} says as_str {:?}", s, v.as_str());
        check_module(&v.module(), m, s)?;
        check_ident(&v.member(), i, s)?;
        ensure!(format!("{}.{}", v.module(), v.member()) == s, "the parts of {:?} do not recombine", s);
    }
    if let Some(v) = both!(MessageType, refs::is_message_type(b), 5) {
        ensure!(v.as_str() == s, "MessageType {:?} says as_str {:?}", s, v.as_str());
        let shape = match v {
            MessageType::Want => s == "want",
            MessageType::Have => s == "have",
            MessageType::Nope => s == "nope",
            MessageType::Scoped(ref x) => x.as_str() == s,
        };
        ensure!(shape, "MessageType {:?} has the wrong variant", s);
    }
    Ok(accepted)
}

/// Two strings: their values must be equal, and ordered as equal, exactly if the strings are.
fn check_pair(a: &str, b: &str) -> Result<u32, String> {
    let mut compared = 0;
    macro_rules! pair {
        ($t:ident, $ord:expr) => {
            if let (Some(x), Some(y)) = ($t::parse(a), $t::parse(b)) {
                ensure!((x == y) == (a == b), "{}: {:?} == {:?} is {}", stringify!($t), a, b, x == y);
                ensure!((x != y) == (a != b), "{}: {:?} != {:?} is {}", stringify!($t), a, b, x != y);
                let ord: fn(&$t, &$t) -> std::cmp::Ordering = $ord;
                ensure!((ord(&x, &y) == std::cmp::Ordering::Equal) == (a == b), "{}: {:?} and {:?} compare as {:?}", stringify!($t), a, b, ord(&x, &y));
                ensure!(ord(&x, &y) == ord(&y, &x).reverse(), "{}: {:?} and {:?} are not ordered", stringify!($t), a, b);
                compared += 1;
            }
        };
    }
    pair!(ClientID, |x, y| x.cmp(y));
    pair!(Identifier, |x, y| x.cmp(y));
    pair!(ModuleIdentifier, |x, y| x.cmp(y));
    pair!(ModuleVersion, |x, y| x.cmp(y));
    pair!(ScopedIdentifier, |x, y| x.cmp(y));
    pair!(MessageType, |x, y| x.as_str().cmp(y.as_str()));
    Ok(compared)
}

impl Property for C05 {
    fn id(&self) -> &'static str {
        "C05"
    }
    fn level(&self) -> Level {
        Level::Exploration
    }
    fn rule(&self) -> String {
        "Each string is offered to all six types by parse() and decode_argument(); acceptance is compared with independent \
         definitions of the six grammars, and accepted values must display, encode, split and recombine as the source \
         string. Case 'pair': the values of two strings must be equal exactly if the strings are. Non-trivial: at least one type accepts it."
            .into()
    }
    fn bounds(&self) -> String {
        "all strings of <=5 (6) over 15 class representatives; all strings of <=3 bytes over ASCII; all code points at 6 \
         positions; all major and minor versions 0..70000 with and without leading zeros; single edits of 20 samples; all pairs of 600 names; \
         strings of up to 1030 (3000) characters with one that differs"
            .into()
    }
    fn describe(&self, kind: &str, p: &[u8]) -> String {
        match kind {
            "pair" => format!("strings {} and {}", show(unpack(p)[0]), show(unpack(p)[1])),
            "char" => format!("code points from U+{:04X} in several positions", u32::from_le_bytes(p.try_into().unwrap())),
            _ => format!("string {}", show(p)),
        }
    }
    fn run_case(&self, kind: &str, p: &[u8], r: &mut Rec) -> Result<(), String> {
        if kind == "pair" {
            let parts = unpack(p);
            let (a, b) = (std::str::from_utf8(parts[0]).unwrap(), std::str::from_utf8(parts[1]).unwrap());
            r.nontrivial = check_pair(a, b)? > 0;
            r.tag("pairs");
            return Ok(());
        }
        if kind == "char" {
            let start = u32::from_le_bytes(p.try_into().unwrap());
            let mut n = 0;
            for c in (start..start + 64).filter_map(char::from_u32) {
                for t in ["", "a", "a1", "a1.", "a1.b", "a1.1"] {
                    check_string(&format!("{}{}", t, c))?;
                    check_string(&format!("{}{}", c, t))?;
                    check_string(&format!("{}{}x", t, c))?;
                    n += 3;
                }
            }
            r.extra_evaluations = n;
            r.nontrivial = true;
            return Ok(());
        }
        let s = match std::str::from_utf8(p) {
            Ok(s) => s,
            Err(_) => {
                let none = ClientID::decode_argument(p).is_none()
                    && Identifier::decode_argument(p).is_none()
                    && ModuleIdentifier::decode_argument(p).is_none()
                    && ModuleVersion::decode_argument(p).is_none()
                    && ScopedIdentifier::decode_argument(p).is_none()
                    && MessageType::decode_argument(p).is_none();
                ensure!(none, "{} is not UTF-8 but decodes", show(p));
                r.tag("not UTF-8");
                return Ok(());
            }
        };
        let a = check_string(s)?;
        r.nontrivial = a != 0;
        r.outcome = Some(a as u64);
        r.tag(match a {
            0 => "rejected by all",
            a if a.count_ones() > 1 => "accepted by several",
            _ => "accepted by one",
        });
        if r.want_text {
            r.text = format!("accepting types mask {:06b}", a);
        }
        Ok(())
    }
    fn enumerate(&self, e: &Eng) {
        all_strings(e, b"aZz_-.0159 +/:@\xe9", 0, e.bound(5, 6), &|w, s| w.case("id", s));
        let ascii: Vec<u8> = (0..128).collect();
        all_strings(e, &ascii, 1, 3, &|w, s| w.case("id", s));
        e.par((0x110000 / 64) as usize, |w, i| w.case("char", &(i as u32 * 64).to_le_bytes()));
        e.par(700, |w, j| {
            for v in j * 100..(j + 1) * 100 {
                for z in ["", "0", "00", "+", "-", " "] {
                    w.case("version", format!("core{}{}", z, v).as_bytes());
                    w.case("version", format!("core{}{}.3", z, v).as_bytes());
                    w.case("version", format!("core1.{}{}", z, v).as_bytes());
                    w.case("version", format!("core{}{}.sub", z, v).as_bytes());
                    w.case("version", format!("_-_{}{}.{}{}", z, v, z, v).as_bytes());
                }
                w.case("version", format!("{}", v).as_bytes());
                w.case("version", format!("core1.{}x", v).as_bytes());
                w.case("version", format!("core{}.{}.x", v, v).as_bytes());
            }
        });
        e.par(1, |w, _| {
            for n in ["99999", "100000", "655350", "4294967295", "4294967296", "4294967297", "18446744073709551616", "65537", "131073"] {
                for t in ["core{}", "core{}.0", "core1.{}", "core{}.sub"] {
                    w.case("version", t.replace("{}", n).as_bytes());
                }
            }
            for n in [255usize, 256, 257, 1000, 5000] {
                let l = "l".repeat(n);
                for t in ["{}", "{}1", "{}1.0", "{}1.x", "x1.{}", "{}-", "-{}", "{}.{}"] {
                    w.case("long", t.replace("{}", &l).as_bytes());
                }
                w.case("long", format!("x{}", "1".repeat(n)).as_bytes());
                w.case("long", format!("x1.{}", "1".repeat(n)).as_bytes());
                w.case("long", format!("x1{}", ".".repeat(n)).as_bytes());
            }
        });
        let samples = [
            "want", "have", "nope", "core1", "core1.0", "core1.sub", "posix1.client-hello", "_a-9.65535", "a65535.b", "Zz9-x",
            "foo2_", "-a1.b", "a1.-b", "a1._", "a-b1.c-d", "abc", "a1b2", "core10.client_end", "w1.want", "have1",
        ];
        e.par(samples.len(), |w, j| edits(w, samples[j].as_bytes(), &mut |w, s| w.case("edit", s)));
        all_strings(e, b"wantheop1.", 4, e.bound(4, 5), &|w, s| w.case("word", s));
        //which values are equal
        let mut words: Vec<String> = samples.iter().map(|s| s.to_string()).collect();
        for name in ["a", "A", "ab", "a-", "a_", "want", "core", "cor", "_"] {
            words.push(name.into());
            for major in [1, 2, 10, 11, 257, 65535] {
                words.push(format!("{}{}", name, major));
                for member in ["0", "1", "10", "256", "65535", "a", "A", "ab", "a-", "a_"] {
                    words.push(format!("{}{}.{}", name, major, member));
                }
            }
        }
        e.par(words.len(), |w, i| {
            for v in &words {
                w.case("pair", &pack(&[words[i].as_bytes(), v.as_bytes()]));
            }
        });
        odd_strings(e, b'a', b"-_.01 Z\x7f\xc3", 130, e.bound(1030, 3000), &|w, s| {
            w.case("id", s);
            if s.len() < 330 {
                w.case("id", &[s, b"1"].concat());
                w.case("id", &[s, b"1.0"].concat());
                w.case("id", &[b"a1.", s].concat());
            }
        });
        //around the type name: invalid UTF-8
        e.par(128, |w, i| {
            let b = i as u8 + 128;
            for t in [&b""[..], b"a", b"a1", b"a1.", b"a1.b", b"want"] {
                for n in 0..=t.len() {
                    let mut s = t.to_vec();
                    s.insert(n, b);
                    w.case("id", &s);
                }
            }
        });
    }
}

////////////////////////////////////////////////////////////////////////////////

pub struct C06;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Sfx {
    Own,
    Local(u32),
    Job(u32),
    Child(u32, u32),
}

impl Sfx {
    fn real(self) -> ClientIDSuffix {
        match self {
            Sfx::Own => ClientIDSuffix::Own,
            Sfx::Local(i) => ClientIDSuffix::Local(i),
            Sfx::Job(i) => ClientIDSuffix::Job(i),
            Sfx::Child(i, j) => ClientIDSuffix::Child(i, j),
        }
    }
}

/// Generates the ID the way a client would, and checks the per-ID statements.
fn generate(base: &str, s: Sfx) -> Result<Vec<u8>, String> {
    let b = ClientID::parse(base).ok_or("base rejected")?;
    let rel = s.real().below(b);
    ensure!(rel.base() == b && rel.suffix() == s.real(), "base() or suffix() of {:?} are wrong", s);
    let n = rel.get_size();
    let small = n <= 16384;
    let v = if small {
        enc(&rel)?
    } else {
        let mut v = vec![0u8; n];
        rel.encode(&mut v);
        v
    };
    ensure!(v.len() == n, "{:?} announces {} bytes but has {}", s, n, v.len());
    ensure!(v.starts_with(base.as_bytes()), "{:?} below {:?} does not start with its base: {}", s, base, show(&v));
    ensure!(refs::is_client_id(&v), "{:?} below {:?} is not a valid client ID: {}", s, base, show(&v));
    if small {
        ensure!(ClientID::decode_argument(&v).is_some(), "{:?}: {} does not decode as client ID", s, show(&v));
    }
    ensure!((v.len() == base.len()) == (s == Sfx::Own), "{:?} below {:?} is {}", s, base, show(&v));
    //all IDs of the same suffix only differ in their base
    Ok(v)
}

/// Checks all pairwise statements on a set of suffixes.
fn check_set(base: &str, set: &[Sfx]) -> Result<u64, String> {
    let mut ids: HashMap<Vec<u8>, Sfx> = HashMap::with_capacity(set.len());
    for &s in set {
        let v = generate(base, s)?;
        if let Some(o) = ids.insert(v.clone(), s) {
            if o != s {
                return Err(format!("{:?} and {:?} below {:?} have the same ID {}", o, s, base, show(&v)));
            }
        }
    }
    //a prefix of an ID may only be: its base, and for a child its own job
    for (v, &s) in &ids {
        for n in base.len()..v.len() {
            if let Some(&o) = ids.get(&v[..n]) {
                let fine = match (o, s) {
                    (Sfx::Own, _) => true,
                    (Sfx::Job(i), Sfx::Child(k, _)) => i == k,
                    //children of one job may be nested; the property does not speak about them
                    (Sfx::Child(i, _), Sfx::Child(k, _)) => i == k,
                    _ => false,
                };
                if !fine {
                    return Err(format!("the ID of {:?} ({}) is a prefix of {:?}'s ({})", o, show(&v[..n]), s, show(v)));
                }
            }
        }
        if let Sfx::Child(i, _) = s {
            let job = generate(base, Sfx::Job(i))?;
            ensure!(v.starts_with(&job) && v.len() > job.len(), "{:?} ({}) is not below {:?} ({})", s, show(v), Sfx::Job(i), show(&job));
        }
    }
    Ok(ids.len() as u64)
}

fn window(p: &[u8]) -> Vec<u32> {
    p.chunks(4).map(|c| u32::from_le_bytes(c.try_into().unwrap())).collect()
}

impl Property for C06 {
    fn id(&self) -> &'static str {
        "C06"
    }
    fn level(&self) -> Level {
        Level::Exploration
    }
    fn rule(&self) -> String {
        "A case is a base and a set of indexes; the IDs for Own and for Local(i), Job(i), Child(i,j) with all indexes of the \
         set are generated, checked one by one (valid, announced size, starts with the base, differs from it) and in all \
         pairs (distinct; prefix relations exactly as between lifetimes) through a prefix map. Non-trivial: all cases."
            .into()
    }
    fn bounds(&self) -> String {
        "4 bases; Local/Job: all indexes below 6000 (20000) together; Child: all pairs of indexes below 260 (520) together; \
         pairs from windows around multiples of 61 and powers of 2; single IDs at 50 indexes up to u32::MAX"
            .into()
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["the ID of index u32::MAX is 70 MB long; only one such ID is held at a time".into()]
    }
    fn threads(&self) -> usize {
        6
    }
    fn hang_seconds(&self) -> u64 {
        120
    }
    fn describe(&self, kind: &str, p: &[u8]) -> String {
        let parts = unpack(p);
        format!("{} below {} with indexes {:?}", kind, show(parts[0]), parts[1..].iter().map(|w| window(w)).collect::<Vec<_>>())
    }
    fn run_case(&self, kind: &str, p: &[u8], r: &mut Rec) -> Result<(), String> {
        let parts = unpack(p);
        let base = std::str::from_utf8(parts[0]).unwrap();
        let a = window(parts[1]);
        r.nontrivial = true;
        let n = match kind {
            "range" => {
                let set: Vec<Sfx> = std::iter::once(Sfx::Own)
                    .chain((a[0]..a[1]).map(Sfx::Local))
                    .chain((a[0]..a[1]).map(Sfx::Job))
                    .collect();
                check_set(base, &set)?
            }
            "grid" => {
                let set: Vec<Sfx> = std::iter::once(Sfx::Own)
                    .chain((0..a[0]).flat_map(|i| (0..a[1]).map(move |j| Sfx::Child(i, j))))
                    .chain((0..a[0].max(a[1])).map(Sfx::Job))
                    .chain((0..a[0].max(a[1])).map(Sfx::Local))
                    .collect();
                check_set(base, &set)?
            }
            "pairs" => {
                let set: Vec<Sfx> = std::iter::once(Sfx::Own)
                    .chain(a.iter().flat_map(|&i| a.iter().map(move |&j| Sfx::Child(i, j))))
                    .chain(a.iter().map(|&i| Sfx::Job(i)))
                    .chain(a.iter().map(|&i| Sfx::Local(i)))
                    .collect();
                check_set(base, &set)?
            }
            "big" => {
                let i = a[0];
                let job = generate(base, Sfx::Job(i))?;
                let next = generate(base, Sfx::Job(i - 1))?;
                ensure!(job != next && !job.starts_with(&next) && !next.starts_with(&job), "Job({}) and Job({}) overlap", i, i - 1);
                drop(next);
                let local = generate(base, Sfx::Local(i))?;
                ensure!(!local.starts_with(&job) && !job.starts_with(&local), "Local({}) and Job({}) overlap", i, i);
                drop(local);
                let child = generate(base, Sfx::Child(i, 0))?;
                ensure!(child.starts_with(&job) && child.len() > job.len(), "Child({},0) is not below its job", i);
                drop(child);
                drop(job);
                let child = generate(base, Sfx::Child(0, i))?;
                let job = generate(base, Sfx::Job(0))?;
                ensure!(child.starts_with(&job) && child.len() > job.len(), "Child(0,{}) is not below its job", i);
                6
            }
            _ => unreachable!(),
        };
        r.extra_evaluations = n - 1;
        r.add("ids generated", n);
        Ok(())
    }
    fn enumerate(&self, e: &Eng) {
        let bases = ["a", "0", "z", "foo9Z"];
        let le = |v: &[u32]| v.iter().flat_map(|x| x.to_le_bytes()).collect::<Vec<u8>>();
        let n = e.bound(6000, 20_000);
        e.par(bases.len(), |w, i| w.case("range", &pack(&[bases[i].as_bytes(), &le(&[0, n])])));
        let g = e.bound(260, 520);
        e.par(bases.len(), |w, i| {
            w.case("grid", &pack(&[bases[i].as_bytes(), &le(&[g, g])]));
            w.case("grid", &pack(&[bases[i].as_bytes(), &le(&[3, e.bound(2000, 20_000)])]));
            w.case("grid", &pack(&[bases[i].as_bytes(), &le(&[e.bound(2000, 20_000), 3])]));
        });
        let mut windows: Vec<Vec<u32>> = vec![];
        for c in [60u32, 61, 121, 122, 182, 183, 610, 3660, 3721, 4096, 6100] {
            windows.push((c.saturating_sub(4)..c + 5).collect());
        }
        for k in 6..=e.bound(16, 18) {
            let c = 1u32 << k;
            windows.push((c - 2..c + 3).chain([0, 1, 59, 60, 61]).collect());
        }
        windows.push((0..40).map(|k| k * 61 + 59).collect());
        windows.push((0..40).map(|k| k * 61 + 60).collect());
        e.par(windows.len() * bases.len(), |w, i| {
            w.case("pairs", &pack(&[bases[i % bases.len()].as_bytes(), &le(&windows[i / bases.len()])]));
        });
        //single large indexes
        let mut big: Vec<u32> = vec![u32::MAX, u32::MAX - 1, i32::MAX as u32, i32::MAX as u32 + 1, 1 << 24, 1 << 20, 100_000, 65_536];
        if e.thorough() {
            big.extend((17..32).flat_map(|k| [(1u32 << k) - 1, 1 << k, (1 << k) + 1]));
            big.extend((1..12).map(|k| u32::MAX - 61 * k));
        }
        e.par(big.len(), |w, i| w.case("big", &pack(&[b"a", &le(&[big[i]])])));
    }
}

////////////////////////////////////////////////////////////////////////////////

pub struct C08;

fn members<'x>(sel: &ClientSelector<'x>, all: &'x [String]) -> Vec<bool> {
    all.iter().map(|s| sel.contains(ClientID::parse(s).unwrap())).collect()
}

impl Property for C08 {
    fn id(&self) -> &'static str {
        "C08"
    }
    fn level(&self) -> Level {
        Level::Exploration
    }
    fn rule(&self) -> String {
        "A case is either a client ID, whose two selectors are evaluated against every client ID of the universe and \
         compared with the set of its extensions; or a client identity built in a given order of with_* calls, whose \
         accessors are compared with what was given. Non-trivial: a selector that contains some but not all, or an \
         identity with a screen."
            .into()
    }
    fn bounds(&self) -> String {
        "universe: all client IDs up to length 4 (5) over {a,b,A,1}, plus IDs of length 1..3 over all 62 characters (against \
         all of length 1..2), plus long ones; identities: all subsets and orders of the three screens, with repeats, 4 texts"
            .into()
    }
    fn describe(&self, kind: &str, p: &[u8]) -> String {
        format!("{} {}", kind, unpack(p).iter().map(|s| show(s)).collect::<Vec<_>>().join(" "))
    }
    fn run_case(&self, kind: &str, p: &[u8], r: &mut Rec) -> Result<(), String> {
        let parts = unpack(p);
        if kind == "identity" {
            //steps: pairs of (which, text)
            let id = std::str::from_utf8(parts[0]).unwrap();
            let cid = ClientID::parse(id).unwrap();
            let mut want: [Option<String>; 3] = [None, None, None];
            let mut i = ClientIdentity::new(&cid);
            for s in parts[1..].chunks(2) {
                let which = s[0][0] as usize;
                let text = std::str::from_utf8(s[1]).unwrap();
                want[which] = Some(text.to_string());
                i = match which {
                    0 => i.with_stdin(text),
                    1 => i.with_stdout(text),
                    _ => i.with_stderr(text),
                };
                let copy = i.clone();
                for x in [&i, &copy] {
                    ensure!(x.client_id() == cid && x.client_id().as_str() == id, "client_id() is {:?}", x.client_id());
                    ensure!(x.stdin_screen_id() == want[0].as_deref(), "stdin_screen_id() is {:?}", x.stdin_screen_id());
                    ensure!(x.stdout_screen_id() == want[1].as_deref(), "stdout_screen_id() is {:?}", x.stdout_screen_id());
                    ensure!(x.stderr_screen_id() == want[2].as_deref(), "stderr_screen_id() is {:?}", x.stderr_screen_id());
                }
                let s = ScreenIdentity::new(text);
                ensure!(s.screen_id() == text, "ScreenIdentity::new({:?}).screen_id() is {:?}", text, s.screen_id());
                ensure!(s == ScreenIdentity::new(text) && s != ScreenIdentity::new(&format!("{}x", text)), "ScreenIdentity compares wrongly");
                r.nontrivial = true;
            }
            ensure!(i.client_id().as_str() == id && (parts.len() > 1 || i.stdin_screen_id().is_none()), "identity is wrong");
            if parts.len() == 1 {
                ensure!(
                    i.stdin_screen_id().is_none() && i.stdout_screen_id().is_none() && i.stderr_screen_id().is_none(),
                    "a new identity has screens"
                );
            }
            r.outcome = Some(hash_bytes(p));
            return Ok(());
        }
        let id = std::str::from_utf8(parts[0]).unwrap();
        let all: Vec<String> = universe(parts[1]);
        let cid = ClientID::parse(id).unwrap();
        let below = members(&ClientSelector::StrictlyBelow(cid), &all);
        let at = members(&ClientSelector::AtOrBelow(cid), &all);
        let mut n = 0;
        for (k, s) in all.iter().enumerate() {
            //the reference compares character by character
            let prefix = id.len() <= s.len() && id.bytes().zip(s.bytes()).all(|(x, y)| x == y);
            ensure!(at[k] == prefix, "AtOrBelow({}) says {} for {}", id, at[k], s);
            let strictly = prefix && s.len() > id.len();
            ensure!(below[k] == strictly, "StrictlyBelow({}) says {} for {}", id, below[k], s);
            n += prefix as u64;
        }
        r.extra_evaluations = 2 * all.len() as u64 - 1;
        r.nontrivial = n > 0;
        r.add("memberships", n);
        r.outcome = Some(n);
        Ok(())
    }
    fn enumerate(&self, e: &Eng) {
        let max = e.bound(4u8, 5);
        let ids = universe(&[0, max]);
        e.par(ids.len(), |w, i| w.case("selector", &pack(&[ids[i].as_bytes(), &[0, max]])));
        let ids = universe(&[1, 2]);
        e.par(ids.len(), |w, i| {
            w.case("selector", &pack(&[ids[i].as_bytes(), &[1, 2]]));
        });
        let ids = universe(&[2, 0]);
        e.par(ids.len(), |w, i| w.case("selector", &pack(&[ids[i].as_bytes(), &[2, 0]])));
        //identities: all sequences of up to 4 steps
        let texts = ["s1", "", "other screen", "s1"];
        for len in 0..=e.bound(3u32, 4) {
            e.par(12usize.pow(len), |w, i| {
                for id in ["a", "a1Z"] {
                    let mut parts: Vec<&[u8]> = vec![id.as_bytes()];
                    let mut k = i;
                    for _ in 0..len {
                        parts.push([&[0u8][..], &[1], &[2]][k % 3]);
                        parts.push(texts[(k / 3) % 4].as_bytes());
                        k /= 12;
                    }
                    w.case("identity", &pack(&parts));
                }
            });
        }
    }
}

fn universe(spec: &[u8]) -> Vec<String> {
    let mut out = vec![];
    match spec[0] {
        0 | 1 => {
            let alphabet: Vec<u8> = if spec[0] == 0 {
                b"abA1".to_vec()
            } else {
                (b'0'..=b'9').chain(b'A'..=b'Z').chain(b'a'..=b'z').collect()
            };
            let mut s = vec![];
            for len in 1..=spec[1] as usize {
                for i in 0..(alphabet.len() as u64).pow(len as u32) {
                    nth_string(&alphabet, len, i, &mut s);
                    out.push(String::from_utf8(s.clone()).unwrap());
                }
            }
        }
        _ => {
            let l = "abcdefghij".repeat(40);
            for n in [1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 257, 399, 400] {
                out.push(l[..n].to_string());
                out.push(format!("{}Z", &l[..n - 1]));
                out.push(format!("Z{}", &l[1..n]));
            }
        }
    }
    out
}
