//! C24: the same results with and without the standard library.

#[path = "../../h-codec/src/gen.rs"]
#[allow(dead_code)]
mod gen;
#[path = "../../h-codec/src/refs.rs"]
#[allow(dead_code)]
mod refs;
mod with_std {
    use super::v_std as v;
    include!("ops.rs");
}
mod no_std {
    use super::v_nostd as v;
    include!("ops.rs");
}
use engine::*;
use gen::*;
use vt6 as v_std;
use vt6_nostd as v_nostd;

struct C24;

fn outcome(f: fn(&str, &[&[u8]], &mut String), kind: &str, p: &[&[u8]]) -> String {
    let mut o = String::new();
    if std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(kind, p, &mut o))).is_err() {
        let m = take_last_panic();
        o.push_str("panic: ");
        //(without the place)
        o.push_str(m.split_once(": ").map_or(&m, |m| m.1));
    }
    o
}

impl Property for C24 {
    fn id(&self) -> &'static str {
        "C24"
    }
    fn level(&self) -> Level {
        Level::Exploration
    }
    fn rule(&self) -> String {
        "A case calls one part of the API (parser with all typed messages, value decoders, identifiers and their comparisons, integer encoders, formatter, typed messages, client ID generation) in both \
         configurations of the same sources, linked into one program, and compares everything observable: results, encodings, Display and Debug forms, panics. Non-trivial: the input is accepted by something."
            .into()
    }
    fn bounds(&self) -> String {
        "parser: all strings up to 6 (7) over the 11 structural characters, also behind valid beginnings, all one-byte edits and prefixes of all messages of the menus, all decimals of the menu in each place; \
         values: all strings up to 4 (5) over digits, signs and letters, all 1-3 byte strings; identifiers: all strings up to 5 (6) over 11 characters, all version numbers below 70000, all characters; \
         all pairs of 400 identifiers; integers around all powers of 2 and 10; formatter and typed messages: the products of the menus with every buffer size around the limits, and misuse; up to 340 arguments; contents, types, numbers and identifiers of up to 1100 bytes with one that differs; all words of 4 letters; client IDs: indexes below \
         6000 (50000) and all pairs below 260 (800)"
            .into()
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["the no_std configuration is compiled for this machine, where std happens to exist".into()]
    }
    fn enumerate(&self, e: &Eng) {
        //parser
        let parse = |w: &mut W, s: &[u8]| w.case("parse", &pack(&[s]));
        all_strings(e, STRUCTURE, 0, e.bound(6, 7), &parse);
        for prefix in [&b"{1|4:want,"[..], b"{2|4:want,", b"{2|4:have,", b"{3|4:a1.b,", b"{2|15:core1.client-new,", b"{2|4:nope,"] {
            all_strings(e, STRUCTURE, 0, e.bound(5, 6), &|w, s| parse(w, &[prefix, s].concat()));
        }
        let mut base = base_messages();
        let fields: [&[&[u8]]; 9] = [&[b"a"], &[b""], &[b"core1"], &[b"core1.0"], &[b"a", b"/\xff"], &[b"a", b"", b"s", b""], &[b"b1", b"x", b"y", b"z"], &[b"\xff"], &[b"core1.sub"]];
        for ty in ["want", "have", "nope", "core1.client-make", "core1.client-new", "core1.client-end", "posix1.client-hello", "posix1.server-hello", "posix1.stdin-hello", "posix1.stdout-hello", "posix1.parent-hello"] {
            base.extend(fields.iter().map(|f| refs::render(ty.as_bytes(), f)));
        }
        e.par(base.len(), |w, j| edits(w, &base[j], &mut |w, s| parse(w, s)));
        let dec = decimals();
        e.par(dec.len(), |w, i| {
            let d = &dec[i];
            for t in [format!("{{{}|", d), format!("{{{}|4:want,}}", d), format!("{{1|{}:want,}}", d), format!("{{2|4:want,{}:", d), format!("{{2|4:want,{}:{},}}", d, "x".repeat(100)), format!("{{{}|4:want,{}}}", d, "0:,".repeat(10))] {
                parse(w, t.as_bytes());
            }
        });
        e.par(1100, |w, n| {
            for b in [b'x', b'}', 0, 0xff] {
                parse(w, &refs::render(b"want", &[&vec![b; n]]));
                parse(w, &refs::render(b"posix1.client-hello", &[&vec![b; n]]));
            }
        });
        e.par(340, |w, n| {
            for a in [&b""[..], b"a", b"}", b"\xff"] {
                parse(w, &refs::render(b"want", &vec![a; n]));
                parse(w, &refs::render(b"core1.client-make", &vec![a; n]));
            }
        });
        odd_strings(e, b'q', b",}{ \"\\\x00\xff", 130, 1007, &|w, s| parse(w, &refs::render(b"want", &[s])));
        odd_strings(e, b'a', b"-.10 \xff", 130, 1030, &|w, s| {
            parse(w, &refs::render(&[s, b"1.b"].concat(), &[]));
            parse(w, &refs::render(&[b"a1.", s].concat(), &[b"x"]));
        });
        //values
        let value = |w: &mut W, s: &[u8]| w.case("value", &pack(&[s]));
        all_strings(e, b"0123456789+-tf a_.\xff", 0, e.bound(4, 5), &value);
        let all: Vec<u8> = (0..=255).collect();
        all_strings(e, &all, 1, e.bound(2, 3), &value);
        all_strings(e, b"a\x7f\x80\xbf\xc0\xc2\xdf\xe0\xed\xef\xf0\xf4\xf5\x90\xa0\x8f", 1, 4, &value);
        all_strings(e, b"abcdefghijklmnopqrstuvwxyz", 4, 4, &value);
        all_strings(e, b"eflosrtuyTFALSEUR", 5, 5, &value);
        odd_strings(e, b'7', b"-+ .x\xff", 60, 1100, &value);
        odd_strings(e, b'q', b"\x00 \x80\xff", 130, e.bound(1100, 5000), &value);
        e.par(dec.len(), |w, i| {
            for sign in ["", "-", "+", "0", "--"] {
                value(w, format!("{}{}", sign, dec[i]).as_bytes());
            }
        });
        e.par(128, |w, k| {
            for d in -40..=40i128 {
                let x = ((1u128 << k) as i128).wrapping_add(d);
                w.case("int", &pack(&[&x.to_le_bytes()]));
                value(w, x.to_string().as_bytes());
                value(w, (x as u128).to_string().as_bytes());
            }
        });
        e.par(39, |w, k| {
            for m in 1..=9u128 {
                for d in -3..=3i128 {
                    let x = (m.wrapping_mul(10u128.pow(k as u32)) as i128).wrapping_add(d);
                    w.case("int", &pack(&[&x.to_le_bytes()]));
                    value(w, x.to_string().as_bytes());
                }
            }
        });
        e.par(700, |w, i| {
            for x in i as i128 * 100..i as i128 * 100 + 100 {
                w.case("int", &pack(&[&x.to_le_bytes()]));
                w.case("int", &pack(&[&(-x).to_le_bytes()]));
            }
        });
        //identifiers
        let ident = |w: &mut W, s: &[u8]| w.case("ident", &pack(&[s]));
        all_strings(e, b"aZz_-.0159 ", 0, e.bound(5, 6), &ident);
        odd_strings(e, b'a', b"-.10_ Z\xff", 60, e.bound(1100, 3000), &|w, s| {
            ident(w, s);
            ident(w, &[s, b"1.b"].concat());
            ident(w, &[b"a1.", s].concat());
        });
        e.par(0x110000 / 256, |w, i| {
            for c in i as u32 * 256..i as u32 * 256 + 256 {
                if let Some(c) = char::from_u32(c) {
                    for t in [format!("{}", c), format!("a{}", c), format!("a1{}b", c), format!("a1.{}", c), format!("a{}1.b", c)] {
                        ident(w, t.as_bytes());
                    }
                }
            }
        });
        e.par(700, |w, j| {
            for v in j * 100..(j + 1) * 100 {
                for t in [format!("core{}", v), format!("core{}.3", v), format!("core1.{}", v), format!("core{}.sub", v), format!("core0{}", v)] {
                    ident(w, t.as_bytes());
                }
            }
        });
        let samples = ["want", "have", "nope", "core1", "core1.0", "core1.sub", "posix1.client-hello", "_a-9.65535", "a65535.b", "Zz9-x", "a-b1.c-d", "w1.want", "core4294967297.x"];
        e.par(samples.len(), |w, j| edits(w, samples[j].as_bytes(), &mut |w, s| ident(w, s)));
        let mut ids: Vec<Vec<u8>> = samples.iter().map(|s| s.as_bytes().to_vec()).collect();
        let mut s = vec![];
        for len in 1..=4usize {
            for i in 0..4u64.pow(len as u32) {
                nth_string(b"aB1_", len, i, &mut s);
                ids.push(s.clone());
            }
        }
        for m in ["a1", "a2", "b1", "B1", "a10"] {
            for t in ["0", "1", "10", "a", "b", "_", "B"] {
                ids.push(format!("{}.{}", m, t).into_bytes());
            }
        }
        e.par(ids.len(), |w, i| {
            for b in &ids {
                w.case("compare", &pack(&[&ids[i], b]));
            }
        });
        //formatter
        let menu = arg_menu();
        e.par(TYPES.len() * menu.len(), |w, i| {
            let (ty, a) = (TYPES[i / menu.len()], &menu[i % menu.len()]);
            for b in std::iter::once(None).chain(menu.iter().map(Some)) {
                let mut args: Vec<&[u8]> = vec![a];
                args.extend(b.map(|b| &b[..]));
                let need = refs::render(ty, &args).len();
                for n in (0..=need + 2).chain(1022..=1026) {
                    for count in [0usize, 1, 2, 3, usize::MAX - 1] {
                        if count != args.len() && n != need {
                            continue;
                        }
                        let (n, count) = ((n as u32).to_le_bytes(), count.to_le_bytes());
                        let mut p: Vec<&[u8]> = vec![&n, &count, ty];
                        p.extend(&args);
                        w.case("format", &pack(&p));
                    }
                }
            }
        });
        e.par(1100, |w, len| {
            for n in (1020..=1028).chain([len, len + 15, 2000, 65536]) {
                w.case("format", &pack(&[&(n as u32).to_le_bytes(), &1u64.to_le_bytes(), b"want", &vec![b'x'; len]]));
            }
        });
        //typed messages
        let texts: [&[u8]; 17] = [b"", b"a", b"a1", b"core1", b"core1.0", b"core65535.65535", b"core1.sub", b"want", b"nope", b"Zz9", b"\xff", b"/run/\xff", "\u{e9}".as_bytes(), b"_x-", b"a b", b"{1|4:want,}", &[b'q'; 200]];
        e.par(12, |w, ty| {
            let n = texts.len();
            let count = match ty {
                4 | 8 => 4,
                11 => 2,
                _ => 1,
            };
            for i in 0..n.pow(count) {
                let f: Vec<&[u8]> = (0..count).map(|k| texts[i / n.pow(k) % n]).collect();
                let sizes: Vec<u32> = if count < 4 { (0..1030).collect() } else { vec![0, 10, 60, 1023, 1024, 1025] };
                for b in sizes {
                    let (b, t) = (b.to_le_bytes(), [ty as u8]);
                    let mut p: Vec<&[u8]> = vec![&b, &t];
                    p.extend(&f);
                    w.case("fields", &pack(&p));
                }
            }
            for len in 900..1030 {
                let long = vec![b'q'; len];
                for b in 1000u32..1030 {
                    w.case("fields", &pack(&[&b.to_le_bytes(), &[ty as u8], &long, b"", b"", &long[..20]]));
                }
            }
        });
        //client IDs
        let case = |w: &mut W, base: &str, k: u8, i: u32, j: u32| w.case("clientid", &pack(&[base.as_bytes(), &[k], &i.to_le_bytes(), &j.to_le_bytes()]));
        let n = e.bound(6000u32, 50_000);
        e.par(n as usize / 100, |w, b| {
            for i in b as u32 * 100..b as u32 * 100 + 100 {
                for k in 0..4 {
                    case(w, "a", k, i, 5);
                    case(w, "fooBar9", k, 5, i);
                }
            }
        });
        let g = e.bound(260u32, 800);
        e.par(g as usize, |w, i| {
            for j in 0..g {
                case(w, "0z", 3, i as u32, j);
            }
        });
        e.par(16, |w, k| {
            for d in 0..5u32 {
                for k in [0u8, 1, 2, 3].map(|x| (x, k)) {
                    let i = (1u32 << k.1).wrapping_sub(2).wrapping_add(d);
                    case(w, "a", k.0, i, i / 2);
                }
            }
        });
        e.par(1, |w, _| {
            for i in [1 << 18, 1 << 20, 1_000_000] {
                case(w, "a", 2, i, 0);
            }
        });
    }
    fn describe(&self, kind: &str, p: &[u8]) -> String {
        format!("{} {}", kind, unpack(p).iter().map(|s| show(s)).collect::<Vec<_>>().join(" "))
    }
    fn run_case(&self, kind: &str, p: &[u8], r: &mut Rec) -> Result<(), String> {
        let p = unpack(p);
        let a = outcome(with_std::eval, kind, &p);
        let b = outcome(no_std::eval, kind, &p);
        r.nontrivial = !a.is_empty() && !a.starts_with("panic");
        r.outcome = Some(hash_bytes(a.as_bytes()));
        ensure!(a == b, "with std: {}; without: {}", a, b);
        Ok(())
    }
}

fn main() {
    engine::main(&[&C24]);
}
