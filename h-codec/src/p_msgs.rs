//! C07: typed messages.

use crate::gen::*;
use crate::refs;
use engine::*;
use std::path::Path;
use vt6::common::core::msg::{DecodeMessage, EncodeMessage, Message};
use vt6::common::core::*;
use vt6::msg::core::*;
use vt6::msg::posix::*;
use vt6::msg::*;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Field {
    Str,
    Opt,
    Path,
    Cid,
    Module,
    Version,
    MsgType,
    Have, //version or module
}

pub struct Ty {
    name: &'static str,
    fields: &'static [Field],
}

/// The documented shape of every typed message.
pub const TYPED: &[Ty] = &[
    Ty { name: "want", fields: &[Field::Module] },
    Ty { name: "have", fields: &[Field::Have] },
    Ty { name: "nope", fields: &[Field::MsgType] },
    Ty { name: "core1.client-make", fields: &[Field::Cid, Field::Opt, Field::Opt, Field::Opt] },
    Ty { name: "core1.client-new", fields: &[Field::Str] },
    Ty { name: "core1.client-end", fields: &[Field::Cid] },
    Ty { name: "posix1.client-hello", fields: &[Field::Str] },
    Ty { name: "posix1.parent-hello", fields: &[Field::Str, Field::Path] },
    Ty { name: "posix1.server-hello", fields: &[Field::Cid, Field::Opt, Field::Opt, Field::Opt] },
    Ty { name: "posix1.stdin-hello", fields: &[Field::Str] },
    Ty { name: "posix1.stdout-hello", fields: &[Field::Str] },
];

fn valid(f: Field, a: &[u8]) -> bool {
    match f {
        Field::Str | Field::Opt => refs::is_utf8(a),
        Field::Path => true,
        Field::Cid => refs::is_client_id(a),
        Field::Module => refs::module_identifier(a).is_some(),
        Field::Version => refs::module_version(a).is_some(),
        Field::MsgType => refs::is_message_type(a),
        Field::Have => valid(Field::Version, a) || valid(Field::Module, a),
    }
}

fn opt(o: Option<&str>) -> Vec<u8> {
    //an absent field and an empty one are the same on the wire; decoding must say "absent"
    match o {
        None => vec![],
        Some("") => b"<empty instead of absent>".to_vec(),
        Some(s) => s.as_bytes().to_vec(),
    }
}

type Decoded = Option<(Vec<Vec<u8>>, Vec<u8>)>;

/// Decodes as typed message `t`; returns the fields and what the decoded value encodes as.
fn decode(t: usize, m: &Message<'_>) -> Result<Decoded, String> {
    use std::os::unix::ffi::OsStrExt;
    fn again<E: EncodeMessage>(e: &E) -> Result<Vec<u8>, String> {
        let mut buf = vec![0xAAu8; 1024];
        match e.encode(&mut buf) {
            Ok(n) => {
                ensure!(buf[n..].iter().all(|&b| b == 0xAA), "encoding wrote behind the message");
                Ok(buf[..n].to_vec())
            }
            Err(e) => Ok(format!("missing {}", e.0).into_bytes()),
        }
    }
    let v = |s: &str| s.as_bytes().to_vec();
    Ok(match t {
        0 => match Want::decode_message(m) {
            Some(d) => Some((vec![v(d.0.as_str())], again(&d)?)),
            None => None,
        },
        1 => match Have::decode_message(m) {
            Some(d) => {
                let f = match d {
                    Have::ThisModule(ref x) => format!("{}", x),
                    Have::NotThisModule(ref x) => x.as_str().to_string(),
                };
                let shape = match d {
                    Have::ThisModule(_) => f.contains('.'),
                    Have::NotThisModule(_) => !f.contains('.'),
                };
                ensure!(shape, "have {:?} decodes as the wrong variant", f);
                Some((vec![f.into_bytes()], again(&d)?))
            }
            None => None,
        },
        2 => match Nope::decode_message(m) {
            Some(d) => Some((vec![v(d.0.as_str())], again(&d)?)),
            None => None,
        },
        3 => match ClientMake::decode_message(m) {
            Some(d) => Some((
                vec![v(d.client_id.as_str()), opt(d.stdin_screen_id), opt(d.stdout_screen_id), opt(d.stderr_screen_id)],
                again(&d)?,
            )),
            None => None,
        },
        4 => match ClientNew::decode_message(m) {
            Some(d) => Some((vec![v(d.secret)], again(&d)?)),
            None => None,
        },
        5 => match ClientEnd::decode_message(m) {
            Some(d) => Some((vec![v(d.client_id.as_str())], again(&d)?)),
            None => None,
        },
        6 => match ClientHello::decode_message(m) {
            Some(d) => Some((vec![v(d.secret)], again(&d)?)),
            None => None,
        },
        7 => match ParentHello::decode_message(m) {
            Some(d) => Some((vec![v(d.client_secret), d.server_socket_path.as_os_str().as_bytes().to_vec()], again(&d)?)),
            None => None,
        },
        8 => match ServerHello::decode_message(m) {
            Some(d) => Some((
                vec![v(d.client_id.as_str()), opt(d.stdin_screen_id), opt(d.stdout_screen_id), opt(d.stderr_screen_id)],
                again(&d)?,
            )),
            None => None,
        },
        9 => match StdinHello::decode_message(m) {
            Some(d) => Some((vec![v(d.secret)], again(&d)?)),
            None => None,
        },
        10 => match StdoutHello::decode_message(m) {
            Some(d) => Some((vec![v(d.secret)], again(&d)?)),
            None => None,
        },
        _ => unreachable!(),
    })
}

/// Builds typed message `t` from field strings and encodes it into `buf`.
fn encode(t: usize, f: &[&[u8]], buf: &mut [u8]) -> Option<Result<usize, usize>> {
    use std::os::unix::ffi::OsStrExt;
    let s = |i: usize| std::str::from_utf8(f[i]).ok();
    let o = |i: usize| std::str::from_utf8(f[i]).ok().map(|s| Some(s).filter(|s| !s.is_empty()));
    let r = match t {
        0 => Want(ModuleIdentifier::parse(s(0)?)?).encode(buf),
        1 => match ModuleVersion::parse(s(0)?) {
            Some(v) => Have::ThisModule(v).encode(buf),
            None => Have::NotThisModule(ModuleIdentifier::parse(s(0)?)?).encode(buf),
        },
        2 => Nope(MessageType::parse(s(0)?)?).encode(buf),
        3 => ClientMake {
            client_id: ClientID::parse(s(0)?)?,
            stdin_screen_id: o(1)?,
            stdout_screen_id: o(2)?,
            stderr_screen_id: o(3)?,
        }
        .encode(buf),
        4 => ClientNew { secret: s(0)? }.encode(buf),
        5 => ClientEnd { client_id: ClientID::parse(s(0)?)? }.encode(buf),
        6 => ClientHello { secret: s(0)? }.encode(buf),
        7 => ParentHello {
            client_secret: s(0)?,
            server_socket_path: Path::new(std::ffi::OsStr::from_bytes(f[1])),
        }
        .encode(buf),
        8 => ServerHello {
            client_id: ClientID::parse(s(0)?)?,
            stdin_screen_id: o(1)?,
            stdout_screen_id: o(2)?,
            stderr_screen_id: o(3)?,
        }
        .encode(buf),
        9 => StdinHello { secret: s(0)? }.encode(buf),
        10 => StdoutHello { secret: s(0)? }.encode(buf),
        _ => unreachable!(),
    };
    Some(r.map_err(|e| e.0))
}

fn menu(f: Field) -> Vec<Vec<u8>> {
    let v: &[&[u8]] = match f {
        Field::Str | Field::Opt => &[b"", b"x", b"screen-1", "sch\u{f6}n \u{1F4A9}".as_bytes(), b"1:a,}", b"\0\n"],
        Field::Path => &[b"", b"/run/user/1000/vt6/1", b"/run/", b"//", b"rel/../x", b"\xff\xfe/not utf8", b"."],
        Field::Cid => &[b"a", b"0", b"abc123XYZ", b"zzzzzzzzzz"],
        Field::Module => &[b"core1", b"_-65535", b"a9", b"want1"],
        Field::Version => &[b"core1.0", b"_-65535.65535", b"a9.10"],
        Field::MsgType => &[b"want", b"have", b"nope", b"core1.client-end", b"_65535.-x_", b"_65535._-x_"],
        Field::Have => &[b"core1.0", b"core1", b"a1.65535", b"_-_9"],
    };
    v.iter().filter(|a| valid(f, a)).map(|a| a.to_vec()).collect()
}

/// Arguments to decode from: at least one valid and some invalid ones for every kind of field.
fn decode_menu() -> Vec<Vec<u8>> {
    [
        &b""[..],
        b"a",
        b"a1",
        b"a1.b",
        b"a1.0",
        b"a1.00",
        b"a0",
        b"want",
        b"a-b",
        b"-a",
        b"1",
        b"1a",
        b"a ",
        b"\xff",
        b"a\xc3",
        "\u{e9}".as_bytes(),
        b"/tmp/x",
        b"core1.+5",
        b"a65536",
        b"a1.65536",
        b"a1.b.c",
    ]
    .iter()
    .map(|s| s.to_vec())
    .collect()
}

pub struct C07;

impl Property for C07 {
    fn id(&self) -> &'static str {
        "C07"
    }
    fn level(&self) -> Level {
        Level::Exploration
    }
    fn rule(&self) -> String {
        "Encoding: every typed message with every combination of field values from a domain is encoded into buffers of \
         every length near its size and compared with the one wire form of its documented type and fields. Decoding: every \
         message type name with every list of arguments from a menu is decoded as each of the 11 typed messages; success \
         must coincide with matching name, count and field validity (independent grammars), and then fields must equal the \
         arguments and encode as the same message. Non-trivial: some typed message decodes, or all but one condition hold."
            .into()
    }
    fn bounds(&self) -> String {
        "decoding: 16 type names x argument counts 0..6, menu of 21 (complete for <=2 arguments, for 3..4 a valid list with \
         up to 2 (3) arguments replaced, for 5..6 valid ones); encoding: complete products of field domains of 3..7 values, and all lengths of each field up to 1009; decoding with each field of up to \
         960 characters, one of which differs"
            .into()
    }
    fn describe(&self, kind: &str, p: &[u8]) -> String {
        let parts = unpack(p);
        if kind == "encode" {
            format!("encoding {} {}", TYPED[parts[0][0] as usize].name, parts[1..].iter().map(|a| show(a)).collect::<Vec<_>>().join(" "))
        } else {
            format!("decoding {}", parts.iter().map(|a| show(a)).collect::<Vec<_>>().join(" "))
        }
    }
    fn run_case(&self, kind: &str, p: &[u8], r: &mut Rec) -> Result<(), String> {
        let parts = unpack(p);
        if kind == "encode" {
            let t = parts[0][0] as usize;
            let wire = refs::render(TYPED[t].name.as_bytes(), &parts[1..]);
            r.nontrivial = true;
            r.outcome = Some(hash_bytes(&wire));
            let mut lens: Vec<usize> = vec![0, 1, 1023, 1024, 1025, 2048];
            lens.extend(wire.len().saturating_sub(8)..wire.len() + 3);
            for n in lens {
                let mut buf = vec![0x5au8; n];
                let got = encode(t, &parts[1..], &mut buf).ok_or("the fields are not accepted by their types")?;
                let avail = n.min(1024);
                let want = if wire.len() <= avail { Ok(wire.len()) } else { Err(wire.len() - avail) };
                ensure!(got == want, "{} into {} bytes returns {:?} instead of {:?}", show(&wire), n, got, want);
                if let Ok(k) = got {
                    ensure!(buf[..k] == wire[..], "encodes as {} instead of {}", show(&buf[..k]), show(&wire));
                    ensure!(buf[k..].iter().all(|&b| b == 0x5a), "wrote behind the message");
                    r.extra_evaluations += 1;
                }
            }
            if r.want_text {
                r.text = show(&wire);
            }
            if wire.len() > 1024 {
                return Ok(());
            }
            let (m, _) = Message::parse(&wire).map_err(|e| e.to_string())?;
            return self.check_decoding(TYPED[t].name.as_bytes(), &parts[1..], &m, &wire, r);
        }
        let wire = refs::render(parts[0], &parts[1..]);
        let (m, _) = Message::parse(&wire).map_err(|e| e.to_string())?;
        self.check_decoding(parts[0], &parts[1..], &m, &wire, r)
    }

    fn enumerate(&self, e: &Eng) {
        //encoding
        for (t, ty) in TYPED.iter().enumerate() {
            let menus: Vec<Vec<Vec<u8>>> = ty.fields.iter().map(|&f| menu(f)).collect();
            let total: usize = menus.iter().map(|m| m.len()).product();
            e.par(total, |w, mut i| {
                let tb = [t as u8];
                let mut parts: Vec<&[u8]> = vec![&tb];
                for m in &menus {
                    parts.push(&m[i % m.len()]);
                    i /= m.len();
                }
                w.case("encode", &pack(&parts));
            });
            //one long field
            for k in 0..ty.fields.len() {
                if matches!(ty.fields[k], Field::MsgType | Field::Module | Field::Have) {
                    continue;
                }
                let fill_in = |w: &mut W, what: &'static str, first: &[u8], long: &[u8]| {
                    let mut parts: Vec<&[u8]> = vec![first];
                    for (i, m) in menus.iter().enumerate() {
                        parts.push(if i == k { long } else { &m[1.min(m.len() - 1)] });
                    }
                    w.case(what, &pack(&parts));
                };
                e.par(1010, |w, n| {
                    if n > 0 {
                        fill_in(w, "encode", &[t as u8], &vec![b'q'; n]);
                    }
                });
                //...with something unusual in one place
                odd_strings(e, b'q', b"-/\x00\xff", e.bound(70, 300), 960, &|w, s| fill_in(w, "decode", ty.name.as_bytes(), s));
            }
        }
        //decoding
        let mut names: Vec<&[u8]> = TYPED.iter().map(|t| t.name.as_bytes()).collect();
        names.extend([&b"core1.client-maker"[..], b"core1.client-mak", b"core2.client-make", b"posix1.client-new", b"core1.want"]);
        names.extend([&b"posix1.Client-hello"[..], b"posix10.client-hello", b"core1.client-hello", b"posix1.client-end"]);
        let menu = decode_menu();
        let n = menu.len();
        for count in 0..=2usize {
            e.par(n.pow(count as u32), |w, i| {
                for name in &names {
                    let mut parts: Vec<&[u8]> = vec![name];
                    let mut k = i;
                    for _ in 0..count {
                        parts.push(&menu[k % n]);
                        k /= n;
                    }
                    w.case("decode", &pack(&parts));
                }
            });
        }
        //3 and 4 arguments: a valid list with up to two of them replaced (thorough: up to three)
        let seeds: [[&[u8]; 6]; 2] = [[b"a", b"", b"x", b"", b"", b""], [b"a1", b"s", b"t", b"u", b"v", b"w"]];
        let reps = e.bound(2, 3);
        for count in 3..=4usize {
            for seed in &seeds {
                for name in &names {
                    for a in 0..count {
                        for b in a + 1..count {
                            e.par(n, |w, x| {
                                for y in 0..n {
                                    let mut parts: Vec<&[u8]> = vec![name];
                                    parts.extend(&seed[..count]);
                                    parts[1 + a] = &menu[x];
                                    parts[1 + b] = &menu[y];
                                    w.case("decode", &pack(&parts));
                                    if reps == 3 {
                                        for c in b + 1..count {
                                            for z in 0..n {
                                                let mut p = parts.clone();
                                                p[1 + c] = &menu[z];
                                                w.case("decode", &pack(&p));
                                            }
                                        }
                                    }
                                }
                            });
                        }
                    }
                }
            }
        }
        e.par(names.len(), |w, i| {
            for seed in &seeds {
                for count in 5..=6 {
                    let mut parts: Vec<&[u8]> = vec![names[i]];
                    parts.extend(&seed[..count]);
                    w.case("decode", &pack(&parts));
                }
            }
            for count in [9usize, 10, 11, 100] {
                let mut parts: Vec<&[u8]> = vec![names[i]];
                parts.extend(vec![&b"a1"[..]; count]);
                w.case("decode", &pack(&parts));
            }
        });
        //all short single arguments
        all_strings(e, b"aZ_-.019 \xc3\xa9", 0, e.bound(4, 5), &|w, s| {
            for name in names.iter().take(11) {
                w.case("decode", &pack(&[name, s]));
            }
        });
        //type names one edit away
        e.par(TYPED.len(), |w, i| {
            let t = &TYPED[i];
            edits(w, t.name.as_bytes(), &mut |w, s| {
                if refs::is_message_type(s) {
                    let mut parts: Vec<&[u8]> = vec![s];
                    parts.extend(t.fields.iter().map(|_| &b"a1"[..]));
                    w.case("decode", &pack(&parts));
                    let mut parts: Vec<&[u8]> = vec![s];
                    parts.extend(t.fields.iter().map(|_| &b"want"[..]));
                    w.case("decode", &pack(&parts));
                }
            });
        });
    }
}

impl C07 {
    fn check_decoding(&self, name: &[u8], args: &[&[u8]], m: &Message<'_>, wire: &[u8], r: &mut Rec) -> Result<(), String> {
        let mut h = 0;
        for (t, ty) in TYPED.iter().enumerate() {
            let name_ok = ty.name.as_bytes() == name;
            let count_ok = ty.fields.len() == args.len();
            let fields_ok = ty.fields.iter().zip(args).all(|(&f, a)| valid(f, a));
            let want = name_ok && count_ok && fields_ok;
            if name_ok as u8 + count_ok as u8 + fields_ok as u8 >= 2 {
                r.nontrivial = true;
            }
            let got = decode(t, m)?;
            ensure!(got.is_some() == want, "{} {} as {}", show(wire), if want { "does not decode" } else { "decodes" }, ty.name);
            if let Some((fields, again)) = got {
                ensure!(
                    fields.len() == args.len() && fields.iter().zip(args).all(|(f, a)| f == a),
                    "{} decodes with fields {:?}",
                    show(wire),
                    fields.iter().map(|f| show(f)).collect::<Vec<_>>()
                );
                let expected = if wire.len() <= 1024 { wire.to_vec() } else { format!("missing {}", wire.len() - 1024).into_bytes() };
                ensure!(again == expected, "{} is encoded as {} after decoding", show(wire), show(&again));
                r.tag("decoded");
                h = hash2(h, t as u64 + 1);
            }
            r.extra_evaluations += 1;
        }
        r.outcome = Some(h);
        Ok(())
    }
}
