//Included once for each configuration, with `v` being the crate.

use std::fmt::Write as _;
use v::client::core::ClientIDSuffix;
use v::common::core::msg::{DecodeMessage, EncodeMessage, Message, MessageFormatter};
use v::common::core::{ClientID, DecodeArgument, EncodeArgument, Identifier, MessageType, ModuleIdentifier, ModuleVersion, ScopedIdentifier};
use v::msg::core::*;
use v::msg::posix::*;
use v::msg::*;

fn bytes<T: EncodeArgument + ?Sized>(t: &T) -> Vec<u8> {
    let mut b = vec![0xeeu8; t.get_size()];
    t.encode(&mut b);
    b
}
fn encoded<M: EncodeMessage>(m: &M, n: usize, o: &mut String) {
    let mut buf = vec![0xeeu8; n];
    let r = m.encode(&mut buf);
    write!(o, "{:?} ", r).unwrap();
    match r {
        Ok(len) => write!(o, "{:?}{}", super::show(&buf[..len.min(n)]), buf[len.min(n)..].iter().all(|b| *b == 0xee)).unwrap(),
        Err(_) => {}
    }
}

fn parse(b: &[u8], o: &mut String) {
    match Message::parse(b) {
        Ok((m, n)) => {
            write!(o, "{} {:?} {} {}: ", n, m, m, m.parsed_type()).unwrap();
            let mut it = m.arguments();
            loop {
                write!(o, "{:?}{:?} ", it.size_hint(), it.len()).unwrap();
                match it.next() {
                    Some(a) => write!(o, "{} ", super::show(a)).unwrap(),
                    None => break,
                }
            }
            write!(o, "{:?}", it.next()).unwrap();
            typed(&m, o);
        }
        Err(e) => write!(o, "{:?} {} {} {} {}", e.kind, e.kind.to_str(), e.offset, e, e.is_incomplete()).unwrap(),
    }
}

fn typed(m: &Message, o: &mut String) {
    macro_rules! ty {
        ($($t:ident),*) => {$(
            if let Some(x) = $t::decode_message(m) {
                write!(o, "|{:?} ", x).unwrap();
                encoded(&x, 1024, o);
            }
        )*};
    }
    ty!(Want, Have, Nope, ClientMake, ClientNew, ClientEnd, ClientHello, ServerHello, StdinHello, StdoutHello);
    if let Some(x) = ParentHello::decode_message(m) {
        write!(o, "|ParentHello {:?} {} ", x.client_secret, super::show(&bytes(x.server_socket_path))).unwrap();
        encoded(&x, 1024, o);
    }
}

fn values(b: &[u8], o: &mut String) {
    macro_rules! val {
        ($($t:ty),*) => {$(
            if let Some(x) = <$t>::decode_argument(b) {
                write!(o, "{}: {:?} {} ", stringify!($t), x, super::show(&bytes(&x))).unwrap();
            }
            if let Some(x) = <Option<$t>>::decode_argument(b) {
                write!(o, "Option {:?} {} ", x, super::show(&bytes(&x.as_ref()))).unwrap();
            }
        )*};
    }
    val!(bool, i8, u8, i16, u16, i32, u32, i64, u64, i128, u128, isize, usize, ClientID, Identifier, ModuleIdentifier, ModuleVersion, ScopedIdentifier, MessageType);
    if let Some(x) = <&str>::decode_argument(b) {
        write!(o, "str {:?} {} ", x, super::show(&bytes(x))).unwrap();
    }
    if let Some(x) = <Option<&str>>::decode_argument(b) {
        write!(o, "Option {:?} {} ", x, super::show(&bytes(&x))).unwrap();
    }
    if let Some(x) = <&[u8]>::decode_argument(b) {
        write!(o, "bytes {:?} {} ", x, super::show(&bytes(x))).unwrap();
    }
}

fn idents(s: &str, o: &mut String) {
    if let Some(x) = ClientID::parse(s) {
        write!(o, "client {:?} {} {} ", x, x, x.as_str()).unwrap();
    }
    if let Some(x) = Identifier::parse(s) {
        write!(o, "ident {:?} {} {} ", x, x, x.as_str()).unwrap();
    }
    if let Some(x) = ModuleIdentifier::parse(s) {
        write!(o, "module {:?} {} {} {} {} {:?} ", x, x, x.as_str(), x.name(), x.major_version(), x.with_minor_version(7)).unwrap();
    }
    if let Some(x) = ModuleVersion::parse(s) {
        write!(o, "version {:?} {} {} {} ", x, x, x.module(), x.minor_version()).unwrap();
    }
    if let Some(x) = ScopedIdentifier::parse(s) {
        write!(o, "scoped {:?} {} {} {} {} ", x, x, x.as_str(), x.module(), x.member()).unwrap();
    }
    if let Some(x) = MessageType::parse(s) {
        write!(o, "type {:?} {} {} ", x, x, x.as_str()).unwrap();
    }
    values(s.as_bytes(), o);
}

fn compare(a: &str, b: &str, o: &mut String) {
    macro_rules! cmp {
        ($($t:ident),*) => {$(
            if let (Some(x), Some(y)) = ($t::parse(a), $t::parse(b)) {
                write!(o, "{} {} {:?} {:?} ", stringify!($t), x == y, x.partial_cmp(&y), x.cmp(&y)).unwrap();
            }
        )*};
    }
    cmp!(ClientID, Identifier, ModuleIdentifier, ModuleVersion, ScopedIdentifier);
    if let (Some(x), Some(y)) = (MessageType::parse(a), MessageType::parse(b)) {
        write!(o, "type {}", x == y).unwrap();
    }
}

fn ints(x: i128, o: &mut String) {
    macro_rules! int {
        ($($t:ty),*) => {$(
            write!(o, "{} ", super::show(&bytes(&(x as $t)))).unwrap();
        )*};
    }
    int!(i8, u8, i16, u16, i32, u32, i64, u64, i128, u128, isize, usize);
    write!(o, "{}", super::show(&bytes(&(x & 1 == 1)))).unwrap();
}

fn number(b: &[u8]) -> usize {
    b.iter().rev().fold(0, |n, b| n << 8 | *b as usize)
}

/// parts: buffer size, announced number of arguments, type, arguments
fn format(p: &[&[u8]], o: &mut String) {
    let n = number(p[0]);
    let mut buf = vec![0xee; n];
    let mut f = MessageFormatter::new(&mut buf, std::str::from_utf8(p[2]).unwrap(), number(p[1]));
    for a in &p[3..] {
        f.add_argument(*a);
    }
    let r = f.finalize();
    write!(o, "{:?} {}", r, super::show(&buf)).unwrap();
}

fn fields<'a>(p: &[&'a [u8]], o: &mut String) -> Option<()> {
    let n = number(p[0]);
    let d = |i: usize| p.get(i + 2).copied().unwrap_or(b"");
    fn dec<'a, T: DecodeArgument<'a>>(b: &'a [u8]) -> Option<T> {
        T::decode_argument(b)
    }
    match p[1][0] {
        0 => encoded(&Want(dec(d(0))?), n, o),
        1 => encoded(&Have::ThisModule(dec(d(0))?), n, o),
        2 => encoded(&Have::NotThisModule(dec(d(0))?), n, o),
        3 => encoded(&Nope(dec(d(0))?), n, o),
        4 => encoded(&ClientMake { client_id: dec(d(0))?, stdin_screen_id: dec(d(1))?, stdout_screen_id: dec(d(2))?, stderr_screen_id: dec(d(3))? }, n, o),
        5 => encoded(&ClientNew { secret: dec(d(0))? }, n, o),
        6 => encoded(&ClientEnd { client_id: dec(d(0))? }, n, o),
        7 => encoded(&ClientHello { secret: dec(d(0))? }, n, o),
        8 => encoded(&ServerHello { client_id: dec(d(0))?, stdin_screen_id: dec(d(1))?, stdout_screen_id: dec(d(2))?, stderr_screen_id: dec(d(3))? }, n, o),
        9 => encoded(&StdinHello { secret: dec(d(0))? }, n, o),
        10 => encoded(&StdoutHello { secret: dec(d(0))? }, n, o),
        _ => encoded(&ParentHello { client_secret: dec(d(0))?, server_socket_path: dec(d(1))? }, n, o),
    }
    Some(())
}

fn client_id(p: &[&[u8]], o: &mut String) {
    let base = ClientID::parse(std::str::from_utf8(p[0]).unwrap()).unwrap();
    let (i, j) = (number(p[2]) as u32, number(p[3]) as u32);
    let s = match p[1][0] {
        0 => ClientIDSuffix::Own,
        1 => ClientIDSuffix::Local(i),
        2 => ClientIDSuffix::Job(i),
        _ => ClientIDSuffix::Child(i, j),
    };
    let r = s.below(base);
    write!(o, "{:?} {} {:?} {} {}", s, r.base(), r.suffix(), r.get_size(), super::show(&bytes(&r))).unwrap();
}

pub fn eval(kind: &str, p: &[&[u8]], o: &mut String) {
    let s = |i: usize| std::str::from_utf8(p[i]).ok();
    match kind {
        "parse" => parse(p[0], o),
        "value" => values(p[0], o),
        "ident" => {
            if let Some(s) = s(0) {
                idents(s, o)
            }
        }
        "compare" => {
            if let (Some(a), Some(b)) = (s(0), s(1)) {
                compare(a, b, o)
            }
        }
        "int" => ints(i128::from_le_bytes(p[0].try_into().unwrap()), o),
        "format" => format(p, o),
        "fields" => {
            if fields(p, o).is_none() {
                o.push_str("no such fields")
            }
        }
        "clientid" => client_id(p, o),
        _ => panic!("unknown kind"),
    }
}
