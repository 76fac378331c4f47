//! Independent reference models: the wire grammar as an automaton, identifier grammars, and the
//! renderings of messages and values, written without looking at how the crate does it.

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum K {
    Eof,
    Opener,
    Closer,
    Decimal,
    TooLarge,
    LeadingZeroes,
    ListSigil,
    StringSigil,
    StringCloser,
    NoType,
    BadType,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Out {
    Msg { ty: Vec<u8>, args: Vec<Vec<u8>>, len: usize },
    Err { kind: K, offset: usize },
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Phase {
    Opener,
    Count,
    Len,
    Content,
    Comma,
    End,
}

/// The reference parser, consuming one byte at a time.
#[derive(Clone)]
pub struct Ref {
    pub phase: Phase,
    pub pos: usize,
    pub digits: Vec<u8>,
    pub remaining: u128, //items not yet finished
    pub first: bool,     //currently in the first item (the message type)
    pub need: u128,      //content bytes still missing
    pub cur: Vec<u8>,
    pub ty: Vec<u8>,
    pub args: Vec<Vec<u8>>,
    pub result: Option<Out>,
}

fn too_large(d: &[u8]) -> bool {
    let max = usize::MAX.to_string();
    d.len() > max.len() || (d.len() == max.len() && d > max.as_bytes())
}

fn value(d: &[u8]) -> u128 {
    d.iter().fold(0u128, |a, b| a * 10 + (b - b'0') as u128)
}

impl Ref {
    pub fn new() -> Ref {
        Ref {
            phase: Phase::Opener,
            pos: 0,
            digits: vec![],
            remaining: 0,
            first: true,
            need: 0,
            cur: vec![],
            ty: vec![],
            args: vec![],
            result: None,
        }
    }

    fn fail(&mut self, kind: K, offset: usize) {
        self.result = Some(Out::Err { kind, offset });
    }

    //the error that the digits collected so far already amount to
    fn digit_error(&self) -> Option<K> {
        if self.digits.len() > 1 && self.digits[0] == b'0' {
            Some(K::LeadingZeroes)
        } else if too_large(&self.digits) {
            Some(K::TooLarge)
        } else {
            None
        }
    }

    pub fn step(&mut self, b: u8) {
        if self.result.is_some() {
            return;
        }
        match self.phase {
            Phase::Opener => {
                if b == b'{' {
                    self.phase = Phase::Count;
                } else {
                    self.fail(K::Opener, self.pos);
                }
            }
            Phase::Count | Phase::Len => {
                if b.is_ascii_digit() {
                    self.digits.push(b);
                } else if self.digits.is_empty() {
                    self.fail(K::Decimal, self.pos);
                } else if let Some(k) = self.digit_error() {
                    self.fail(k, self.pos);
                } else {
                    let v = value(&self.digits);
                    if self.phase == Phase::Count {
                        if b != b'|' {
                            self.fail(K::ListSigil, self.pos);
                        } else if v == 0 {
                            self.fail(K::NoType, self.pos + 1);
                        } else {
                            self.remaining = v;
                            self.phase = Phase::Len;
                        }
                    } else if b != b':' {
                        self.fail(K::StringSigil, self.pos);
                    } else {
                        self.need = v;
                        self.phase = if v == 0 { Phase::Comma } else { Phase::Content };
                    }
                    self.digits.clear();
                }
            }
            Phase::Content => {
                self.cur.push(b);
                self.need -= 1;
                if self.need == 0 {
                    self.phase = Phase::Comma;
                }
            }
            Phase::Comma => {
                if b != b',' {
                    self.fail(K::StringCloser, self.pos);
                } else {
                    let s = std::mem::take(&mut self.cur);
                    self.remaining -= 1;
                    self.phase = if self.remaining == 0 { Phase::End } else { Phase::Len };
                    if self.first {
                        self.first = false;
                        if !is_message_type(&s) {
                            self.fail(K::BadType, self.pos + 1);
                        }
                        self.ty = s;
                    } else {
                        self.args.push(s);
                    }
                }
            }
            Phase::End => {
                if b == b'}' {
                    self.result = Some(Out::Msg {
                        ty: std::mem::take(&mut self.ty),
                        args: std::mem::take(&mut self.args),
                        len: self.pos + 1,
                    });
                } else {
                    self.fail(K::Closer, self.pos);
                }
            }
        }
        self.pos += 1;
    }

    pub fn at_eof(&self) -> Out {
        if let Some(ref r) = self.result {
            return r.clone();
        }
        if matches!(self.phase, Phase::Count | Phase::Len) && !self.digits.is_empty() {
            if let Some(kind) = self.digit_error() {
                return Out::Err { kind, offset: self.pos };
            }
        }
        Out::Err { kind: K::Eof, offset: self.pos }
    }
}

pub fn parse(b: &[u8]) -> Out {
    let mut r = Ref::new();
    for &x in b {
        r.step(x);
        if r.result.is_some() {
            break;
        }
    }
    r.at_eof()
}

/// The one and only wire form of a message.
pub fn render(ty: &[u8], args: &[&[u8]]) -> Vec<u8> {
    let mut v = format!("{{{}|{}:", args.len() + 1, ty.len()).into_bytes();
    v.extend_from_slice(ty);
    v.push(b',');
    for a in args {
        v.extend_from_slice(format!("{}:", a.len()).as_bytes());
        v.extend_from_slice(a);
        v.push(b',');
    }
    v.push(b'}');
    v
}

////////////////////////////////////////////////////////////////////////////////
// identifiers

fn alpha(b: u8) -> bool {
    b.is_ascii_alphabetic()
}

pub fn is_client_id(s: &[u8]) -> bool {
    !s.is_empty() && s.iter().all(|b| b.is_ascii_alphanumeric())
}

pub fn is_identifier(s: &[u8]) -> bool {
    !s.is_empty() && (alpha(s[0]) || s[0] == b'_') && s.iter().all(|&b| alpha(b) || b == b'_' || b == b'-')
}

/// A canonical decimal number in the given range.
pub fn canonical_u16(s: &[u8]) -> Option<u16> {
    if s.is_empty() || s.len() > 5 || !s.iter().all(|b| b.is_ascii_digit()) || (s.len() > 1 && s[0] == b'0') {
        return None;
    }
    let v = value(s);
    if v <= 65535 {
        Some(v as u16)
    } else {
        None
    }
}

/// name and version
pub fn module_identifier(s: &[u8]) -> Option<(&[u8], u16)> {
    let n = s.iter().position(|b| b.is_ascii_digit())?;
    let (name, version) = s.split_at(n);
    let v = canonical_u16(version)?;
    if is_identifier(name) && v > 0 {
        Some((name, v))
    } else {
        None
    }
}

fn split_dot(s: &[u8]) -> Option<(&[u8], &[u8])> {
    let n = s.iter().position(|&b| b == b'.')?;
    Some((&s[..n], &s[n + 1..]))
}

/// module and minor version
pub fn module_version(s: &[u8]) -> Option<(&[u8], u16)> {
    let (m, v) = split_dot(s)?;
    module_identifier(m)?;
    Some((m, canonical_u16(v)?))
}

/// module and member
pub fn scoped_identifier(s: &[u8]) -> Option<(&[u8], &[u8])> {
    let (m, i) = split_dot(s)?;
    module_identifier(m)?;
    if is_identifier(i) {
        Some((m, i))
    } else {
        None
    }
}

pub fn is_message_type(s: &[u8]) -> bool {
    s == b"want" || s == b"have" || s == b"nope" || scoped_identifier(s).is_some()
}

/// Validity of UTF-8 by the table in the Unicode standard (table 3-7).
pub fn is_utf8(s: &[u8]) -> bool {
    let mut i = 0;
    let cont = |i: usize, lo: u8, hi: u8| i < s.len() && s[i] >= lo && s[i] <= hi;
    while i < s.len() {
        let n = match s[i] {
            0x00..=0x7f => 1,
            0xc2..=0xdf if cont(i + 1, 0x80, 0xbf) => 2,
            0xe0 if cont(i + 1, 0xa0, 0xbf) && cont(i + 2, 0x80, 0xbf) => 3,
            0xe1..=0xec | 0xee..=0xef if cont(i + 1, 0x80, 0xbf) && cont(i + 2, 0x80, 0xbf) => 3,
            0xed if cont(i + 1, 0x80, 0x9f) && cont(i + 2, 0x80, 0xbf) => 3,
            0xf0 if cont(i + 1, 0x90, 0xbf) && cont(i + 2, 0x80, 0xbf) && cont(i + 3, 0x80, 0xbf) => 4,
            0xf1..=0xf3 if cont(i + 1, 0x80, 0xbf) && cont(i + 2, 0x80, 0xbf) && cont(i + 3, 0x80, 0xbf) => 4,
            0xf4 if cont(i + 1, 0x80, 0x8f) && cont(i + 2, 0x80, 0xbf) && cont(i + 3, 0x80, 0xbf) => 4,
            _ => return false,
        };
        i += n;
    }
    true
}
