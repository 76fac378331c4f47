pub fn hex(b: &[u8]) -> String {
    const D: &[u8; 16] = b"0123456789abcdef";
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push(D[(x >> 4) as usize] as char);
        s.push(D[(x & 15) as usize] as char);
    }
    s
}

pub fn unhex(s: &str) -> Option<Vec<u8>> {
    let b = s.trim().as_bytes();
    if b.len() % 2 != 0 {
        return None;
    }
    b.chunks(2).map(|c| Some((char::from(c[0]).to_digit(16)? * 16 + char::from(c[1]).to_digit(16)?) as u8)).collect()
}

/// Bytes as readable text.
pub fn show(b: &[u8]) -> String {
    let mut s = String::from("\"");
    let shown = b.len().min(300);
    for &x in &b[..shown] {
        for c in std::ascii::escape_default(x) {
            s.push(c as char);
        }
    }
    s.push('"');
    if shown < b.len() {
        s.push_str(&format!("...({} bytes)", b.len()));
    }
    s
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 || c as u32 == 127 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h: u64 = 0x243f6a8885a308d3 ^ (b.len() as u64);
    let mut it = b.chunks_exact(8);
    for c in &mut it {
        h = hash2(h, u64::from_le_bytes(c.try_into().unwrap()));
    }
    let mut last = [0u8; 8];
    let r = it.remainder();
    last[..r.len()].copy_from_slice(r);
    hash2(h, u64::from_le_bytes(last))
}

pub fn hash2(a: u64, b: u64) -> u64 {
    let m = ((a ^ 0x9e3779b97f4a7c15) as u128).wrapping_mul((b ^ 0xd1342543de82ef95 ^ a.rotate_left(23)) as u128 | 1);
    let x = (m as u64) ^ ((m >> 64) as u64);
    (x ^ (x >> 29)).wrapping_mul(0xbf58476d1ce4e5b9) ^ (b.rotate_left(17))
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !$c { return Err(format!($($t)*)); } };
}

/// Serialises a list of byte strings into one payload.
pub fn pack(parts: &[&[u8]]) -> Vec<u8> {
    let mut v = vec![];
    for p in parts {
        v.extend_from_slice(&(p.len() as u32).to_le_bytes());
        v.extend_from_slice(p);
    }
    v
}

pub fn unpack(mut b: &[u8]) -> Vec<&[u8]> {
    let mut v = vec![];
    while b.len() >= 4 {
        let n = u32::from_le_bytes(b[..4].try_into().unwrap()) as usize;
        v.push(&b[4..4 + n]);
        b = &b[4 + n..];
    }
    v
}

/// All strings over `alphabet` of exactly `len` elements with the given index.
pub fn nth_string(alphabet: &[u8], len: usize, mut index: u64, out: &mut Vec<u8>) {
    out.clear();
    for _ in 0..len {
        out.push(alphabet[(index % alphabet.len() as u64) as usize]);
        index /= alphabet.len() as u64;
    }
}
