//! Input enumerations shared by several properties.

use crate::refs;
use engine::*;

pub const TYPES: &[&[u8]] = &[
    b"want",
    b"have",
    b"nope",
    b"a1.b",
    b"_-9.z-",
    b"core1.client-make",
    b"posix1.client-hello",
    b"core65535.sub",
];

/// Argument strings that look like parts of the wire format, plus sizes with differently many digits.
pub fn arg_menu() -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = [
        &b""[..],
        b"a",
        b",",
        b"}",
        b"{",
        b"0",
        b"1:a,",
        b",}",
        b"{1|4:want,}",
        b"\0",
        b"\xff",
        "\u{1F4A9}".as_bytes(),
        b"ninebytes",
        b"ten--bytes",
    ]
    .iter()
    .map(|s| s.to_vec())
    .collect();
    v.push(vec![b'n'; 99]);
    v.push(vec![b':'; 100]);
    v
}

/// Well-formed messages of many shapes.
pub fn base_messages() -> Vec<Vec<u8>> {
    let mut out = vec![];
    let menu = arg_menu();
    for ty in TYPES {
        out.push(refs::render(ty, &[]));
        for a in &menu {
            out.push(refs::render(ty, &[a]));
        }
    }
    for a in &menu {
        for b in &menu {
            out.push(refs::render(b"want", &[a, b]));
        }
    }
    for n in [3usize, 8, 9, 10, 11] {
        let args: Vec<&[u8]> = vec![b"x"; n];
        out.push(refs::render(b"a1.b", &args));
        let args: Vec<&[u8]> = vec![b""; n];
        out.push(refs::render(b"nope", &args));
    }
    out
}

/// Numbers worth trying wherever the grammar has a decimal.
pub fn decimals() -> Vec<String> {
    let mut v: Vec<String> = (0..=300u32).map(|n| n.to_string()).collect();
    for k in 8..=66u32 {
        for d in [-1i128, 0, 1] {
            v.push(((1i128 << k) + d).to_string());
        }
    }
    for k in 3..=21u32 {
        for d in [-1i128, 0, 1] {
            v.push((10i128.pow(k) + d).to_string());
        }
    }
    let max = usize::MAX as i128;
    for d in -30..=30 {
        v.push((max + d).to_string());
    }
    for s in ["00", "01", "000", "007", "0000000000000000000000000", "+1", "-1", "-0", "+0", " 1", "1 ", "1e1", "0x1", "1_0", ""] {
        v.push(s.into());
    }
    v.push("1".repeat(40));
    v.push("9".repeat(400));
    v
}

/// Sizes worth trying for anything that can grow: around all powers of two and ten up to `max`.
pub fn sizes(min: usize, max: usize) -> Vec<usize> {
    let mut v = vec![];
    for k in 0..40 {
        v.extend([(1usize << k) - 1, 1 << k, (1 << k) + 1]);
    }
    for k in 1..10 {
        v.extend([10usize.pow(k) - 1, 10usize.pow(k), 10usize.pow(k) + 1]);
    }
    v.sort();
    v.dedup();
    v.retain(|n| (min..=max).contains(n));
    v
}

pub const STRUCTURE: &[u8] = b"{}|:,0124aw";

/// Calls `f` with all strings over `alphabet` of length `min..=max`, as parallel jobs.
pub fn all_strings(e: &Eng, alphabet: &[u8], min: usize, max: usize, f: &(dyn Fn(&mut W, &[u8]) + Sync)) {
    let a = alphabet.len() as u64;
    for len in min..=max {
        let total = a.pow(len as u32);
        let chunk = 4096u64;
        let jobs = total.div_ceil(chunk);
        e.par(jobs as usize, |w, j| {
            let mut s = Vec::with_capacity(len);
            let lo = j as u64 * chunk;
            for i in lo..(lo + chunk).min(total) {
                nth_string(alphabet, len, i, &mut s);
                f(w, &s);
                if w.stopped() {
                    return;
                }
            }
        });
    }
}

/// Calls `f` with everything one edit away from `m`, plus all of its prefixes.
pub fn edits(w: &mut W, m: &[u8], f: &mut dyn FnMut(&mut W, &[u8])) {
    let mut s;
    for n in 0..=m.len() {
        f(w, &m[..n]);
    }
    for i in 0..m.len() {
        s = m.to_vec();
        for b in 0..=255u8 {
            if b != m[i] {
                s[i] = b;
                f(w, &s);
            }
        }
        s = m.to_vec();
        s.remove(i);
        f(w, &s);
        if i + 1 < m.len() {
            s = m.to_vec();
            s.swap(i, i + 1);
            f(w, &s);
        }
    }
    for i in 0..=m.len() {
        for b in 0..=255u8 {
            s = m.to_vec();
            s.insert(i, b);
            f(w, &s);
        }
    }
}

/// Calls `f` with all strings of `fill` of 1 to `max` bytes in which one is another one: at any place if
/// there are at most `dense` of them, and else at both ends, in the middle and around powers of 2 and 10.
pub fn odd_strings(e: &Eng, fill: u8, odds: &[u8], dense: usize, max: usize, f: &(dyn Fn(&mut W, &[u8]) + Sync)) {
    e.par(max, |w, i| {
        let n = i + 1;
        let mut s = vec![fill; n];
        let places: Vec<usize> = if n <= dense {
            (0..n).collect()
        } else {
            let mut l = sizes(0, n - 1);
            l.extend([n / 2, n - 1, n - 2, n - 3, n - 4]);
            l.sort();
            l.dedup();
            l
        };
        for k in places {
            for &b in odds {
                s[k] = b;
                f(w, &s);
            }
            s[k] = fill;
            if w.stopped() {
                return;
            }
        }
    });
}
