//! C04: basic property values.

use crate::gen::*;
use crate::refs;
use engine::guard::GuardBuf;
use engine::*;
use std::cell::RefCell;
use std::os::unix::ffi::OsStrExt;
use std::path::Path;
use vt6::common::core::msg::{Message, MessageFormatter};
use vt6::common::core::{DecodeArgument, EncodeArgument};

thread_local! {
    static GUARD: RefCell<GuardBuf> = RefCell::new(GuardBuf::new(64 * 1024));
}

/// Encodes into buffers of exactly the announced size (bounded by inaccessible pages, with different
/// previous contents) and returns what was written.
pub fn enc<T: EncodeArgument + ?Sized>(v: &T) -> Result<Vec<u8>, String> {
    let n = v.get_size();
    ensure!(n <= 16384, "announces {} bytes", n);
    GUARD.with(|g| {
        let mut g = g.borrow_mut();
        let mut first: Option<Vec<u8>> = None;
        for (fill, at_end) in [(0u8, true), (0xffu8, false), (b'7', true)] {
            let buf = if at_end { g.end(n) } else { g.start(n + 16) };
            buf.fill(fill);
            v.encode(&mut buf[..n]);
            ensure!(buf[n..].iter().all(|&b| b == fill), "wrote behind the announced {} bytes", n);
            let got = buf[..n].to_vec();
            match first {
                None => first = Some(got),
                Some(ref f) => ensure!(*f == got, "wrote {} and then {}", show(f), show(&got)),
            }
        }
        let first = first.unwrap();
        let v = v.encode_to_vector();
        ensure!(v == first, "wrote {}, and {} into a vector", show(&first), show(&v));
        Ok(first)
    })
}

const INT_NAMES: [&str; 12] = ["i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "i128", "u128", "isize", "usize"];
const BITS: [u32; 12] = [8, 8, 16, 16, 32, 32, 64, 64, 128, 128, 64, 64];

fn signed(t: usize) -> bool {
    t % 2 == 0
}

/// Is (negative, magnitude) a value of type t?
fn in_range(t: usize, neg: bool, mag: u128) -> bool {
    if neg {
        signed(t) && mag > 0 && mag <= 1u128 << (BITS[t] - 1)
    } else if signed(t) {
        mag < 1u128 << (BITS[t] - 1)
    } else {
        BITS[t] == 128 || mag < 1u128 << BITS[t]
    }
}

fn decimal(neg: bool, mag: u128) -> Vec<u8> {
    let mut d = vec![];
    let mut m = mag;
    loop {
        d.push(b'0' + (m % 10) as u8);
        m /= 10;
        if m == 0 {
            break;
        }
    }
    if neg {
        d.push(b'-');
    }
    d.reverse();
    d
}

/// The only accepted strings, and what they mean.
fn ref_decode(t: usize, s: &[u8]) -> Option<(bool, u128)> {
    let (neg, digits) = if s.first() == Some(&b'-') { (true, &s[1..]) } else { (false, s) };
    if digits.is_empty() || digits.len() > 39 || !digits.iter().all(|b| b.is_ascii_digit()) {
        return None;
    }
    if digits[0] == b'0' && (digits.len() > 1 || neg) {
        return None;
    }
    let mut mag: u128 = 0;
    for d in digits {
        mag = mag.checked_mul(10)?.checked_add((d - b'0') as u128)?;
    }
    if in_range(t, neg, mag) {
        Some((neg, mag))
    } else {
        None
    }
}

macro_rules! dispatch {
    ($t:expr, $f:ident $(, $a:expr)*) => {
        match $t {
            0 => $f::<i8>($($a),*), 1 => $f::<u8>($($a),*), 2 => $f::<i16>($($a),*), 3 => $f::<u16>($($a),*),
            4 => $f::<i32>($($a),*), 5 => $f::<u32>($($a),*), 6 => $f::<i64>($($a),*), 7 => $f::<u64>($($a),*),
            8 => $f::<i128>($($a),*), 9 => $f::<u128>($($a),*), 10 => $f::<isize>($($a),*), 11 => $f::<usize>($($a),*),
            _ => unreachable!(),
        }
    };
}

trait Int: Copy + PartialEq + std::fmt::Debug + EncodeArgument {
    fn make(neg: bool, mag: u128) -> Self;
    fn split(self) -> (bool, u128);
}
macro_rules! int {
    ($($t:ident),*) => { $(impl Int for $t {
        fn make(neg: bool, mag: u128) -> Self { if neg { (mag as $t).wrapping_neg() } else { mag as $t } }
        #[allow(unused_comparisons)]
        fn split(self) -> (bool, u128) {
            if self < 0 { (true, (self as i128 as u128).wrapping_neg()) } else { (false, self as u128) }
        }
    })* };
}
int!(i8, u8, i16, u16, i32, u32, i64, u64, i128, u128, isize, usize);

fn encode_int<T: Int>(neg: bool, mag: u128) -> Result<Vec<u8>, String> {
    enc(&T::make(neg, mag))
}
fn encode_opt_int<T: Int>(neg: bool, mag: u128) -> Result<Vec<u8>, String> {
    let v = T::make(neg, mag);
    enc(&Some(&v))
}
fn decode_int<T: Int + for<'a> DecodeArgument<'a>>(s: &[u8]) -> Option<(bool, u128)> {
    T::decode_argument(s).map(T::split)
}
fn decode_opt_int<T: Int + for<'a> DecodeArgument<'a>>(s: &[u8]) -> Option<Option<(bool, u128)>> {
    <Option<T> as DecodeArgument>::decode_argument(s).map(|o| o.map(T::split))
}
/// Values [start, start + n) by the cheapest path, for the exhaustive sweep.
fn sweep<T: Int + for<'a> DecodeArgument<'a>>(start: u128, n: u128, neg: bool) -> Result<(), String> {
    let mut buf = [0u8; 48];
    for mag in start..start + n {
        let v = T::make(neg, mag);
        let size = v.get_size();
        ensure!(size <= 40, "{:?} announces {} bytes", v, size);
        v.encode(&mut buf[..size]);
        //check the digits by reading them back in the plainest way
        let digits = if neg { &buf[1..size] } else { &buf[..size] };
        let mut m = 0u128;
        let mut ok = !digits.is_empty() && (digits[0] != b'0' || (digits.len() == 1 && !neg)) && (!neg || buf[0] == b'-');
        for &d in digits {
            ok &= d.is_ascii_digit();
            m = m.wrapping_mul(10).wrapping_add(d.wrapping_sub(b'0') as u128);
        }
        ensure!(ok && m == mag, "{:?} encodes as {}", v, show(&buf[..size]));
        ensure!(T::decode_argument(&buf[..size]) == Some(v), "{} does not decode to {:?}", show(&buf[..size]), v);
    }
    Ok(())
}

fn in_message<T: EncodeArgument + ?Sized>(v: &T, want: &[u8]) -> Result<(), String> {
    let mut buf = [0u8; 1024];
    let mut f = MessageFormatter::new(&mut buf, "want", 2);
    f.add_argument(v);
    f.add_argument("|");
    let n = match f.finalize() {
        Ok(n) => n,
        Err(_) if want.len() > 900 => return Ok(()),
        Err(e) => return Err(format!("does not fit into a message: {:?}", e)),
    };
    let (m, _) = Message::parse(&buf[..n]).map_err(|e| format!("in a message: {}", e))?;
    let args: Vec<&[u8]> = m.arguments().collect();
    ensure!(args.len() == 2 && args[0] == want && args[1] == b"|", "arrives as {:?} in a message", args);
    Ok(())
}

pub struct C04;

impl C04 {
    fn check_decode(&self, s: &[u8], r: &mut Rec) -> Result<(), String> {
        let mut h = 0u64;
        for t in 0..12 {
            let want = ref_decode(t, s);
            let got = dispatch!(t, decode_int, s);
            ensure!(got == want, "{} decodes {} as {:?} instead of {:?}", INT_NAMES[t], show(s), got, want);
            let want = if s.is_empty() { Some(None) } else { want.map(Some) };
            let got = dispatch!(t, decode_opt_int, s);
            ensure!(got == want, "Option<{}> decodes {} as {:?} instead of {:?}", INT_NAMES[t], show(s), got, want);
            if let Some((neg, mag)) = dispatch!(t, decode_int, s) {
                //canonical: encodes as the same bytes again
                let e = dispatch!(t, encode_int, neg, mag)?;
                ensure!(e == s, "{} accepts {} but encodes it as {}", INT_NAMES[t], show(s), show(&e));
                h = hash2(h, t as u64 + 1);
                r.nontrivial = true;
            }
        }
        let want = match s {
            b"t" => Some(true),
            b"f" => Some(false),
            _ => None,
        };
        ensure!(bool::decode_argument(s) == want, "bool decodes {} as {:?}", show(s), bool::decode_argument(s));
        let want_opt = if s.is_empty() { Some(None) } else { want.map(Some) };
        ensure!(<Option<bool>>::decode_argument(s) == want_opt, "Option<bool> decodes {} wrongly", show(s));
        ensure!(<&[u8]>::decode_argument(s) == Some(s), "&[u8] decodes {} wrongly", show(s));
        let p = <&Path>::decode_argument(s);
        ensure!(p.map(|p| p.as_os_str().as_bytes()) == Some(s), "&Path decodes {} as {:?}", show(s), p);
        ensure!(enc(Path::new(std::ffi::OsStr::from_bytes(s)))? == s, "Path {} encodes wrongly", show(s));
        ensure!(enc(s)? == s, "[u8] {} encodes wrongly", show(s));
        ensure!(enc(&Some(s).filter(|s| !s.is_empty()))? == s, "Option<&[u8]> {} encodes wrongly", show(s));
        let utf8 = refs::is_utf8(s);
        let got = <&str>::decode_argument(s);
        ensure!(got.is_some() == utf8, "&str decodes {} as {:?}", show(s), got);
        let got_opt = <Option<&str>>::decode_argument(s);
        ensure!(
            got_opt == if s.is_empty() { Some(None) } else { got.map(Some) },
            "Option<&str> decodes {} as {:?}",
            show(s),
            got_opt
        );
        if let Some(x) = got {
            ensure!(x.as_bytes() == s, "&str decodes {} as {:?}", show(s), x);
            ensure!(enc(x)? == s, "str {:?} encodes wrongly", x);
            ensure!(enc(&Some(x))? == s, "Some({:?}) encodes wrongly", x);
            h = hash2(h, 99);
        } else {
            r.nontrivial = true;
        }
        in_message(s, s)?;
        r.outcome = Some(hash2(h, want.is_some() as u64));
        r.tag(if want.is_some() || h > 99 { "decodable" } else { "plain or rejected" });
        Ok(())
    }
}

impl Property for C04 {
    fn id(&self) -> &'static str {
        "C04"
    }
    fn level(&self) -> Level {
        Level::Exploration
    }
    fn rule(&self) -> String {
        "Values: each is encoded into buffers of exactly the announced size next to inaccessible pages, compared with an \
         independently rendered encoding, and decoded again. Strings: each is decoded as all 12 integer types, bool, \
         string, byte string, path and their Option forms and compared with an independent definition of the canonical \
         encodings and of UTF-8; what is accepted must encode as the same bytes again. Non-trivial: some integer type \
         accepts the string, or it is not UTF-8; all values."
            .into()
    }
    fn bounds(&self) -> String {
        "values: all of i8..u16, (thorough: all of i32, u32,) and for wider types everything within 3 of a power of 2 or 10 \
         and a*10^k+b*10^l; strings: all of <=2 bytes, all of 3 bytes over 48, all of <=6 (7) over 10 bytes, edits of boundary \
         numbers, all 4-byte strings of UTF-8 class representatives, all code points; strings of up to 2100 equal bytes; of up to 1030 (3000) with one \
         that differs"
            .into()
    }

    fn run_case(&self, kind: &str, p: &[u8], r: &mut Rec) -> Result<(), String> {
        match kind {
            "value" => {
                let t = p[0] as usize;
                let neg = p[1] != 0;
                let mag = u128::from_le_bytes(p[2..18].try_into().unwrap());
                let want = decimal(neg, mag);
                let e = dispatch!(t, encode_int, neg, mag)?;
                ensure!(e == want, "{} {} encodes as {}", INT_NAMES[t], show(&want), show(&e));
                let e = dispatch!(t, encode_opt_int, neg, mag)?;
                ensure!(e == want, "Some({} {}) encodes as {}", INT_NAMES[t], show(&want), show(&e));
                let d = dispatch!(t, decode_int, &want);
                ensure!(d == Some((neg, mag)), "{} {} decodes as {:?}", INT_NAMES[t], show(&want), d);
                let d = dispatch!(t, decode_opt_int, &want);
                ensure!(d == Some(Some((neg, mag))), "Option<{}> {} decodes as {:?}", INT_NAMES[t], show(&want), d);
                r.nontrivial = true;
                r.outcome = Some(hash_bytes(&want));
                r.tag("integer value");
                if r.want_text {
                    r.text = show(&e);
                }
                Ok(())
            }
            "sweep" => {
                let t = p[0] as usize;
                let neg = p[1] != 0;
                let start = u128::from_le_bytes(p[2..18].try_into().unwrap());
                let n = u128::from_le_bytes(p[18..34].try_into().unwrap());
                dispatch!(t, sweep, start, n, neg)?;
                r.extra_evaluations = n as u64 - 1;
                r.nontrivial = true;
                r.add("swept values", n as u64);
                Ok(())
            }
            "none" => {
                ensure!(enc(&None::<&str>)?.is_empty(), "None::<&str> encodes as something");
                ensure!(enc(&None::<&u8>)?.is_empty(), "None::<&u8> encodes as something");
                ensure!(enc(&None::<&bool>)?.is_empty(), "None::<&bool> encodes as something");
                ensure!(enc(&None::<&[u8]>)?.is_empty(), "None::<&[u8]> encodes as something");
                ensure!(enc(&true)? == b"t" && enc(&false)? == b"f", "booleans encode wrongly");
                ensure!(enc(&Some(&true))? == b"t" && enc(&Some(&false))? == b"f", "optional booleans encode wrongly");
                in_message(&true, b"t")?;
                in_message(&false, b"f")?;
                in_message(&None::<&u64>, b"")?;
                in_message(&-42i8, b"-42")?;
                r.nontrivial = true;
                Ok(())
            }
            _ => self.check_decode(p, r),
        }
    }

    fn describe(&self, kind: &str, p: &[u8]) -> String {
        match kind {
            "value" => {
                let mag = u128::from_le_bytes(p[2..18].try_into().unwrap());
                format!("{} {}{}", INT_NAMES[p[0] as usize], if p[1] != 0 { "-" } else { "" }, mag)
            }
            "sweep" => format!("{} values from {}", INT_NAMES[p[0] as usize], u128::from_le_bytes(p[2..18].try_into().unwrap())),
            _ => format!("decoding {}", show(p)),
        }
    }

    fn enumerate(&self, e: &Eng) {
        e.par(1, |w, _| w.case("none", b""));
        //values
        let mut mags: Vec<u128> = (0..=70_000).collect();
        for k in 0..128u32 {
            for d in 0..=3u128 {
                mags.push((1u128 << k).wrapping_add(d));
                mags.push((1u128 << k).wrapping_sub(d));
            }
        }
        for d in 0..=3u128 {
            mags.push(u128::MAX - d);
        }
        let mut p10 = vec![1u128];
        while p10.len() < 39 {
            p10.push(p10[p10.len() - 1] * 10);
        }
        for (i, &x) in p10.iter().enumerate() {
            for d in 0..=3 {
                mags.push(x.saturating_add(d));
                mags.push(x - d.min(x));
            }
            for a in 1..=9u128 {
                if let Some(v) = x.checked_mul(a) {
                    mags.push(v);
                    for &y in &p10[..i] {
                        for b in if e.thorough() { 1..=9u128 } else { 9..=9u128 } {
                            mags.extend(v.checked_add(y * b));
                        }
                    }
                }
            }
        }
        mags.sort();
        mags.dedup();
        let chunk = 512;
        e.par(mags.len().div_ceil(chunk), |w, j| {
            for &mag in &mags[j * chunk..((j + 1) * chunk).min(mags.len())] {
                for t in 0..12usize {
                    for neg in [false, true] {
                        if in_range(t, neg, mag) {
                            let mut p = vec![t as u8, neg as u8];
                            p.extend_from_slice(&mag.to_le_bytes());
                            w.case("value", &p);
                        }
                    }
                }
                //...and the decimal strings, for the types whose range they exceed
                w.case("decode", &decimal(false, mag));
                w.case("decode", &decimal(true, mag));
            }
        });
        //all 32-bit values (quick: the ends and a middle)
        let block = 1u128 << 18;
        let mut jobs: Vec<(u8, bool, u128, u128)> = vec![];
        let mut ranges: Vec<(u8, bool, u128, u128)> =
            vec![(5, false, 0, 1u128 << 32), (4, false, 0, 1u128 << 31), (4, true, 1, (1u128 << 31) + 1)];
        if !e.thorough() {
            ranges = ranges
                .iter()
                .flat_map(|&(t, neg, a, b)| {
                    let n = 1u128 << 21;
                    let m = 1_000_000_000 - n / 2;
                    [(t, neg, a, a + n), (t, neg, m, m + n), (t, neg, b - n, b)]
                })
                .collect();
        }
        for (t, neg, a, b) in ranges {
            let mut s = a;
            while s < b {
                let n = block.min(b - s);
                jobs.push((t, neg, s, n));
                s += n;
            }
        }
        e.par(jobs.len(), |w, j| {
            let (t, neg, s, n) = jobs[j];
            let mut p = vec![t, neg as u8];
            p.extend_from_slice(&s.to_le_bytes());
            p.extend_from_slice(&n.to_le_bytes());
            w.case("sweep", &p);
        });

        //strings
        e.par(256, |w, a| {
            w.case("decode", &[a as u8]);
            for b in 0..=255 {
                w.case("decode", &[a as u8, b]);
            }
        });
        w_empty(e);
        all_strings(e, b"0129-+ a_\xc0", 3, e.bound(6, 7), &|w, s| w.case("decode", s));
        all_strings(e, b"0123456789-+ \t\n\0,:|{}.eExX_abftTFtrun/\x7f\x80\xa0\xbf\xc2\xe2\xff", 3, 3, &|w, s| {
            w.case("decode", s)
        });
        //boundary numbers with one edit
        let mut nums: Vec<Vec<u8>> = vec![];
        for bits in [8u32, 16, 32, 64, 128] {
            for d in 0..=2u128 {
                let top = if bits == 128 { u128::MAX } else { (1u128 << bits) - 1 };
                nums.push(decimal(false, top.saturating_sub(d)));
                nums.push(decimal(false, top.saturating_add(d)));
                let half = 1u128 << (bits - 1);
                for n in [false, true] {
                    nums.push(decimal(n, half - d));
                    nums.push(decimal(n, half + d));
                }
            }
        }
        nums.push(b"340282366920938463463374607431768211456".to_vec());
        nums.push(b"999999999999999999999999999999999999999".to_vec());
        nums.push(b"1000000000000000000000000000000000000000".to_vec());
        nums.sort();
        nums.dedup();
        e.par(nums.len(), |w, j| {
            edits(w, &nums[j], &mut |w, s| w.case("decode", s));
            for pre in ["0", "00", "+", "-", "--", "+-", "-+", "-0", "+0", " ", "\u{2212}", "0x", "\0"] {
                let mut s = pre.as_bytes().to_vec();
                s.extend_from_slice(&nums[j]);
                w.case("decode", &s);
                let mut s = nums[j].clone();
                s.extend_from_slice(pre.as_bytes());
                w.case("decode", &s);
            }
        });
        //UTF-8: all strings of 3 and 4 (5) bytes over representatives of every byte class
        const CLASSES: &[u8] =
            b"a\x7f\x80\x8f\x90\x9f\xa0\xbf\xc0\xc1\xc2\xdf\xe0\xe1\xec\xed\xee\xef\xf0\xf1\xf3\xf4\xf5\xf8\xff";
        all_strings(e, CLASSES, 3, 4, &|w, s| w.case("utf8", s));
        if e.thorough() {
            all_strings(e, b"a\x80\x8f\x9f\xa0\xbf\xc2\xe0\xe1\xed\xf0\xf1\xf4\xf5", 5, 5, &|w, s| w.case("utf8", s));
            e.par(65536, |w, i| {
                for b in 0..=255 {
                    w.case("utf8", &[(i >> 8) as u8, i as u8, b]);
                }
            });
        }
        e.par(0x1100, |w, i| {
            for c in (i as u32) * 256..(i as u32 + 1) * 256 {
                if let Some(c) = char::from_u32(c) {
                    let mut b = [0; 4];
                    w.case("utf8", c.encode_utf8(&mut b).as_bytes());
                }
            }
        });
        //long strings with something unusual in one place
        odd_strings(e, b'x', b"/\x00\x80\xff\xc3,", 130, e.bound(1030, 3000), &|w, s| w.case("decode", s));
        odd_strings(e, b'/', b"x.", 40, 300, &|w, s| w.case("decode", s));
        odd_strings(e, b'9', b"0a-+ ", 80, 300, &|w, s| w.case("decode", s));
        odd_strings(e, b'0', b"1", 80, 300, &|w, s| w.case("decode", s));
        //words and long strings
        e.par(1, |w, _| {
            for s in ["true", "false", "T", "F", "tt", "ff", "tf", "t ", " t", "yes", "no", "on", "1", "t\0"] {
                w.case("decode", s.as_bytes());
            }
            for n in 0..2100 {
                w.case("decode", &vec![b'1'; n]);
                w.case("decode", &vec![b'0'; n]);
                w.case("decode", &vec![0xffu8; n]);
            }
        });
    }
}

fn w_empty(e: &Eng) {
    e.par(1, |w, _| w.case("decode", b""));
}
