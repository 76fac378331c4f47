//! C09: secrets.

use crate::sys::{Ans, Entropy, ENTROPY};
use engine::*;
use std::collections::HashSet;
use std::process::Command;
use vt6::server::{ClientCredentials, ScreenCredentials};

pub struct C09;

/// Generates credentials; returns the secrets, and how much entropy was drawn, and the number of calls.
/// None: it panicked.
fn generate(screen: bool, times: usize, e: &Entropy) -> (Option<Vec<String>>, Entropy) {
    ENTROPY.with(|x| x.replace(Some(e.clone())));
    let r = std::panic::catch_unwind(|| {
        let mut v = vec![];
        for _ in 0..times {
            if screen {
                let c = ScreenCredentials::generate();
                v.push(c.stdin_secret().to_string());
                v.push(c.stdout_secret().to_string());
            } else {
                v.push(ClientCredentials::generate().secret().to_string());
            }
        }
        v
    });
    let e = ENTROPY.with(|x| x.take()).unwrap();
    (r.ok(), e)
}

fn well_formed(s: &str) -> Result<(), String> {
    ensure!(!s.is_empty(), "a secret is empty");
    ensure!(s.bytes().all(|b| b.is_ascii_alphanumeric() || b"-_.~=".contains(&b)), "the secret {:?} is not URL-safe", s);
    Ok(())
}

/// Which secrets depend on which bits of the entropy, with the source answering as scripted. If
/// credentials are produced, each secret must depend on 192 bits of its own.
fn dependence(screen: bool, times: usize, base: &Entropy, r: &mut Rec) -> Result<(), String> {
    let (secrets, after) = generate(screen, times, base);
    let Some(secrets) = secrets else {
        let broken = base.unavailable.is_some() || base.no_device.is_some() || base.answers.iter().any(|a| matches!(a, Ans::Err(e) if *e != libc::EINTR) || *a == Ans::Nothing);
        ensure!(broken, "no credentials although the entropy source answered {:?}", base.answers);
        r.tag("refused");
        return Ok(());
    };
    r.tag("issued");
    for s in &secrets {
        well_formed(s)?;
    }
    let mut owner: Vec<Option<usize>> = vec![None; after.drawn * 8];
    let mut bits = vec![0usize; secrets.len()];
    for bit in 0..after.drawn * 8 {
        let e = Entropy { flips: vec![(bit / 8, 1 << (bit % 8))], ..base.clone() };
        let (Some(s), _) = generate(screen, times, &e) else { return Err(format!("entropy bit {} decides whether credentials are produced", bit)) };
        r.extra_evaluations += 1;
        for i in 0..secrets.len() {
            if s[i] != secrets[i] {
                bits[i] += 1;
                if let Some(o) = owner[bit] {
                    return Err(format!("secrets {} and {} both depend on entropy bit {}", o, i, bit));
                }
                owner[bit] = Some(i);
            }
        }
    }
    for (i, n) in bits.iter().enumerate() {
        ensure!(*n >= 192, "secret {} of {} ({:?}) depends on {} bits of entropy only, of {} drawn; the source answered {:?}", i, secrets.len(), secrets[i], n, after.drawn * 8, base.answers);
    }
    Ok(())
}

const MENU: [Ans; 6] = [Ans::Full, Ans::Short(1), Ans::Half, Ans::But(1), Ans::Err(libc::EINTR), Ans::Short(2)];
const BAD: [Ans; 6] = [Ans::Err(libc::EIO), Ans::Err(libc::EAGAIN), Ans::Err(libc::EPERM), Ans::Err(libc::ENOSYS), Ans::Err(libc::EFAULT), Ans::Nothing];

fn answers(b: &[u8]) -> Vec<Ans> {
    b.iter().map(|&i| if i < 100 { MENU[i as usize] } else { BAD[i as usize - 100] }).collect()
}

/// Runs in a process of its own, since libraries remember whether the system call is available.
pub fn child(arg: &str) -> i32 {
    install_panic_hook();
    let p = unhex(arg).unwrap();
    let (screen, unavailable, device) = (p[0] == 1, p[1], p[2]);
    let e = Entropy {
        unavailable: [None, Some(libc::ENOSYS), Some(libc::EPERM), Some(libc::EIO)][unavailable as usize],
        no_device: [None, Some(libc::ENOENT), Some(libc::EACCES), Some(libc::EMFILE)][device as usize],
        answers: answers(&p[3..]),
        ..Entropy::default()
    };
    //(the entropy devices stay open)
    let mut rec = Rec::default();
    let first = generate(screen, 1, &e);
    let mut again = e.clone();
    again.devices = first.1.devices.clone();
    match dependence(screen, 1, &again, &mut rec) {
        Ok(()) => println!("{}", if rec.tags.iter().any(|t| t.0 == "refused") { "refused" } else { "issued" }),
        Err(m) => println!("{}", m),
    }
    0
}

impl Property for C09 {
    fn id(&self) -> &'static str {
        "C09"
    }
    fn level(&self) -> Level {
        Level::FaultEnumeration
    }
    fn rule(&self) -> String {
        "A case generates credentials with the operating system's entropy source (the system call and the random devices) replaced by a scripted one: a fixed stream, changed at given bits, \
         delivered in full, in short pieces, after interruptions, or not at all. It is non-trivial if the stream is changed or a call is not answered in full. A secret counts as determined by an \
         entropy bit if changing this bit alone changes the secret."
            .into()
    }
    fn bounds(&self) -> String {
        "all values at every position of the stream; all pairs of bits (thorough: all triples for one client secret); all answer sequences over {full, 1, 2, half, all but one, interrupted} \
         up to length 4 (thorough 5), each followed or interrupted by each error; system call unavailable or devices missing, in processes of their own"
            .into()
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["the operating system's entropy is good".into(), "entropy is obtained through getrandom(2), getentropy or the random devices".into()]
    }
    fn enumerate(&self, e: &Eng) {
        for (screen, times) in [(0u8, 1u8), (1, 1), (0, 2), (1, 2), (0, 5), (1, 3)] {
            e.par(1, |w, _| w.case("bits", &[screen, times]));
        }
        e.par(8, |w, i| w.case("values", &[i as u8 & 1, i as u8 >> 1]));
        e.par(1, |w, _| w.case("pairs", &[]));
        if e.thorough() {
            e.par(1, |w, _| w.case("triples", &[]));
        }
        let len = e.bound(4, 5);
        let total: usize = (1..=len).map(|l| MENU.len().pow(l as u32)).sum();
        e.par(total, |w, mut i| {
            let mut l = 1;
            while i >= MENU.len().pow(l) {
                i -= MENU.len().pow(l);
                l += 1;
            }
            let mut a: Vec<u8> = (0..l).map(|k| (i / MENU.len().pow(k) % MENU.len()) as u8).collect();
            for screen in [0, 1] {
                let mut p = vec![screen];
                p.extend(&a);
                w.case("short", &p);
            }
            //...and then an error
            if l <= 3 {
                for bad in 0..BAD.len() as u8 {
                    a.push(100 + bad);
                    for screen in [0, 1] {
                        let mut p = vec![screen];
                        p.extend(&a);
                        w.case("short", &p);
                    }
                    a.pop();
                }
            }
        });
        let mut l = vec![];
        for screen in [0u8, 1] {
            for unavailable in 0..4u8 {
                for device in 0..4u8 {
                    for a in [&[][..], &[1], &[4, 2], &[100], &[1, 100], &[105], &[3, 105], &[101], &[1, 1, 4, 100]] {
                        let mut p = vec![screen, unavailable, device];
                        p.extend(a);
                        l.push(p);
                    }
                }
            }
        }
        e.par(l.len(), |w, i| w.case("process", &l[i]));
    }
    fn describe(&self, kind: &str, p: &[u8]) -> String {
        match kind {
            "short" => format!("{} credentials, entropy source answers {:?}", ["client", "screen"][p[0] as usize], answers(&p[1..])),
            "process" => format!(
                "{} credentials in a new process, system call answers {}, devices {}, reads answer {:?}",
                ["client", "screen"][p[0] as usize],
                ["normally", "ENOSYS", "EPERM", "EIO"][p[1] as usize],
                ["there", "ENOENT", "EACCES", "EMFILE"][p[2] as usize],
                answers(&p[3..])
            ),
            _ => format!("{} {:?}", kind, p),
        }
    }
    fn run_case(&self, kind: &str, p: &[u8], r: &mut Rec) -> Result<(), String> {
        r.nontrivial = true;
        match kind {
            "bits" => dependence(p[0] == 1, p[1] as usize, &Entropy::default(), r),
            "short" => dependence(p[0] == 1, 1, &Entropy { answers: answers(&p[1..]), ..Entropy::default() }, r),
            //all values at each position give different secrets
            "values" => {
                let (screen, part) = (p[0] == 1, p[1] as usize);
                let n = generate(screen, 1, &Entropy::default()).1.drawn;
                let mut seen: Vec<HashSet<String>> = vec![];
                for pos in (part..n).step_by(4) {
                    for x in 1..=255u8 {
                        let s = generate(screen, 1, &Entropy { flips: vec![(pos, x)], ..Entropy::default() }).0.ok_or("no credentials")?;
                        r.extra_evaluations += 1;
                        seen.resize_with(s.len(), HashSet::new);
                        let fresh = s.into_iter().zip(&mut seen).map(|(s, seen)| seen.insert(s)).collect::<Vec<_>>();
                        ensure!(fresh.iter().any(|x| *x), "two different values of the entropy give the same secrets (byte {} changed by {:#x})", pos, x);
                    }
                }
                Ok(())
            }
            //all single and double changes of bits give different secrets
            "pairs" | "triples" => {
                let n = generate(false, 1, &Entropy::default()).1.drawn * 8;
                ensure!(n >= 192, "only {} bits drawn", n);
                let n = n.min(192);
                let mut seen = HashSet::new();
                let f = |b: usize| (b / 8, 1u8 << (b % 8));
                let mut one = |flips: Vec<(usize, u8)>, r: &mut Rec| {
                    let text = format!("{:?}", flips);
                    let s = generate(false, 1, &Entropy { flips, ..Entropy::default() }).0.ok_or("no credentials")?.remove(0);
                    r.extra_evaluations += 1;
                    ensure!(seen.insert((hash_bytes(s.as_bytes()), hash2(7, hash_bytes(&s.as_bytes()[1..])))), "two different values of the entropy give the secret {:?} (bits changed: {})", s, text);
                    Ok(())
                };
                one(vec![], r)?;
                for a in 0..n {
                    one(vec![f(a)], r)?;
                    for b in 0..a {
                        one(vec![f(a), f(b)], r)?;
                        if kind == "triples" {
                            for c in 0..b {
                                one(vec![f(a), f(b), f(c)], r)?;
                            }
                        }
                    }
                }
                Ok(())
            }
            "process" => {
                let o = Command::new(std::env::current_exe().unwrap()).args(["--entropy-child", &hex(p)]).output().map_err(|e| e.to_string())?;
                let text = String::from_utf8_lossy(&o.stdout).trim().to_string();
                match &text[..] {
                    "issued" => r.tag("issued"),
                    //(an abort also produces no credentials)
                    "refused" => r.tag("refused"),
                    "" if !o.status.success() => r.tag("refused"),
                    m => return Err(m.into()),
                }
                Ok(())
            }
            _ => Err("unknown kind".into()),
        }
    }
    fn hang_seconds(&self) -> u64 {
        120
    }
}
