//! C20: discovery through file descriptor 60.

use crate::refs::{self, Out};
use crate::sys::{Fd60, FD60};
use engine::*;
use std::os::unix::ffi::OsStrExt;
use vt6::client::{Environment, EnvironmentError};

pub struct C20;

/// What discovery says.
#[derive(Clone, Debug, PartialEq)]
enum Res {
    Path(Vec<u8>),
    NoTerminal,
    Corrupt,
    Invalid,
    Io(i32),
}

/// What descriptor 60 is.
#[derive(Clone, Copy, Debug, PartialEq)]
#[repr(u8)]
enum Obj {
    /// A pipe that contains the data, with the writer gone.
    Pipe,
    /// A pipe that contains the data, and somebody could still write.
    OpenPipe,
    File,
    Socket,
    OpenSocket,
    Missing,
    WriteEnd,
    Directory,
    /// A non-blocking pipe with a writer.
    NonBlocking,
    Epoll,
    OPath,
    Null,
    /// Datagrams: each read returns one piece, and loses what does not fit.
    Packets,
    PosFile,
}
const OBJS: [Obj; 14] = [
    Obj::Pipe,
    Obj::OpenPipe,
    Obj::File,
    Obj::Socket,
    Obj::OpenSocket,
    Obj::Missing,
    Obj::WriteEnd,
    Obj::Directory,
    Obj::NonBlocking,
    Obj::Epoll,
    Obj::OPath,
    Obj::Null,
    Obj::Packets,
    Obj::PosFile,
];

struct Case {
    obj: Obj,
    data: Vec<u8>,
    cuts: Vec<usize>,
    interrupts: Vec<(usize, u8)>,
    error: Option<(usize, i32)>,
}
fn u16s(b: &[u8]) -> Vec<usize> {
    b.chunks_exact(2).map(|c| u16::from_le_bytes([c[0], c[1]]) as usize).collect()
}
fn b16(l: &[usize]) -> Vec<u8> {
    l.iter().flat_map(|&x| (x as u16).to_le_bytes()).collect()
}
impl Case {
    fn new(obj: Obj, data: &[u8]) -> Case {
        Case { obj, data: data.to_vec(), cuts: vec![], interrupts: vec![], error: None }
    }
    fn encode(&self) -> Vec<u8> {
        let i: Vec<usize> = self.interrupts.iter().flat_map(|i| [i.0, i.1 as usize]).collect();
        let e: Vec<usize> = self.error.iter().flat_map(|e| [e.0, e.1 as usize]).collect();
        pack(&[&[self.obj as u8], &self.data, &b16(&self.cuts), &b16(&i), &b16(&e)])
    }
    fn decode(p: &[u8]) -> Case {
        let p = unpack(p);
        let i = u16s(p[3]);
        let e = u16s(p[4]);
        Case {
            obj: OBJS[p[0][0] as usize],
            data: p[1].to_vec(),
            cuts: u16s(p[2]),
            interrupts: i.chunks(2).map(|c| (c[0], c[1] as u8)).collect(),
            error: e.chunks(2).map(|c| (c[0], c[1] as i32)).next(),
        }
    }

    /// All the answers that are right.
    fn expected(&self) -> Vec<Res> {
        match self.obj {
            Obj::Missing | Obj::WriteEnd | Obj::Epoll | Obj::OPath => return vec![Res::NoTerminal],
            Obj::Directory => return vec![Res::Io(libc::EISDIR)],
            Obj::Null => return vec![Res::Corrupt],
            _ => {}
        }
        let limit = self.data.len().min(1024);
        let answer = |upto: usize| match refs::parse(&self.data[..upto]) {
            Out::Msg { ty, args, .. } => {
                if ty == b"posix1.parent-hello" && args.len() == 2 && std::str::from_utf8(&args[0]).is_ok() {
                    Some(Res::Path(args[1].clone()))
                } else {
                    Some(Res::Invalid)
                }
            }
            Out::Err { kind: refs::K::Eof, .. } => None,
            Out::Err { .. } => Some(Res::Corrupt),
        };
        let error = match self.obj {
            Obj::NonBlocking => Some((self.data.len(), libc::EAGAIN)),
            _ => self.error,
        };
        let readable = error.map_or(limit, |e| e.0.min(limit));
        match (answer(readable), error) {
            (Some(Res::Corrupt), Some((p, e))) if p <= limit => vec![Res::Corrupt, Res::Io(e)],
            (Some(r), _) => vec![r],
            //nothing was decided yet (with 1024 bytes read, whether one more read is attempted does not matter)
            (None, Some((p, e))) if p < limit || p == self.data.len() && p < 1024 => vec![Res::Io(e)],
            (None, Some((p, e))) if p == 1024 => vec![Res::Corrupt, Res::Io(e)],
            (None, _) => vec![Res::Corrupt],
        }
    }
}

/// Puts the object at descriptor 60. Returns descriptors to be kept open meanwhile.
fn set_up(c: &Case) -> Result<Vec<i32>, String> {
    let err = |what: &str| format!("(harness) {}: {}", what, std::io::Error::last_os_error());
    unsafe {
        let mut keep = vec![];
        let to60 = |fd: i32| {
            libc::dup2(fd, 60);
            libc::close(fd);
        };
        let put = |fd: i32| {
            let mut at = 0;
            while at < c.data.len() {
                let n = libc::write(fd, c.data[at..].as_ptr() as *const _, c.data.len() - at);
                if n <= 0 {
                    return Err(err("write"));
                }
                at += n as usize;
            }
            Ok(())
        };
        let mut p = [0i32; 2];
        match c.obj {
            Obj::Missing => {}
            Obj::Pipe | Obj::OpenPipe | Obj::NonBlocking | Obj::WriteEnd | Obj::Packets => {
                let flags = match c.obj {
                    Obj::NonBlocking => libc::O_NONBLOCK,
                    Obj::Packets => libc::O_DIRECT,
                    _ => 0,
                };
                if libc::pipe2(p.as_mut_ptr(), flags) != 0 {
                    return Err(err("pipe"));
                }
                if c.obj == Obj::Packets {
                    //(each packet takes up a page)
                    if libc::fcntl(p[1], libc::F_SETPIPE_SZ, (c.cuts.len() + 2) * 4096) < 0 {
                        return Err(err("pipe size"));
                    }
                    let mut at = 0;
                    for &cut in c.cuts.iter().chain([&c.data.len()]) {
                        libc::write(p[1], c.data[at..].as_ptr() as *const _, cut - at);
                        at = cut;
                    }
                } else {
                    put(p[1])?;
                }
                match c.obj {
                    Obj::WriteEnd => {
                        keep.push(p[0]);
                        to60(p[1]);
                    }
                    Obj::OpenPipe | Obj::NonBlocking => {
                        keep.push(p[1]);
                        to60(p[0]);
                    }
                    _ => {
                        libc::close(p[1]);
                        to60(p[0]);
                    }
                }
            }
            Obj::Socket | Obj::OpenSocket => {
                if libc::socketpair(libc::AF_UNIX, libc::SOCK_STREAM, 0, p.as_mut_ptr()) != 0 {
                    return Err(err("socketpair"));
                }
                put(p[1])?;
                if c.obj == Obj::Socket {
                    libc::shutdown(p[1], libc::SHUT_WR);
                }
                keep.push(p[1]);
                to60(p[0]);
            }
            Obj::File | Obj::PosFile => {
                let fd = libc::memfd_create(c"data".as_ptr(), 0);
                if fd < 0 {
                    return Err(err("memfd"));
                }
                //(what was read by others before is not ours)
                let skipped = if c.obj == Obj::PosFile { libc::write(fd, b"{1|4:nope,}garbage".as_ptr() as *const _, 18) } else { 0 };
                put(fd)?;
                libc::lseek(fd, skipped as libc::off_t, libc::SEEK_SET);
                to60(fd);
            }
            Obj::Directory => to60(libc::open(c"/".as_ptr(), libc::O_RDONLY | libc::O_DIRECTORY)),
            Obj::Epoll => to60(libc::epoll_create1(0)),
            Obj::OPath => to60(libc::open(c"/".as_ptr(), libc::O_PATH)),
            Obj::Null => to60(libc::open(c"/dev/null".as_ptr(), libc::O_RDONLY)),
        }
        Ok(keep)
    }
}

fn descriptors() -> Vec<i32> {
    (0..80).filter(|&fd| unsafe { libc::fcntl(fd, libc::F_GETFD) } >= 0).collect()
}

fn result(e: &Environment) -> Res {
    match e.parse() {
        Ok(r) => Res::Path(r.server_socket_path().as_os_str().as_bytes().to_vec()),
        Err(EnvironmentError::NoVT6Terminal) => Res::NoTerminal,
        Err(EnvironmentError::CorruptParentHello(_)) => Res::Corrupt,
        Err(EnvironmentError::InvalidParentHello(_)) => Res::Invalid,
    }
}

fn run(c: &Case, r: &mut Rec) -> Result<(), String> {
    //a table of file descriptors of our own
    ensure!(unsafe { libc::unshare(libc::CLONE_FILES) } == 0, "(harness) unshare failed");
    let before = descriptors();
    let keep = set_up(c)?;
    FD60.with(|s| {
        s.replace(Some(Fd60 {
            cuts: c.cuts.clone(),
            interrupts: c.interrupts.clone(),
            error: c.error,
            ..Fd60::default()
        }))
    });
    let got = std::panic::catch_unwind(Environment::discover);
    let seen = FD60.with(|s| s.borrow().clone()).unwrap();
    let (got, again) = match got {
        Err(_) => return Err(format!("panic: {}", take_last_panic())),
        Ok(Err(e)) => (Res::Io(e.raw_os_error().unwrap_or(-1)), None),
        Ok(Ok(e)) => (result(&e), Some(result(&e))),
    };
    let closes = FD60.with(|s| s.take()).unwrap().closes;
    for fd in keep {
        unsafe { libc::close(fd) };
    }
    let want = c.expected();
    ensure!(want.contains(&got), "discovery says {:?} instead of {:?} (after {} reads, {} bytes)", got, want[0], seen.reads, seen.pos);
    if let Some(a) = again {
        ensure!(a == got, "the second parse() says {:?}, the first one {:?}", a, got);
    }
    let after = descriptors();
    ensure!(!after.contains(&60), "descriptor 60 is still open");
    ensure!(after == before, "open descriptors before {:?}, after {:?}", before, after);
    let once = if c.obj == Obj::Missing { 0..=1 } else { 0..=1 };
    ensure!(once.contains(&closes), "descriptor 60 was closed {} times", closes);
    r.add("reads", seen.reads as u64);
    r.outcome = Some(hash_bytes(format!("{:?}", got).as_bytes()));
    Ok(())
}

fn hello(secret: &[u8], path: &[u8]) -> Vec<u8> {
    refs::render(b"posix1.parent-hello", &[secret, path])
}
/// A hello of the given total size.
fn sized(n: usize) -> Vec<u8> {
    (0..n).map(|k| hello(b"s3cret", &[&b"/"[..], &vec![b'x'; n - k]].concat())).find(|m| m.len() <= n).unwrap()
}
fn small() -> Vec<Vec<u8>> {
    vec![
        hello(b"s3cret", b"/run/vt6/1"),
        hello(b"", b""),
        hello(b"a{1|", b"/\xff\x00}"),
        hello(b"\xff", b"/run"),
        refs::render(b"posix1.parent-hello", &[b"one"]),
        refs::render(b"posix1.parent-hello", &[b"1", b"2", b"3"]),
        refs::render(b"posix1.parent-hello", &[]),
        refs::render(b"posix1.server-hello", &[b"a", b"/run"]),
        refs::render(b"posix1.client-hello", &[b"a"]),
        refs::render(b"want", &[b"core1"]),
        refs::render(b"posix2.parent-hello", &[b"a", b"/run"]),
    ]
}
fn texts() -> Vec<Vec<u8>> {
    [
        &b""[..], b"s3cret", b" ", b"s ", b" s", b"\n", b"s\n", b"\0", b"s\0", b"0", b"-", b"%s", b"{}", b"{1|1:x,}", b"\"", b"\\", b"\x7f", b"\x1b[m", b"+/=", b"t", b"f",
        "\u{e9}".as_bytes(), "e\u{301}".as_bytes(), "\u{20ac}".as_bytes(), "\u{1f600}".as_bytes(), "\u{feff}s".as_bytes(), "\u{a0}".as_bytes(),
    ]
    .iter()
    .map(|s| s.to_vec())
    .collect()
}
fn paths() -> Vec<Vec<u8>> {
    let more = [
        &b"/"[..], b"//", b"///", b"/run", b"/run/", b"/run//", b"/run/.", b"/run/..", b"/run/./x", b"/run/../x", b"/run//x", b".", b"..", b"./x", b"../x", b"x", b"x/", b"~/x", b"$HOME/x", b"%t/x", b"/ x", b"/x ", b"@abstract", b"\0abstract", b"unix:/x", b"file:///x",
        b"/x\n", b"\n/x", b"/\xff", b"\xff/x", b"/x\xc3", b"C:\\x", b"/x\0y", b"/proc/self/fd/60", b"-x", b"\xef\xbb\xbf/x",
    ];
    let mut l = texts();
    l.extend(more.iter().map(|s| s.to_vec()));
    //(as long as socket addresses may be, or longer)
    l.extend((105..=110).chain([254, 255, 256, 900]).map(|n| [&b"/"[..], &vec![b'x'; n - 1]].concat()));
    l
}
fn malformed() -> Vec<Vec<u8>> {
    let m = hello(b"s3cret", b"/run/vt6/1");
    let mut l = vec![];
    for i in 0..m.len() {
        for b in [b'{', b'}', b'|', b':', b',', b'0', b'9', b'x', 0, 0xff] {
            let mut e = m.clone();
            e[i] = b;
            l.push(e);
        }
        let mut e = m.clone();
        e.remove(i);
        l.push(e);
        let mut e = m.clone();
        e.insert(i, m[i]);
        l.push(e);
    }
    l
}

impl Property for C20 {
    fn id(&self) -> &'static str {
        "C20"
    }
    fn level(&self) -> Level {
        Level::FaultEnumeration
    }
    fn rule(&self) -> String {
        "A case is a real object at file descriptor 60 of a thread with its own descriptor table, its contents, the positions where reads end, are interrupted, or fail. \
         Discovery runs on it; the answer is compared with an independent parser applied to what precedes the end or error, and descriptors are compared with those before. \
         A case is non-trivial if the contents do not arrive complete in the first read."
            .into()
    }
    fn bounds(&self) -> String {
        "every combination of 31 secrets with 73 paths (odd, relative, non-UTF-8 and empty ones included), secrets and paths of up to 960 bytes, 10 message types near the right one with 5 argument lists; 11 small messages and every prefix of them: all cut sets up to 2 (thorough 3), byte by byte; every one-byte edit of a message, cut at each position; messages of total size 1020..=1028 and around \
         2048 and 4096, all single cuts, pairs of cuts around the limits, byte by byte; each with the writer gone or not, trailing data, an interruption and an error of each kind at each position; 14 kinds of objects"
            .into()
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["descriptor 60 is read with read(2) (else short reads, interruptions and errors are not injected, but the answers are still checked)".into()]
    }
    fn enumerate(&self, e: &Eng) {
        let small = small();
        //objects
        let mut l = vec![];
        for o in OBJS {
            for d in small.iter().chain(&[vec![], sized(1024), sized(1025), sized(1023), sized(3000), [hello(b"a", b"/b"), vec![b'x'; 3000]].concat(), vec![b'{'; 2000]]) {
                let decided = !matches!(refs::parse(&d[..d.len().min(1024)]), Out::Err { kind: refs::K::Eof, .. }) || d.len() >= 1024;
                //(an undecided message on a channel that stays open: waiting for more is right)
                if matches!(o, Obj::OpenPipe | Obj::OpenSocket) && !decided {
                    continue;
                }
                if o == Obj::Packets && d.is_empty() {
                    continue;
                }
                //(pieces of more than 1024 bytes lose the rest, pieces of more than 4096 are split)
                l.push(Case::new(o, d));
            }
        }
        e.par(l.len(), |w, i| w.case("object", &l[i].encode()));
        //contents: what secrets and paths may look like
        let texts: Vec<Vec<u8>> = texts();
        let firsts: Vec<Vec<u8>> = texts.iter().cloned().chain([vec![b's'; 400], b"\xff".to_vec(), b"s\xc3".to_vec(), b"\xc3\xa9\xed\xa0\x80".to_vec()]).collect();
        e.par(firsts.len(), |w, i| {
            for b in &paths() {
                let d = hello(&firsts[i], b);
                for obj in [Obj::Pipe, Obj::OpenPipe, Obj::Packets] {
                    let mut c = Case::new(obj, &d);
                    w.case("contents", &c.encode());
                    c.cuts = vec![d.len() / 2];
                    w.case("contents", &c.encode());
                }
            }
            for b in &texts {
                for ty in [&b"posix1.parent-hello"[..], b"posix1.parent-hello ", b"posix1.parent-hell", b"posix01.parent-hello", b"posix10.parent-hello", b"Posix1.parent-hello", b"posix1.parent_hello", b"posix1.parent-helloo", b"core1.parent-hello", b"posix1.stdin-hello"] {
                    for l in [&[&firsts[i][..], b"/run"][..], &[b, &firsts[i], b"/run"], &[&firsts[i], b"/run", b], &[b], &[b, b, b, b]] {
                        w.case("contents", &Case::new(Obj::Pipe, &refs::render(ty, l)).encode());
                    }
                }
            }
        });
        e.par(960, |w, n| {
            for c in ["p", "\u{e9}", "/", "\0", "{"] {
                let long = c.repeat(n / c.len()).into_bytes();
                for (a, b) in [(&b"s"[..], &long[..]), (&long, b"/run"), (b"", &long), (&long, b"")] {
                    w.case("contents", &Case::new(Obj::Pipe, &hello(a, b)).encode());
                }
            }
        });
        //cuts
        let cuts = e.bound(2, 3);
        for m in &small {
            for trailing in [&b""[..], b"{", b"{1|4:nope,}", b"\xff\x00"] {
                let d = [m, trailing].concat();
                let n = d.len();
                let full = trailing.is_empty();
                e.par(n, |w, a| {
                    for obj in [Obj::Pipe, Obj::OpenPipe, Obj::Packets] {
                        let mut c = Case::new(obj, &d);
                        c.cuts = vec![a];
                        if a > 0 {
                            w.case("cuts", &c.encode());
                        }
                        for b in a + 1..n {
                            c.cuts = if a == 0 { vec![b] } else { vec![a, b] };
                            w.case("cuts", &c.encode());
                            if full && cuts > 2 && a > 0 {
                                for k in b + 1..n {
                                    c.cuts = vec![a, b, k];
                                    w.case("cuts", &c.encode());
                                }
                            }
                        }
                        //truncated here, with cuts before
                        if full && obj == Obj::Pipe {
                            for b in 0..=a {
                                let mut c = Case::new(obj, &d[..a]);
                                c.cuts = if b > 0 && b < a { vec![b] } else { vec![] };
                                w.case("truncated", &c.encode());
                            }
                        }
                    }
                });
                e.par(1, |w, _| {
                    for obj in [Obj::Pipe, Obj::OpenPipe, Obj::Packets] {
                        let mut c = Case::new(obj, &d);
                        c.cuts = (1..n).collect();
                        w.case("bytewise", &c.encode());
                        c.interrupts = (0..n).map(|i| (i, 1 + (i % 3) as u8)).collect();
                        w.case("bytewise", &c.encode());
                    }
                });
            }
        }
        //malformed
        let bad = malformed();
        e.par(bad.len(), |w, i| {
            let d = &bad[i];
            for cut in 0..d.len() {
                for obj in [Obj::Pipe, Obj::OpenPipe] {
                    let mut c = Case::new(obj, d);
                    c.cuts = if cut > 0 { vec![cut] } else { vec![] };
                    let undecided = matches!(refs::parse(d), Out::Err { kind: refs::K::Eof, .. });
                    if !(obj == Obj::OpenPipe && undecided) {
                        w.case("malformed", &c.encode());
                    }
                }
            }
        });
        //errors and interruptions at every position
        let errors = [libc::EIO, libc::EAGAIN, libc::ECONNRESET, libc::EISDIR, libc::ENOMEM, libc::ETIMEDOUT];
        let subjects: Vec<Vec<u8>> = small.iter().cloned().chain(bad.iter().step_by(7).cloned()).collect();
        e.par(subjects.len(), |w, i| {
            let d = [&subjects[i][..], b"{1|4:nope,}"].concat();
            for pos in 0..=d.len() {
                for cut in [0, pos / 2, pos.saturating_sub(1)] {
                    for errno in errors {
                        let mut c = Case::new(Obj::Pipe, &d);
                        c.cuts = if cut > 0 { vec![cut] } else { vec![] };
                        c.error = Some((pos, errno));
                        w.case("error", &c.encode());
                    }
                    let mut c = Case::new(Obj::Pipe, &d);
                    c.cuts = [cut, pos].into_iter().filter(|&x| x > 0 && x < d.len()).collect();
                    c.cuts.dedup();
                    for times in 1..=3 {
                        c.interrupts = vec![(pos, times)];
                        w.case("interrupted", &c.encode());
                        c.interrupts = vec![(cut, times), (pos, times)];
                        w.case("interrupted", &c.encode());
                    }
                    c.error = Some((pos, libc::EIO));
                    w.case("interrupted", &c.encode());
                }
            }
        });
        //around the size limit
        let mut sizes: Vec<usize> = (1018..=1030).collect();
        sizes.extend([512, 1000, 2047, 2048, 2049, 4095, 4096, 4097, 5000]);
        if e.thorough() {
            sizes.extend(1031..1100);
            sizes.extend(900..1018);
        }
        e.par(sizes.len(), |w, i| {
            for trailing in [0, 1, 7, 2000] {
                let d = [sized(sizes[i]), vec![b'{'; trailing]].concat();
                let n = d.len();
                for obj in [Obj::Pipe, Obj::OpenPipe] {
                    let mut c = Case::new(obj, &d);
                    w.case("size", &c.encode());
                    for a in 1..n {
                        c.cuts = vec![a];
                        w.case("size", &c.encode());
                    }
                    for a in [1, 17, 511, 1000, 1022, 1023, 1024, 1025] {
                        for b in a + 1..n {
                            if b > 1015 && b < 1033 || b % 97 == 0 {
                                c.cuts = vec![a, b];
                                w.case("size", &c.encode());
                            }
                        }
                    }
                    c.cuts = (1..n).collect();
                    w.case("size", &c.encode());
                    c.cuts = (1..n).step_by(2).collect();
                    w.case("size", &c.encode());
                    for p in (0..n).step_by(31).chain(1015..n.min(1032)) {
                        c.cuts = vec![];
                        c.error = Some((p, libc::EIO));
                        w.case("size", &c.encode());
                        c.error = None;
                        c.interrupts = vec![(p, 1)];
                        c.cuts = if p > 0 { vec![p] } else { vec![] };
                        w.case("size", &c.encode());
                        c.interrupts = vec![];
                    }
                }
            }
        });
    }
    fn describe(&self, _: &str, p: &[u8]) -> String {
        let c = Case::decode(p);
        format!("{:?} with {} ({} bytes), reads end at {:?}, interruptions (position, times) {:?}, error (position, errno) {:?}", c.obj, show(&c.data), c.data.len(), &c.cuts[..c.cuts.len().min(20)], &c.interrupts[..c.interrupts.len().min(20)], c.error)
    }
    fn run_case(&self, _: &str, p: &[u8], r: &mut Rec) -> Result<(), String> {
        let c = Case::decode(p);
        r.nontrivial = !c.cuts.is_empty() || !c.interrupts.is_empty() || c.error.is_some() || c.obj != Obj::Pipe;
        let (res, rec) = std::thread::scope(|s| {
            s.spawn(|| {
                let mut rec = Rec::default();
                (run(&c, &mut rec), rec)
            })
            .join()
            .unwrap_or_else(|_| (Err("panic".into()), Rec::default()))
        });
        r.tags.extend(rec.tags);
        r.outcome = rec.outcome;
        res
    }
}
