//! The model of the program replayed on the real program, over real sockets.

use crate::prog_model::*;
use crate::refs;
use engine::Eng;
use std::collections::HashMap;
use std::io::{ErrorKind, Read, Write};
use std::os::unix::net::UnixStream;
use std::os::unix::process::CommandExt;
use std::path::PathBuf;
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::time::{Duration, Instant};

const PATIENCE: Duration = Duration::from_secs(40);
const STEP: Duration = Duration::from_millis(200);
const SIGINT: i32 = 2;
const GREETING: &[u8] = b"Hello stdin.\n";

extern "C" {
    fn kill(pid: i32, sig: i32) -> i32;
}

fn binary() -> Option<PathBuf> {
    std::env::var_os("VERIF_EXAMPLE_BIN").map(PathBuf::from)
}

pub fn enumerate(e: &Eng) {
    let mut cases: Vec<Vec<Op>> = vec![vec![]];
    let possible = |s: &State| s.ops(3, 4, true).into_iter().filter(|o| o.0 != k::TICK).collect::<Vec<_>>();
    let depth = e.bound(2, 3);
    let mut level = vec![(vec![], State::new())];
    for _ in 0..depth {
        let mut next = vec![];
        for (p, s) in &level {
            for o in possible(s) {
                let (mut p, mut t): (Vec<Op>, State) = (p.clone(), s.clone());
                p.push(o);
                t.apply(o);
                next.push((p, t));
            }
        }
        cases.extend(next.iter().map(|n| n.0.clone()));
        level = next;
    }
    //a path to each of the states
    let most = e.bound(5, 30);
    let mut seen: HashMap<Vec<u8>, ()> = HashMap::new();
    let mut frontier = vec![(vec![], State::new())];
    seen.insert(State::new().canonical(), ());
    let mut l = 0;
    while !frontier.is_empty() && l < most {
        l += 1;
        let mut next = vec![];
        for (p, s) in &frontier {
            for o in possible(s) {
                let mut t = s.clone();
                t.apply(o);
                if seen.insert(t.canonical(), ()).is_none() {
                    let mut p: Vec<Op> = p.clone();
                    p.push(o);
                    if l > depth {
                        cases.push(p.clone());
                    }
                    next.push((p, t));
                }
            }
        }
        frontier = next;
    }
    let n = AtomicU64::new(0);
    e.par(cases.len(), |w, i| {
        if w.stopped() {
            return;
        }
        w.case("process", &encode(&cases[i]));
        n.fetch_add(1, Relaxed);
    });
    //more clients than there are descriptors for
    let mut full: Vec<(u8, u8)> = vec![];
    for limit in e.bound(20..24, 16..48) {
        full.extend([1, 10, limit - 11, limit - 10, limit - 9, limit - 8, limit - 1, limit, limit + 1, 2 * limit].map(|n| (limit, n)));
    }
    e.par(full.len(), |w, i| {
        if w.stopped() {
            return;
        }
        w.case("process-full", &[full[i].0, full[i].1]);
    });
    e.note(format!("process-full: {} cases of n clients with descriptors for m files", full.len()));
    e.number("model_paths_replayed_on_the_real_process", n.load(Relaxed));
    e.note(format!(
        "process: all sequences of {} operations and a path to each of the model states within {} operations, on the real program over real sockets",
        depth, l
    ));
}

struct Prog {
    child: Child,
    dir: PathBuf,
}
impl Drop for Prog {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
        let _ = std::fs::remove_dir_all(&self.dir);
    }
}
impl Prog {
    fn log(&self) -> String {
        String::from_utf8_lossy(&std::fs::read(self.dir.join("log")).unwrap_or_default()).into_owned()
    }
    fn socket(&self) -> PathBuf {
        self.dir.join("vt6").join(self.child.id().to_string())
    }
    fn wait_for<T>(&mut self, what: &str, mut f: impl FnMut(&Prog) -> Option<T>) -> Result<T, String> {
        let start = Instant::now();
        loop {
            if let Some(t) = f(self) {
                return Ok(t);
            }
            if let Ok(Some(s)) = self.child.try_wait() {
                return f(self).ok_or(format!("the program ended ({}) before {}", s, what));
            }
            if start.elapsed() > PATIENCE {
                return Err(format!("{}: not within {:?}", what, PATIENCE));
            }
            std::thread::sleep(Duration::from_micros(500));
        }
    }
}

struct Peer {
    s: Option<UnixStream>,
    got: Vec<u8>,
    eof: bool,
}
impl Peer {
    /// Reads something, or finds the end, or nothing comes for a while.
    fn read(&mut self) {
        let mut b = [0; 4096];
        let Some(s) = &mut self.s else { return };
        match s.read(&mut b) {
            Ok(0) => self.eof = true,
            Ok(n) => self.got.extend_from_slice(&b[..n]),
            Err(e) if matches!(e.kind(), ErrorKind::WouldBlock | ErrorKind::TimedOut | ErrorKind::Interrupted) => {}
            Err(_) => self.eof = true,
        }
    }
    /// What arrived, without what is typed in every second.
    fn relevant(&self, c: &Conn) -> Vec<u8> {
        //(such connections never get anything else)
        if c.out.is_empty() && !self.got.is_empty() && GREETING.repeat(self.got.len() / GREETING.len() + 1).starts_with(&self.got) {
            return vec![];
        }
        self.got.clone()
    }
}

/// The machine decides on the pace of the real program, so only what happens twice in a row counts.
pub fn run(ops: &[Op]) -> Result<(), String> {
    run_once(ops).or_else(|_| run_once(ops))
}

#[repr(C)]
struct Limit {
    now: u64,
    max: u64,
}
extern "C" {
    fn setrlimit(what: i32, l: *const Limit) -> i32;
}
const RLIMIT_NOFILE: i32 = 7;

fn launch(limit: Option<u64>) -> Result<Prog, String> {
    let bin = binary().ok_or("VERIF_EXAMPLE_BIN is not set")?;
    static N: AtomicU64 = AtomicU64::new(0);
    let dir = engine::scratch_dir().join(format!("p{}", N.fetch_add(1, Relaxed)));
    std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
    let log = std::fs::File::create(dir.join("log")).map_err(|e| e.to_string())?;
    let mut c = Command::new(bin);
    c.env("XDG_RUNTIME_DIR", &dir).stdin(Stdio::null()).stdout(log.try_clone().unwrap()).stderr(log);
    if let Some(n) = limit {
        let l = Limit { now: n, max: n };
        unsafe {
            c.pre_exec(move || match setrlimit(RLIMIT_NOFILE, &l) {
                0 => Ok(()),
                _ => Err(std::io::Error::last_os_error()),
            });
        }
    }
    let child = c.spawn().map_err(|e| e.to_string())?;
    Ok(Prog { child, dir })
}

fn started(p: &mut Prog) -> Result<Vec<Vec<u8>>, String> {
    let first = p.wait_for("its socket was there", |p| UnixStream::connect(p.socket()).ok())?;
    drop(first);
    let log = p.wait_for("the credentials were printed", |p| Some(p.log()).filter(|l| (0..3).all(|k| printed_secret(l, k).is_some())))?;
    Ok((0..3).map(|k| printed_secret(&log, k).unwrap()).collect())
}

fn interrupt(p: &mut Prog) -> Result<(), String> {
    unsafe { kill(p.child.id() as i32, SIGINT) };
    ended(p)
}

fn ended(p: &mut Prog) -> Result<(), String> {
    let start = Instant::now();
    let status = loop {
        if let Ok(Some(s)) = p.child.try_wait() {
            break s;
        }
        if start.elapsed() > PATIENCE {
            return Err("the program did not end after SIGINT".into());
        }
        std::thread::sleep(Duration::from_micros(500));
    };
    if !status.success() {
        return Err(format!("the program ended with {}", status));
    }
    if p.socket().symlink_metadata().is_ok() {
        return Err("the program left its socket behind".into());
    }
    Ok(())
}

/// `n` silent clients at once, with descriptors for `limit` files.
pub fn run_full(limit: u64, n: usize) -> Result<(), String> {
    run_full_once(limit, n).or_else(|_| run_full_once(limit, n))
}

fn run_full_once(limit: u64, n: usize) -> Result<(), String> {
    let mut p = launch(Some(limit))?;
    let printed = started(&mut p)?;
    let connect = |p: &Prog| {
        let s = UnixStream::connect(p.socket()).map_err(|e| format!("cannot connect: {}", e))?;
        s.set_read_timeout(Some(STEP)).unwrap();
        Ok::<_, String>(Peer { s: Some(s), got: vec![], eof: false })
    };
    let talk = |peer: &mut Peer, b: &[u8], want: &[u8], what: &str| {
        let _ = peer.s.as_mut().unwrap().write_all(b);
        let start = Instant::now();
        let from = peer.got.len();
        while !peer.got[from..].ends_with(want) {
            if peer.eof || start.elapsed() > PATIENCE {
                return Err(format!("{}: {} was answered with {}", what, engine::show(b), engine::show(&peer.got[from..])));
            }
            peer.read();
        }
        Ok(())
    };
    let (want, have) = (refs::render(b"want", &[b"core1"]), refs::render(b"have", &[b"core1.0"]));
    let mut a = connect(&p)?;
    talk(&mut a, &refs::render(b"posix1.client-hello", &[&printed[2]]), b"}", "a client")?;
    let crowd: Vec<Peer> = (0..n).map(|_| connect(&p)).collect::<Result<_, _>>()?;
    std::thread::sleep(Duration::from_millis(20));
    talk(&mut a, &want, &have, "a client while there are too many others")?;
    drop(crowd);
    //someone who is rejected, in his turn
    let mut b = connect(&p)?;
    let start = Instant::now();
    let _ = b.s.as_mut().unwrap().write_all(&refs::render(b"posix1.client-hello", &[b"guess"]));
    while !b.eof {
        if start.elapsed() > PATIENCE {
            return Err("a client was not served after the others had gone".into());
        }
        b.read();
    }
    talk(&mut a, &want, &have, "a client after the others had gone")?;
    interrupt(&mut p)
}

fn run_once(ops: &[Op]) -> Result<(), String> {
    let mut p = launch(None)?;
    let printed = started(&mut p)?;
    let mut secrets = vec![Some(printed[2].clone())];
    let mut state = State::new();
    let mut peers: Vec<Peer> = vec![];
    let mut todo: Vec<Op> = ops.iter().rev().copied().collect();
    if ops.last().map_or(true, |o| o.0 != k::STOP) {
        todo.insert(0, Op(k::STOP, 0, 0));
    }
    let mut step = 0;
    while let Some(op) = todo.pop() {
        step += 1;
        let before: Vec<Mode> = state.conns.iter().map(|c| c.mode.clone()).collect();
        let bytes = state.bytes(op, &|n| match n {
            CRED_IN | CRED_OUT => printed[n as usize].clone(),
            CRED_BAD => b"guess".to_vec(),
            n => secrets.get((n - CRED_CLIENT) as usize).cloned().flatten().unwrap_or_else(|| b"unknown".to_vec()),
        });
        if op.0 == k::STOP {
            //(what is under way must have arrived)
            let words = state.words.clone();
            p.wait_for("the output was shown", |p| Some(p.log()).filter(|l| words.iter().all(|w| l.contains(&w[..]))))?;
        }
        let concerned = state.apply(op);
        if op.0 == k::STOP {
            unsafe { kill(p.child.id() as i32, SIGINT) };
        } else {
            let c = concerned.unwrap();
            if op.1 == NEW {
                let s = UnixStream::connect(p.socket()).map_err(|e| format!("cannot connect: {}", e))?;
                s.set_read_timeout(Some(STEP)).unwrap();
                peers.push(Peer { s: Some(s), got: vec![], eof: false });
            }
            let peer = &mut peers[c];
            if let Some(s) = &mut peer.s {
                let _ = s.write_all(&bytes);
                match op.0 {
                    k::SHUT | k::FAREWELL => {
                        let _ = s.shutdown(std::net::Shutdown::Write);
                    }
                    k::CLOSE => peer.s = None,
                    _ => {}
                }
            }
        }
        //everything that had to come
        for (i, c) in state.conns.iter().enumerate() {
            let ended = c.mode == Mode::Gone && before.get(i) != Some(&Mode::Gone);
            let peer = &mut peers[i];
            if peer.s.is_none() || !(ended || Some(i) == concerned) {
                continue;
            }
            let start = Instant::now();
            loop {
                let verdict = if ended && !peer.eof { Err("is not closed".to_string()) } else { check_received(c, &peer.relevant(c), &mut secrets) };
                match verdict {
                    Ok(()) if ended || !peer.eof => break,
                    Ok(()) => return Err(format!("step {}: connection {} was closed", step, i)),
                    Err(e) if peer.eof || start.elapsed() > PATIENCE => return Err(format!("step {}: connection {}: {}", step, i, e)),
                    Err(_) => peer.read(),
                }
            }
        }
        //a grant without reply must have taken place before someone else asks for the same
        if let (k::HELLO, Some(c)) = (op.0, concerned) {
            let again = todo.iter().any(|o| *o == Op(k::HELLO, o.1, op.2));
            if again && state.conns[c].mode == Mode::In {
                let start = Instant::now();
                while peers[c].got.is_empty() {
                    peers[c].read();
                    if peers[c].eof || start.elapsed() > PATIENCE {
                        return Err(format!("step {}: connection {}: nothing is typed in", step, c));
                    }
                }
            }
            if again && state.conns[c].mode == Mode::Out {
                let probe = format!("probe{}", c);
                if let Some(s) = &mut peers[c].s {
                    let _ = s.write_all(probe.as_bytes());
                }
                p.wait_for("the output was shown", |p| Some(()).filter(|_| p.log().contains(&probe)))?;
            }
        }
        //a reply to something else tells when an operation without reply is done
        if let (k::JUNK | k::END, Some(c)) = (op.0, concerned) {
            if matches!(state.conns[c].mode, Mode::Msg(_)) {
                todo.push(Op(k::WANT, c as u8, 0));
            }
        }
    }
    ended(&mut p)
}
