//! System calls as the code under test sees them. The functions below take the place of those of the C
//! library in this program; unless the calling thread has set up a script, they just do the system call.

use std::cell::RefCell;
use std::ffi::{c_char, c_int, c_long, c_uint, c_void, CStr};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Ans {
    Full,
    /// At most so many bytes.
    Short(usize),
    /// All but so many bytes.
    But(usize),
    Half,
    Err(c_int),
    /// Returns 0.
    Nothing,
}

/// The entropy source.
#[derive(Clone, Default)]
pub struct Entropy {
    /// Differences (by exclusive or) from the stream.
    pub flips: Vec<(usize, u8)>,
    /// What the first calls (that ask for anything) are answered. Later ones: in full.
    pub answers: Vec<Ans>,
    /// What system calls for entropy are answered when they are not available at all.
    pub unavailable: Option<c_int>,
    /// Opening the entropy devices fails.
    pub no_device: Option<c_int>,
    pub drawn: usize,
    pub calls: usize,
    pub devices: Vec<c_int>,
}

/// File descriptor 60.
#[derive(Clone, Default)]
pub struct Fd60 {
    /// Reads do not go across these positions.
    pub cuts: Vec<usize>,
    /// The next read at this position is interrupted so many times first.
    pub interrupts: Vec<(usize, u8)>,
    /// The read at this position fails.
    pub error: Option<(usize, c_int)>,
    pub pos: usize,
    pub reads: usize,
    pub closes: usize,
}

thread_local! {
    pub static ENTROPY: RefCell<Option<Entropy>> = const { RefCell::new(None) };
    pub static FD60: RefCell<Option<Fd60>> = const { RefCell::new(None) };
    /// What to do when a directory is about to be created: create it first (as another process might).
    pub static RACE: RefCell<u8> = const { RefCell::new(0) };
}

unsafe fn raw(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let r: isize;
    std::arch::asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
        lateout("rcx") _, lateout("r11") _);
    r
}
unsafe fn set(r: isize) -> isize {
    if (-4095..0).contains(&r) {
        *libc::__errno_location() = -r as c_int;
        return -1;
    }
    r
}
fn value(i: usize) -> u8 {
    //(any fixed stream without regularities)
    (engine::hash2(0x5eed, i as u64) >> 24) as u8
}

impl Entropy {
    unsafe fn draw(&mut self, buf: *mut u8, len: usize) -> isize {
        if len == 0 {
            return 0;
        }
        let a = self.answers.get(self.calls).copied().unwrap_or(Ans::Full);
        self.calls += 1;
        let n = match a {
            Ans::Full => len,
            Ans::Short(n) => n.min(len),
            Ans::But(n) => len.saturating_sub(n).max(1),
            Ans::Half => len.div_ceil(2),
            Ans::Err(e) => return -e as isize,
            Ans::Nothing => 0,
        };
        for i in 0..n {
            let pos = self.drawn + i;
            let x = self.flips.iter().filter(|f| f.0 == pos).fold(0, |x, f| x ^ f.1);
            *buf.add(i) = value(pos) ^ x;
        }
        self.drawn += n;
        n as isize
    }
}

fn entropy<R>(f: impl FnOnce(&mut Entropy) -> R) -> Option<R> {
    ENTROPY.try_with(|e| e.try_borrow_mut().ok().and_then(|mut e| e.as_mut().map(f))).ok().flatten()
}

unsafe fn do_getrandom(buf: usize, len: usize, flags: usize) -> isize {
    let r = entropy(|e| match e.unavailable {
        Some(errno) => -errno as isize,
        None => e.draw(buf as *mut u8, len),
    });
    r.unwrap_or_else(|| raw(libc::SYS_getrandom, buf, len, flags, 0, 0, 0))
}

thread_local! {
    /// The process ID that this thread sees (0: the real one).
    pub static PID: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
}
#[no_mangle]
pub unsafe extern "C" fn getpid() -> c_int {
    match PID.try_with(|p| p.get()) {
        Ok(p) if p != 0 => p as c_int,
        _ => raw(libc::SYS_getpid, 0, 0, 0, 0, 0, 0) as c_int,
    }
}

#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> c_long {
    if n == libc::SYS_getrandom {
        return set(do_getrandom(a, b, c)) as c_long;
    }
    if n == libc::SYS_getpid {
        return getpid() as c_long;
    }
    set(raw(n, a, b, c, d, e, f)) as c_long
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, len: usize, flags: c_uint) -> isize {
    set(do_getrandom(buf as usize, len, flags as usize))
}
#[no_mangle]
pub unsafe extern "C" fn getentropy(buf: *mut c_void, len: usize) -> c_int {
    let mut done = 0;
    while done < len {
        let r = do_getrandom(buf as usize + done, len - done, 0);
        if r == -libc::EINTR as isize {
            continue;
        }
        if r <= 0 {
            return set(if r == 0 { -libc::EIO as isize } else { r }) as c_int;
        }
        done += r as usize;
    }
    0
}
unsafe fn do_open(path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    let device = matches!(CStr::from_ptr(path).to_bytes(), b"/dev/urandom" | b"/dev/random");
    if device {
        if let Some(Some(errno)) = entropy(|e| e.no_device) {
            return set(-errno as isize) as c_int;
        }
    }
    let fd = set(raw(libc::SYS_openat, libc::AT_FDCWD as isize as usize, path as usize, flags as usize, mode as usize, 0, 0)) as c_int;
    if device && fd >= 0 {
        entropy(|e| e.devices.push(fd));
    }
    fd
}
#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    do_open(path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    do_open(path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, len: usize) -> isize {
    if let Some(Some(r)) = entropy(|e| e.devices.contains(&fd).then(|| e.draw(buf as *mut u8, len))) {
        return set(r);
    }
    if fd == 60 {
        let r = FD60.try_with(|s| {
            let mut s = s.try_borrow_mut().ok()?;
            let s = s.as_mut()?;
            s.reads += 1;
            let pos = s.pos;
            if let Some(i) = s.interrupts.iter_mut().find(|i| i.0 == pos && i.1 > 0) {
                i.1 -= 1;
                return Some(-libc::EINTR as isize);
            }
            if let Some((p, e)) = s.error {
                if p <= pos {
                    return Some(-e as isize);
                }
            }
            let mut end = pos + len;
            for c in s.cuts.iter().chain(s.error.iter().map(|e| &e.0)) {
                if *c > pos {
                    end = end.min(*c);
                }
            }
            let r = raw(libc::SYS_read, 60, buf as usize, end - pos, 0, 0, 0);
            if r > 0 {
                s.pos += r as usize;
            }
            Some(r)
        });
        if let Ok(Some(r)) = r {
            return set(r);
        }
    }
    set(raw(libc::SYS_read, fd as usize, buf as usize, len, 0, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if fd == 60 {
        let _ = FD60.try_with(|s| {
            if let Ok(mut s) = s.try_borrow_mut() {
                if let Some(s) = s.as_mut() {
                    s.closes += 1;
                }
            }
        });
    }
    set(raw(libc::SYS_close, fd as usize, 0, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(path: *const c_char, mode: c_uint) -> c_int {
    let race = RACE.try_with(|r| std::mem::take(&mut *r.borrow_mut())).unwrap_or(0);
    if race == 1 {
        raw(libc::SYS_mkdir, path as usize, 0o755, 0, 0, 0, 0);
    }
    if race == 2 {
        let r = raw(libc::SYS_openat, libc::AT_FDCWD as isize as usize, path as usize, (libc::O_CREAT | libc::O_EXCL | libc::O_WRONLY) as usize, 0o644, 0, 0);
        if r >= 0 {
            raw(libc::SYS_close, r as usize, 0, 0, 0, 0, 0);
        }
    }
    set(raw(libc::SYS_mkdir, path as usize, mode as usize, 0, 0, 0, 0)) as c_int
}
