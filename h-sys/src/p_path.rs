//! C21: the default socket path.

use crate::sys::{PID, RACE};
use engine::*;
use std::collections::BTreeMap;
use std::ffi::OsString;
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::os::unix::fs::{symlink, MetadataExt, PermissionsExt};
use std::path::{Path, PathBuf};

pub struct C21;

/// How the variable refers to the directory.
const VARS: [&str; 13] = ["unset", "empty", "plain", "trailing slash", "two slashes", "relative", "non-UTF-8", "symlink", "dangling symlink", "dot-dot", "blank and newline", "long name", "symlink loop"];
/// What is there.
const TARGETS: [&str; 8] = ["directory", "file", "nothing", "nothing, nor its parent", "directory one must not write to", "directory one must not enter", "fifo", "directory below one that one must not enter"];
/// What is called vt6 in there.
const ENTRIES: [&str; 9] = ["nothing", "directory", "file", "symlink to a directory", "dangling symlink", "symlink to a file", "directory one must not enter", "fifo", "directory with something in it"];
const RACES: [&str; 3] = ["nothing", "another process creates the directory first", "another process creates a file first"];

struct Config {
    var: u8,
    target: u8,
    entry: u8,
    nobody: bool,
    race: u8,
    /// The process ID, if not the real one.
    pid: u32,
}

type Tree = BTreeMap<PathBuf, (u32, Option<PathBuf>)>;
fn tree(dir: &Path, out: &mut Tree) {
    for e in std::fs::read_dir(dir).into_iter().flatten().flatten() {
        let p = e.path();
        if let Ok(m) = p.symlink_metadata() {
            out.insert(p.clone(), (m.mode(), std::fs::read_link(&p).ok()));
            if m.is_dir() {
                tree(&p, out);
            }
        }
    }
}
fn snapshot(dir: &Path) -> Tree {
    let mut t = Tree::new();
    tree(dir, &mut t);
    //other places where one might be tempted to put it
    for p in ["/tmp/vt6", "/var/tmp/vt6", "/dev/shm/vt6", "/run/vt6", "/run/user/0/vt6", "/run/user/65534/vt6", "/root/.vt6", "/var/run/vt6"] {
        if let Ok(m) = Path::new(p).symlink_metadata() {
            t.insert(p.into(), (m.mode(), None));
        }
    }
    t
}
fn chmod(p: &Path, mode: u32) {
    std::fs::set_permissions(p, std::fs::Permissions::from_mode(mode)).unwrap();
}
fn fifo(p: &Path) {
    let c = std::ffi::CString::new(p.as_os_str().as_bytes()).unwrap();
    assert!(unsafe { libc::mkfifo(c.as_ptr(), 0o600) } == 0);
}
fn chown(p: &Path) {
    std::os::unix::fs::lchown(p, Some(65534), Some(65534)).unwrap();
}

fn run(c: &Config, r: &mut Rec) -> Result<(), String> {
    let base = scratch_dir().join("p");
    let _ = std::fs::remove_dir_all(&base);
    std::fs::create_dir_all(&base).unwrap();
    chmod(&base, 0o777);
    for d in ["home", "tmp", "cwd", "cache"] {
        std::fs::create_dir(base.join(d)).unwrap();
        chmod(&base.join(d), 0o777);
    }
    let cwd = base.join("cwd");
    //the real place of the target
    let name: OsString = match c.var {
        6 => OsString::from_vec(b"run\xff\xfedir".to_vec()),
        10 => OsString::from("run \n=dir"),
        11 => OsString::from("r".repeat(200)),
        _ => OsString::from("run"),
    };
    let parent = if c.target == 3 { cwd.join("missing") } else { cwd.clone() };
    let parent = if c.target == 7 {
        let p = parent.join("closed");
        std::fs::create_dir(&p).unwrap();
        p
    } else {
        parent
    };
    let target = parent.join(&name);
    match c.target {
        0 | 4 | 5 | 7 => std::fs::create_dir(&target).unwrap(),
        1 => std::fs::write(&target, "x").unwrap(),
        6 => fifo(&target),
        _ => {}
    }
    let is_dir = matches!(c.target, 0 | 4 | 5 | 7);
    if is_dir {
        let v = target.join("vt6");
        match c.entry {
            1 | 6 | 8 => {
                std::fs::create_dir(&v).unwrap();
                if c.entry == 8 {
                    std::fs::write(v.join("123"), "x").unwrap();
                }
                if c.entry == 6 {
                    chmod(&v, 0o000);
                }
            }
            2 => std::fs::write(&v, "x").unwrap(),
            3 => {
                std::fs::create_dir(base.join("elsewhere")).unwrap();
                symlink(base.join("elsewhere"), &v).unwrap();
            }
            4 => symlink(base.join("nowhere"), &v).unwrap(),
            5 => {
                std::fs::write(base.join("plainfile"), "x").unwrap();
                symlink(base.join("plainfile"), &v).unwrap();
            }
            7 => fifo(&v),
            _ => {}
        }
        chown(&target);
        match c.target {
            4 => chmod(&target, 0o555),
            5 => chmod(&target, 0o600),
            7 => chmod(&parent, 0o600),
            _ => chmod(&target, 0o755),
        }
        if c.nobody && v.symlink_metadata().is_ok() {
            chown(&v);
        }
    }
    let value: Option<OsString> = match c.var {
        0 => None,
        1 => Some("".into()),
        3 => Some([target.as_os_str().as_bytes(), b"/"].concat()).map(OsString::from_vec),
        4 => Some([target.as_os_str().as_bytes(), b"//"].concat()).map(OsString::from_vec),
        5 => Some(target.strip_prefix(&cwd).unwrap().into()),
        7 => {
            symlink(&target, base.join("link")).unwrap();
            Some(base.join("link").into())
        }
        8 => {
            symlink(base.join("nothing"), base.join("link")).unwrap();
            Some(base.join("link").into())
        }
        9 => Some(target.parent().unwrap().join("..").join(target.parent().unwrap().file_name().unwrap()).join(&name).into()),
        12 => {
            symlink(base.join("link"), base.join("link")).unwrap();
            Some(base.join("link").into())
        }
        _ => Some(target.clone().into()),
    };
    match &value {
        None => std::env::remove_var("XDG_RUNTIME_DIR"),
        Some(v) => std::env::set_var("XDG_RUNTIME_DIR", v),
    }
    for (k, d) in [("HOME", "home"), ("TMPDIR", "tmp"), ("XDG_CACHE_HOME", "cache"), ("XDG_STATE_HOME", "cache"), ("XDG_DATA_HOME", "cache")] {
        std::env::set_var(k, base.join(d));
    }
    std::env::set_current_dir(&cwd).unwrap();

    //what is right?
    let usable = is_dir && !matches!(c.var, 0 | 1 | 8 | 12) && !(c.nobody && c.target == 7);
    let searchable = !(c.nobody && c.target == 5);
    let writable = !(c.nobody && matches!(c.target, 4 | 5));
    let missing = c.entry == 0;
    let want = usable && searchable && (matches!(c.entry, 1 | 3 | 6 | 8) || missing && writable && c.race != 2);
    let before = snapshot(&base);

    let call = |race: u8| {
        std::thread::scope(|s| {
            s.spawn(|| {
                if c.nobody {
                    //for this thread only
                    unsafe {
                        assert!(libc::syscall(libc::SYS_setgroups, 0usize, 0usize) == 0);
                        assert!(libc::syscall(libc::SYS_setresgid, 65534, 65534, 65534) == 0);
                        assert!(libc::syscall(libc::SYS_setresuid, 65534, 65534, 65534) == 0);
                    }
                }
                RACE.with(|x| x.replace(race));
                PID.with(|x| x.set(c.pid));
                vt6::server::default_socket_path()
            })
            .join()
            .map_err(|_| "panic".to_string())
        })
    };
    let got = call(c.race)?;
    let raced = c.race != 0 && usable && searchable && writable && missing;
    let vt6 = target.join("vt6");
    let after = snapshot(&base);
    let fresh: Vec<&PathBuf> = after.keys().filter(|k| !before.contains_key(*k)).collect();
    let check_for = |got: &std::io::Result<PathBuf>, pid: u32| -> Result<(), String> {
        match got {
            Ok(p) => {
                ensure!(want, "{:?} was returned", p);
                let v = value.clone().unwrap();
                ensure!(p.file_name() == Some(std::ffi::OsStr::new(&pid.to_string())), "{:?} does not end in the process ID {}", p, pid);
                let dir = p.parent().unwrap();
                ensure!(dir.is_dir(), "{:?} is not a directory", dir);
                let want_dir = Path::new(&v).join("vt6");
                ensure!(dir == want_dir || dir.canonicalize().ok() == want_dir.canonicalize().ok() && dir.file_name() == want_dir.file_name(), "{:?} was returned for {:?}", p, v);
            }
            Err(e) => ensure!(!want, "an error was returned: {}", e),
        }
        Ok(())
    };
    let check = |got: &std::io::Result<PathBuf>| check_for(got, if c.pid == 0 { std::process::id() } else { c.pid });
    check(&got)?;
    if want && missing {
        ensure!(fresh == [&vt6], "created: {:?}", fresh);
        ensure!(vt6.symlink_metadata().unwrap().is_dir(), "vt6 is not a directory");
        if c.race == 0 {
            let mode = vt6.symlink_metadata().unwrap().mode();
            ensure!(mode & 0o700 == 0o700, "the directory was created with mode {:o}: its owner cannot place a socket in it", mode & 0o7777);
        }
    } else if raced {
        ensure!(fresh == [&vt6], "created: {:?}", fresh);
    } else {
        ensure!(fresh.is_empty(), "created: {:?}", fresh);
    }
    for (k, v) in &before {
        ensure!(after.get(k) == Some(v), "{:?} was changed or removed", k);
    }
    //and again
    if c.race == 0 {
        let again = call(0)?;
        check(&again).map_err(|m| format!("second call: {}", m))?;
        let first = got.ok();
        ensure!(again.ok() == first, "the second call gives another result");
        ensure!(snapshot(&base) == after, "the second call changed something");
        //in a process that was forked off in the meantime, and in one that has no directory any more
        if !c.nobody {
            in_child(|| check_for(&vt6::server::default_socket_path(), std::process::id()).is_ok()).map_err(|m| format!("a call in a forked process {}", m))?;
            if want && missing {
                std::fs::remove_dir(&vt6).unwrap();
                let third = call(0)?;
                check(&third).map_err(|m| format!("third call: {}", m))?;
                ensure!(third.ok() == first && vt6.is_dir(), "after the directory was removed, it is not created anew");
                std::env::remove_var("XDG_RUNTIME_DIR");
                ensure!(call(0)?.is_err(), "a path was returned after the variable was removed");
            }
        }
    }
    r.tag(if want { "path" } else { "error" });
    r.outcome = Some(want as u64);
    let _ = std::env::set_current_dir("/");
    chmod(&parent_or(&parent, &base), 0o755);
    Ok(())
}
fn in_child(f: impl FnOnce() -> bool) -> Result<(), String> {
    unsafe {
        let pid = libc::fork();
        assert!(pid >= 0);
        if pid == 0 {
            let right = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).unwrap_or(false);
            libc::_exit(if right { 0 } else { 1 });
        }
        let mut status = 0;
        assert!(libc::waitpid(pid, &mut status, 0) == pid);
        if status == 0 {
            Ok(())
        } else {
            Err("gives a wrong result".into())
        }
    }
}
fn parent_or(p: &Path, base: &Path) -> PathBuf {
    if p.is_dir() {
        p.into()
    } else {
        base.into()
    }
}

impl Property for C21 {
    fn id(&self) -> &'static str {
        "C21"
    }
    fn level(&self) -> Level {
        Level::Exploration
    }
    fn rule(&self) -> String {
        "A case is a configuration of the variable XDG_RUNTIME_DIR, of what it refers to, of what is called vt6 in there, of the user's rights (root or nobody), and of what another process does just before \
         the directory is created, or a process ID. The function is called (twice) in a scratch directory, and the file system is compared with the one before. Non-trivial: the variable is set."
            .into()
    }
    fn bounds(&self) -> String {
        format!("the whole product of: variable {:?}; target {:?}; entry {:?}; root or nobody; race {:?}; 81 process IDs around the powers of 2 and 10 up to 2^22", VARS, TARGETS, ENTRIES, RACES)
    }
    fn threads(&self) -> usize {
        1
    }
    fn enumerate(&self, e: &Eng) {
        //all orders of magnitude, up to the largest process ID that Linux can be told to use (2^22)
        let mut pids: Vec<u32> = (0..=22).flat_map(|k| [(1 << k) - 1, 1 << k, (1 << k) + 1]).collect();
        pids.extend((0..=6).flat_map(|k| [10u32.pow(k) - 1, 10u32.pow(k), 10u32.pow(k) + 1]));
        pids.retain(|&p| p > 0 && p <= 1 << 22);
        pids.sort();
        pids.dedup();
        e.par(pids.len(), |w, i| w.case("pid", &pids[i].to_le_bytes()));
        e.par(VARS.len(), |w, var| {
            for target in 0..TARGETS.len() {
                for entry in 0..ENTRIES.len() {
                    for nobody in 0..2 {
                        for race in 0..RACES.len() {
                            w.case("config", &[var as u8, target as u8, entry as u8, nobody, race as u8]);
                        }
                    }
                }
            }
        });
    }
    fn describe(&self, kind: &str, p: &[u8]) -> String {
        if kind == "pid" {
            return format!("process ID {}", u32::from_le_bytes(p.try_into().unwrap()));
        }
        format!("variable: {}; target: {}; vt6: {}; user: {}; race: {}", VARS[p[0] as usize], TARGETS[p[1] as usize], ENTRIES[p[2] as usize], ["root", "nobody"][p[3] as usize], RACES[p[4] as usize])
    }
    fn run_case(&self, kind: &str, p: &[u8], r: &mut Rec) -> Result<(), String> {
        if kind == "pid" {
            r.nontrivial = true;
            return run(&Config { var: 2, target: 0, entry: 0, nobody: false, race: 0, pid: u32::from_le_bytes(p.try_into().unwrap()) }, r);
        }
        r.nontrivial = p[0] != 0;
        run(&Config { var: p[0], target: p[1], entry: p[2], nobody: p[3] == 1, race: p[4], pid: 0 }, r)
    }
}
