//! C13: histories of creating, using and ending client IDs. The state space of the reference server is
//! enumerated to a fixpoint (or depth bound), and every transition of it is replayed on the real code.

use crate::model::Model;
use crate::refs;
use crate::scene::*;
use crate::world::*;
use engine::*;
use std::collections::HashSet;

pub struct C13;

/// IDs that requests name.
const IDS: [&str; 8] = ["a1", "a12", "a2", "a", "b", "b1", "a-", ""];
/// The clients that can be connected: the roots and whatever has been created.
const ACTORS: [&str; 6] = ["a", "b", "a1", "a12", "a2", "b1"];
const MAKE: u8 = 0; //actor, id
const END: u8 = 1; //actor, id
const HELLO: u8 = 2; //id: with the newest secret issued for it
const STALE: u8 = 3; //id: with the oldest secret issued for it
const CLOSE: u8 = 4; //actor: the peer disconnects
const TWO: u8 = 5; //actor, id: end and make in one read

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
struct Op(u8, u8, u8);

fn show_op(o: Op) -> String {
    let a = ACTORS.get(o.1 as usize).copied().unwrap_or("?");
    let i = IDS.get(o.2 as usize).copied().unwrap_or("?");
    match o.0 {
        MAKE => format!("{} makes {:?}", a, i),
        END => format!("{} ends {:?}", a, i),
        HELLO => format!("connect with the newest secret of {}", a),
        STALE => format!("connect with the oldest secret of {}", a),
        CLOSE => format!("{} disconnects", a),
        _ => format!("{} ends and makes {:?}", a, i),
    }
}

#[derive(Clone)]
struct Sim {
    m: Model,
    /// (id, token number) of every secret issued.
    issued: Vec<(String, usize)>,
}

impl Sim {
    fn new() -> Sim {
        let mut m = Model { secret_len: issued_len(), ..Default::default() };
        m.preset_client("a", [None, None, None]);
        m.preset_client("b", [None, None, None]);
        for k in 0..2 {
            let c = m.open();
            m.feed(c, &hello("client", k));
        }
        m.log.clear();
        Sim { m, issued: vec![("a".into(), 0), ("b".into(), 1)] }
    }
    fn conn_of(&self, id: &str) -> Option<usize> {
        self.m.conns.iter().position(|c| matches!(c.mode, Mode::Msgio(ref i, _) if i == id))
    }
    /// The connection and the bytes for an operation, or None if it is not possible now.
    fn action(&mut self, o: Op) -> Option<(usize, Vec<u8>)> {
        match o.0 {
            MAKE | END | TWO => {
                let c = self.conn_of(ACTORS[o.1 as usize])?;
                let id = IDS[o.2 as usize].as_bytes();
                let make = refs::render(b"core1.client-make", &[id, b"", b"s", b""]);
                let end = refs::render(b"core1.client-end", &[id]);
                Some((
                    c,
                    match o.0 {
                        MAKE => make,
                        END => end,
                        _ => [end, make].concat(),
                    },
                ))
            }
            HELLO | STALE => {
                let mut mine = self.issued.iter().filter(|(i, _)| i == ACTORS[o.1 as usize]);
                let k = if o.0 == HELLO { mine.next_back() } else { mine.next() }?.1;
                let len = if k < 2 { PRESET_LEN } else { self.m.secret_len };
                Some((self.m.open(), refs::render(b"posix1.client-hello", &[&token(k, len)])))
            }
            _ => None,
        }
    }
    fn apply(&mut self, o: Op) -> Option<(usize, Vec<u8>)> {
        if o.0 == CLOSE {
            let c = self.conn_of(ACTORS[o.1 as usize])?;
            self.m.conns[c].mode = Mode::Teardown;
            return Some((c, vec![]));
        }
        let before = self.m.issued;
        let a = self.action(o)?;
        self.m.feed(a.0, &a.1);
        if self.m.issued > before {
            self.issued.push((IDS[o.2 as usize].into(), before));
        }
        Some(a)
    }
    /// What of the state makes a difference for the future.
    fn key(&self) -> u64 {
        let mut s = String::new();
        for id in ACTORS {
            let reg: Vec<String> = self.m.clients.iter().filter(|r| r.id == id).map(|r| r.redeemed.to_string()).collect();
            let conns = self.m.conns.iter().filter(|c| matches!(c.mode, Mode::Msgio(ref i, _) if i == id)).count();
            //how the oldest and the newest secret stand
            let mine: Vec<usize> = self.issued.iter().filter(|(i, _)| i == id).map(|x| x.1).collect();
            let fit = |k: Option<&usize>| k.map(|&k| self.m.clients.iter().find(|r| r.secret.starts_with(&token(k, 12)[..])).map(|r| r.redeemed));
            s += &format!("{}:{:?}/{}/{:?}/{:?}/{};", id, reg, conns, fit(mine.first()), fit(mine.last()), mine.len() > 1);
        }
        hash_bytes(s.as_bytes())
    }
}

fn issued_len() -> usize {
    static L: std::sync::OnceLock<usize> = std::sync::OnceLock::new();
    *L.get_or_init(|| vt6::server::ClientCredentials::generate().secret().len())
}

fn decode(p: &[u8]) -> Vec<Op> {
    p.chunks(3).map(|c| Op(c[0], c[1], c[2])).collect()
}

/// Turns tokens in the bytes into the secrets that the implementation issued.
fn denormalise(w: &World, b: &[u8]) -> Vec<u8> {
    let s = w.state();
    let mut v = b.to_vec();
    for (k, sec) in s.secrets.iter().enumerate() {
        let t = token(k, sec.len());
        let mut i = 0;
        while i + t.len() <= v.len() {
            if v[i..i + t.len()] == t[..] {
                v[i..i + t.len()].copy_from_slice(sec);
                i += t.len();
            } else {
                i += 1;
            }
        }
    }
    v
}

fn all_ops() -> Vec<Op> {
    let mut v = vec![];
    for a in 0..ACTORS.len() as u8 {
        for i in 0..IDS.len() as u8 {
            v.push(Op(MAKE, a, i));
            v.push(Op(END, a, i));
            if i < 3 {
                v.push(Op(TWO, a, i));
            }
        }
        v.push(Op(HELLO, a, 0));
        v.push(Op(STALE, a, 0));
        v.push(Op(CLOSE, a, 0));
    }
    v
}

impl Property for C13 {
    fn id(&self) -> &'static str {
        "C13"
    }
    fn level(&self) -> Level {
        Level::ModelChecking
    }
    fn rule(&self) -> String {
        "Explicit-state exploration of the reference server's lifetimes (registrations, redeemed or not, stale secrets, live connections) under make/end/connect/disconnect by every client in the tree; each transition is a case: its shortest history is replayed from the start on the real code, with equal \
         events on all connections, modes and registrations after every operation. Non-trivial: the last operation changed registrations or modes."
            .into()
    }
    fn bounds(&self) -> String {
        "clients a and b plus the client IDs a1, a12, a2, b1 (nested and siblings), requests for these and for a, b, 'a-' and the empty string by every connected client, connecting with the newest and the oldest secret of each ID, disconnecting, ending and re-making in one read; all transitions from all states reachable by up to 7 operations (thorough: 30); histories of 4 shapes with 1 to 20 and up to 130 (520) clients; one history with client IDs of 2 to 942 characters; creation of a client with every combination of 30 screen names (odd, non-ASCII and non-UTF-8 ones included) and names of up to 954 bytes in each place, and its connection".into()
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["the application's registry implements selectors as prefixes, as C08 says; broadcasts run after each read, as C16 says".into()]
    }
    fn run_case(&self, kind: &str, p: &[u8], r: &mut Rec) -> Result<(), String> {
        if kind == "screens" {
            let args: Vec<&[u8]> = split_args(p);
            return with_screens(&args, r);
        }
        if kind == "many" {
            return growing(p[0], u32::from_le_bytes(p[1..5].try_into().unwrap()) as usize, r);
        }
        let ops = decode(p);
        let mut sim = Sim::new();
        let mut w = World::new();
        for id in ["a", "b"] {
            w.preset_client(id, [None, None, None]);
        }
        for k in 0..2 {
            let c = w.open();
            let b = refs::render(b"posix1.client-hello", &[&w.secret(k)]);
            w.feed(c, &b);
        }
        w.take_log();
        let mut last = (w.registry(), w.modes());
        for (n, &o) in ops.iter().enumerate() {
            let Some((c, bytes)) = sim.apply(o) else {
                return Err(format!("operation not possible: {}", show_op(o)));
            };
            if o.0 == CLOSE {
                w.close(c);
            } else {
                if c == w.modes().len() {
                    w.open();
                }
                let bytes = denormalise(&w, &bytes);
                w.feed(c, &bytes);
            }
            let a = Snap::of_world(&mut w, c.min(0)).forget_dead(c);
            let b = Snap::of_model(&mut sim.m, c.min(0)).forget_dead(c);
            if a != b {
                let hist: Vec<String> = ops[..=n].iter().map(|o| show_op(*o)).collect();
                return Err(format!("after [{}]: {}", hist.join("; "), a.diff(&b)));
            }
            //independently of the reference server: nobody is connected whose registration is gone
            for mode in &a.modes {
                if let Mode::Msgio(id, _) = mode {
                    ensure!(a.registry.iter().any(|r| &r.id == id && r.redeemed), "client {} is connected without being registered", id);
                }
            }
            if n + 1 == ops.len() {
                let now = (w.registry(), w.modes());
                r.nontrivial = now.0 != last.0 || now.1[..last.1.len()] != last.1[..] || now.1.len() > last.1.len() && now.1.last() != Some(&Mode::Teardown);
                r.tag(if r.nontrivial { "changed something" } else { "refused" });
            }
            last = (w.registry(), w.modes());
        }
        r.outcome = Some(sim.key());
        Ok(())
    }
    fn describe(&self, kind: &str, p: &[u8]) -> String {
        if kind == "screens" {
            return format!("a makes a1 with the screens {}", split_args(p).iter().map(|a| show(a)).collect::<Vec<_>>().join(", "));
        }
        if kind == "many" {
            return format!("{}: {}", SHAPES[p[0] as usize], u32::from_le_bytes(p[1..5].try_into().unwrap()));
        }
        decode(p).into_iter().map(show_op).collect::<Vec<_>>().join("; ")
    }
    fn enumerate(&self, e: &Eng) {
        let mut l = vec![];
        for shape in 0..SHAPES.len() as u8 {
            let most = e.bound(130, 520);
            let mut sizes: Vec<usize> = (1..=20).collect();
            sizes.extend((5..=9).flat_map(|k| [(1 << k) - 1, 1 << k, (1 << k) + 1]).chain([100, 500]));
            for n in sizes {
                if n <= most && shape < 4 {
                    l.push([&[shape][..], &(n as u32).to_le_bytes()].concat());
                }
            }
        }
        for n in 1..=940u32 {
            l.push([&[4][..], &n.to_le_bytes()].concat());
        }
        l.reverse();
        e.par(l.len(), |w, i| w.case("many", &l[i]));
        //screens
        let odd: Vec<Vec<u8>> = screens();
        e.par(odd.len(), |w, i| {
            for b in &odd {
                for c in &odd {
                    w.case("screens", &join_args(&[&odd[i], b, c]));
                }
            }
        });
        e.par(955, |w, n| {
            for c in ["s", "\u{e9}", "{", "\0"] {
                let long = c.repeat(n / c.len()).into_bytes();
                w.case("screens", &join_args(&[&long, b"", b"x"]));
                w.case("screens", &join_args(&[b"x", &long, b""]));
                w.case("screens", &join_args(&[b"", b"x", &long]));
                let third = c.repeat(n / 3 / c.len()).into_bytes();
                w.case("screens", &join_args(&[&third, &third, &third]));
            }
        });
        let depth = e.bound(7, 30);
        let ops = all_ops();
        let mut seen: HashSet<u64> = HashSet::new();
        let start = Sim::new();
        seen.insert(start.key());
        let mut frontier = vec![(start, Vec::<u8>::new())];
        for d in 0..=depth {
            if frontier.is_empty() {
                e.note(format!("all states reachable in {} operations; fixpoint reached", d - 1));
                break;
            }
            let next = std::sync::Mutex::new(vec![]);
            e.par(frontier.len(), |w, i| {
                let (sim, path) = &frontier[i];
                for &o in &ops {
                    let mut s = sim.clone();
                    if s.apply(o).is_none() {
                        continue;
                    }
                    s.m.log.clear();
                    let mut p = path.clone();
                    p.extend([o.0, o.1, o.2]);
                    w.case("history", &p);
                    next.lock().unwrap().push((i, p.clone(), s));
                }
            });
            if e.stopped() {
                break;
            }
            let mut n = next.into_inner().unwrap();
            n.sort_by(|a, b| (a.0, &a.1).cmp(&(b.0, &b.1)));
            e.number("transitions", n.len() as u64);
            e.number("states", frontier.len() as u64);
            frontier = n.into_iter().filter(|x| seen.insert(x.2.key())).map(|x| (x.2, x.1)).collect();
        }
    }
}

/// The real code and the reference server side by side.
struct Pair {
    sim: Sim,
    w: World,
}
impl Pair {
    fn new() -> Pair {
        let sim = Sim::new();
        let mut w = World::new();
        for id in ["a", "b"] {
            w.preset_client(id, [None, None, None]);
        }
        for k in 0..2 {
            let c = w.open();
            let b = refs::render(b"posix1.client-hello", &[&w.secret(k)]);
            w.feed(c, &b);
        }
        w.take_log();
        Pair { sim, w }
    }
    fn compare(&mut self, what: &str) -> Result<(), String> {
        let a = Snap::of_world(&mut self.w, 0);
        let b = Snap::of_model(&mut self.sim.m, 0);
        if a != b {
            return Err(format!("after {}: {}", what, a.diff(&b)));
        }
        Ok(())
    }
    /// The client sends something.
    fn say(&mut self, who: &str, ty: &str, id: &str) -> Result<(), String> {
        let c = self.sim.conn_of(who).ok_or_else(|| format!("{} is not connected", who))?;
        let rest: &[&[u8]] = if ty == "core1.client-make" { &[b"", b"s", b""] } else { &[] };
        let bytes = refs::render(ty.as_bytes(), &[&[id.as_bytes()][..], rest].concat());
        self.w.feed(c, &bytes);
        self.sim.m.feed(c, &bytes);
        self.compare(&format!("{}: {} {}", who, ty, id))
    }
    fn make(&mut self, who: &str, id: &str) -> Result<usize, String> {
        let k = self.sim.m.issued;
        self.say(who, "core1.client-make", id)?;
        ensure!(self.sim.m.issued == k + 1, "the reference server refused {}", id);
        Ok(k)
    }
    fn connect(&mut self, k: usize) -> Result<(), String> {
        let c = self.w.open();
        self.sim.m.open();
        let b = refs::render(b"posix1.client-hello", &[&token(k, self.sim.m.secret_len)]);
        let real = denormalise(&self.w, &b);
        self.w.feed(c, &real);
        self.sim.m.feed(c, &b);
        self.w.state();
        //(how much is discarded with a dying connection does not matter)
        let a = Snap::of_world(&mut self.w, c).forget_dead(c);
        let b = Snap::of_model(&mut self.sim.m, c).forget_dead(c);
        if a != b {
            return Err(format!("after connecting with secret {}: {}", k, a.diff(&b)));
        }
        Ok(())
    }
}

/// Strings that a client may give for a screen, and some that it may not.
fn screens() -> Vec<Vec<u8>> {
    [
        &b""[..], b"s", b"S", b"s1", b" ", b"s ", b" s", b"\n", b"s\r\n", b"\0", b"s\0t", b"-", b"--", b"/dev/tty", b"a.b", b"{1|1:x,}", b"\"", b"\\", b"%s", b"\x7f", b"\x1b[m",
        "\u{e9}".as_bytes(), "e\u{301}".as_bytes(), "\u{20ac}".as_bytes(), "\u{1f600}".as_bytes(), "\u{feff}s".as_bytes(), "\u{a0}".as_bytes(), "\u{130}".as_bytes(), b"\xff", b"s\xc3",
    ]
    .iter()
    .map(|s| s.to_vec())
    .collect()
}
fn join_args(l: &[&[u8]]) -> Vec<u8> {
    l.iter().flat_map(|a| [&(a.len() as u16).to_le_bytes()[..], a].concat()).collect()
}
fn split_args(mut p: &[u8]) -> Vec<&[u8]> {
    let mut l = vec![];
    while !p.is_empty() {
        let n = u16::from_le_bytes(p[..2].try_into().unwrap()) as usize;
        l.push(&p[2..2 + n]);
        p = &p[2 + n..];
    }
    l
}
/// Client a makes a1 with these screens; then a1 connects.
fn with_screens(l: &[&[u8]], r: &mut Rec) -> Result<(), String> {
    let mut p = Pair::new();
    let bytes = refs::render(b"core1.client-make", &[b"a1", l[0], l[1], l[2]]);
    if bytes.len() > 1024 {
        return Ok(());
    }
    let k = p.sim.m.issued;
    p.w.feed(0, &bytes);
    p.sim.m.feed(0, &bytes);
    p.compare("the request")?;
    if p.sim.m.issued > k {
        r.nontrivial = true;
        //(it gets to know its screens through a message that might become too long)
        if refs::render(b"posix1.server-hello", &[b"a1", l[0], l[1], l[2]]).len() <= 1024 {
            p.connect(k)?;
        }
    }
    r.tag(if r.nontrivial { "changed something" } else { "refused" });
    r.outcome = Some(hash_bytes(&bytes));
    p.say("a", "core1.client-make", "a1")?;
    p.say("a", "core1.client-end", "a1")?;
    Ok(())
}

const SHAPES: [&str; 5] = ["siblings", "descendants", "made and ended in turn", "siblings of which every second one connects", "client IDs of this many characters"];

fn growing(shape: u8, n: usize, r: &mut Rec) -> Result<(), String> {
    let mut p = Pair::new();
    r.nontrivial = true;
    r.tag("growing numbers");
    r.outcome = Some(hash2(shape as u64, n as u64));
    match shape {
        0 | 3 => {
            let top = p.make("a", "aq")?;
            p.connect(top)?;
            let mut l = vec![];
            for i in 0..n {
                let (by, id) = if i % 2 == 0 { ("a", format!("aq{}z", i)) } else { ("aq", format!("aqw{}z", i)) };
                let k = p.make(by, &id)?;
                if shape == 0 || i % 2 == 0 {
                    p.connect(k)?;
                }
                l.push((id, k));
            }
            for (id, _) in &l {
                p.say("b", "core1.client-make", id)?;
                p.say("b", "core1.client-end", id)?;
            }
            let (id, k) = &l[n / 2];
            p.say("a", "core1.client-end", id)?;
            p.connect(*k)?;
            p.say("a", "core1.client-end", "aq")?;
            for (_, k) in &l {
                p.connect(*k)?;
            }
            p.say("a", "want", "core1")?;
            p.make("a", "aq")?;
        }
        1 => {
            //each makes the next
            let mut id = "a".to_string();
            let mut l = vec![];
            for _ in 0..n {
                let next = format!("{}1", id);
                let k = p.make(&id, &next)?;
                p.connect(k)?;
                l.push(k);
                p.say(&next, "core1.client-end", &id)?;
                id = next;
            }
            p.say("a", "core1.client-make", &id)?;
            p.say("a", "core1.client-end", &"a".repeat(2))?;
            p.say("a", "core1.client-end", &format!("a{}", "1".repeat(n / 2 + 1)))?;
            for k in &l {
                p.connect(*k)?;
            }
            p.say("a", "core1.client-end", "a1")?;
        }
        4 => {
            let x = format!("a{}", "q".repeat(n));
            let (x1, x2, y) = (format!("{}1", x), format!("{}2", x), format!("a{}r", "q".repeat(n - 1)));
            let top = p.make("a", &x)?;
            p.connect(top)?;
            let mut l = vec![];
            for (who, id) in [("a", &x1), (&x[..], &x2), ("a", &y)] {
                let k = p.make(who, id)?;
                p.connect(k)?;
                l.push(k);
            }
            for (who, id) in [("b", &x), (&x[..], &x), (&x2[..], &x1), (&y[..], &x1), (&x1[..], &x), (&x[..], &y)] {
                p.say(who, "core1.client-end", id)?;
                p.say(who, "core1.client-make", id)?;
            }
            p.say(&x, "core1.client-end", &x1)?;
            p.connect(l[0])?;
            p.say(&x2, "want", "core1")?;
            p.say("a", "core1.client-end", &x)?;
            for k in [top, l[0], l[1], l[2]] {
                p.connect(k)?;
            }
            p.say(&y, "want", "core1")?;
            let k = p.make("a", &x)?;
            p.connect(k)?;
        }
        _ => {
            let mut old = vec![];
            for i in 0..n {
                let k = p.make("a", "a1")?;
                if i % 3 == 0 {
                    p.connect(k)?;
                }
                p.say("a", "core1.client-end", "a1")?;
                old.push(k);
            }
            let k = p.make("a", "a1")?;
            for o in &old {
                p.connect(*o)?;
            }
            p.connect(k)?;
            p.say("a1", "want", "core1")?;
        }
    }
    p.compare("everything")
}
