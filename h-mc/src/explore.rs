//! Systematic exploration of the schedules of the scenarios.
//!
//! An execution is determined by (scenario, policy, hash order, deviations). For each policy, all
//! executions with up to a number of deviations from it are enumerated: the execution with the
//! deviations d1..dk is run, its trace tells how many alternatives each later choice had, and each of
//! them is tried as deviation k+1.

use crate::app;
use crate::example;
use crate::prog_model;
use crate::scale::{Scale, SCALES};
use crate::scen::{self, Scn, SCENARIOS};
use engine::{Eng, Level, Property, Rec, W};
use std::path::PathBuf;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use tokio::mc::{self, Config, Report};

pub struct Sched(pub &'static str);

const POLICIES: u8 = 5;
const ORDERS: u8 = 3;

#[derive(Clone, Debug)]
struct Case {
    scenario: u8,
    policy: u8,
    order: u8,
    devs: Vec<(u32, u8)>,
}
impl Case {
    fn encode(&self) -> Vec<u8> {
        let mut v = vec![self.policy, self.order];
        for (p, a) in &self.devs {
            v.extend_from_slice(&p.to_le_bytes()[..3]);
            v.push(*a);
        }
        v
    }
    fn decode(kind: &str, b: &[u8]) -> Option<Case> {
        let scenario = SCENARIOS.iter().position(|s| s.name == kind)? as u8;
        let devs = b.get(2..)?.chunks_exact(4).map(|c| (u32::from_le_bytes([c[0], c[1], c[2], 0]), c[3])).collect();
        Some(Case { scenario, policy: b[0], order: b[1], devs })
    }
}

struct Place(PathBuf);
impl Drop for Place {
    fn drop(&mut self) {
        let _ = std::fs::remove_file(&self.0);
    }
}

/// One execution. Returns the report and a verdict for the property.
fn execute(property: &str, c: &Case, body: Body, log: bool) -> (Report, Result<(), String>, u64, Vec<String>) {
    static N: AtomicU64 = AtomicU64::new(0);
    thread_local! {
        static DIR: PathBuf = engine::scratch_dir().join(format!("s{}", N.fetch_add(1, Relaxed)));
    }
    let place = Place(DIR.with(|d| d.clone()));
    let _ = std::fs::remove_file(&place.0);
    app::reset(log);
    if property == "C23" || matches!(&body, Body::Scenario(s) if s.props.contains(&"C23")) {
        example::reset();
    }
    scen::forget_clients();
    scen::set_path(place.0.clone());
    mc::set_panic_text(engine::take_last_panic);
    let mut cfg = Config { policy: c.policy, order: c.order, devs: c.devs.clone(), max_steps: 30000, capacity: 1 << 16, ..Config::default() };
    if let Body::Scenario(s) = &body {
        (s.cfg)(&mut cfg);
    }
    if let Body::Scale(s, n) = &body {
        (s.cfg)(&mut cfg);
        cfg.max_steps = 1_000_000 + 2000 * *n as u64;
    }
    let rep = mc::run(cfg, move || {
        match body {
            Body::Scenario(s) => (s.body)(),
            Body::Cycles(how, n) => scen::cycles(how, n),
            Body::Scale(s, n) => {
                mc::branching(false);
                (s.body)(n)
            }
            Body::Program(ops) => example::sequence(&ops),
        }
        app::event("script done");
        app::mon(|m| m.done = true);
    });
    scen::forget_clients();
    if rep.leaked == 0 {
        app::set_dispatch(None);
    } else {
        app::leak_dispatch();
    }
    let (fails, done, digest, log) = app::mon(|m| (std::mem::take(&mut m.fails), m.done, m.digest, m.log.take().unwrap_or_default()));
    let verdict = judge(property, &rep, fails, done);
    (rep, verdict, digest, log)
}

#[derive(Clone)]
enum Body {
    Scenario(&'static Scn),
    Cycles(u8, usize),
    Scale(&'static Scale, usize),
    Program(Vec<prog_model::Op>),
}

fn judge(property: &str, rep: &Report, fails: Vec<(&'static str, String)>, done: bool) -> Result<(), String> {
    if let Some((_, what)) = fails.iter().find(|f| f.0 == property) {
        return Err(what.clone());
    }
    //the whole server is wedged: no property that promises progress holds
    if let Some(d) = &rep.deadlock {
        return Err(format!("deadlock: {}", d));
    }
    if rep.livelock {
        return Err("the server is busy for ever".into());
    }
    if property == "C18" {
        if let Some(p) = rep.panics.first() {
            return Err(format!("panic in {}", p));
        }
        if let Some(l) = &rep.lock_across_await {
            return Err(format!("{} went to sleep holding a lock", l));
        }
    }
    if !done {
        return Err(format!("the script could not be completed; panics: {:?}", rep.panics));
    }
    Ok(())
}

struct Counters {
    schedules: AtomicU64,
    choices: AtomicU64,
    steps: AtomicU64,
    switches: AtomicU64,
    repeated: AtomicU64,
}

impl Sched {
    /// How many executions may be spent on the scenario.
    fn budget(&self, e: &Eng, s: &Scn) -> Option<f64> {
        let count = SCENARIOS.iter().filter(|s| s.props.contains(&self.0)).count() as f64;
        if s.props.contains(&self.0) {
            Some(e.bound(1.6e6, 3.5e7) / count)
        } else if self.0 == "C18" {
            Some(e.bound(2e4, 3e5))
        } else {
            None
        }
    }

    fn one(&self, w: &mut W, c: &Case, n: &Counters, count: bool) -> Report {
        let s = &SCENARIOS[c.scenario as usize];
        let payload = c.encode();
        w.announce(s.name, &payload);
        let (rep, verdict, digest, _) = execute(self.0, c, Body::Scenario(s), false);
        w.retire();
        if !count {
            n.repeated.fetch_add(1, Relaxed);
            return rep;
        }
        n.schedules.fetch_add(1, Relaxed);
        n.choices.fetch_add(rep.trace.len() as u64, Relaxed);
        n.steps.fetch_add(rep.steps, Relaxed);
        n.switches.fetch_add(rep.switches, Relaxed);
        let rec = Rec { nontrivial: !c.devs.is_empty(), outcome: Some(digest), ..Rec::default() };
        w.record(s.name, &payload, rec);
        if let Err(m) = verdict {
            w.violation(s.name, &payload, m);
        }
        rep
    }

    /// Executes all cases with `more` deviations more than c; returns how many cases there are with one
    /// more deviation still.
    fn level(&self, w: &mut W, c: &mut Case, more: u8, n: &Counters) -> u64 {
        if w.stopped() {
            return 0;
        }
        let rep = self.one(w, c, n, more == 0);
        if rep.leaked > 0 {
            return 0;
        }
        let from = c.devs.last().map_or(0, |d| d.0 + 1);
        let mut next = 0;
        for pos in from..rep.trace.len() as u32 {
            for alt in 1..rep.trace[pos as usize] {
                if more == 0 {
                    next += 1;
                    continue;
                }
                c.devs.push((pos, alt));
                next += self.level(w, c, more - 1, n);
                c.devs.pop();
            }
        }
        next
    }
}

fn scale_case(b: &[u8]) -> Option<(&'static Scale, usize)> {
    Some((SCALES.get(b[0] as usize)?, u32::from_le_bytes(b.get(3..7)?.try_into().unwrap()) as usize))
}

impl Property for Sched {
    fn id(&self) -> &'static str {
        self.0
    }
    fn level(&self) -> Level {
        Level::ModelChecking
    }
    fn rule(&self) -> String {
        "A case is one execution of the real dispatch, receiver and transmitter code (compiled with the hook vt6_mc) under a scheduler that controls every task, \
         application thread, lock, notification and socket operation. It is determined by the scenario, one of five scheduling policies, one of three hash map orders, and \
         a list of deviations (choice number, alternative). A case is non-trivial if it deviates from its policy."
            .into()
    }
    fn bounds(&self) -> String {
        let l: Vec<&str> = SCENARIOS.iter().filter(|s| self.0 == "C18" || s.props.contains(&self.0)).map(|s| s.name).collect();
        format!(
            "scenarios {}; of each, all schedules and environment answers with at most k deviations from each of five policies, k as large as a budget \
             of executions allows (the notes of the evidence give k for each policy and hash order)",
            l.join(", ")
        )
    }
    fn assumptions(&self) -> Vec<String> {
        vec![
            "threads share data only through locks, channels, notifications and sockets (no data races: guaranteed by safe Rust), so switching at these operations loses no behaviour".into(),
            "tokio's Notify, channels and futures-util's abort handles are correct (the real ones are used); tokio's tasks and sockets behave like their controlled stand-ins".into(),
        ]
    }
    fn hang_seconds(&self) -> u64 {
        if self.0 == "C23" {
            //(there are timeouts of their own for the real program)
            120
        } else {
            25
        }
    }
    fn describe(&self, kind: &str, payload: &[u8]) -> String {
        if kind == "process" {
            return prog_model::describe(&prog_model::decode(payload));
        }
        if kind == "program" {
            return format!("policy {}: {}", payload[0], prog_model::describe(&prog_model::decode(&payload[1..])));
        }
        if kind == "scale" {
            let (s, n) = scale_case(payload).unwrap();
            return format!("{} with n = {}, policy {}, hash order {}", s.name, n, payload[1], payload[2]);
        }
        if kind == "process-full" {
            return format!("{} clients at once on the real program, with descriptors for {} files", payload[1], payload[0]);
        }
        if kind == "cycles" || kind == "deep" {
            return format!("{} {:?}", kind, payload);
        }
        match Case::decode(kind, payload) {
            Some(c) => format!("scenario {}, policy {}, hash order {}, deviations (choice, alternative) {:?}", kind, c.policy, c.order, c.devs),
            None => format!("{} ?", kind),
        }
    }
    fn enumerate(&self, e: &Eng) {
        let n = Counters { schedules: 0.into(), choices: 0.into(), steps: 0.into(), switches: 0.into(), repeated: 0.into() };
        //default executions, and from them the first deviations
        let mut roots: Vec<(Case, f64)> = vec![];
        for (i, s) in SCENARIOS.iter().enumerate() {
            let Some(budget) = self.budget(e, s) else { continue };
            for order in 0..ORDERS {
                for policy in [0, 4, 2, 3, 1] {
                    roots.push((Case { scenario: i as u8, policy, order, devs: vec![] }, budget));
                }
            }
        }
        let first = std::sync::Mutex::new(vec![vec![]; roots.len()]);
        e.par(roots.len(), |w, i| {
            let c = &roots[i].0;
            let rep = self.one(w, c, &n, true);
            if rep.leaked > 0 {
                return;
            }
            let mut l = vec![];
            for pos in 0..rep.trace.len() as u32 {
                for alt in 1..rep.trace[pos as usize] {
                    l.push(Case { devs: vec![(pos, alt)], ..c.clone() });
                }
            }
            first.lock().unwrap()[i] = l;
        });
        let first = first.into_inner().unwrap();
        let mut depth = vec![0u8; roots.len()];
        let mut spent = vec![0u64; SCENARIOS.len()];
        //how many cases the next level has
        let mut next: Vec<u64> = first.iter().map(|l| l.len() as u64).collect();
        for k in 1..=12u8 {
            let mut jobs = vec![];
            for i in 0..roots.len() {
                let s = &mut spent[roots[i].0.scenario as usize];
                if depth[i] == k - 1 && next[i] > 0 && (k == 1 || (*s + next[i]) as f64 <= roots[i].1) {
                    depth[i] = k;
                    *s += next[i];
                    jobs.extend(first[i].iter().map(|c| (i, c)));
                }
            }
            let found: Vec<AtomicU64> = roots.iter().map(|_| AtomicU64::new(0)).collect();
            e.par(jobs.len(), |w, j| {
                let (i, c) = jobs[j];
                let m = self.level(w, &mut c.clone(), k - 1, &n);
                found[i].fetch_add(m, Relaxed);
            });
            for i in 0..roots.len() {
                if depth[i] == k {
                    next[i] = found[i].load(Relaxed);
                }
            }
            if e.stopped() {
                break;
            }
        }
        for (i, s) in SCENARIOS.iter().enumerate() {
            let mine: Vec<usize> = (0..roots.len()).filter(|&r| roots[r].0.scenario as usize == i).collect();
            if mine.is_empty() {
                continue;
            }
            let text = |order: u8| {
                let mut l: Vec<(u8, String)> = vec![];
                for &r in &mine {
                    if roots[r].0.order == order {
                        l.push((roots[r].0.policy, if next[r] == 0 { "all".into() } else { depth[r].to_string() }));
                    }
                }
                l.sort();
                l.into_iter().map(|x| x.1).collect::<Vec<_>>().join(",")
            };
            e.note(format!("{}: number of deviations, for policies 0-4 with hash order 0: {}; 1: {}; 2: {}", s.name, text(0), text(1), text(2)));
        }
        //samples with their events
        e.par(SCENARIOS.len(), |w, i| {
            if SCENARIOS[i].props.contains(&self.0) {
                for p in [0, 2] {
                    w.case(SCENARIOS[i].name, &[p, 0])
                }
            }
        });
        if self.0 == "C17" {
            let count = scen::ENDINGS as usize * (POLICIES * ORDERS) as usize;
            e.par(count, |w, i| {
                let (how, rest) = ((i % scen::ENDINGS as usize) as u8, (i / scen::ENDINGS as usize) as u8);
                w.case("cycles", &[how, rest % POLICIES, rest / POLICIES, 12])
            });
        }
        let mut cases = vec![];
        for (i, s) in SCALES.iter().enumerate().filter(|s| s.1.props.contains(&self.0)) {
            let sizes = s.sizes(e.thorough());
            for &n in &sizes {
                for policy in 0..POLICIES {
                    for order in 0..if n <= 64 { ORDERS } else { 1 } {
                        cases.push((n, [&[i as u8, policy, order][..], &(n as u32).to_le_bytes()].concat()));
                    }
                }
            }
            e.note(format!("{}: {} values of n up to {}", s.name, sizes.len(), sizes.last().unwrap()));
        }
        //(the longest first)
        cases.sort_by_key(|c| std::cmp::Reverse(c.0));
        e.par(cases.len(), |w, i| w.case("scale", &cases[i].1));
        e.number("executions_in_growing_numbers", cases.len() as u64);
        if self.0 == "C18" {
            crate::deep::enumerate(e);
        }
        if self.0 == "C23" {
            example::enumerate(e);
            crate::e2e::enumerate(e);
        }
        let g = |a: &AtomicU64| a.load(Relaxed);
        e.number("schedules", g(&n.schedules));
        e.number("transitions", g(&n.steps));
        e.number("executions_repeated_to_extend_them", g(&n.repeated));
        e.number("choice_points", g(&n.choices));
        e.number("context_switches", g(&n.switches));
        if self.0 == "C23" {
            e.note("Conformance of the model of the program: every transition counted in model_transitions_replayed was carried out by the program's own main(), with everything its clients can see compared; h-e2e replays a part of them over real sockets.".into());
        }
        e.note("Conformance: the explored schedules are executions of the implementation itself; there is no separate model of the code.".into());
    }
    fn run_case(&self, kind: &str, payload: &[u8], r: &mut Rec) -> Result<(), String> {
        if kind == "deep" {
            return crate::deep::run(payload, r);
        }
        if kind == "process-full" {
            r.nontrivial = true;
            r.outcome = Some(engine::hash_bytes(payload));
            if r.want_text {
                r.text = format!("{} clients with descriptors for {} files", payload[1], payload[0]);
            }
            return crate::e2e::run_full(payload[0] as u64, payload[1] as usize);
        }
        if kind == "process" {
            let ops = prog_model::decode(payload);
            example::record(r, &ops);
            r.outcome = Some(engine::hash_bytes(payload));
            return crate::e2e::run(&ops);
        }
        let (c, body) = match kind {
            "program" => (Case { scenario: 0, policy: payload[0], order: payload[0] % ORDERS, devs: vec![] }, Body::Program(prog_model::decode(&payload[1..]))),
            "scale" => {
                let (s, n) = scale_case(payload).ok_or("unknown case")?;
                (Case { scenario: 0, policy: payload[1], order: payload[2], devs: vec![] }, Body::Scale(s, n))
            }
            "cycles" => (Case { scenario: 0, policy: payload[1], order: payload[2], devs: vec![] }, Body::Cycles(payload[0], payload[3] as usize)),
            _ => {
                let c = Case::decode(kind, payload).ok_or("unknown scenario")?;
                let s = &SCENARIOS[c.scenario as usize];
                (c, Body::Scenario(s))
            }
        };
        r.nontrivial = true;
        if let Body::Program(ops) = &body {
            example::record(r, ops);
        }
        let (_, verdict, digest, log) = execute(self.0, &c, body, r.want_text);
        r.outcome = Some(digest);
        if r.want_text {
            r.text = log.join("; ");
        }
        verdict
    }
}
