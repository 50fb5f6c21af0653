//! Executes plans in forked children and judges what they did.

use crate::exec::{self, World};
use crate::gen;
use crate::plan::{rounds, Op, Plan, Step, Task};
use crate::rng::{mix, Rng};
use crate::sim::{self, Counters, Limits, SchedCfg, Strat, Switch, Universe};
use std::collections::BTreeMap;
use std::rc::Rc;

pub const ST_CRASH: u32 = 7;
pub const ST_WALL: u32 = 8;

pub struct Out {
    pub steps: u64,
    pub words: Vec<u64>,
}

pub struct Run {
    pub status: u32,
    pub signal: i32,
    pub outs: BTreeMap<(usize, usize, usize), Out>,
    pub snaps: BTreeMap<(usize, usize, usize, u64), Vec<u64>>,
    pub c: Counters,
    pub log: Vec<Switch>,
    pub inter: u64,
    pub flags: u64,
    pub stuck: Vec<(usize, u64)>,
    pub io: Vec<u64>,
}

impl Run {
    pub fn done(&self) -> bool {
        self.status == sim::ST_DONE
    }
    pub fn status_text(&self) -> String {
        match self.status {
            sim::ST_DONE => "finished".into(),
            sim::ST_BUDGET => format!("did not finish in {} steps", self.c.steps),
            sim::ST_MEM => "exhausted memory".into(),
            sim::ST_DEADLOCK => format!("deadlocked (waiting threads: {:?})", self.stuck.iter().map(|s| s.0).collect::<Vec<_>>()),
            sim::ST_LIMIT => "exceeded the recording limits".into(),
            ST_WALL => "hung outside simulated code".into(),
            _ => format!("crashed with signal {}", self.signal),
        }
    }
    pub fn digest(&self) -> u64 {
        let mut h = mix(self.status as u64, self.inter);
        h = mix(h, self.flags);
        h = mix(h, self.c.steps);
        h = mix(h, self.c.allocs);
        for (k, o) in &self.outs {
            h = mix(h, mix((k.0 * 1000 + k.1) as u64, k.2 as u64));
            h = mix(h, o.steps);
            for w in &o.words {
                h = mix(h, *w);
            }
        }
        h
    }
}

static mut WORLD: *const World = std::ptr::null();

fn body(t: usize) {
    let w = unsafe { &*WORLD };
    let m = w.plan.uni.mem;
    // Some callers have threads with names.
    if matches!(w.plan.prop.as_str(), "C01" | "C02" | "C03") && m != 0 && (m >> 8) % 8 == 3 {
        let name = ["main", "worker-3", "tokio-runtime-worker", "0"][(m >> 11) as usize % 4];
        let b = std::thread::Builder::new().name(name.into()).stack_size(sim::stack_size(w.plan.uni));
        if let Ok(h) = b.spawn(move || exec::run_thread(unsafe { &*WORLD }, t)) {
            let _ = h.join();
        }
        return;
    }
    exec::run_thread(w, t);
}

#[cfg(feature = "py")]
pub static mut NATIVE: bool = false;

/// Where library code that writes files would leave them; emptied between executions.
pub static mut SCRATCH: Option<std::path::PathBuf> = None;
/// Working, temporary and home directory of the simulated processes.
pub const PLACES: [&str; 3] = ["cwd", "tmp", "home"];

#[allow(static_mut_refs)]
fn files() -> Vec<std::path::PathBuf> {
    let dirs = PLACES.iter().filter_map(|p| unsafe { SCRATCH.as_ref() }.map(|d| d.join(p)));
    dirs.filter_map(|d| std::fs::read_dir(d).ok()).flat_map(|l| l.flatten().map(|e| e.path())).collect()
}

pub fn count_files() -> usize {
    files().len()
}

pub fn empty_scratch() {
    for p in files() {
        if p.symlink_metadata().map_or(false, |m| m.is_dir()) {
            let _ = std::fs::remove_dir_all(p);
        } else {
            let _ = std::fs::remove_file(p);
        }
    }
}

pub fn run_child(plan: &Plan, budget: u64, snap: bool) -> Run {
    let s = sim::sh();
    s.status = sim::ST_NONE;
    s.inter_hash = 0;
    s.c = Counters::default();
    s.nlog = 0;
    s.nout = 0;
    s.flags = 0;
    s.dead_note = [0; sim::MAXT];
    s.nio = 0;
    #[cfg(feature = "py")]
    crate::py::before_fork();
    let pid = unsafe { libc::fork() };
    if pid < 0 {
        eprintln!("fork failed");
        std::process::exit(3);
    }
    if pid == 0 {
        if plan.repeat > 0 {
            exec::FILES.store(exec::open_files(), std::sync::atomic::Ordering::SeqCst);
        }
        sim::enter_child(plan.uni);
        let plan: &'static Plan = unsafe { &*(plan as *const Plan) };
        let shared = plan
            .shared
            .iter()
            .map(|s| std::panic::catch_unwind(|| exec::build(s)).ok())
            .collect::<Vec<_>>();
        let w = Box::leak(Box::new(World { plan, tools: exec::make_tools(&plan.tools), shared, snap, around: None }));
        unsafe { WORLD = w };
        let state = |w: &World| {
            let mut o = vec![];
            for s in w.shared.iter().flatten() {
                exec::enc_structure(&mut o, s);
            }
            o
        };
        let before = state(w);
        if plan.warm {
            warm();
        }
        #[cfg(feature = "py")]
        crate::py::after_fork(unsafe { NATIVE });
        if plan.prop == "C11" {
            w.around = Some(sim::around());
        }
        let n = if plan.apart > 0 { plan.repeat } else { plan.threads.len() };
        if plan.apart > 0 {
            unsafe { sim::AFTER = Some(|t| exec::checkpoint(t, 0)) };
        }
        sim::run_threads(n, plan.uni, &plan.sched, &Limits { budget, thread_budget: u64::MAX }, body);
        if state(w) != before {
            sim::sh().flags |= exec::FLAG_SHARED;
        }
        if w.around.is_some() && count_files() > 0 {
            sim::sh().flags |= exec::FLAG_TRACE << 12;
        }
        sim::finish(sim::ST_DONE);
    }
    #[cfg(feature = "py")]
    crate::py::after_fork_parent();
    let mut st = 0;
    loop {
        let r = unsafe { libc::waitpid(pid, &mut st, 0) };
        if r == pid {
            break;
        }
    }
    let s = sim::sh();
    let mut r = Run {
        status: s.status,
        signal: 0,
        outs: BTreeMap::new(),
        snaps: BTreeMap::new(),
        c: s.c,
        log: s.log[..s.nlog as usize].to_vec(),
        inter: s.inter_hash,
        flags: s.flags,
        stuck: (0..sim::MAXT).filter(|t| s.dead_note[*t] != 0).map(|t| (t, s.dead_note[t])).collect(),
        io: s.io[..(s.nio as usize).min(s.io.len())].to_vec(),
    };
    if libc::WIFSIGNALED(st) {
        r.signal = libc::WTERMSIG(st);
        r.status = if r.signal == libc::SIGALRM { ST_WALL } else { ST_CRASH };
    } else if libc::WEXITSTATUS(st) == 97 || libc::WEXITSTATUS(st) == 98 {
        eprintln!("child could not set up (exit {})", libc::WEXITSTATUS(st));
        std::process::exit(3);
    } else if r.status == sim::ST_NONE {
        r.status = ST_CRASH;
        r.signal = -libc::WEXITSTATUS(st);
    }
    let out = &s.out[..s.nout as usize];
    let mut p = 0;
    while p + 3 <= out.len() {
        let (h, kind, n) = (out[p], out[p + 1], out[p + 2] as usize);
        if p + 3 + n > out.len() {
            break;
        }
        let key = ((h >> 48) as usize, (h >> 24 & 0xff_ffff) as usize, (h & 0xff_ffff) as usize);
        let w = &out[p + 3..p + 3 + n];
        if kind == 0 {
            r.outs.insert(key, Out { steps: w[0], words: w[1..].to_vec() });
        } else {
            r.snaps.insert((key.0, key.1, key.2, kind - 1), w.to_vec());
        }
        p += 3 + n;
    }
    r
}

/// Touch the tables through the public interface.
fn warm() {
    use nalgebra::{Matrix3, Vector3};
    let _ = std::panic::catch_unwind(|| {
        let s = crystsymm::structure::Structure::new(
            Matrix3::identity() * 4.0,
            vec!["A".into()],
            vec![Vector3::new(0.0, 0.0, 0.0)],
            false,
        );
        let a = crystsymm::analyzer::SymmetryAnalyzer { dtol: 0.05, atol: 5.0 };
        a.get_space_group_info(&s);
    });
}

/// Totals over everything a worker executed.
#[derive(Default)]
pub struct Stats {
    pub n: BTreeMap<String, u64>,
    pub refusals: BTreeMap<String, u64>,
    pub calls: BTreeMap<&'static str, u64>,
    pub distinct: std::collections::BTreeSet<u64>,
    pub inters: std::collections::BTreeSet<u64>,
    pub samples: Vec<String>,
}

impl Stats {
    pub fn add(&mut self, k: &str, v: u64) {
        if v != 0 {
            *self.n.entry(k.into()).or_default() += v;
        }
    }
    pub fn max(&mut self, k: &str, v: u64) {
        let e = self.n.entry(k.into()).or_default();
        *e = (*e).max(v);
    }
    pub fn run(&mut self, r: &Run, plan: &Plan) {
        let c = &r.c;
        self.add("executions", 1);
        for (k, v) in [
            ("steps", c.steps),
            ("switches", c.switches),
            ("preemptions", c.preempts),
            ("preemptions_on_first_execution_of_a_block", c.first_hits),
            ("short_writes", c.short_writes),
            ("preemptions_at_a_shared_access", c.shared_points),
            ("entropy_reads", c.getrandom),
            ("entropy_eintr", c.eintr),
            ("clock_reads", c.clock_reads),
            ("clock_jumps", c.clock_jumps),
            ("sleeps", c.sleeps),
            ("futex_waits", c.futex_waits),
            ("futex_wakes", c.futex_wakes),
            ("spurious_wakeups", c.spurious),
            ("lock_waits", c.lock_waits),
            ("library_threads", c.spawned),
            ("allocations", c.allocs),
            ("recycled_allocations", c.recycled),
            ("sim_ns", c.sim_ns),
            ("stalls", c.stalls),
            ("meetings", c.meetings),
            ("forks", c.forks),
            ("processor_counts", c.cpu_counts),
            ("unknown_variables_answered", c.env_answers),
            ("paths_redirected", c.redirected),
            ("open_failures", c.open_failures),
            ("write_failures", c.write_failures),
            ("thread_exit_actions", c.exit_actions),
        ] {
            self.add(k, v);
        }
        if plan.uni.hash != 0 {
            self.add("hash_universes", 1);
        }
        if plan.uni.mem != 0 {
            self.add("memory_layouts", 1);
        }
        if c.switches > 0 && plan.threads.len() > 1 {
            self.inters.insert(r.inter);
        }
        self.add(
            match r.status {
                sim::ST_DONE => "status_finished",
                sim::ST_BUDGET => "status_budget",
                sim::ST_MEM => "status_memory",
                sim::ST_DEADLOCK => "status_deadlock",
                sim::ST_LIMIT => "status_limit",
                ST_WALL => "status_wall",
                _ => "status_crash",
            },
            1,
        );
        for (k, o) in &r.outs {
            if let Some(s) = plan.threads.get(k.0).and_then(|t| t.get(k.1)).and_then(|t| t.get(k.2)) {
                *self.calls.entry(s.op.name()).or_default() += 1;
                if o.words.first() == Some(&exec::REFUSED) {
                    let mut m = exec::get_str(&o.words[1..]);
                    // Numbers in messages vary; kinds of refusal do not.
                    m = m.chars().map(|c| if c.is_ascii_digit() { '#' } else { c }).collect();
                    m = m.chars().take(60).collect();
                    *self.refusals.entry(m).or_default() += 1;
                }
            }
        }
    }
}

pub struct Ctx {
    pub st: Stats,
    cache: BTreeMap<u64, Rc<Run>>,
    /// Steps that one repeated task may take.
    pub longest: u64,
    pub trace: u64,
}

pub struct Violation {
    pub class: String,
    pub detail: String,
    /// The plan as judged, with the schedule that was taken.
    pub plan: Plan,
}

fn hash_task(p: &Plan, t: &Task) -> u64 {
    let mut h = 17;
    let mut eat = |s: &Step| {
        h = mix(h, s.op as u64);
        for x in &s.i {
            h = mix(h, *x as u64);
        }
        for x in &s.f {
            h = mix(h, x.to_bits());
        }
        for x in &s.s {
            for b in x.bytes() {
                h = mix(h, b as u64);
            }
            h = mix(h, 1 << 40);
        }
    };
    for s in t {
        eat(s);
    }
    for s in &p.shared {
        eat(s);
    }
    for t in &p.tools {
        h = mix(h, mix(t.0.to_bits(), t.1.to_bits()));
    }
    h
}

pub fn hash_plan(p: &Plan) -> u64 {
    let mut h = mix(p.uni.hash, mix(p.uni.mem, p.uni.clock));
    for t in &p.threads {
        h = mix(h, 5);
        for k in t {
            h = mix(h, hash_task(p, k));
        }
    }
    h
}

impl Ctx {
    pub fn new() -> Ctx {
        Ctx { st: Stats::default(), cache: BTreeMap::new(), longest: 250_000_000, trace: 0 }
    }

    fn exec(&mut self, p: &Plan, budget: u64, snap: bool) -> Run {
        empty_scratch();
        self.exec_on(p, budget, snap)
    }

    /// Executes on whatever files an earlier execution left.
    fn exec_on(&mut self, p: &Plan, budget: u64, snap: bool) -> Run {
        let r = run_child(p, budget, snap);
        self.st.run(&r, p);
        self.trace = mix(self.trace, r.digest());
        r
    }

    /// The same calls, alone, first, in a process with the canonical environment.
    pub fn alone(&mut self, p: &Plan, task: &Task) -> Rc<Run> {
        // Once is enough.
        let mut task = task.clone();
        if rounds(&task) > 1 {
            task[0].i[0] = 1;
        }
        let task = &task;
        let key = hash_task(p, task);
        if let Some(r) = self.cache.get(&key) {
            return r.clone();
        }
        let q = Plan {
            prop: p.prop.clone(),
            seed: p.seed,
            uni: Universe::CANON,
            tools: p.tools.clone(),
            shared: p.shared.clone(),
            threads: vec![vec![task.clone()]],
            warm: false,
            sched: SchedCfg { seed: 0, strat: Strat::Serial, first_hit: 0 },
            kill_at: None,
            faults: vec![],
            repeat: 0,
            apart: 0,
            vary: 0,
            budget: p.budget,
        };
        #[cfg(feature = "py")]
        unsafe {
            NATIVE = true
        };
        let r = Rc::new(self.exec(&q, p.budget, false));
        #[cfg(feature = "py")]
        unsafe {
            NATIVE = false
        };
        self.st.add("reference_executions", 1);
        if self.cache.len() > 2000 {
            self.cache.clear();
        }
        self.cache.insert(key, r.clone());
        r
    }

    pub fn forget(&mut self) {
        self.cache.clear();
    }
}

fn explain(a: &[u64], b: &[u64]) -> String {
    format!("alone: {}; here: {}", exec::describe(a), exec::describe(b))
}

fn sg_note(st: &Step, a: &[u64], b: &[u64]) -> String {
    if matches!(st.op, Op::SgInfo | Op::PySg) && a.first() == Some(&0) && b.first() == Some(&0) && a[1] != b[1] {
        format!(" (space group {} alone, {} here)", a[1], b[1])
    } else {
        String::new()
    }
}

fn diff_class(a: &[u64], b: &[u64]) -> &'static str {
    match (a.first(), b.first()) {
        (Some(&0), Some(&1)) => "refused",
        (Some(&1), Some(&0)) => "answered-instead-of-refused",
        (Some(&1), Some(&1)) => "other-refusal",
        _ => "answer-differs",
    }
}

/// Judges one environment against the reference: same calls, nothing else in the process.
fn compare_env(p: &Plan, a: &Run, b: &Run) -> Option<(String, String)> {
    for ((t, k, n), o) in &b.outs {
        if let Some(x) = a.outs.get(&(*t, *k, *n)) {
            if x.words != o.words {
                let st = &p.threads[*t][*k][*n];
                return Some((
                    diff_class(&x.words, &o.words).into(),
                    format!("call {} ({}): {}{}", n, st.op.name(), explain(&x.words, &o.words), sg_note(st, &x.words, &o.words)),
                ));
            }
        }
    }
    unfinished(p, a, b)
}

/// One side finished with plenty of budget left, the other did not.
fn unfinished(p: &Plan, a: &Run, b: &Run) -> Option<(String, String)> {
    let quick = |r: &Run| r.done() && r.c.steps < p.budget / 3;
    if a.done() != b.done() && (quick(a) || quick(b)) && a.status != sim::ST_LIMIT && b.status != sim::ST_LIMIT {
        let class = match (a.status, b.status) {
            (ST_CRASH, _) | (_, ST_CRASH) => "crash",
            (_, sim::ST_DEADLOCK) | (sim::ST_DEADLOCK, _) => "deadlock",
            _ => "unfinished",
        };
        return Some((class.into(), format!("alone it {} ({} steps); here it {} ({} steps)", a.status_text(), a.c.steps, b.status_text(), b.c.steps)));
    }
    None
}

fn scale(frac: u64, total: u64) -> u64 {
    ((frac as u128 * total as u128) >> 20) as u64
}

/// Looks at the calls alone: drops those that never end, and sizes the schedule.
pub fn prepare(p: &mut Plan, cx: &mut Ctx) {
    let mut per: Vec<u64> = vec![];
    for t in 0..p.threads.len() {
        let mut sum = 0;
        for k in 0..p.threads[t].len() {
            let task = p.threads[t][k].clone();
            let r = cx.alone(p, &task);
            if r.done() {
                // Long repetitions within reason.
                let most = (cx.longest / r.c.steps.max(1)).max(1);
                if rounds(&task) > most {
                    p.threads[t][k][0].i[0] = most as i64;
                }
                sum += r.c.steps * rounds(&p.threads[t][k]);
            } else if matches!(p.prop.as_str(), "C01" | "C02" | "C03" | "C07") || fatal(p, &r).is_some() {
                sum += r.c.steps;
            } else {
                cx.st.add("calls_dropped_never_ending_alone", 1);
                p.threads[t][k] = vec![];
            }
        }
        per.push(sum);
    }
    let total: u64 = per.iter().sum();
    match &mut p.sched.strat {
        Strat::Pct { points } => points.iter_mut().for_each(|x| *x = scale(*x, total)),
        Strat::Stall { victim, at, .. } => *at = scale(*at, per.get(*victim).copied().unwrap_or(total)),
        _ => {}
    }
    if let Some(k) = &mut p.kill_at {
        *k = scale(*k, total).max(1);
    }
}

/// Ends that no call may have, not even alone.
fn fatal(p: &Plan, r: &Run) -> Option<(&'static str, String)> {
    match (p.prop.as_str(), r.status) {
        ("C08" | "C09", ST_CRASH) => Some(("crash", format!("a call made alone {}", r.status_text()))),
        ("C05" | "C09", sim::ST_DEADLOCK) => Some(("deadlock", format!("a call made alone {}", r.status_text()))),
        _ => None,
    }
}

fn run_budget(total: u64) -> u64 {
    total * 4 + 400_000
}

pub fn verdict(p: &Plan, cx: &mut Ctx) -> Option<Violation> {
    match p.prop.as_str() {
        "C01" | "C02" | "C03" => v_env(p, cx),
        "C04" | "C05" | "C08" | "C09" => v_threads(p, cx),
        "C06" => v_history(p, cx),
        "C07" => v_refused(p, cx),
        "C10" => v_held(p, cx),
        "C11" => v_traces(p, cx),
        _ => None,
    }
}

fn found(p: &Plan, class: &str, detail: String) -> Option<Violation> {
    Some(Violation { class: class.into(), detail, plan: p.clone() })
}

fn flags_of(p: &Plan, r: &Run) -> Option<(&'static str, String)> {
    if r.flags & exec::FLAG_SHARED != 0 && matches!(p.prop.as_str(), "C04" | "C05" | "C08") {
        return Some(("shared-input-changed", "a structure passed by shared reference was altered".into()));
    }
    if r.flags & exec::FLAG_GROUP != 0 && p.prop == "C03" {
        return Some(("incomplete-group", "the list of operations is not the group its generators make".into()));
    }
    if r.flags & exec::FLAG_OBJECT != 0 && p.prop == "C07" {
        return Some(("object-changed", "a refused change altered the object".into()));
    }
    if r.flags & exec::FLAG_ARGS != 0 && p.prop == "C09" {
        return Some(("arguments-changed", "a call altered its Python arguments".into()));
    }
    None
}

fn v_env(p: &Plan, cx: &mut Ctx) -> Option<Violation> {
    let a = cx.alone(p, &p.threads[0][0]);
    if let Some((c, d)) = flags_of(p, &a) {
        return found(p, c, d);
    }
    let b = cx.exec(p, p.budget, false);
    if a.outs.values().any(|o| o.words.first() == Some(&0) && o.words.len() > 30) {
        cx.st.distinct.insert(hash_plan(p));
    }
    let mut q = p.clone();
    if !matches!(q.sched.strat, Strat::Explicit(_)) && b.c.spawned > 0 {
        q.sched.strat = Strat::Explicit(b.log.clone());
        q.sched.first_hit = 0;
    }
    if let Some((c, d)) = flags_of(p, &b) {
        return found(&q, c, d);
    }
    compare_env(p, &a, &b).and_then(|(c, d)| found(&q, &c, d))
}

fn v_threads(p: &Plan, cx: &mut Ctx) -> Option<Violation> {
    let mut alone = vec![];
    let mut total = 0;
    for t in &p.threads {
        let v: Vec<Rc<Run>> = t.iter().map(|k| cx.alone(p, k)).collect();
        total += v.iter().zip(t).map(|(r, k)| r.c.steps * rounds(k)).sum::<u64>();
        alone.push(v);
    }
    if let Some((c, d)) = alone.iter().flatten().find_map(|r| fatal(p, r)) {
        return found(p, c, d);
    }
    if alone.iter().flatten().any(|r| !r.done()) {
        return None;
    }
    let b = cx.exec(p, run_budget(total), false);
    let mut q = p.clone();
    if !matches!(q.sched.strat, Strat::Explicit(_)) && (p.threads.len() > 1 || b.c.spawned > 0) {
        q.sched.strat = Strat::Explicit(b.log.clone());
        q.sched.first_hit = 0;
    }
    let nontrivial = if p.threads.len() > 1 { b.c.preempts > 0 } else { p.threads[0].len() > 1 };
    if nontrivial {
        cx.st.distinct.insert(mix(hash_plan(p), b.inter));
    }
    let faults_hit = p
        .faults
        .iter()
        .filter(|(t, k)| b.outs.iter().any(|(key, o)| key.0 == *t && key.1 == *k && o.words.first() == Some(&1)))
        .count();
    cx.st.add("failing_calls_injected", faults_hit as u64);
    if b.status == sim::ST_LIMIT {
        return None;
    }
    if !b.done() {
        let class = match b.status {
            sim::ST_DEADLOCK => "deadlock",
            ST_CRASH => "crash",
            _ => "no-progress",
        };
        return found(
            &q,
            class,
            format!("every call finishes alone ({total} steps in all), but together the threads {}", b.status_text()),
        );
    }
    if let Some((c, d)) = flags_of(p, &b) {
        return found(&q, c, d);
    }
    for ((t, k, n), o) in &b.outs {
        let a = match alone[*t][*k].outs.get(&(0, 0, *n)) {
            Some(a) => a,
            None => continue,
        };
        let st = &p.threads[*t][*k][*n];
        if p.prop == "C05" {
            if o.steps > a.steps * 4 + 60_000 {
                return found(
                    &q,
                    "slow-down",
                    format!("thread {t} call {k}.{n} ({}): {} steps alone, {} here", st.op.name(), a.steps, o.steps),
                );
            }
            cx.st.max("largest_step_ratio_percent", o.steps * 100 / (a.steps + 15_000));
        } else if o.words != a.words {
            return found(
                &q,
                diff_class(&a.words, &o.words),
                format!("thread {t} call {k}.{n} ({}): {}{}", st.op.name(), explain(&a.words, &o.words), sg_note(st, &a.words, &o.words)),
            );
        }
    }
    None
}

fn dec_structure(w: &[u64], slot: i64) -> Option<Step> {
    let mut p = 9;
    let mut f: Vec<f64> = w.get(..9)?.iter().map(|x| f64::from_bits(*x)).collect();
    let ns = *w.get(p)? as usize;
    p += 1;
    let mut s = vec![];
    for _ in 0..ns {
        s.push(exec::get_str(&w[p..]));
        p += 1 + (w[p] as usize).div_ceil(8);
    }
    let nc = *w.get(p)? as usize;
    p += 1;
    f.extend(w.get(p..p + 3 * nc)?.iter().map(|x| f64::from_bits(*x)));
    p += 3 * nc;
    let nf = *w.get(p)? as usize;
    p += 1;
    f.extend(w.get(p..p + 3 * nf)?.iter().map(|x| f64::from_bits(*x)));
    Some(Step { op: Op::Raw, i: vec![slot, ns as i64, nc as i64, nf as i64], f, s })
}

fn v_history(p: &Plan, cx: &mut Ctx) -> Option<Violation> {
    let mut alone = vec![];
    let mut total = 0;
    for k in &p.threads[0] {
        let r = cx.alone(p, k);
        total += r.c.steps * rounds(k);
        alone.push(r);
    }
    if alone.iter().any(|r| !r.done()) {
        return None;
    }
    let mut runs = vec![];
    if let Some(k) = p.kill_at {
        // The first process dies in the middle of a call; a second one starts over.
        let mut q = p.clone();
        q.uni = Universe::from_seed(mix(p.uni.hash, 99));
        let r = cx.exec(&q, k, true);
        if !r.done() {
            cx.st.add("process_kills", 1);
        }
        runs.push((r, true));
    }
    let restart = !runs.is_empty();
    let r = if restart { cx.exec_on(p, run_budget(total), true) } else { cx.exec(p, run_budget(total), true) };
    runs.push((r, false));
    if p.threads[0].iter().filter(|t| !t.is_empty()).count() > 2 {
        cx.st.distinct.insert(hash_plan(p));
    }
    cx.st.max("longest_history", p.threads[0].iter().map(rounds).sum());
    if !restart && runs[0].0.done() && !runs[0].0.io.is_empty() {
        // It leaves files: die right before some of the writes and start over.
        let mut q = p.clone();
        q.uni = Universe::from_seed(mix(p.uni.hash, 99));
        let io = cx.exec(&q, run_budget(total), false).io;
        let mut r = Rng::new(mix(p.seed, 77));
        for _ in 0..io.len().min(4) {
            let mut q = p.clone();
            q.kill_at = Some(io[r.idx(io.len())]);
            if let Some(v) = v_history(&q, cx) {
                return Some(v);
            }
        }
    }
    for (b, killed) in &runs {
        if b.status == sim::ST_LIMIT {
            continue;
        }
        for ((_, k, n), o) in &b.outs {
            let a = match alone[*k].outs.get(&(0, 0, *n)) {
                Some(a) => a,
                None => continue,
            };
            if a.words != o.words {
                let st = &p.threads[0][*k][*n];
                return found(
                    p,
                    diff_class(&a.words, &o.words),
                    format!(
                        "call {k}.{n} ({}) after {k} earlier tasks: {}{}",
                        st.op.name(),
                        explain(&a.words, &o.words),
                        sg_note(st, &a.words, &o.words)
                    ),
                );
            }
        }
        // Changed inputs may be among those on which the library never ends.
        let open = p.threads[0].iter().any(|k| rounds(k) > 1 && k[0].i[1] != 0);
        if !b.done() && !((*killed || open) && b.status == sim::ST_BUDGET) {
            let class = match b.status {
                sim::ST_DEADLOCK => "deadlock",
                ST_CRASH => "crash",
                _ => "unfinished",
            };
            return found(p, class, format!("every call finishes first in its process ({total} steps in all); this history {}", b.status_text()));
        }
    }
    // Calls inside longer programs, repeated on rebuilt operands in processes of their own.
    let b = &runs.last().unwrap().0;
    let keys: Vec<(usize, usize, usize)> = b
        .outs
        .keys()
        .filter(|(_, k, n)| *n > 1 && b.snaps.contains_key(&(0, *k, *n, 0)))
        .copied()
        .collect();
    let mut r = Rng::new(mix(p.seed, 4242));
    // Minimised plans are small; check all of them there.
    let all = keys.len() <= 6;
    for (idx, key) in keys.iter().enumerate() {
        if !all && !(r.below(keys.len() as u64) < 6) {
            continue;
        }
        let _ = idx;
        let st = &p.threads[0][key.1][key.2];
        let mut ops = vec![];
        for w in 0..2 {
            if let Some(s) = b.snaps.get(&(0, key.1, key.2, w)).and_then(|x| dec_structure(x, w as i64)) {
                ops.push(s);
            }
        }
        let n = ops.len();
        let task = gen::rebuild_task(st, &ops);
        let a = cx.alone(p, &task);
        cx.st.add("calls_repeated_on_rebuilt_operands", 1);
        if let (Some(x), Some(y)) = (a.outs.get(&(0, 0, n)), b.outs.get(key)) {
            if x.words != y.words {
                return found(
                    p,
                    diff_class(&x.words, &y.words),
                    format!("call {}.{} ({}) on an operand rebuilt field by field: {}", key.1, key.2, st.op.name(), explain(&x.words, &y.words)),
                );
            }
        }
    }
    None
}

fn v_refused(p: &Plan, cx: &mut Ctx) -> Option<Violation> {
    let b = cx.exec(p, p.budget, false);
    if let Some((c, d)) = flags_of(p, &b) {
        return found(p, c, d);
    }
    if b.status == sim::ST_LIMIT {
        return None;
    }
    let task = &p.threads[0][0];
    let refused = |n: usize| task[n].mutates() && b.outs.get(&(0, 0, n)).map_or(false, |o| o.words.first() == Some(&1));
    let keep: Vec<usize> = (0..task.len()).filter(|n| !refused(*n)).collect();
    if keep.len() == task.len() {
        return None;
    }
    cx.st.distinct.insert(hash_plan(p));
    cx.st.add("refused_changes", (task.len() - keep.len()) as u64);
    let mut q = p.clone();
    q.threads = vec![vec![keep.iter().map(|n| task[*n].clone()).collect()]];
    let a = cx.exec(&q, p.budget, false);
    for (m, n) in keep.iter().enumerate() {
        if let (Some(x), Some(y)) = (a.outs.get(&(0, 0, m)), b.outs.get(&(0, 0, *n))) {
            if x.words != y.words {
                return found(
                    p,
                    diff_class(&x.words, &y.words),
                    format!("call {n} ({}) after a refused change: without the refused call {}; with it {}", task[*n].op.name(), exec::describe(&x.words), exec::describe(&y.words)),
                );
            }
        }
    }
    unfinished(p, &a, &b).and_then(|(c, d)| found(p, &c, d))
}

/// Changes to the process, seen between calls while other calls are under way, and at the end.
fn v_traces(p: &Plan, cx: &mut Ctx) -> Option<Violation> {
    let mut total = 0;
    for k in p.threads.iter().flatten() {
        let r = cx.alone(p, k);
        if !r.done() {
            return None;
        }
        total += r.c.steps;
    }
    let b = cx.exec(p, run_budget(total), false);
    let mut q = p.clone();
    if !matches!(q.sched.strat, Strat::Explicit(_)) && (p.threads.len() > 1 || b.c.spawned > 0) {
        q.sched.strat = Strat::Explicit(b.log.clone());
        q.sched.first_hit = 0;
    }
    if !b.done() {
        return None;
    }
    if p.threads.iter().flatten().any(|k| !k.is_empty()) {
        cx.st.distinct.insert(mix(hash_plan(p), b.inter));
    }
    let refused = b.outs.values().filter(|o| o.words.first() == Some(&1)).count();
    cx.st.add("failing_calls_injected", refused as u64);
    for (i, what) in exec::TRACES.iter().enumerate() {
        if b.flags & exec::FLAG_TRACE << i != 0 {
            return found(&q, exec::TRACES[i], format!("calls changed {what}"));
        }
    }
    None
}

/// Growth that goes on: more held after every doubling of the number of rounds.
fn v_held(p: &Plan, cx: &mut Ctx) -> Option<Violation> {
    let mut total = 0;
    for k in &p.threads[0] {
        let r = cx.alone(p, k);
        if !r.done() {
            return None;
        }
        total += r.c.steps;
    }
    if p.threads[0].iter().all(|k| k.is_empty()) {
        return None;
    }
    let b = cx.exec(p, run_budget(total * p.repeat as u64), false);
    if b.status == sim::ST_LIMIT || p.vary > 0 && b.status == sim::ST_BUDGET {
        return None;
    }
    if !b.done() {
        let class = match b.status {
            sim::ST_DEADLOCK => "deadlock",
            ST_CRASH => "crash",
            sim::ST_MEM => "exhausted",
            _ => "unfinished",
        };
        return found(p, class, format!("every call finishes alone, but {} rounds of them {}", p.repeat, b.status_text()));
    }
    let at = |b: &Run, r: usize| {
        let key = if p.apart > 0 { (r - 1, 0, 0) } else { (0, r - 1, 0) };
        b.outs.get(&key).map(|o| o.words.clone())
    };
    let n = p.repeat;
    if let (Some(a), Some(b), Some(c), Some(d)) = (at(&b, n / 8), at(&b, n / 4), at(&b, n / 2), at(&b, n)) {
        cx.st.distinct.insert(hash_plan(p));
        cx.st.add("rounds", n as u64);
        cx.st.add("failing_calls_injected", (p.faults.iter().filter(|f| p.threads[0].get(f.1).map_or(false, |k| !k.is_empty())).count() * n) as u64);
        for (i, what) in ["bytes of memory", "blocks of memory", "threads", "open files", "files"].iter().enumerate() {
            if a[i] < b[i] && b[i] < c[i] && c[i] < d[i] {
                if p.vary > 0 && i != 2 && !keeps_growing(p, i, cx) {
                    continue;
                }
                // A store of bounded size fills up and stays full.
                let mut more = (200_000_000 / total.max(1)).min(1024) as usize / 8 * 8;
                if more < 256 && p.vary == 0 {
                    continue;
                }
                if i == 2 {
                    // The simulator has 64 threads.
                    more = 48;
                }
                if more > n && (p.vary == 0 || i == 2) {
                    let mut q = p.clone();
                    if p.apart > 0 {
                        q.apart = more.div_ceil(n);
                    } else {
                        q.repeat = more;
                    }
                    let l = cx.exec(&q, run_budget(total * more as u64), false);
                    let m = q.repeat;
                    let seq = [m / 8, m / 4, m / 2, m].map(|r| at(&l, r).map_or(0, |w| w[i]));
                    // Changed inputs may be among those on which the library never ends.
                    let open = p.vary > 0 && !l.done() && l.status != sim::ST_MEM;
                    if open || l.done() && !seq.windows(2).all(|w| w[0] < w[1]) {
                        continue;
                    }
                }
                return found(
                    p,
                    "accumulates",
                    format!("{what} in use after {}, {}, {} and {n} rounds of the same calls: {}, {}, {}, {}", n / 8, n / 4, n / 2, a[i], b[i], c[i], d[i]),
                );
            }
        }
        cx.st.max("largest_growth_bytes", d[0].saturating_sub(b[0]));
    }
    None
}

/// With new inputs in each round even a large store of bounded size may fill up: one of the tasks
/// must go on growing at about the same rate over thousands of rounds. Costly, so for few seeds.
fn keeps_growing(p: &Plan, i: usize, cx: &mut Ctx) -> bool {
    const ROUNDS: usize = 8192;
    for k in p.threads[0].iter().filter(|k| !k.is_empty()) {
        let steps = cx.alone(p, k).c.steps * ROUNDS as u64;
        if steps > 3_000_000_000 || mix(p.seed, 77) % (steps / 25_000_000).max(6) != 0 {
            continue;
        }
        let mut q = p.clone();
        q.threads = vec![vec![k.clone()]];
        q.faults = vec![];
        q.apart = 0;
        q.repeat = ROUNDS;
        let l = cx.exec(&q, 2 * steps + 400_000, false);
        if l.status == sim::ST_MEM {
            return true;
        }
        let s = [8, 4, 2, 1].map(|d| l.outs.get(&(0, ROUNDS / d - 1, 0)).map_or(0, |o| o.words[i]));
        if l.done() && s[0] < s[1] && s[1] < s[2] && s[2] < s[3] && 2 * (s[3] - s[2]) > s[2] - s[0] {
            return true;
        }
    }
    false
}

// ---------------------------------------------------------------- minimisation

/// Shrinks a violating plan while the same kind of violation remains.
pub fn minimise(v: Violation, cx: &mut Ctx, seconds: f64) -> Violation {
    let t0 = std::time::Instant::now();
    let mut best = v;
    let class = best.class.clone();
    fn attempt(q: Plan, class: &str, best: &mut Violation, cx: &mut Ctx) -> bool {
        match verdict(&q, cx) {
            Some(w) if w.class == class => {
                *best = Violation { class: w.class, detail: w.detail, plan: q };
                true
            }
            _ => false,
        }
    }
    let late = || t0.elapsed().as_secs_f64() > seconds;
    loop {
        let size0 = best.plan.to_text(&[]).len();
        macro_rules! go {
            ($q:expr) => {
                if late() {
                    return best;
                }
                attempt($q, &class, &mut best, cx);
            };
        }
        if best.plan.kill_at.is_some() {
            let mut q = best.plan.clone();
            q.kill_at = None;
            go!(q);
        }
        for c in 0..3 {
            let mut q = best.plan.clone();
            let f = match c {
                0 => &mut q.uni.clock,
                1 => &mut q.uni.mem,
                _ => &mut q.uni.hash,
            };
            if *f != 0 {
                *f = 0;
                go!(q);
            }
        }
        // whole threads and tasks (emptied, so that numbering and schedule keep their meaning)
        for t in 0..best.plan.threads.len() {
            if best.plan.threads[t].iter().any(|k| !k.is_empty()) {
                let mut q = best.plan.clone();
                q.threads[t].iter_mut().for_each(|k| k.clear());
                go!(q);
            }
        }
        for t in 0..best.plan.threads.len() {
            let mut w = best.plan.threads[t].len();
            while w > 0 {
                let mut k = 0;
                while k < best.plan.threads[t].len() {
                    let mut q = best.plan.clone();
                    let hi = (k + w).min(q.threads[t].len());
                    if q.threads[t][k..hi].iter().any(|x| !x.is_empty()) {
                        q.threads[t][k..hi].iter_mut().for_each(|x| x.clear());
                        go!(q);
                    }
                    k += w;
                }
                w /= 2;
            }
        }
        // trailing empty tasks and threads
        {
            let mut q = best.plan.clone();
            for t in q.threads.iter_mut() {
                while t.len() > 1 && t.last().map_or(false, |k| k.is_empty()) {
                    t.pop();
                }
            }
            while q.threads.len() > 1 && q.threads.last().map_or(false, |t| t.iter().all(|k| k.is_empty())) {
                q.threads.pop();
            }
            q.faults.retain(|(t, k)| q.threads.get(*t).map_or(false, |x| x.get(*k).map_or(false, |y| !y.is_empty())));
            if q.threads.len() == 1 && q.prop == "C06" {
                q.threads[0].retain(|k| !k.is_empty());
            }
            go!(q);
        }
        // schedule
        if let Strat::Explicit(l) = &best.plan.sched.strat {
            let mut w = l.len();
            while w > 0 {
                let mut k = 0;
                loop {
                    let l = match &best.plan.sched.strat {
                        Strat::Explicit(l) => l.clone(),
                        _ => vec![],
                    };
                    if k >= l.len() {
                        break;
                    }
                    let mut q = best.plan.clone();
                    let mut m = l.clone();
                    m.drain(k..(k + w).min(l.len()));
                    q.sched.strat = Strat::Explicit(m);
                    if late() {
                        return best;
                    }
                    if !attempt(q, &class, &mut best, cx) {
                        k += w;
                    }
                }
                w /= 2;
            }
        }
        // steps and sites
        for t in 0..best.plan.threads.len() {
            for k in 0..best.plan.threads[t].len() {
                let mut n = 0;
                while n < best.plan.threads[t][k].len() {
                    if best.plan.threads[t][k].len() > 1 {
                        let mut q = best.plan.clone();
                        q.threads[t][k].remove(n);
                        if late() {
                            return best;
                        }
                        if attempt(q, &class, &mut best, cx) {
                            continue;
                        }
                    }
                    while best.plan.threads[t][k][n].op == Op::Rep {
                        let c = best.plan.threads[t][k][n].i[0];
                        let mut less = false;
                        for d in [c / 2, c * 3 / 4, c * 15 / 16, c - 1] {
                            let mut q = best.plan.clone();
                            q.threads[t][k][n].i[0] = d;
                            if late() {
                                return best;
                            }
                            if d > 0 && d < c && attempt(q, &class, &mut best, cx) {
                                less = true;
                                break;
                            }
                        }
                        if !less {
                            break;
                        }
                    }
                    if best.plan.threads[t][k][n].op == Op::New {
                        let mut site = 0;
                        while site < best.plan.threads[t][k][n].s.len() {
                            let mut q = best.plan.clone();
                            let st = &mut q.threads[t][k][n];
                            if st.i[2] as usize != st.s.len() || st.s.len() < 2 {
                                break;
                            }
                            st.s.remove(site);
                            st.f.drain(9 + 3 * site..12 + 3 * site);
                            st.i[2] -= 1;
                            if late() {
                                return best;
                            }
                            if !attempt(q, &class, &mut best, cx) {
                                site += 1;
                            }
                        }
                    }
                    n += 1;
                }
            }
        }
        for s in 0..best.plan.shared.len() {
            let used = best.plan.threads.iter().flatten().flatten().any(|st| st.i.first().map_or(false, |x| *x == -1 - s as i64));
            if !used && best.plan.shared[s].s.len() > 1 {
                let mut q = best.plan.clone();
                q.shared[s].s.truncate(1);
                q.shared[s].f.truncate(12);
                q.shared[s].i[2] = 1;
                go!(q);
            }
        }
        if best.plan.to_text(&[]).len() >= size0 {
            return best;
        }
    }
}
