mod exec;
mod gen;
mod plan;
#[cfg(feature = "py")]
mod py;
mod rng;
mod run;
mod sgdata;
mod sim;

use crate::plan::{step_text, Plan};
use crate::rng::mix;
use run::{Ctx, Violation};
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;
use std::io::{Read, Write};
use std::os::fd::FromRawFd;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::time::Instant;

#[global_allocator]
static GLOBAL: sim::SimAlloc = sim::SimAlloc;

const PER_INPUT: u64 = 4;

fn prop_no(p: &str) -> u64 {
    p.bytes().fold(7, |h, b| mix(h, b as u64))
}

/// One seed: everything that happens follows from it.
fn one(prop: &str, seed: u64, thorough: bool, cx: &mut Ctx) -> Option<Violation> {
    cx.forget();
    let mut p = gen::plan(prop, seed, thorough);
    run::prepare(&mut p, cx);
    if cx.st.samples.len() < 2 {
        let mut s = format!("seed {seed}: {} thread(s)", p.threads.len());
        for (t, k) in p.threads.iter().enumerate() {
            write!(s, "; thread {t}: {}", k.iter().map(|k| k.iter().map(|x| x.op.name()).collect::<Vec<_>>().join("+")).collect::<Vec<_>>().join(", ")).unwrap();
        }
        write!(s, "; schedule {:?}", p.sched.strat).unwrap();
        if let Some(x) = p.threads[0].first().and_then(|k| k.first()) {
            write!(s, "; first call {}", step_text(x)).unwrap();
        }
        s = s.chars().take(900).collect();
        cx.st.samples.push(s);
    }
    if matches!(prop, "C01" | "C02" | "C03") {
        for j in 0..PER_INPUT {
            let mut q = p.clone();
            q.uni = sim::Universe::from_seed(mix(seed, 100 + j));
            q.sched.seed = mix(p.sched.seed, j);
            let v = run::verdict(&q, cx);
            cx.st.add("runs", 1);
            if v.is_some() {
                return v;
            }
            // A call that never ends is worth one more look, not four.
            if !cx.alone(&p, &p.threads[0][0]).done() {
                break;
            }
        }
        None
    } else {
        // Several schedules and environments per workload.
        let n = if p.threads.len() > 1 { 3 } else { 1 };
        for j in 0..n {
            let mut q = p.clone();
            if j > 0 {
                q.sched.seed = mix(p.sched.seed, j);
                q.uni = sim::Universe::from_seed(mix(seed, 200 + j));
                if let sim::Strat::Pct { points } = &mut q.sched.strat {
                    let mut r = rng::Rng::new(mix(seed, 300 + j));
                    let top = points.iter().max().copied().unwrap_or(1000).max(1000);
                    points.iter_mut().for_each(|x| *x = r.below(top * 5 / 4));
                    points.sort();
                }
            }
            let v = run::verdict(&q, cx);
            cx.st.add("runs", 1);
            if v.is_some() {
                return v;
            }
        }
        None
    }
}

fn scratch_root() -> std::path::PathBuf {
    let exe = std::env::current_exe().unwrap_or_default();
    // <here>/target/<kind>/simx
    exe.parent().and_then(|p| p.parent()).map(|p| p.join("scratch")).unwrap_or_else(|| "/nonexistent".into())
}

fn start_worker() {
    sim::init_parent();
    let d = scratch_root().join(format!("w{}", unsafe { libc::getpid() }));
    let made = run::PLACES.iter().all(|p| std::fs::create_dir_all(d.join(p)).is_ok());
    if made && std::env::set_current_dir(d.join(run::PLACES[0])).is_ok() {
        // Relative: the same text in every worker.
        for (k, p) in [("TMPDIR", 1), ("HOME", 2), ("XDG_CACHE_HOME", 2)] {
            std::env::set_var(k, format!("../{}", run::PLACES[p]));
        }
        let b = d.as_os_str().as_encoded_bytes();
        if b.len() < 500 {
            unsafe {
                sim::SCRATCH[..b.len()].copy_from_slice(b);
                sim::SCRATCH[b.len()] = b'/';
            }
        }
        unsafe { run::SCRATCH = Some(d) };
    }
}

#[allow(static_mut_refs)]
fn end_worker() {
    run::empty_scratch();
    let _ = std::env::set_current_dir("/");
    if let Some(d) = unsafe { run::SCRATCH.take() } {
        for p in run::PLACES {
            let _ = std::fs::remove_dir(d.join(p));
        }
        let _ = std::fs::remove_dir(d);
    }
}

/// Addresses must repeat from run to run: execute again without address randomisation.
fn fixed_addresses() {
    unsafe {
        let p = libc::personality(0xffff_ffff);
        if p != -1 && p & 0x004_0000 == 0 && std::env::var_os("SIMX_EXEC").is_none() && libc::personality(p as u64 | 0x004_0000) != -1 {
            use std::os::unix::process::CommandExt;
            let e = std::process::Command::new("/proc/self/exe").args(std::env::args_os().skip(1)).env("SIMX_EXEC", "1").exec();
            eprintln!("cannot execute again: {e}");
        }
    }
}

struct Merged {
    n: BTreeMap<String, u64>,
    refusals: BTreeMap<String, u64>,
    calls: BTreeMap<String, u64>,
    distinct: BTreeSet<u64>,
    inters: BTreeSet<u64>,
    samples: Vec<String>,
    cov: usize,
    viol: Vec<(u64, u64)>,
    digests: BTreeMap<u64, u64>,
    failed: bool,
}

/// Runs seeds 0..runs of a property on `workers` processes.
fn explore(prop: &str, base: u64, runs: u64, secs: f64, workers: u64, thorough: bool, digests: bool) -> Merged {
    let t0 = Instant::now();
    let stop: &AtomicU64 = unsafe {
        let p = libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0);
        &*(p as *const AtomicU64)
    };
    stop.store(u64::MAX, SeqCst);
    let mut kids = vec![];
    for w in 0..workers {
        let mut fds = [0; 2];
        unsafe { libc::pipe(fds.as_mut_ptr()) };
        let pid = unsafe { libc::fork() };
        if pid == 0 {
            unsafe { libc::close(fds[0]) };
            let mut out = unsafe { std::fs::File::from_raw_fd(fds[1]) };
            start_worker();
            let mut cx = Ctx::new();
            if thorough {
                cx.longest *= 4;
            }
            let mut text = String::new();
            let mut i = w;
            while i < runs && i < stop.load(SeqCst) && t0.elapsed().as_secs_f64() < secs {
                let seed = mix(base, i);
                cx.trace = 0;
                let v = one(prop, seed, thorough, &mut cx);
                cx.st.add("seeds", 1);
                if digests {
                    writeln!(text, "d {i} {}", cx.trace).unwrap();
                }
                if v.is_some() {
                    writeln!(text, "v {i} {seed}").unwrap();
                    stop.fetch_min(i, SeqCst);
                    break;
                }
                i += workers;
            }
            for (k, v) in &cx.st.n {
                writeln!(text, "n {v} {k}").unwrap();
            }
            for (k, v) in &cx.st.refusals {
                writeln!(text, "r {v} {}", k.replace('\n', " ")).unwrap();
            }
            for (k, v) in &cx.st.calls {
                writeln!(text, "c {v} {k}").unwrap();
            }
            for h in &cx.st.distinct {
                writeln!(text, "h {h}").unwrap();
            }
            for h in &cx.st.inters {
                writeln!(text, "i {h}").unwrap();
            }
            for s in &cx.st.samples {
                writeln!(text, "s {}", s.replace('\n', " ")).unwrap();
            }
            text.push_str("cov ");
            for b in sim::sh().cov.iter() {
                text.push(if *b != 0 { '1' } else { '0' });
            }
            text.push_str("\nfin\n");
            end_worker();
            let _ = out.write_all(text.as_bytes());
            drop(out);
            unsafe { libc::_exit(0) };
        }
        unsafe { libc::close(fds[1]) };
        kids.push((pid, fds[0]));
    }
    let mut m = Merged {
        n: BTreeMap::new(),
        refusals: BTreeMap::new(),
        calls: BTreeMap::new(),
        distinct: BTreeSet::new(),
        inters: BTreeSet::new(),
        samples: vec![],
        cov: 0,
        viol: vec![],
        digests: BTreeMap::new(),
        failed: false,
    };
    let mut cov = vec![false; sim::COVN];
    for (pid, fd) in kids {
        let mut f = unsafe { std::fs::File::from_raw_fd(fd) };
        let mut s = String::new();
        let _ = f.read_to_string(&mut s);
        let mut st = 0;
        unsafe { libc::waitpid(pid, &mut st, 0) };
        if !s.ends_with("fin\n") {
            m.failed = true;
            eprintln!("worker ended early (status {st})");
        }
        for l in s.lines() {
            let (k, r) = l.split_once(' ').unwrap_or((l, ""));
            match k {
                "n" | "r" | "c" => {
                    let (v, name) = r.split_once(' ').unwrap_or((r, ""));
                    let v: u64 = v.parse().unwrap_or(0);
                    let t = match k {
                        "n" => &mut m.n,
                        "r" => &mut m.refusals,
                        _ => &mut m.calls,
                    };
                    let e = t.entry(name.into()).or_default();
                    if k == "n" && (name.starts_with("largest") || name.starts_with("longest")) {
                        *e = (*e).max(v);
                    } else {
                        *e += v;
                    }
                }
                "h" => {
                    m.distinct.insert(r.parse().unwrap_or(0));
                }
                "i" => {
                    m.inters.insert(r.parse().unwrap_or(0));
                }
                "s" => m.samples.push(r.into()),
                "d" | "v" => {
                    let (a, b) = r.split_once(' ').unwrap();
                    let (a, b) = (a.parse().unwrap(), b.parse().unwrap());
                    if k == "d" {
                        m.digests.insert(a, b);
                    } else {
                        m.viol.push((a, b));
                    }
                }
                "cov" => r.bytes().enumerate().for_each(|(i, b)| cov[i] |= b == b'1'),
                _ => {}
            }
        }
    }
    m.cov = cov.iter().filter(|b| **b).count();
    m.viol.sort();
    m
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => write!(o, "\\u{:04x}", c as u32).unwrap(),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn jmap(m: &BTreeMap<String, u64>) -> String {
    let v: Vec<String> = m.iter().map(|(k, v)| format!("{}: {v}", js(k))).collect();
    format!("{{{}}}", v.join(", "))
}

fn rule(prop: &str) -> &'static str {
    match prop {
        "C01" | "C02" | "C03" => "One evaluation runs one generated input in one simulated environment (hash keys, memory layout and contents, clock) and compares it bit for bit with the canonical environment. Distinct and non-trivial: a new (input, environment) pair whose reference gave an answer of more than 30 words, not a refusal.",
        "C04" | "C05" => "One evaluation runs 2 to 4 threads of generated calls under one seeded schedule and compares each call with the same call alone. Distinct and non-trivial: a new (workload, interleaving) pair with at least one preemption inside a library call.",
        "C06" => "One evaluation runs one generated history of calls in one process (some killed and restarted) and compares each call with the same call made first in a fresh process. Distinct and non-trivial: a new history of more than two calls.",
        "C07" => "One evaluation runs one session of valid and invalid changes on an object and compares it with the session without the refused calls. Distinct and non-trivial: a new session in which at least one change was refused.",
        "C08" => "One evaluation runs good and failing calls in 1 to 3 threads and compares each with the same call alone. Distinct and non-trivial: a new workload with a preemption inside a call (several threads) or more than one call (one thread).",
        "C10" => "One evaluation repeats one generated set of good and failing calls 16 to 64 times, in one thread or each time in a new thread, and compares what the process holds after n/8, n/4, n/2 and n rounds. Distinct and non-trivial: a new set of calls whose measurements are complete.",
        "C11" => "One evaluation runs good and failing calls in 1 to 3 threads under one seeded schedule and looks at the process after every task of every thread, while other threads are in the middle of calls, and at the end. Distinct and non-trivial: a new pair of program and interleaving that ran to its end.",
        _ => "One evaluation runs Python-level calls in 1 to 3 Python threads and compares each with the Rust API in a fresh process. Distinct and non-trivial: a new workload with more than one call or a preemption.",
    }
}

#[allow(clippy::too_many_arguments)]
fn evidence(path: &str, prop: &str, tier: &str, seed: u64, m: &Merged, wall: f64, viol: usize, workers: u64) {
    let g = |k: &str| m.n.get(k).copied().unwrap_or(0);
    let per_h = |x: u64| (x as f64 * 3600.0 / wall.max(0.001)) as u64;
    let mut faults: BTreeMap<String, u64> = BTreeMap::new();
    for (k, name) in [
        ("hash_universes", "hash keys chosen by the seed (executions)"),
        ("memory_layouts", "memory layout and contents chosen by the seed (executions)"),
        ("recycled_allocations", "recycled memory handed out"),
        ("entropy_eintr", "entropy read interrupted"),
        ("preemptions", "thread preempted inside a call"),
        ("meetings", "two threads brought to the same place of the code"),
        ("stalls", "thread stalled until nobody else could run"),
        ("spurious_wakeups", "spurious wake-up"),
        ("futex_waits", "caller made to wait for another thread"),
        ("clock_jumps", "clock jump"),
        ("process_kills", "process killed in the middle of a call and restarted"),
        ("failing_calls_injected", "failing call injected beside good ones"),
        ("refused_changes", "refused change injected into a session"),
        ("short_writes", "file write cut short"),
        ("forks", "process forked between calls, history continued in the copy"),
        ("processor_counts", "number of processors chosen by the seed (queries)"),
        ("thread_exit_actions", "thread-exit destructor run under the scheduler"),
        ("lock_waits", "wait for the interpreter lock or another lock"),
    ] {
        faults.insert(name.into(), g(k));
    }
    let mut status: BTreeMap<String, u64> = BTreeMap::new();
    for (k, v) in &m.n {
        if let Some(s) = k.strip_prefix("status_") {
            status.insert(s.into(), *v);
        }
    }
    let samples: Vec<String> = m.samples.iter().take(4).map(|s| js(s)).collect();
    let mut o = String::new();
    write!(
        o,
        "{{\n \"property\": {}, \"tier\": {}, \"seed\": {seed}, \"level\": \"exploration\", \"wall_s\": {wall:.2}, \"violations\": {viol},\n \"coverage\": {{\n",
        js(prop),
        js(tier)
    )
    .unwrap();
    writeln!(o, "  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},", g("runs"), m.distinct.len(), js(rule(prop))).unwrap();
    writeln!(o, "  \"samples\": [{}],", samples.join(",\n   ")).unwrap();
    writeln!(o, "  \"seeds\": {}, \"seeds_per_hour\": {}, \"simulated_runs\": {}, \"simulated_runs_per_hour\": {}, \"worker_processes\": {workers},", g("seeds"), per_h(g("seeds")), g("executions"), per_h(g("executions"))).unwrap();
    writeln!(o, "  \"reference_executions\": {}, \"simulated_steps\": {}, \"simulated_seconds\": {:.3},", g("reference_executions"), g("steps"), g("sim_ns") as f64 / 1e9).unwrap();
    writeln!(o, "  \"distinct_interleavings\": {}, \"interleaving_measure\": \"hash of the sequence (thread, basic block, own step count, next thread) over all switches of an execution with several threads\",", m.inters.len()).unwrap();
    writeln!(o, "  \"basic_blocks_reached\": {}, \"basic_blocks_total\": {},", m.cov, sim::nguards()).unwrap();
    writeln!(o, "  \"faults_injected\": {},", jmap(&faults)).unwrap();
    writeln!(o, "  \"calls_made\": {},", jmap(&m.calls)).unwrap();
    writeln!(o, "  \"refusals_seen\": {},", jmap(&m.refusals)).unwrap();
    writeln!(o, "  \"execution_outcomes\": {},", jmap(&status)).unwrap();
    writeln!(o, "  \"calls_dropped_never_ending_alone\": {}, \"calls_repeated_on_rebuilt_operands\": {}, \"longest_history\": {}, \"rounds\": {}, \"largest_growth_bytes\": {}, \"largest_step_ratio_percent\": {}, \"clock_reads_by_library\": {}, \"entropy_reads_by_library\": {},",
        g("calls_dropped_never_ending_alone"), g("calls_repeated_on_rebuilt_operands"), g("longest_history"), g("rounds"), g("largest_growth_bytes"), g("largest_step_ratio_percent"), g("clock_reads"), g("entropy_reads")).unwrap();
    let py = if prop == "C09" { ", the Python bindings, pyo3 and the CPython interpreter" } else { "" };
    writeln!(o, "  \"real_code\": [{}],", js(&format!("all of cryst-symm from /repo's working tree, nalgebra, itertools, lazy_static, Rust std incl. Once/Mutex/HashMap/panic machinery, kernel threads{py}"))).unwrap();
    writeln!(o, "  \"stubbed\": [{}]", js("thread scheduling, futex system call, getrandom, clocks and sleeps, thread creation, join and exit, heap allocator, process id, processor count, environment variables")).unwrap();
    o.push_str(" },\n \"assumptions\": [\"Interleavings are explored at basic-block granularity with sequentially consistent memory.\", \"Sampling, not enumeration: a clean run is evidence, not proof.\"]\n}\n");
    let tmp = format!("{path}.tmp");
    if let Some(d) = std::path::Path::new(path).parent() {
        let _ = std::fs::create_dir_all(d);
    }
    std::fs::write(&tmp, o).and_then(|_| std::fs::rename(&tmp, path)).expect("cannot write evidence");
}

/// Runs `f` in a worker process of its own and returns its text.
fn in_worker(f: impl FnOnce() -> String) -> Option<String> {
    let mut fds = [0; 2];
    unsafe { libc::pipe(fds.as_mut_ptr()) };
    let pid = unsafe { libc::fork() };
    if pid == 0 {
        start_worker();
        let s = f();
        end_worker();
        let mut out = unsafe { std::fs::File::from_raw_fd(fds[1]) };
        let _ = out.write_all(s.as_bytes());
        let _ = out.write_all(b"\nfin\n");
        unsafe { libc::_exit(0) };
    }
    unsafe { libc::close(fds[1]) };
    let mut f = unsafe { std::fs::File::from_raw_fd(fds[0]) };
    let mut s = String::new();
    let _ = f.read_to_string(&mut s);
    let mut st = 0;
    unsafe { libc::waitpid(pid, &mut st, 0) };
    s.strip_suffix("\nfin\n").map(|x| x.to_string())
}

fn main() {
    fixed_addresses();
    let debug = std::env::var_os("SIMX_DEBUG").is_some();
    std::panic::set_hook(Box::new(move |i| {
        exec::HOOKED.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        if debug {
            eprintln!("{i}");
        }
    }));
    let a: Vec<String> = std::env::args().collect();
    let arg = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    let num = |k: &str, d: u64| arg(k).and_then(|x| x.parse().ok()).unwrap_or(d);
    #[cfg(feature = "py")]
    py::init();
    match a.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let prop = a[2].clone();
            let tier = arg("--tier").unwrap_or("quick".into());
            let seed = num("--seed", 1);
            let workers = num("--workers", 8);
            let runs = num("--runs", 1000);
            let secs = num("--secs", 60) as f64;
            let ev = arg("--evidence").unwrap_or(format!("evidence/{prop}.json"));
            let rdir = arg("--replays").unwrap_or("replays".into());
            let t0 = Instant::now();
            let base = mix(seed, prop_no(&prop));
            let thorough = tier == "thorough";
            let m = explore(&prop, base, runs, secs, workers, thorough, false);
            if m.failed {
                eprintln!("simulation worker failed");
                std::process::exit(3);
            }
            let wall = t0.elapsed().as_secs_f64();
            evidence(&ev, &prop, &tier, seed, &m, wall, m.viol.len().min(1), workers);
            if let Some((i, s)) = m.viol.first().copied() {
                let p2 = prop.clone();
                let text = in_worker(move || {
                    let mut cx = Ctx::new();
                    match one(&p2, s, thorough, &mut cx) {
                        Some(v) => {
                            let first = v.detail.clone();
                            let v = run::minimise(v, &mut cx, if thorough { 120.0 } else { 40.0 });
                            let again = run::verdict(&v.plan, &mut cx);
                            let ok = again.map_or(false, |w| w.class == v.class);
                            v.plan.to_text(&[
                                format!("violation of {p2}: {}", v.class),
                                v.detail.clone(),
                                format!("found as run {i} (seed {s}); first seen as: {first}"),
                                format!("minimised; repeats on re-execution: {ok}"),
                            ])
                        }
                        None => String::new(),
                    }
                });
                let text = text.filter(|t| !t.is_empty());
                let _ = std::fs::create_dir_all(&rdir);
                let path = format!("{rdir}/{prop}-{s:016x}.txt");
                match text {
                    Some(t) => std::fs::write(&path, &t).expect("cannot write replay"),
                    None => {
                        // The seed alone repeats it; keep the unminimised plan.
                        std::fs::write(&path, format!("# not minimised\nproperty {prop}\nrerun {s} {}\n", thorough as u8)).expect("cannot write replay")
                    }
                }
                for l in std::fs::read_to_string(&path).unwrap_or_default().lines().take_while(|l| l.starts_with('#')) {
                    println!("{l}");
                }
                println!("VIOLATION property={prop} replay={path}");
                std::process::exit(1);
            }
            println!(
                "{prop}: held in {} runs ({} seeds, {} executions, {} distinct) in {wall:.1} s",
                m.n.get("runs").unwrap_or(&0),
                m.n.get("seeds").unwrap_or(&0),
                m.n.get("executions").unwrap_or(&0),
                m.distinct.len()
            );
        }
        Some("replay") => {
            let text = std::fs::read_to_string(&a[2]).expect("cannot read replay");
            let rerun = text.lines().find_map(|l| l.strip_prefix("rerun ")).map(|s| s.to_string());
            let p = Plan::parse(&text).expect("cannot parse replay");
            let prop = p.prop.clone();
            let path = a[2].clone();
            let out = in_worker(move || {
                let mut cx = Ctx::new();
                let v = match rerun {
                    Some(r) => {
                        let w: Vec<u64> = r.split(' ').map(|x| x.parse().unwrap()).collect();
                        one(&p.prop, w[0], w[1] == 1, &mut cx)
                    }
                    None => run::verdict(&p, &mut cx),
                };
                match v {
                    Some(v) => format!("{}: {}\ntrace digest {:016x}\nVIOLATED", v.class, v.detail, cx.trace),
                    None => format!("no violation\ntrace digest {:016x}", cx.trace),
                }
            });
            let out = out.unwrap_or_else(|| std::process::exit(3));
            println!("{}", out.trim_end_matches("\nVIOLATED"));
            if out.ends_with("VIOLATED") {
                println!("VIOLATION property={prop} replay={path}");
                std::process::exit(1);
            }
        }
        Some("digest") => {
            let prop = a[2].clone();
            let m = explore(&prop, mix(num("--seed", 1), prop_no(&prop)), num("--runs", 100), 1e9, num("--workers", 8), false, true);
            let mut h = 0;
            for (k, v) in &m.digests {
                println!("{k} {v:016x}");
                h = mix(h, *v);
            }
            println!("total {h:016x} runs {} violations {}", m.digests.len(), m.viol.len());
        }
        Some("plan") => {
            let prop = a[2].clone();
            let s = in_worker(move || {
                let mut cx = Ctx::new();
                let mut p = gen::plan(&prop, num("--plan-seed", 1), false);
                run::prepare(&mut p, &mut cx);
                p.to_text(&[])
            });
            println!("{}", s.unwrap_or_default());
        }
        _ => {
            eprintln!("usage: simx check|replay|digest|plan ...");
            std::process::exit(2);
        }
    }
}
