//! What one simulated execution does: calls, threads, environment, schedule. All of it is data that
//! can be generated from a seed, written to a replay file and shrunk.

use crate::sim::{SchedCfg, Strat, Switch, Universe};
use std::fmt::Write;

macro_rules! ops {
    ($($v:ident $s:literal),* $(,)?) => {
        #[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
        pub enum Op { $($v),* }
        pub const ALL_OPS: &[Op] = &[$(Op::$v),*];
        impl Op {
            pub fn name(self) -> &'static str { match self { $(Op::$v => $s),* } }
            pub fn parse(s: &str) -> Option<Op> { match s { $($s => Some(Op::$v),)* _ => None } }
        }
    };
}

// Operand conventions: structure operands are slot numbers, or -1-k for shared structure k.
ops! {
    New "new",                 // i: slot cart n        f: lattice(9) coords(3n)   s: species
    Raw "raw",                 // i: slot ns nc nf      f: lattice coords frac     s: species
    SgInfo "space_group_info", // i: src tools
    StdPrim "standard_primitive",     // i: src tools dst
    StdConv "standard_conventional",  // i: src tools dst
    FindPrim "find_primitive", // i: src tools dst
    Niggli "niggli",           // i: src tools dst      f: tol
    Delaunay "delaunay",       // i: src tools dst full
    Apply "transform",         // i: slot               f: m(9) tol
    Norm "normalise",          // i: slot               f: tol
    Obs "observe",             // i: src
    TMat "relate",             // i: src src
    PgNew "pointgroup",        // i: slot num
    PgApply "pg_transform",    // i: slot               f: m(9)
    SgNew "spacegroup",        // i: slot n rot(9n)     f: trans(3n) tol(3)
    SgApply "sg_transform",    // i: slot               f: m(9) tol(3)
    OpMul "op_mul",            // i: rot(18)            f: t(6) v(3) tol(3)
    Util "util",               // i: kind ...           f: ...
    PySg "py_space_group_info",
    PyPrim "py_find_primitive",
    PyNig "py_niggli",
    PyConv "py_standard_conventional",
    PyStdPrim "py_standard_primitive",
    PyBad "py_bad_arguments",
    Edit "edit",               // i: slot what n        f: amounts (public fields written by the caller)
    Fork "fork",               // goes on in a copy of the process
    Rep "repeat_rest",         // i: rounds vary        (the rest of the task, reported once)
}

#[derive(Clone, PartialEq, Debug)]
pub struct Step {
    pub op: Op,
    pub i: Vec<i64>,
    pub f: Vec<f64>,
    pub s: Vec<String>,
}

impl Step {
    pub fn new(op: Op, i: &[i64], f: &[f64], s: &[String]) -> Step {
        Step { op, i: i.to_vec(), f: f.to_vec(), s: s.to_vec() }
    }
    /// Operations that change an object in place.
    pub fn mutates(&self) -> bool {
        matches!(self.op, Op::Apply | Op::Norm | Op::PgApply | Op::SgApply)
    }
}

pub type Task = Vec<Step>;

/// How often a task is carried out.
pub fn rounds(t: &Task) -> u64 {
    t.first().filter(|s| s.op == Op::Rep).map_or(1, |s| s.i[0].max(1) as u64)
}

#[derive(Clone, Debug)]
pub struct Plan {
    pub prop: String,
    pub seed: u64,
    pub uni: Universe,
    pub tools: Vec<(f64, f64)>,
    pub shared: Vec<Step>,
    pub threads: Vec<Vec<Task>>,
    /// Touch every table before the threads start.
    pub warm: bool,
    pub sched: SchedCfg,
    /// Kill the process after this many steps, then start again in a new one.
    pub kill_at: Option<u64>,
    /// Steps that are faults: calls expected to be refused, as (thread, task).
    pub faults: Vec<(usize, usize)>,
    /// Make all calls of the first thread this many times over (0: once, and report answers) ...
    pub repeat: usize,
    /// ... in as many threads, one after the other, each doing this many rounds (0: in one thread).
    pub apart: usize,
    /// ... with inputs that differ from round to round in these respects (see exec::varied).
    pub vary: u64,
    pub budget: u64,
}

fn esc(s: &str) -> String {
    let mut o = String::from("'");
    for c in s.chars() {
        match c {
            ' ' => o.push_str("\\_"),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c => o.push(c),
        }
    }
    o
}
fn unesc(s: &str) -> String {
    let mut o = String::new();
    let mut it = s[1..].chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('_') => o.push(' '),
                Some('n') => o.push('\n'),
                Some(c) => o.push(c),
                None => {}
            }
        } else {
            o.push(c)
        }
    }
    o
}

pub fn step_text(s: &Step) -> String {
    let mut o = String::from(s.op.name());
    for v in &s.i {
        write!(o, " {v}").unwrap();
    }
    o.push_str(" |");
    for v in &s.f {
        write!(o, " {v:?}").unwrap();
    }
    o.push_str(" |");
    for v in &s.s {
        write!(o, " {}", esc(v)).unwrap();
    }
    o
}

fn parse_step(l: &str) -> Option<Step> {
    let mut parts = l.splitn(3, '|');
    let mut head = parts.next()?.split_whitespace();
    let op = Op::parse(head.next()?)?;
    let i = head.map(|x| x.parse().ok()).collect::<Option<Vec<i64>>>()?;
    let f = parts.next()?.split_whitespace().map(|x| x.parse().ok()).collect::<Option<Vec<f64>>>()?;
    let s = parts.next().unwrap_or("").split_whitespace().map(unesc).collect();
    Some(Step { op, i, f, s })
}

impl Plan {
    pub fn to_text(&self, note: &[String]) -> String {
        let mut o = String::from("# simx replay: one simulated execution, exactly repeatable\n");
        for n in note {
            for l in n.lines() {
                writeln!(o, "# {l}").unwrap();
            }
        }
        writeln!(o, "property {}", self.prop).unwrap();
        writeln!(o, "seed {}", self.seed).unwrap();
        writeln!(o, "universe {} {} {}", self.uni.hash, self.uni.mem, self.uni.clock).unwrap();
        writeln!(o, "budget {}", self.budget).unwrap();
        writeln!(o, "warm {}", self.warm as u8).unwrap();
        if let Some(k) = self.kill_at {
            writeln!(o, "kill_at {k}").unwrap();
        }
        if self.repeat > 0 {
            writeln!(o, "repeat {} {} {}", self.repeat, self.apart, self.vary).unwrap();
        }
        for t in &self.tools {
            writeln!(o, "tools {:?} {:?}", t.0, t.1).unwrap();
        }
        for f in &self.faults {
            writeln!(o, "fault {} {}", f.0, f.1).unwrap();
        }
        for s in &self.shared {
            writeln!(o, "shared {}", step_text(s)).unwrap();
        }
        for t in &self.threads {
            writeln!(o, "thread").unwrap();
            for k in t {
                writeln!(o, " task").unwrap();
                for s in k {
                    writeln!(o, "  {}", step_text(s)).unwrap();
                }
            }
        }
        let q = &self.sched;
        match &q.strat {
            Strat::Serial => writeln!(o, "sched {} {} serial", q.seed, q.first_hit).unwrap(),
            Strat::Random { mean } => writeln!(o, "sched {} {} random {mean}", q.seed, q.first_hit).unwrap(),
            Strat::Pct { points } => {
                write!(o, "sched {} {} pct", q.seed, q.first_hit).unwrap();
                for p in points {
                    write!(o, " {p}").unwrap();
                }
                writeln!(o).unwrap();
            }
            Strat::Stall { victim, at, mean } => {
                writeln!(o, "sched {} {} stall {victim} {at} {mean}", q.seed, q.first_hit).unwrap()
            }
            Strat::Meet { skip, short, mean, vars } => {
                writeln!(o, "sched {} {} meet {skip} {short} {mean} {vars}", q.seed, q.first_hit).unwrap()
            }
            Strat::Uneven { victim, mean, other } => {
                writeln!(o, "sched {} {} uneven {victim} {mean} {other}", q.seed, q.first_hit).unwrap()
            }
            Strat::Explicit(l) => {
                writeln!(o, "sched {} {} explicit", q.seed, q.first_hit).unwrap();
                for s in l {
                    let k = ["preempt", "block", "end"][s.kind as usize];
                    writeln!(o, " {k} thread {} at step {} -> thread {} (block {})", s.tid, s.local, s.to, s.site)
                        .unwrap();
                }
            }
        }
        o.push_str("end\n");
        o
    }

    pub fn parse(text: &str) -> Option<Plan> {
        let mut p = Plan {
            prop: String::new(),
            seed: 0,
            uni: Universe::CANON,
            tools: vec![],
            shared: vec![],
            threads: vec![],
            warm: false,
            sched: SchedCfg { seed: 0, strat: Strat::Serial, first_hit: 0 },
            kill_at: None,
            faults: vec![],
            repeat: 0,
            apart: 0,
            vary: 0,
            budget: 1_000_000,
        };
        for l in text.lines() {
            let l = l.trim();
            if l.is_empty() || l.starts_with('#') {
                continue;
            }
            let (k, r) = l.split_once(' ').unwrap_or((l, ""));
            let w: Vec<&str> = r.split_whitespace().collect();
            let num = |i: usize| w.get(i).and_then(|x| x.parse::<u64>().ok());
            match k {
                "property" => p.prop = r.to_string(),
                "seed" => p.seed = num(0)?,
                "universe" => p.uni = Universe { hash: num(0)?, mem: num(1)?, clock: num(2)? },
                "budget" => p.budget = num(0)?,
                "warm" => p.warm = num(0)? == 1,
                "kill_at" => p.kill_at = num(0),
                "repeat" => {
                    p.repeat = num(0)? as usize;
                    p.apart = num(1)? as usize;
                    p.vary = num(2).unwrap_or(0);
                }
                "tools" => p.tools.push((w[0].parse().ok()?, w[1].parse().ok()?)),
                "fault" => p.faults.push((num(0)? as usize, num(1)? as usize)),
                "shared" => p.shared.push(parse_step(r)?),
                "thread" => p.threads.push(vec![]),
                "task" => p.threads.last_mut()?.push(vec![]),
                "sched" => {
                    p.sched.seed = num(0)?;
                    p.sched.first_hit = num(1)? as u32;
                    p.sched.strat = match *w.get(2)? {
                        "serial" => Strat::Serial,
                        "random" => Strat::Random { mean: num(3)? },
                        "pct" => Strat::Pct { points: (3..w.len()).map(|i| num(i).unwrap_or(0)).collect() },
                        "stall" => Strat::Stall { victim: num(3)? as usize, at: num(4)?, mean: num(5)? },
                        "meet" => Strat::Meet { skip: num(3)?, short: num(4)?, mean: num(5)?, vars: num(6)? },
                        "uneven" => Strat::Uneven { victim: num(3)? as usize, mean: num(4)?, other: num(5)? },
                        _ => Strat::Explicit(vec![]),
                    }
                }
                "preempt" | "block" | "end" if w.len() > 6 => {
                    if let Strat::Explicit(v) = &mut p.sched.strat {
                        v.push(Switch {
                            tid: num(1)? as u16,
                            local: num(4)?,
                            to: num(7)? as u16,
                            kind: match k {
                                "preempt" => 0,
                                "block" => 1,
                                _ => 2,
                            },
                            site: w.get(9).and_then(|x| x.trim_end_matches(')').parse().ok()).unwrap_or(0),
                        });
                    }
                }
                "end" => {}
                _ => p.threads.last_mut()?.last_mut()?.push(parse_step(l)?),
            }
        }
        Some(p)
    }
}
