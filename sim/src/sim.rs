//! The simulated world: scheduler, clock, entropy, futexes, threads and memory.
//!
//! One simulated execution is one forked child. Its threads are real, but exactly one holds the
//! token and runs; the token changes hands only here. Every basic block of the library calls
//! `__sanitizer_cov_trace_pc_guard`, which is the unit of simulated work and the place where a
//! thread can be preempted. The C symbols through which Rust's standard library reaches the
//! outside world are defined below and served from the seed.

use crate::rng::{mix, Rng};
use std::alloc::{GlobalAlloc, Layout};
use std::arch::asm;
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicU32, Ordering::SeqCst};

pub const MAXT: usize = 64;
pub const COVN: usize = 1 << 16;
pub const MAXLOG: usize = 1 << 17;
pub const MAXOUT: usize = 1 << 21;
const ARENA_BASE: usize = 0x5100_0000_0000;
const ARENA_SIZE: usize = 768 << 20;
const STACK_BASE: usize = 0x5200_0000_0000;

pub const ST_NONE: u32 = 0;
pub const ST_DONE: u32 = 1;
pub const ST_BUDGET: u32 = 2;
pub const ST_MEM: u32 = 3;
pub const ST_DEADLOCK: u32 = 4;
pub const ST_LIMIT: u32 = 5;

#[derive(Clone, Copy, PartialEq, Debug, Default)]
#[repr(C)]
pub struct Switch {
    pub tid: u16,
    pub to: u16,
    /// 0 preemption, 1 the thread blocked, 2 the thread ended
    pub kind: u16,
    pub site: u16,
    pub local: u64,
}

/// Counters of one execution, written by the child, read by its parent.
#[repr(C)]
#[derive(Clone, Copy, Default)]
pub struct Counters {
    pub steps: u64,
    pub switches: u64,
    pub preempts: u64,
    pub first_hits: u64,
    pub stdout_bytes: u64,
    pub short_writes: u64,
    pub shared_points: u64,
    pub getrandom: u64,
    pub eintr: u64,
    pub clock_reads: u64,
    pub clock_jumps: u64,
    pub sleeps: u64,
    pub futex_waits: u64,
    pub futex_wakes: u64,
    pub spurious: u64,
    pub lock_waits: u64,
    pub spawned: u64,
    pub allocs: u64,
    pub arena_fresh: u64,
    pub recycled: u64,
    pub sim_ns: u64,
    pub stalls: u64,
    pub meetings: u64,
    pub forks: u64,
    pub cpu_counts: u64,
    pub env_answers: u64,
    pub redirected: u64,
    pub open_failures: u64,
    pub write_failures: u64,
    pub exit_actions: u64,
}

#[repr(C)]
pub struct Shared {
    pub status: u32,
    pub inter_hash: u64,
    pub c: Counters,
    pub nlog: u64,
    pub nout: u64,
    pub flags: u64,
    pub dead_note: [u64; MAXT],
    /// Steps at which files were written, renamed and so on.
    pub io: [u64; 32],
    pub nio: u64,
    pub cov: [u8; COVN],
    pub log: [Switch; MAXLOG],
    pub out: [u64; MAXOUT],
}

#[derive(Clone, Debug, PartialEq)]
pub enum Strat {
    /// Run each thread to its end before the next.
    Serial,
    /// Random slice lengths with this mean, uniform choice of the next thread.
    Random { mean: u64 },
    /// Random priorities, lowered at a few random steps.
    Pct { points: Vec<u64> },
    /// One thread stops at a step of its own and gets the token back only when nobody else can run.
    Stall { victim: usize, at: u64, mean: u64 },
    /// One thread gets other slices than the rest, and every second turn.
    Uneven { victim: usize, mean: u64, other: u64 },
    /// A thread that comes to a new place is held there until another one comes to the same place;
    /// then both go on in slices of mean length `short`.
    /// Places are shared variables only, or all blocks.
    Meet { skip: u64, short: u64, mean: u64, vars: u64 },
    /// Exactly these switches.
    Explicit(Vec<Switch>),
}

#[derive(Clone, Debug, PartialEq)]
pub struct SchedCfg {
    pub seed: u64,
    pub strat: Strat,
    /// Probability (of 65536) of a preemption when a block runs for the first time in this execution.
    pub first_hit: u32,
}

/// Environment seeds: entropy (hash keys), memory layout and contents, clock.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Universe {
    pub hash: u64,
    pub mem: u64,
    pub clock: u64,
}

impl Universe {
    pub const CANON: Universe = Universe { hash: 0, mem: 0, clock: 0 };
    pub fn from_seed(s: u64) -> Universe {
        Universe { hash: mix(s, 1) | 1, mem: mix(s, 2) | 1, clock: mix(s, 3) | 1 }
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Unused,
    Run,
    Futex(usize),
    Join(usize),
    Sleep,
    Done,
    /// Was not copied by a fork.
    Gone,
}

struct Sim {
    cur: usize,
    nth: usize,
    budget: u64,
    thread_budget: u64,
    lsteps: [u64; MAXT],
    /// Time that each thread slept or waited in vain beyond the time that others ran.
    slept: [u64; MAXT],
    /// Steps of each thread between yields while others ran, and own and all steps at its last yield.
    spun: [u64; MAXT],
    yielded: [(u64, u64); MAXT],
    resumed: u64,
    st: [St; MAXT],
    deadline: [u64; MAXT],
    timed_out: [bool; MAXT],
    wseq: [u64; MAXT],
    seq: u64,
    prio: [u64; MAXT],
    pth: [libc::pthread_t; MAXT],
    rng: Rng,
    crng: Rng,
    urng: [u64; MAXT],
    uni: Universe,
    ns_per_step: u64,
    clock_base: u64,
    skew: u64,
    rt_skew: i64,
    strat: Strat,
    npoint: usize,
    stalled: bool,
    /// The log of switches is full.
    calm: bool,
    /// 0: looking for a place, 1: holding a thread, 2: met.
    meet: u8,
    meet_left: u64,
    meet_end: u64,
    held: usize,
    first_hit: u32,
    ppos: [usize; MAXT],
    bpos: [usize; MAXT],
    ex_p: [Vec<Switch>; MAXT],
    ex_b: [Vec<Switch>; MAXT],
    rot: u64,
    stall_from: u64,
    /// The first threads belong to the plan, the others to the library.
    base: usize,
    idle: u64,
    idle_at: u64,
    joined: [bool; MAXT],
    ktid: [i32; MAXT],
    exits: [Vec<(ExitFn, usize)>; MAXT],
    forked: i32,
}

type ExitFn = unsafe extern "C" fn(*mut libc::c_void);

static mut SIM: Option<Box<Sim>> = None;
static mut SH: *mut Shared = std::ptr::null_mut();
static mut SEEN: [u8; COVN] = [0; COVN];
static mut NGUARD: u32 = 0;
static mut UNI_HASH: u64 = 0;
static mut UNI_MEM: u64 = 0;
static CHILD: AtomicBool = AtomicBool::new(false);
static TOK: [AtomicU32; MAXT] = [const { AtomicU32::new(0) }; MAXT];
static ALLDONE: AtomicU32 = AtomicU32::new(0);

// Hot counters live outside the option so that the callback stays small.
static mut STEPS: u64 = 0;
static mut NEXT: u64 = u64::MAX;
static mut FIRST: bool = false;
static mut BLOCK: usize = 0;
static mut ACCESS: u8 = 1;
static mut MEET: bool = false;
static mut MEET_BLOCKS: bool = false;
static mut MEET_AT: usize = usize::MAX;

thread_local! {
    static IN_SIM: Cell<bool> = const { Cell::new(false) };
    static TID: Cell<usize> = const { Cell::new(usize::MAX) };
}

#[allow(static_mut_refs)]
fn sim() -> &'static mut Sim {
    unsafe { SIM.as_mut().unwrap() }
}
pub fn sh() -> &'static mut Shared {
    unsafe { &mut *SH }
}
pub fn nguards() -> u32 {
    unsafe { NGUARD }
}
pub fn in_sim() -> bool {
    IN_SIM.with(|c| c.get())
}

// ---------------------------------------------------------------- raw system calls

#[inline(always)]
pub unsafe fn raw(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let r: isize;
    asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c,
         in("r10") d, in("r8") e, in("r9") f, out("rcx") _, out("r11") _, options(nostack));
    r
}

unsafe fn ret(r: isize) -> libc::c_long {
    if r < 0 && r > -4096 {
        *libc::__errno_location() = -r as i32;
        -1
    } else {
        r as libc::c_long
    }
}

fn park(w: &AtomicU32) {
    while w.swap(0, SeqCst) == 0 {
        unsafe { raw(libc::SYS_futex, w as *const _ as usize, libc::FUTEX_WAIT as usize, 0, 0, 0, 0) };
    }
}
fn unpark(w: &AtomicU32) {
    w.store(1, SeqCst);
    unsafe { raw(libc::SYS_futex, w as *const _ as usize, libc::FUTEX_WAKE as usize, 1, 0, 0, 0) };
}

/// Ends the child at once, with everything it reported so far in shared memory.
pub fn finish(status: u32) -> ! {
    unsafe {
        let s = sh();
        #[allow(static_mut_refs)]
        let calm = SIM.as_ref().is_some_and(|m| m.calm);
        s.status = if calm && status == ST_DONE { ST_LIMIT } else { status };
        s.c.steps = STEPS;
        #[allow(static_mut_refs)]
        if SIM.is_some() {
            s.c.sim_ns = sim().skew + STEPS * sim().ns_per_step;
            let m = sim();
            for t in 0..m.nth {
                s.dead_note[t] = match m.st[t] {
                    St::Done | St::Unused | St::Gone => 0,
                    St::Run => 1,
                    St::Futex(_) => 2,
                    St::Join(_) => 3,
                    St::Sleep => 4,
                };
            }
        }
        raw(libc::SYS_exit_group, 0, 0, 0, 0, 0, 0);
        std::hint::unreachable_unchecked()
    }
}

// ---------------------------------------------------------------- scheduler

fn now(m: &Sim) -> u64 {
    unsafe { m.clock_base + m.skew + STEPS * m.ns_per_step }
}

fn local(m: &Sim, t: usize) -> u64 {
    if t == m.cur {
        m.lsteps[t] + unsafe { STEPS } - m.resumed
    } else {
        m.lsteps[t]
    }
}

fn wake_timers(m: &mut Sim) {
    let n = now(m);
    for t in 0..m.nth {
        if matches!(m.st[t], St::Sleep | St::Futex(_)) && m.deadline[t] <= n {
            m.timed_out[t] = true;
            m.st[t] = St::Run;
        }
    }
}

fn set_next(m: &mut Sim) {
    let s = unsafe { STEPS };
    let mut n = u64::MAX;
    let c = m.cur;
    match &m.strat {
        _ if m.nth == 1 => {}
        Strat::Serial => {}
        Strat::Random { mean } => {
            let u = m.rng.f().max(1e-12);
            n = s + 1 + (-(u.ln()) * *mean as f64) as u64;
        }
        Strat::Pct { points } => {
            while m.npoint < points.len() && points[m.npoint] <= s {
                m.npoint += 1;
            }
            if m.npoint < points.len() {
                n = points[m.npoint];
            }
            n = n.min(s + m.rot);
        }
        Strat::Stall { victim, at, mean } => {
            if c == *victim && !m.stalled {
                let l = m.lsteps[c] + s - m.resumed;
                n = s + at.saturating_sub(l).max(1);
            }
            let u = m.rng.f().max(1e-12);
            n = n.min(s + 1 + (-(u.ln()) * *mean as f64) as u64);
        }
        Strat::Uneven { victim, mean, other } => {
            let u = m.rng.f().max(1e-12);
            let k = if c == *victim { *mean } else { *other };
            n = s + 1 + (-(u.ln()) * k as f64) as u64;
        }
        Strat::Meet { short, mean, .. } => {
            let u = m.rng.f().max(1e-12);
            let k = if m.meet == 2 { *short } else { *mean };
            n = s + 1 + (-(u.ln()) * k as f64) as u64;
            if m.meet == 2 && s >= m.meet_end {
                m.meet = 0;
                m.meet_left = m.rng.log_uni(1.0, 4000.0);
            }
        }
        Strat::Explicit(_) => {
            let l = m.lsteps[c] + s - m.resumed;
            while m.ppos[c] < m.ex_p[c].len() && m.ex_p[c][m.ppos[c]].local <= l {
                m.ppos[c] += 1;
            }
            if m.ppos[c] < m.ex_p[c].len() {
                n = s + (m.ex_p[c][m.ppos[c]].local - l);
            }
        }
    }
    // However unfair the strategy, nobody runs for ever while others could.
    if m.nth > 1 {
        n = n.min(m.resumed + m.budget / 8);
    }
    // A call may also run out of its budget, and sleepers must be looked at now and then.
    n = n.min(m.budget);
    if m.deadline.iter().take(m.nth).any(|d| *d != u64::MAX) {
        n = n.min(s + 4096);
    }
    unsafe { NEXT = n.max(s + 1) };
}

fn runnable(m: &Sim) -> ([usize; MAXT], usize) {
    let mut v = [0; MAXT];
    let mut n = 0;
    for t in 0..m.nth {
        if m.st[t] == St::Run {
            v[n] = t;
            n += 1;
        }
    }
    (v, n)
}

/// Picks who runs next; `cur` itself is allowed when it can run.
fn choose(m: &mut Sim, kind: u16) -> Option<usize> {
    let (v, n) = runnable(m);
    if n == 0 {
        return None;
    }
    let c = m.cur;
    let l = local(m, c);
    Some(match &m.strat {
        Strat::Serial => {
            if kind == 0 {
                c
            } else {
                v[0]
            }
        }
        Strat::Random { .. } => v[m.rng.idx(n)],
        Strat::Uneven { victim, .. } => {
            let t = v[m.rng.idx(n)];
            if c == *victim && t == c && n > 1 {
                *v[..n].iter().find(|t| **t != c).unwrap()
            } else if c != *victim && m.st[*victim] == St::Run && m.rng.chance(1, 2) {
                *victim
            } else {
                t
            }
        }
        Strat::Pct { .. } => {
            if kind == 0 {
                let p = m.rng.next() >> 2;
                m.prio[c] = p >> 20; // drops below fresh priorities
            }
            *v[..n].iter().max_by_key(|t| m.prio[**t]).unwrap()
        }
        Strat::Stall { victim, at, .. } => {
            if c == *victim && l >= *at && !m.stalled {
                m.stalled = true;
                m.stall_from = unsafe { STEPS };
                sh().c.stalls += 1;
            }
            let over = unsafe { STEPS } >= m.stall_from + m.budget / 4;
            let mut w = [0; MAXT];
            let mut k = 0;
            for t in &v[..n] {
                if !(m.stalled && !over && *t == *victim) {
                    w[k] = *t;
                    k += 1;
                }
            }
            if k == 0 {
                v[0]
            } else {
                w[m.rng.idx(k)]
            }
        }
        Strat::Meet { .. } => {
            if m.meet == 1 && (n == 1 || unsafe { STEPS } >= m.meet_end) {
                m.meet = 0;
                m.meet_left = m.rng.log_uni(1.0, 4000.0);
            }
            let k = m.rng.idx(n);
            if m.meet == 1 && v[k] == m.held {
                v[(k + 1) % n]
            } else {
                v[k]
            }
        }
        Strat::Explicit(_) => {
            let list = if kind == 0 { &m.ex_p[c] } else { &m.ex_b[c] };
            let pos = if kind == 0 { &mut m.ppos[c] } else { &mut m.bpos[c] };
            while *pos < list.len() && list[*pos].local < l {
                *pos += 1;
            }
            let mut to = usize::MAX;
            if *pos < list.len() && list[*pos].local == l {
                to = list[*pos].to as usize;
                *pos += 1;
            }
            if to < m.nth && m.st[to] == St::Run {
                to
            } else if kind == 0 {
                c
            } else {
                v[0]
            }
        }
    })
}

fn note(m: &mut Sim, to: usize, kind: u16, site: u32) {
    let s = sh();
    let l = local(m, m.cur);
    s.c.switches += 1;
    if kind == 0 {
        s.c.preempts += 1;
    }
    s.inter_hash = mix(s.inter_hash, mix((m.cur as u64) << 8 | to as u64, mix(site as u64, l)));
    let e = Switch { tid: m.cur as u16, to: to as u16, kind, site: site as u16, local: l };
    if (s.nlog as usize) < MAXLOG {
        s.log[s.nlog as usize] = e;
        s.nlog += 1;
    } else if !m.calm {
        // From here on an even schedule, to see whether the threads get anywhere at all.
        m.calm = true;
        m.strat = Strat::Random { mean: 5000 };
        m.budget += unsafe { STEPS };
        unsafe { (FIRST, MEET, MEET_BLOCKS) = (false, false, false) };
    }
}

fn hand_over(m: &mut Sim, to: usize) {
    let me = m.cur;
    m.lsteps[me] = local(m, me);
    m.cur = to;
    m.resumed = unsafe { STEPS };
    set_next(m);
    if to != me {
        unpark(&TOK[to]);
    }
}

#[cold]
fn slow(site: u32) {
    let m = sim();
    unsafe {
        if STEPS >= m.budget {
            finish(ST_BUDGET);
        }
        if m.thread_budget != u64::MAX && local(m, m.cur) >= m.thread_budget {
            finish(ST_BUDGET);
        }
    }
    wake_timers(m);
    let me = m.cur;
    let mut to = choose(m, 0).unwrap();
    if to == me && m.nth > 1 && unsafe { STEPS } >= m.resumed + m.budget / 8 {
        let (v, n) = runnable(m);
        let k = v[..n].iter().position(|t| *t == me).unwrap();
        to = v[(k + 1) % n];
        if to == me {
            m.lsteps[me] = local(m, me);
            m.resumed = unsafe { STEPS };
        }
    }
    if to == me {
        set_next(m);
        return;
    }
    note(m, to, 0, site);
    hand_over(m, to);
    park(&TOK[me]);
}

/// The current thread cannot go on; give the token away. Returns when it may run again.
fn block(kind: u16, site: u32) {
    let m = sim();
    let me = m.cur;
    loop {
        wake_timers(m);
        if let Some(to) = choose(m, kind) {
            note(m, to, kind, site);
            hand_over(m, to);
            if kind != 2 && to != me {
                park(&TOK[me]);
            }
            return;
        }
        // Nobody can run: let time pass until somebody can.
        let d = (0..m.nth)
            .filter(|t| matches!(m.st[*t], St::Sleep | St::Futex(_)))
            .map(|t| m.deadline[t])
            .min()
            .unwrap_or(u64::MAX);
        if d == u64::MAX {
            if (0..m.nth).all(|t| matches!(m.st[t], St::Done | St::Gone)) {
                if m.forked > 0 {
                    finish(ST_DONE);
                }
                unpark(&ALLDONE);
                return;
            }
            finish(ST_DEADLOCK);
        }
        m.skew += d.saturating_sub(now(m));
        // Timers that fire again and again while no thread gets anywhere.
        unsafe {
            m.idle = if STEPS - m.idle_at < 64 { m.idle + 1 } else { 0 };
            m.idle_at = STEPS;
        }
        if m.idle > 5000 {
            finish(ST_DEADLOCK);
        }
    }
}

/// Gives others a chance to run (sched_yield, contended locks, spurious wake-ups).
fn yield_now(site: u32) {
    let m = sim();
    let me = m.cur;
    unsafe { STEPS += 1 };
    if unsafe { STEPS } >= m.budget {
        finish(ST_BUDGET);
    }
    wake_timers(m);
    let (v, n) = runnable(m);
    if n < 2 {
        // Only sleepers could help: move time on.
        let d = (0..m.nth).filter(|t| *t != me).map(|t| m.deadline[t]).min().unwrap_or(u64::MAX);
        if d != u64::MAX && d > now(m) {
            m.skew += d - now(m);
            wake_timers(m);
        }
        return;
    }
    // Asking `choose` keeps replay exact; a thread that yields never keeps the token.
    let mut to = choose(m, 1).unwrap();
    if to == me {
        let k = v[..n].iter().position(|t| *t == me).unwrap();
        to = v[(k + 1) % n];
    }
    note(m, to, 1, site);
    hand_over(m, to);
    park(&TOK[me]);
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    let mut p = start;
    if start == stop || *start != 0 {
        return;
    }
    while p < stop {
        NGUARD += 1;
        *p = NGUARD.min(COVN as u32 - 1);
        p = p.add(1);
    }
}

/// Does this place change the state of a `Meet` schedule?
#[cold]
unsafe fn meet(key: usize, first: bool) -> bool {
    let m = sim();
    match m.meet {
        0 if first || MEET_AT != usize::MAX => {
            m.meet_left = m.meet_left.saturating_sub(1);
            if m.meet_left > 0 || m.nth < 2 {
                return false;
            }
            MEET_AT = key;
            m.held = m.cur;
            m.meet = 1;
            m.meet_end = STEPS + m.budget / 8;
            true
        }
        1 if key == MEET_AT && m.cur != m.held => {
            m.meet = 2;
            m.meet_end = STEPS + 300;
            (*SH).c.meetings += 1;
            true
        }
        _ => false,
    }
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    if !IN_SIM.with(|c| c.get()) {
        return;
    }
    let id = *g as usize & (COVN - 1);
    BLOCK = id;
    ACCESS = 1;
    STEPS += 1;
    let mut want = STEPS >= NEXT;
    if MEET_BLOCKS && meet(id << 3, SEEN[id] & 1 == 0) {
        want = true;
    }
    if SEEN[id] & 1 == 0 {
        SEEN[id] |= 1;
        (*SH).cov[id] = 1;
        if FIRST && (sim().rng.next() as u32 & 0xffff) < sim().first_hit & 0xffff {
            (*SH).c.first_hits += 1;
            want = true;
        }
    }
    if want {
        slow(id as u32);
        BLOCK = id;
    }
}

/// An operation on memory that threads can share is about to happen: the other place where a
/// thread can be preempted.
#[inline]
unsafe fn shared() {
    if !IN_SIM.with(|c| c.get()) {
        return;
    }
    STEPS += 1;
    let mut want = STEPS >= NEXT;
    let id = BLOCK;
    if MEET {
        let bit = 1 << ACCESS;
        want |= meet(id << 3 | ACCESS as usize, SEEN[id] & bit == 0);
        SEEN[id] |= bit;
        ACCESS = 7.min(ACCESS + 1);
    } else if FIRST {
        // The first time at this place, and later.
        let (first, bit) = (sim().first_hit & 0xffff, 1 << ACCESS);
        ACCESS = 7.min(ACCESS + 1);
        let p = if SEEN[id] & bit == 0 { first } else { first >> 5 }.max(sim().first_hit >> 16);
        SEEN[id] |= bit;
        if sim().rng.next() as u32 & 0xffff < p {
            want = true;
        }
    }
    if want {
        (*SH).c.shared_points += 1;
        let a = ACCESS;
        slow(id as u32);
        BLOCK = id;
        ACCESS = a;
    }
}

extern "C" {
    static __data_start: u8;
    static _end: u8;
}

/// Plain accesses count when they go to variables of the program.
macro_rules! access {
    ($($n:ident)*) => {$(
        #[no_mangle]
        pub unsafe extern "C" fn $n(p: *const u8) {
            let lo = &raw const __data_start as usize;
            if (p as usize).wrapping_sub(lo) < &raw const _end as usize - lo {
                shared();
            }
        }
    )*};
}
access!(__sanitizer_cov_load1 __sanitizer_cov_load2 __sanitizer_cov_load4 __sanitizer_cov_load8 __sanitizer_cov_load16
    __sanitizer_cov_store1 __sanitizer_cov_store2 __sanitizer_cov_store4 __sanitizer_cov_store8 __sanitizer_cov_store16);

macro_rules! atomic {
    ($t:ty, $a:ident, $load:ident $store:ident $xchg:ident $add:ident $sub:ident $and:ident $or:ident $xor:ident $nand:ident $cas:ident) => {
        #[no_mangle]
        pub unsafe extern "C" fn $load(p: *const std::sync::atomic::$a, _o: i32) -> $t {
            shared();
            (*p).load(SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $store(p: *const std::sync::atomic::$a, v: $t, _o: i32) {
            shared();
            (*p).store(v, SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $cas(p: *const std::sync::atomic::$a, old: $t, new: $t, _o: i32, _f: i32) -> $t {
            shared();
            match (*p).compare_exchange(old, new, SeqCst, SeqCst) {
                Ok(v) | Err(v) => v,
            }
        }
        atomic!(@ $t, $a, $xchg swap $add fetch_add $sub fetch_sub $and fetch_and $or fetch_or $xor fetch_xor $nand fetch_nand);
    };
    (@ $t:ty, $a:ident, $($n:ident $f:ident)*) => {$(
        #[no_mangle]
        pub unsafe extern "C" fn $n(p: *const std::sync::atomic::$a, v: $t, _o: i32) -> $t {
            shared();
            (*p).$f(v, SeqCst)
        }
    )*};
}
atomic!(u8, AtomicU8, __tsan_atomic8_load __tsan_atomic8_store __tsan_atomic8_exchange __tsan_atomic8_fetch_add __tsan_atomic8_fetch_sub
    __tsan_atomic8_fetch_and __tsan_atomic8_fetch_or __tsan_atomic8_fetch_xor __tsan_atomic8_fetch_nand __tsan_atomic8_compare_exchange_val);
atomic!(u16, AtomicU16, __tsan_atomic16_load __tsan_atomic16_store __tsan_atomic16_exchange __tsan_atomic16_fetch_add __tsan_atomic16_fetch_sub
    __tsan_atomic16_fetch_and __tsan_atomic16_fetch_or __tsan_atomic16_fetch_xor __tsan_atomic16_fetch_nand __tsan_atomic16_compare_exchange_val);
atomic!(u32, AtomicU32, __tsan_atomic32_load __tsan_atomic32_store __tsan_atomic32_exchange __tsan_atomic32_fetch_add __tsan_atomic32_fetch_sub
    __tsan_atomic32_fetch_and __tsan_atomic32_fetch_or __tsan_atomic32_fetch_xor __tsan_atomic32_fetch_nand __tsan_atomic32_compare_exchange_val);
atomic!(u64, AtomicU64, __tsan_atomic64_load __tsan_atomic64_store __tsan_atomic64_exchange __tsan_atomic64_fetch_add __tsan_atomic64_fetch_sub
    __tsan_atomic64_fetch_and __tsan_atomic64_fetch_or __tsan_atomic64_fetch_xor __tsan_atomic64_fetch_nand __tsan_atomic64_compare_exchange_val);

#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic_thread_fence(_o: i32) {
    shared();
}

#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic_signal_fence(_o: i32) {}

type Body = fn(usize);
static mut BODY: Option<Body> = None;
/// Called when a thread of the plan has ended, destructors and all.
pub static mut AFTER: Option<Body> = None;

extern "C" fn thread_entry(arg: *mut libc::c_void) -> *mut libc::c_void {
    let t = arg as usize;
    park(&TOK[t]);
    TID.with(|c| c.set(t));
    IN_SIM.with(|c| c.set(true));
    unsafe { (BODY.unwrap())(t) };
    at_exit(t);
    unsafe {
        if let Some(f) = AFTER {
            f(t);
        }
    }
    IN_SIM.with(|c| c.set(false));
    thread_over(t);
    std::ptr::null_mut()
}

fn thread_over(t: usize) {
    let m = sim();
    m.st[t] = St::Done;
    for k in 0..m.nth {
        if m.st[k] == St::Join(t) {
            m.st[k] = St::Run;
        }
    }
    // The process ends with its callers, whatever threads the library still has in the background.
    if t < m.base && (0..m.base).all(|k| matches!(m.st[k], St::Done | St::Gone)) {
        if m.forked > 0 {
            finish(ST_DONE);
        }
        unpark(&ALLDONE);
        return;
    }
    block(2, 0);
}

static mut REAL_CREATE: usize = 0;
static mut REAL_JOIN: usize = 0;

type CreateFn = unsafe extern "C" fn(
    *mut libc::pthread_t,
    *const libc::pthread_attr_t,
    extern "C" fn(*mut libc::c_void) -> *mut libc::c_void,
    *mut libc::c_void,
) -> i32;
type JoinFn = unsafe extern "C" fn(libc::pthread_t, *mut *mut libc::c_void) -> i32;

unsafe fn real_create() -> CreateFn {
    if REAL_CREATE == 0 {
        REAL_CREATE = libc::dlsym(libc::RTLD_NEXT, c"pthread_create".as_ptr()) as usize;
    }
    std::mem::transmute::<usize, CreateFn>(REAL_CREATE)
}

/// Called once in the parent, before any fork.
pub fn init_parent() {
    unsafe {
        real_create();
        REAL_JOIN = libc::dlsym(libc::RTLD_NEXT, c"pthread_join".as_ptr()) as usize;
        let p = libc::mmap(
            std::ptr::null_mut(),
            std::mem::size_of::<Shared>(),
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED);
        SH = p as *mut Shared;
    }
}

pub struct Limits {
    pub budget: u64,
    pub thread_budget: u64,
}

/// In the child: turns this process into a simulated world. Memory comes from the arena from here on.
pub fn enter_child(uni: Universe) {
    unsafe {
        let p = libc::mmap(
            ARENA_BASE as *mut _,
            ARENA_SIZE,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE | libc::MAP_FIXED_NOREPLACE,
            -1,
            0,
        );
        if p as usize != ARENA_BASE {
            libc::_exit(97);
        }
        ARENA.init(uni.mem);
        UNI_HASH = uni.hash;
        UNI_MEM = uni.mem;
        let keep: Vec<(&str, Option<std::ffi::OsString>)> = ["HOME", "TMPDIR"].map(|k| (k, std::env::var_os(k))).into();
        libc::clearenv();
        for (k, v) in keep {
            if let Some(v) = v {
                std::env::set_var(k, v);
            }
        }
        std::env::set_var("PATH", "/usr/bin:/bin");
        if uni.mem != 0 {
            // Settings that vary between users and machines.
            let mut r = Rng::new(mix(uni.mem, 9));
            for (k, v) in [
                ("LANG", ["C", "de_DE.UTF-8", "tr_TR.UTF-8"]),
                ("LC_ALL", ["C.UTF-8", "fr_FR.UTF-8", "POSIX"]),
                ("TZ", ["UTC", "Asia/Tokyo", "America/St_Johns"]),
                ("USER", ["root", "alice", "nobody"]),
                ("HOSTNAME", ["a", "node-17", "localhost"]),
                ("RAYON_NUM_THREADS", ["1", "2", "7"]),
                ("OMP_NUM_THREADS", ["1", "3", "8"]),
                ("RUST_LOG", ["debug", "off", "trace"]),
                ("COLUMNS", ["80", "40", "200"]),
            ] {
                if r.chance(1, 2) {
                    std::env::set_var(k, r.pick(&v));
                }
            }
        }
        CHILD.store(true, SeqCst);
        libc::alarm(120);
    }
    // Threads that came and went before leave their mark on thread numbers.
    for _ in 0..uni.mem % 4 {
        let _ = std::thread::spawn(|| std::thread::current().id()).join();
    }
}

/// Main threads have 8 MB, those that Rust starts 2 MB, others less.
pub fn stack_size(uni: Universe) -> usize {
    if uni.mem == 0 || cfg!(feature = "py") {
        8 << 20
    } else {
        [8 << 20, 2 << 20, 2 << 20, 512 << 10][(uni.mem >> 16) as usize % 4]
    }
}

/// Stacks lie where the seed says.
unsafe fn stack(uni: Universe, t: usize, want: usize) -> libc::pthread_attr_t {
    let size = want + if uni.mem == 0 { 0 } else { (mix(uni.mem, t as u64) & 0x3fff) as usize * 4 };
    let size = (size + 4095) & !4095;
    let at = libc::mmap(
        (STACK_BASE + t * (16 << 20)) as *mut _,
        size,
        libc::PROT_READ | libc::PROT_WRITE,
        libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE | libc::MAP_FIXED_NOREPLACE,
        -1,
        0,
    );
    if at == libc::MAP_FAILED {
        libc::_exit(97);
    }
    let mut attr: libc::pthread_attr_t = std::mem::zeroed();
    libc::pthread_attr_init(&mut attr);
    libc::pthread_attr_setstack(&mut attr, at, size);
    attr
}

/// Runs `n` threads of `body` under the scheduler until all have ended.
pub fn run_threads(n: usize, uni: Universe, cfg: &SchedCfg, lim: &Limits, body: Body) {
    let mut r = Rng::new(cfg.seed);
    let mut prio = [0; MAXT];
    for p in prio.iter_mut() {
        *p = r.next() >> 2;
    }
    let mut c = Rng::new(uni.clock);
    let canon = uni.clock == 0;
    let mut ex_p: [Vec<Switch>; MAXT] = std::array::from_fn(|_| Vec::new());
    let mut ex_b: [Vec<Switch>; MAXT] = std::array::from_fn(|_| Vec::new());
    if let Strat::Explicit(l) = &cfg.strat {
        for s in l {
            if (s.tid as usize) < MAXT {
                if s.kind == 0 {
                    ex_p[s.tid as usize].push(*s);
                } else {
                    ex_b[s.tid as usize].push(*s);
                }
            }
        }
    }
    let m = Box::new(Sim {
        cur: 0,
        nth: n,
        budget: lim.budget,
        thread_budget: lim.thread_budget,
        lsteps: [0; MAXT],
        slept: [0; MAXT],
        spun: [0; MAXT],
        yielded: [(0, 0); MAXT],
        resumed: 0,
        st: [St::Unused; MAXT],
        deadline: [u64::MAX; MAXT],
        timed_out: [false; MAXT],
        wseq: [0; MAXT],
        seq: 0,
        prio,
        pth: [0; MAXT],
        rng: r,
        ns_per_step: if canon { 10 } else { c.log_uni(1.0, 20000.0) },
        clock_base: if canon { 1_600_000_000_000_000_000 } else { c.next() >> 3 },
        crng: c,
        urng: [0; MAXT],
        uni,
        skew: 0,
        rt_skew: 0,
        strat: cfg.strat.clone(),
        npoint: 0,
        stalled: false,
        calm: false,
        meet: 0,
        meet_left: if let Strat::Meet { skip, .. } = cfg.strat { skip } else { 0 },
        meet_end: 0,
        held: usize::MAX,
        first_hit: cfg.first_hit,
        ppos: [0; MAXT],
        bpos: [0; MAXT],
        ex_p,
        ex_b,
        rot: 200_000,
        stall_from: 0,
        base: n,
        idle: 0,
        idle_at: 0,
        joined: [false; MAXT],
        ktid: [0; MAXT],
        exits: std::array::from_fn(|_| Vec::new()),
        forked: 0,
    });
    unsafe {
        SIM = Some(m);
        BODY = Some(body);
        STEPS = 0;
        FIRST = cfg.first_hit > 0 && n > 1;
        MEET = matches!(cfg.strat, Strat::Meet { .. }) && n > 1;
        MEET_BLOCKS = matches!(cfg.strat, Strat::Meet { vars: 0, .. }) && n > 1;
    }
    let m = sim();
    for t in 0..n {
        m.st[t] = St::Run;
        let e = unsafe {
            let attr = stack(uni, t, stack_size(uni));
            (real_create())(&mut m.pth[t], &attr, thread_entry, t as *mut libc::c_void)
        };
        if e != 0 {
            unsafe { libc::_exit(98) };
        }
    }
    let first = match &m.strat {
        Strat::Serial => 0,
        Strat::Explicit(l) => l.first().map(|s| s.tid as usize).filter(|t| *t < n).unwrap_or(0),
        Strat::Pct { .. } => (0..n).max_by_key(|t| m.prio[*t]).unwrap(),
        _ => m.rng.idx(n),
    };
    m.cur = first;
    set_next(m);
    unpark(&TOK[first]);
    park(&ALLDONE);
    // Let the kernel finish the exits, so that nothing runs beside the final observations.
    for t in 0..n {
        unsafe {
            let j: JoinFn = std::mem::transmute::<usize, JoinFn>(REAL_JOIN);
            j(m.pth[t], std::ptr::null_mut());
        }
    }
}

/// Steps the current thread has executed so far.
pub fn my_steps() -> u64 {
    let m = sim();
    local(m, m.cur)
}

/// Steps other than those of waiting by yielding, and sleep at 20 microseconds a step.
pub fn my_effort() -> u64 {
    let m = sim();
    (my_steps() - m.spun[m.cur]).saturating_add(m.slept[m.cur] / 20_000)
}

pub fn emit(words: &[u64]) {
    let s = sh();
    let n = s.nout as usize;
    if n + words.len() > MAXOUT {
        finish(ST_LIMIT);
    }
    s.out[n..n + words.len()].copy_from_slice(words);
    s.nout += words.len() as u64;
}

// ---------------------------------------------------------------- replaced C symbols

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    let out = std::slice::from_raw_parts_mut(buf, len);
    if !in_sim() {
        // Code outside the simulation (set-up of an execution) draws from the environment seed too.
        let mut r = Rng::new(mix(UNI_HASH, 777));
        for b in out.iter_mut() {
            *b = r.next() as u8;
        }
        return len as isize;
    }
    let m = sim();
    let t = m.cur;
    sh().c.getrandom += 1;
    m.urng[t] += 1;
    let k = m.urng[t];
    let h = mix(mix(m.uni.hash, t as u64 + 1), k);
    if m.uni.hash != 0 && h % 7 == 0 {
        sh().c.eintr += 1;
        *libc::__errno_location() = libc::EINTR;
        return -1;
    }
    let mut r = Rng::new(h);
    for b in out.chunks_mut(8) {
        let w = r.next().to_le_bytes();
        b.copy_from_slice(&w[..b.len()]);
    }
    len as isize
}

/// Spare room in the vectors that a caller hands over.
pub fn spare(n: usize) -> usize {
    unsafe { [0, 0, 1, n + 3][if UNI_MEM == 0 { 0 } else { mix(UNI_MEM, 77) as usize % 4 }] }
}

/// A variable that the program has not set may be set elsewhere.
#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const libc::c_char) -> *mut libc::c_char {
    let want = std::ffi::CStr::from_ptr(name).to_bytes();
    let mut p = environ;
    while !p.is_null() && !(*p).is_null() {
        let e = std::ffi::CStr::from_ptr(*p).to_bytes();
        if e.len() > want.len() && e[want.len()] == b'=' && &e[..want.len()] == want {
            return (*p).add(want.len() + 1) as *mut libc::c_char;
        }
        p = p.add(1);
    }
    let known = ["RUST", "PYTHON", "LD_", "MALLOC", "GLIBC", "XDG_", "HOME", "TMP", "PATH"];
    let place = want.starts_with(b"LC_") || want.starts_with(b"LANG");
    if CHILD.load(SeqCst) && UNI_MEM != 0 && in_sim() && !(cfg!(feature = "py") && place) && !known.iter().any(|k| want.starts_with(k.as_bytes())) {
        let h = want.iter().fold(UNI_MEM, |h, b| mix(h, *b as u64));
        if h % 2 == 0 {
            sh().c.env_answers += 1;
            let values = if place {
                [c"de_DE.UTF-8", c"C", c"en_US.UTF-8", c"tr_TR"]
            } else if want == b"TZ" {
                [c"UTC", c"Asia/Tokyo", c"America/New_York", c"no/where"]
            } else {
                [c"1", c"0", c"true", c""]
            };
            return values[(h >> 8) as usize % 4].as_ptr() as *mut libc::c_char;
        }
    }
    std::ptr::null_mut()
}

#[no_mangle]
pub unsafe extern "C" fn getpid() -> libc::pid_t {
    if !CHILD.load(SeqCst) {
        return raw(libc::SYS_getpid, 0, 0, 0, 0, 0, 0) as libc::pid_t;
    }
    let n = if in_sim() { sim().forked * 7 } else { 0 };
    2 + n + (mix(UNI_HASH, 31) % 30_000) as libc::pid_t
}

unsafe fn sim_time(rt: bool) -> u64 {
    let m = sim();
    sh().c.clock_reads += 1;
    STEPS += 1;
    if m.uni.clock != 0 && m.crng.chance(1, 6) {
        sh().c.clock_jumps += 1;
        m.skew += m.crng.log_uni(1.0, 1e12);
        m.rt_skew += m.crng.range(-2_000_000_000, 2_000_000_000);
    }
    let n = now(m);
    if rt {
        n.wrapping_add_signed(m.rt_skew)
    } else {
        n
    }
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, ts: *mut libc::timespec) -> i32 {
    if !in_sim() {
        return ret(raw(libc::SYS_clock_gettime, id as usize, ts as usize, 0, 0, 0, 0)) as i32;
    }
    let n = sim_time(id == libc::CLOCK_REALTIME);
    (*ts).tv_sec = (n / 1_000_000_000) as i64;
    (*ts).tv_nsec = (n % 1_000_000_000) as i64;
    0
}

#[no_mangle]
pub unsafe extern "C" fn gettimeofday(tv: *mut libc::timeval, tz: *mut libc::c_void) -> i32 {
    if !in_sim() {
        return ret(raw(libc::SYS_gettimeofday, tv as usize, tz as usize, 0, 0, 0, 0)) as i32;
    }
    let n = sim_time(true);
    (*tv).tv_sec = (n / 1_000_000_000) as i64;
    (*tv).tv_usec = (n % 1_000_000_000 / 1000) as i64;
    0
}

#[no_mangle]
pub unsafe extern "C" fn time(p: *mut libc::time_t) -> libc::time_t {
    let t = if in_sim() {
        (sim_time(true) / 1_000_000_000) as i64
    } else {
        let mut ts: libc::timespec = std::mem::zeroed();
        raw(libc::SYS_clock_gettime, 0, &mut ts as *mut _ as usize, 0, 0, 0, 0);
        ts.tv_sec
    };
    if !p.is_null() {
        *p = t;
    }
    t
}

unsafe fn sim_sleep(until: u64) {
    let m = sim();
    sh().c.sleeps += 1;
    STEPS += 1;
    let me = m.cur;
    m.st[me] = St::Sleep;
    m.deadline[me] = until;
    let wait = until.saturating_sub(now(m)).min(1 << 50);
    let s0 = STEPS;
    block(1, 0);
    m.slept[me] += wait.saturating_sub((STEPS - s0) * m.ns_per_step);
    m.deadline[me] = u64::MAX;
    m.timed_out[me] = false;
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(rq: *const libc::timespec, rm: *mut libc::timespec) -> i32 {
    if !in_sim() {
        return ret(raw(libc::SYS_nanosleep, rq as usize, rm as usize, 0, 0, 0, 0)) as i32;
    }
    let d = (*rq).tv_sec as u64 * 1_000_000_000 + (*rq).tv_nsec as u64;
    sim_sleep(now(sim()).saturating_add(d));
    0
}

#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(
    id: libc::clockid_t,
    flags: i32,
    rq: *const libc::timespec,
    rm: *mut libc::timespec,
) -> i32 {
    if !in_sim() {
        return -raw(libc::SYS_clock_nanosleep, id as usize, flags as usize, rq as usize, rm as usize, 0, 0) as i32;
    }
    let d = (*rq).tv_sec as u64 * 1_000_000_000 + (*rq).tv_nsec as u64;
    let n = now(sim());
    sim_sleep(if flags == libc::TIMER_ABSTIME { d } else { n.saturating_add(d) });
    0
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if in_sim() {
        let (m, n) = (sim(), my_steps());
        let (own, all) = m.yielded[m.cur];
        if n - own < 32 && STEPS - all > n - own {
            m.spun[m.cur] += n - own;
        }
        m.yielded[m.cur] = (n, STEPS);
        yield_now(1);
        0
    } else {
        raw(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0) as i32
    }
}

unsafe fn sim_futex(addr: usize, op: usize, val: usize, to: usize) -> libc::c_long {
    let m = sim();
    let me = m.cur;
    let cmd = op as i32 & !(libc::FUTEX_PRIVATE_FLAG | libc::FUTEX_CLOCK_REALTIME);
    if cmd == libc::FUTEX_WAKE || cmd == libc::FUTEX_WAKE_BITSET {
        sh().c.futex_wakes += 1;
        let mut woken = 0;
        while woken < val as i32 as i64 {
            // First come, first served.
            let w = (0..m.nth).filter(|t| m.st[*t] == St::Futex(addr)).min_by_key(|t| m.wseq[*t]);
            match w {
                Some(t) => {
                    m.st[t] = St::Run;
                    m.deadline[t] = u64::MAX;
                    woken += 1;
                }
                None => break,
            }
        }
        set_next(m);
        return woken;
    }
    if cmd == libc::FUTEX_WAIT || cmd == libc::FUTEX_WAIT_BITSET {
        if (*(addr as *const AtomicU32)).load(SeqCst) != val as u32 {
            *libc::__errno_location() = libc::EAGAIN;
            return -1;
        }
        sh().c.futex_waits += 1;
        STEPS += 1;
        // Futexes may wake for no reason; callers must cope.
        if m.uni.clock != 0 && m.crng.chance(1, 16) {
            sh().c.spurious += 1;
            yield_now(2);
            return 0;
        }
        m.seq += 1;
        m.wseq[me] = m.seq;
        m.st[me] = St::Futex(addr);
        m.timed_out[me] = false;
        m.deadline[me] = u64::MAX;
        if to != 0 {
            let ts = &*(to as *const libc::timespec);
            let d = ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64;
            m.deadline[me] = if cmd == libc::FUTEX_WAIT { now(m).saturating_add(d) } else { d };
        }
        let wait = m.deadline[me].saturating_sub(now(m)).min(1 << 50);
        let s0 = STEPS;
        block(1, 0);
        let m = sim();
        m.deadline[me] = u64::MAX;
        if m.timed_out[me] {
            m.slept[me] += wait.saturating_sub((STEPS - s0) * m.ns_per_step);
            m.timed_out[me] = false;
            *libc::__errno_location() = libc::ETIMEDOUT;
            return -1;
        }
        return 0;
    }
    *libc::__errno_location() = libc::ENOSYS;
    -1
}

#[no_mangle]
pub unsafe extern "C" fn syscall(
    n: libc::c_long,
    a: usize,
    b: usize,
    c: usize,
    d: usize,
    e: usize,
    f: usize,
) -> libc::c_long {
    if in_sim() {
        if n == libc::SYS_futex {
            return sim_futex(a, b, c, d);
        }
        if n == libc::SYS_getpid {
            return getpid() as libc::c_long;
        }
        if n == libc::SYS_gettid {
            return getpid() as libc::c_long + 1 + sim().cur as libc::c_long;
        }
        if n == libc::SYS_getrandom {
            return getrandom(a as *mut u8, b, c as u32) as libc::c_long;
        }
    }
    ret(raw(n, a, b, c, d, e, f))
}

/// Locks and condition variables of C code (the Python interpreter); Rust's own use futexes.
#[cfg(feature = "py")]
mod locks {
    use super::*;
    use libc::{pthread_cond_t, pthread_mutex_t, timespec};

    macro_rules! real {
        ($name:literal, $($t:ty),*) => {{
            static mut P: usize = 0;
            if P == 0 {
                P = libc::dlsym(libc::RTLD_NEXT, $name.as_ptr()) as usize;
            }
            std::mem::transmute::<usize, unsafe extern "C" fn($($t),*) -> i32>(P)
        }};
    }

    unsafe fn wait_on(addr: usize, deadline: u64) -> bool {
        let m = sim();
        let me = m.cur;
        sh().c.lock_waits += 1;
        STEPS += 1;
        m.seq += 1;
        m.wseq[me] = m.seq;
        m.st[me] = St::Futex(addr);
        m.timed_out[me] = false;
        m.deadline[me] = deadline;
        block(1, 0);
        let m = sim();
        m.deadline[me] = u64::MAX;
        std::mem::take(&mut m.timed_out[me])
    }

    unsafe fn wake(addr: usize, all: bool) {
        let m = sim();
        while let Some(t) = (0..m.nth).filter(|t| m.st[*t] == St::Futex(addr)).min_by_key(|t| m.wseq[*t]) {
            m.st[t] = St::Run;
            m.deadline[t] = u64::MAX;
            if !all {
                break;
            }
        }
        set_next(m);
    }

    #[no_mangle]
    pub unsafe extern "C" fn pthread_mutex_lock(x: *mut pthread_mutex_t) -> i32 {
        if !in_sim() {
            return real!(c"pthread_mutex_lock", *mut pthread_mutex_t)(x);
        }
        loop {
            let e = libc::pthread_mutex_trylock(x);
            if e != libc::EBUSY {
                return e;
            }
            wait_on(x as usize, u64::MAX);
        }
    }

    #[no_mangle]
    pub unsafe extern "C" fn pthread_mutex_unlock(x: *mut pthread_mutex_t) -> i32 {
        let e = real!(c"pthread_mutex_unlock", *mut pthread_mutex_t)(x);
        if in_sim() {
            wake(x as usize, false);
        }
        e
    }

    #[no_mangle]
    pub unsafe extern "C" fn pthread_cond_wait(c: *mut pthread_cond_t, x: *mut pthread_mutex_t) -> i32 {
        if !in_sim() {
            return real!(c"pthread_cond_wait", *mut pthread_cond_t, *mut pthread_mutex_t)(c, x);
        }
        pthread_mutex_unlock(x);
        if sim().uni.clock != 0 && sim().crng.chance(1, 16) {
            sh().c.spurious += 1;
            yield_now(3);
        } else {
            wait_on(c as usize, u64::MAX);
        }
        pthread_mutex_lock(x);
        0
    }

    #[no_mangle]
    pub unsafe extern "C" fn pthread_cond_timedwait(
        c: *mut pthread_cond_t,
        x: *mut pthread_mutex_t,
        ts: *const timespec,
    ) -> i32 {
        if !in_sim() {
            return real!(c"pthread_cond_timedwait", *mut pthread_cond_t, *mut pthread_mutex_t, *const timespec)(c, x, ts);
        }
        let d = (*ts).tv_sec as u64 * 1_000_000_000 + (*ts).tv_nsec as u64;
        pthread_mutex_unlock(x);
        let late = wait_on(c as usize, d);
        pthread_mutex_lock(x);
        if late {
            libc::ETIMEDOUT
        } else {
            0
        }
    }

    #[no_mangle]
    pub unsafe extern "C" fn pthread_cond_signal(c: *mut pthread_cond_t) -> i32 {
        if !in_sim() {
            return real!(c"pthread_cond_signal", *mut pthread_cond_t)(c);
        }
        wake(c as usize, false);
        0
    }

    #[no_mangle]
    pub unsafe extern "C" fn pthread_cond_broadcast(c: *mut pthread_cond_t) -> i32 {
        if !in_sim() {
            return real!(c"pthread_cond_broadcast", *mut pthread_cond_t)(c);
        }
        wake(c as usize, true);
        0
    }
}

#[repr(C)]
struct Start {
    tid: usize,
    f: extern "C" fn(*mut libc::c_void) -> *mut libc::c_void,
    arg: *mut libc::c_void,
}

extern "C" fn spawned_entry(p: *mut libc::c_void) -> *mut libc::c_void {
    let tid = unsafe { (*(p as *mut Start)).tid };
    park(&TOK[tid]);
    let s = unsafe { *Box::from_raw(p as *mut Start) };
    TID.with(|c| c.set(s.tid));
    IN_SIM.with(|c| c.set(true));
    sim().ktid[s.tid] = unsafe { raw(libc::SYS_gettid, 0, 0, 0, 0, 0, 0) } as i32;
    let r = (s.f)(s.arg);
    at_exit(s.tid);
    IN_SIM.with(|c| c.set(false));
    thread_over(s.tid);
    r
}

/// Destructors of thread-local values are part of the simulation, too.
fn at_exit(t: usize) {
    while let Some((f, x)) = sim().exits[t].pop() {
        sh().c.exit_actions += 1;
        unsafe { f(x as *mut libc::c_void) };
    }
    sim().exits[t] = Vec::new();
}

#[no_mangle]
pub unsafe extern "C" fn __cxa_thread_atexit_impl(f: ExitFn, x: *mut libc::c_void, dso: *mut libc::c_void) -> i32 {
    if in_sim() {
        let m = sim();
        m.exits[TID.with(|c| c.get())].push((f, x as usize));
        return 0;
    }
    static mut P: usize = 0;
    if P == 0 {
        P = libc::dlsym(libc::RTLD_NEXT, c"__cxa_thread_atexit_impl".as_ptr()) as usize;
    }
    type F = unsafe extern "C" fn(ExitFn, *mut libc::c_void, *mut libc::c_void) -> i32;
    std::mem::transmute::<usize, F>(P)(f, x, dso)
}

#[no_mangle]
pub unsafe extern "C" fn pthread_create(
    th: *mut libc::pthread_t,
    attr: *const libc::pthread_attr_t,
    f: extern "C" fn(*mut libc::c_void) -> *mut libc::c_void,
    arg: *mut libc::c_void,
) -> i32 {
    if !in_sim() {
        return (real_create())(th, attr, f, arg);
    }
    let m = sim();
    // Places of threads that have come and gone are used again; their step counts go on.
    let old = (m.base..m.nth).find(|t| m.st[*t] == St::Done && m.joined[*t]);
    let t = old.unwrap_or(m.nth);
    if t >= MAXT {
        return libc::EAGAIN;
    }
    let mut size = 0;
    let mut detached = libc::PTHREAD_CREATE_JOINABLE;
    if !attr.is_null() {
        libc::pthread_attr_getstacksize(attr, &mut size);
        pthread_attr_getdetachstate(attr, &mut detached);
    }
    if old.is_some() {
        let pid = raw(libc::SYS_getpid, 0, 0, 0, 0, 0, 0) as usize;
        while raw(libc::SYS_tgkill, pid, m.ktid[t] as usize, 0, 0, 0, 0) == 0 {
            raw(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0);
        }
        libc::munmap((STACK_BASE + t * (16 << 20)) as *mut _, 15 << 20);
    } else {
        m.nth += 1;
    }
    sh().c.spawned += 1;
    let mut own = stack(m.uni, t, if size == 0 { 2 << 20 } else { size.min(12 << 20) });
    libc::pthread_attr_setdetachstate(&mut own, detached);
    let s = Box::into_raw(Box::new(Start { tid: t, f, arg }));
    TOK[t].store(0, SeqCst);
    m.st[t] = St::Run;
    m.joined[t] = detached == libc::PTHREAD_CREATE_DETACHED;
    m.deadline[t] = u64::MAX;
    m.timed_out[t] = false;
    m.prio[t] = m.rng.next() >> 2;
    FIRST = m.first_hit > 0;
    MEET = matches!(m.strat, Strat::Meet { .. });
    MEET_BLOCKS = matches!(m.strat, Strat::Meet { vars: 0, .. });
    let e = (real_create())(th, &own, spawned_entry, s as *mut libc::c_void);
    for k in 0..m.nth {
        if m.pth[k] == *th {
            m.pth[k] = 0;
        }
    }
    m.pth[t] = *th;
    set_next(m);
    e
}

/// Rust's thread start-up insists on a guard page; stacks placed by the seed have none.
#[no_mangle]
pub unsafe extern "C" fn pthread_attr_getguardsize(_a: *const libc::pthread_attr_t, n: *mut usize) -> i32 {
    *n = 4096;
    0
}

extern "C" {
    fn pthread_attr_getdetachstate(a: *const libc::pthread_attr_t, d: *mut i32) -> i32;
}

#[no_mangle]
pub unsafe extern "C" fn pthread_join(th: libc::pthread_t, r: *mut *mut libc::c_void) -> i32 {
    let j: JoinFn = std::mem::transmute::<usize, JoinFn>(if REAL_JOIN != 0 {
        REAL_JOIN
    } else {
        libc::dlsym(libc::RTLD_NEXT, c"pthread_join".as_ptr()) as usize
    });
    if in_sim() {
        let m = sim();
        if let Some(t) = (0..m.nth).find(|t| m.pth[*t] == th) {
            if m.st[t] != St::Done {
                let me = m.cur;
                m.st[me] = St::Join(t);
                STEPS += 1;
                block(1, 0);
            }
            let e = j(th, r);
            let m = sim();
            m.joined[t] = true;
            m.pth[t] = 0;
            return e;
        }
    }
    j(th, r)
}

#[no_mangle]
pub unsafe extern "C" fn pthread_detach(th: libc::pthread_t) -> i32 {
    if in_sim() {
        let m = sim();
        if let Some(t) = (0..m.nth).find(|t| m.pth[*t] == th) {
            m.joined[t] = true;
        }
    }
    static mut P: usize = 0;
    if P == 0 {
        P = libc::dlsym(libc::RTLD_NEXT, c"pthread_detach".as_ptr()) as usize;
    }
    std::mem::transmute::<usize, unsafe extern "C" fn(libc::pthread_t) -> i32>(P)(th)
}

/// How many processors there seem to be.
#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(pid: libc::pid_t, len: usize, set: *mut libc::cpu_set_t) -> i32 {
    if !in_sim() {
        let e = raw(libc::SYS_sched_getaffinity, pid as usize, len, set as usize, 0, 0, 0);
        return if e < 0 { ret(e) as i32 } else { 0 };
    }
    let m = sim();
    sh().c.cpu_counts += 1;
    let n = if m.uni.mem == 0 { 4 } else { 1 + mix(m.uni.mem, 5) % 12 };
    std::ptr::write_bytes(set as *mut u8, 0, len);
    for k in 0..n as usize {
        *(set as *mut u8).add(k / 8) |= 1 << (k % 8);
    }
    0
}

/// Goes on in a copy of the process, in which only the calling thread is left.
pub fn fork_here() {
    IN_SIM.with(|c| c.set(false));
    unsafe {
        let pid = libc::fork();
        if pid < 0 {
            libc::_exit(97);
        }
        if pid > 0 {
            let mut st = 0;
            while libc::waitpid(pid, &mut st, 0) != pid {}
            if libc::WIFSIGNALED(st) {
                let sig = libc::WTERMSIG(st);
                libc::signal(sig, libc::SIG_DFL);
                let me = raw(libc::SYS_getpid, 0, 0, 0, 0, 0, 0) as usize;
                raw(libc::SYS_kill, me, sig as usize, 0, 0, 0, 0);
            }
            raw(libc::SYS_exit_group, libc::WEXITSTATUS(st) as usize, 0, 0, 0, 0, 0);
        }
        libc::alarm(120);
    }
    let m = sim();
    m.forked += 1;
    sh().c.forks += 1;
    for t in 0..m.nth {
        if t != m.cur && m.st[t] != St::Done {
            m.st[t] = St::Gone;
        }
    }
    set_next(m);
    IN_SIM.with(|c| c.set(true));
}

/// A change to the file system is about to happen: a place to be killed at.
unsafe fn io_point() {
    if !in_sim() {
        return;
    }
    shared();
    let s = sh();
    if (s.nio as usize) < s.io.len() {
        s.io[s.nio as usize] = STEPS;
    }
    s.nio += 1;
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: i32, b: *const libc::c_void, n: usize) -> isize {
    let mut n = n;
    if fd == 1 && in_sim() {
        sh().c.stdout_bytes += n as u64;
        return n as isize;
    }
    if fd > 2 {
        io_point();
        // The system may take less than it is offered.
        if in_sim() && n > 1 {
            let m = sim();
            if m.uni.clock != 0 && !cfg!(feature = "py") && m.crng.chance(1, 24) {
                sh().c.write_failures += 1;
                return ret(-libc::ENOSPC as isize) as isize;
            }
            if m.uni.clock != 0 && m.crng.chance(1, 4) {
                n = 1 + m.crng.idx(n - 1);
                sh().c.short_writes += 1;
            }
        }
    }
    ret(raw(libc::SYS_write, fd as usize, b as usize, n, 0, 0, 0)) as isize
}

/// The scratch directory of this worker, with a slash at the end.
pub static mut SCRATCH: [u8; 512] = [0; 512];

type Path = *const libc::c_char;

/// Where a simulated process finds a file: what it writes outside its own directories stays in them.
#[allow(static_mut_refs)]
unsafe fn place(p: Path, change: bool, buf: &mut [u8; 2048]) -> Path {
    if !in_sim() || p.is_null() || *p != b'/' as libc::c_char {
        return p;
    }
    let t = std::ffi::CStr::from_ptr(p).to_bytes();
    let n = SCRATCH.iter().position(|c| *c == 0).unwrap_or(0);
    let own = &SCRATCH[..n];
    if n == 0 || n + t.len() + 8 > buf.len() || t.starts_with(own) || [&b"/dev/null"[..], b"/dev/std", b"/proc/", b"/sys/"].iter().any(|d| t.starts_with(d)) {
        return p;
    }
    buf[..n].copy_from_slice(own);
    buf[n..n + 4].copy_from_slice(b"tmp/");
    for (i, c) in t.iter().enumerate() {
        buf[n + 4 + i] = if *c == b'/' { b'%' } else { *c };
    }
    buf[n + 4 + t.len()] = 0;
    let m = buf.as_ptr() as Path;
    if change || raw(libc::SYS_access, m as usize, 0, 0, 0, 0, 0) == 0 {
        sh().c.redirected += 1;
        m
    } else {
        p
    }
}

unsafe fn open_at(dir: i32, p: Path, flags: i32, mode: u32) -> i32 {
    let mut b = [0; 2048];
    let change = flags & (libc::O_CREAT | libc::O_WRONLY | libc::O_RDWR | libc::O_TRUNC) != 0;
    let q = place(p, change, &mut b);
    if in_sim() {
        let m = sim();
        let t = std::ffi::CStr::from_ptr(p).to_bytes();
        if change {
            io_point();
        }
        // Disks fill up, and descriptors run out.
        let own = !cfg!(feature = "py") && !t.starts_with(b"/dev/") && !t.starts_with(b"/proc/") && !t.starts_with(b"/sys/");
        if own && m.uni.clock != 0 && m.crng.chance(1, 8) {
            sh().c.open_failures += 1;
            return ret(-(if change { libc::ENOSPC } else { libc::EMFILE }) as isize) as i32;
        }
    }
    ret(raw(libc::SYS_openat, dir as usize, q as usize, flags as usize, mode as usize, 0, 0)) as i32
}

#[no_mangle]
pub unsafe extern "C" fn open64(p: Path, flags: i32, mode: u32) -> i32 {
    open_at(libc::AT_FDCWD, p, flags, mode)
}

#[no_mangle]
pub unsafe extern "C" fn openat64(d: i32, p: Path, flags: i32, mode: u32) -> i32 {
    open_at(d, p, flags, mode)
}

#[no_mangle]
pub unsafe extern "C" fn stat64(p: Path, s: *mut libc::stat64) -> i32 {
    let mut b = [0; 2048];
    ret(raw(libc::SYS_newfstatat, libc::AT_FDCWD as usize, place(p, false, &mut b) as usize, s as usize, 0, 0, 0)) as i32
}

#[no_mangle]
pub unsafe extern "C" fn lstat64(p: Path, s: *mut libc::stat64) -> i32 {
    let mut b = [0; 2048];
    let at = place(p, false, &mut b) as usize;
    ret(raw(libc::SYS_newfstatat, libc::AT_FDCWD as usize, at, s as usize, libc::AT_SYMLINK_NOFOLLOW as usize, 0, 0)) as i32
}

#[no_mangle]
pub unsafe extern "C" fn statx(d: i32, p: Path, flags: i32, mask: u32, s: *mut libc::statx) -> i32 {
    let mut b = [0; 2048];
    ret(raw(libc::SYS_statx, d as usize, place(p, false, &mut b) as usize, flags as usize, mask as usize, s as usize, 0)) as i32
}

#[no_mangle]
pub unsafe extern "C" fn access(p: Path, mode: i32) -> i32 {
    let mut b = [0; 2048];
    ret(raw(libc::SYS_access, place(p, false, &mut b) as usize, mode as usize, 0, 0, 0, 0)) as i32
}

#[no_mangle]
pub unsafe extern "C" fn mkdir(p: Path, mode: libc::mode_t) -> i32 {
    let mut b = [0; 2048];
    io_point();
    let there = raw(libc::SYS_access, p as usize, 0, 0, 0, 0, 0) == 0;
    ret(raw(libc::SYS_mkdir, place(p, !there, &mut b) as usize, mode as usize, 0, 0, 0, 0)) as i32
}

#[no_mangle]
pub unsafe extern "C" fn rmdir(p: Path) -> i32 {
    let mut b = [0; 2048];
    io_point();
    ret(raw(libc::SYS_rmdir, place(p, true, &mut b) as usize, 0, 0, 0, 0, 0)) as i32
}

#[no_mangle]
pub unsafe extern "C" fn rename(a: Path, b: Path) -> i32 {
    let (mut x, mut y) = ([0; 2048], [0; 2048]);
    io_point();
    ret(raw(libc::SYS_rename, place(a, true, &mut x) as usize, place(b, true, &mut y) as usize, 0, 0, 0, 0)) as i32
}

#[no_mangle]
pub unsafe extern "C" fn unlink(p: Path) -> i32 {
    let mut b = [0; 2048];
    io_point();
    ret(raw(libc::SYS_unlink, place(p, true, &mut b) as usize, 0, 0, 0, 0, 0)) as i32
}

#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: i32, n: i64) -> i32 {
    io_point();
    ret(raw(libc::SYS_ftruncate, fd as usize, n as usize, 0, 0, 0, 0)) as i32
}

#[no_mangle]
pub unsafe extern "C" fn fsync(fd: i32) -> i32 {
    io_point();
    ret(raw(libc::SYS_fsync, fd as usize, 0, 0, 0, 0, 0)) as i32
}

fn fnv(h: u64, b: &[u8]) -> u64 {
    b.iter().fold(h ^ 0xcbf29ce484222325, |h, c| (h ^ *c as u64).wrapping_mul(0x100000001b3))
}

static mut FIRST_STATE: *mut libc::c_char = std::ptr::null_mut();

extern "C" {
    fn initstate(seed: u32, state: *mut libc::c_char, n: usize) -> *mut libc::c_char;
    fn setstate(state: *mut libc::c_char) -> *mut libc::c_char;
    static environ: *const *const libc::c_char;
}

/// The state of the process that belongs to the program and not to the library.
pub fn around() -> [u64; 9] {
    let mut o = [0; 9];
    unsafe {
        let mut p = environ;
        while !p.is_null() && !(*p).is_null() {
            o[0] += fnv(1, std::ffi::CStr::from_ptr(*p).to_bytes());
            p = p.add(1);
        }
        let mut b = [0u8; 4096];
        let n = raw(libc::SYS_getcwd, b.as_mut_ptr() as usize, b.len(), 0, 0, 0, 0).max(0) as usize;
        o[1] = fnv(2, &b[..n.min(b.len())]);
        for s in 1..32usize {
            let mut k = [0u64; 4];
            raw(libc::SYS_rt_sigaction, s, 0, k.as_mut_ptr() as usize, 8, 0, 0);
            o[2] = fnv(o[2], &k[0].to_le_bytes());
        }
        o[3] = raw(libc::SYS_umask, 0o22, 0, 0, 0, 0, 0) as u64;
        raw(libc::SYS_umask, o[3] as usize, 0, 0, 0, 0, 0);
        for l in 0..16usize {
            let mut k = [0u64; 2];
            raw(libc::SYS_prlimit64, 0, l, 0, k.as_mut_ptr() as usize, 0, 0);
            o[4] = fnv(o[4], &k[0].to_le_bytes());
        }
        let l = libc::setlocale(libc::LC_ALL, std::ptr::null());
        if !l.is_null() {
            o[5] = fnv(3, std::ffi::CStr::from_ptr(l).to_bytes());
        }
        for k in 0..3usize {
            let mut b = [0u64; 4];
            raw(libc::SYS_getitimer, k, b.as_mut_ptr() as usize, 0, 0, 0, 0);
            o[6] = fnv(o[6], &[(b[0] | b[1] | b[2] | b[3] != 0) as u8]);
        }
        // Where the sequence of the C library's random numbers stands.
        static mut OTHER: [u64; 16] = [0; 16];
        let old = initstate(1, std::ptr::addr_of_mut!(OTHER) as *mut libc::c_char, 128);
        setstate(old);
        if FIRST_STATE.is_null() {
            FIRST_STATE = old;
        }
        o[7] = fnv(old as u64, if old == FIRST_STATE { std::slice::from_raw_parts(old as *const u8, 128) } else { &[] });
        for fd in 0..3usize {
            let mut s = [0u64; 32];
            o[8] = fnv(o[8], &raw(libc::SYS_fstat, fd, s.as_mut_ptr() as usize, 0, 0, 0, 0).to_le_bytes());
            o[8] = fnv(o[8], &(s[0] ^ s[1] << 20).to_le_bytes());
            for c in [libc::F_GETFL, libc::F_GETFD] {
                o[8] = fnv(o[8], &raw(libc::SYS_fcntl, fd, c as usize, 0, 0, 0, 0).to_le_bytes());
            }
        }
    }
    o
}

/// The same for the calling thread.
pub fn around_thread() -> u64 {
    let mut x = 0u32;
    let mut cw = 0u16;
    let mut m = 0u64;
    unsafe {
        asm!("stmxcsr [{}]", in(reg) &mut x, options(nostack));
        asm!("fnstcw [{}]", in(reg) &mut cw, options(nostack));
        raw(libc::SYS_rt_sigprocmask, 0, 0, &mut m as *mut u64 as usize, 8, 0, 0);
    }
    let (mut name, mut cpus) = ([0u8; 16], [0u8; 128]);
    let nice = unsafe {
        raw(libc::SYS_prctl, libc::PR_GET_NAME as usize, name.as_mut_ptr() as usize, 0, 0, 0, 0);
        raw(libc::SYS_sched_getaffinity, 0, 128, cpus.as_mut_ptr() as usize, 0, 0, 0);
        raw(libc::SYS_getpriority, 0, 0, 0, 0, 0, 0) as u64
    };
    // Exception flags come and go with every computation.
    mix(mix((x & !0x3f) as u64, cw as u64), m ^ fnv(nice, &name) ^ fnv(5, &cpus))
}

/// Harness code that must not count as the library's.
pub fn outside(f: impl FnOnce()) {
    IN_SIM.with(|c| c.set(false));
    f();
    IN_SIM.with(|c| c.set(true));
}

/// Live memory in bytes and blocks, live threads.
#[allow(static_mut_refs)]
pub fn held() -> [u64; 3] {
    let m = sim();
    let t = (0..m.nth).filter(|t| *t >= m.base && !matches!(m.st[*t], St::Done | St::Gone)).count();
    unsafe { [ARENA.live, ARENA.blocks, t as u64] }
}

// ---------------------------------------------------------------- memory

struct Arena {
    lock: AtomicBool,
    top: usize,
    free: [usize; 128],
    rng: Rng,
    seed: u64,
    live: u64,
    blocks: u64,
}

static mut ARENA: Arena =
    Arena { lock: AtomicBool::new(false), top: 0, free: [0; 128], rng: Rng::new(0), seed: 0, live: 0, blocks: 0 };

fn class(sz: usize) -> (usize, usize) {
    if sz <= 1024 {
        let k = sz.max(16).div_ceil(16);
        (k, k * 16)
    } else {
        let b = sz.next_power_of_two();
        (64 + b.trailing_zeros() as usize, b)
    }
}

impl Arena {
    fn init(&mut self, seed: u64) {
        self.seed = seed;
        self.rng = Rng::new(seed);
        self.top = ARENA_BASE + 64 + if seed == 0 { 0 } else { (self.rng.below(1 << 16) as usize) * 16 };
        self.free = [0; 128];
    }
    unsafe fn take(&mut self, l: Layout) -> *mut u8 {
        let (k, sz) = class(if l.align() > 16 { l.size().max(2048) } else { l.size() });
        let c = &mut (*SH).c;
        c.allocs += 1;
        self.live += l.size() as u64;
        self.blocks += 1;
        // Freed memory is passed over now and then, as long as there is plenty.
        let plenty = self.top < ARENA_BASE + ARENA_SIZE / 2;
        let fresh = (self.seed != 0 && self.rng.chance(1, 8) && plenty) || l.align() > 64;
        let p;
        if self.free[k] != 0 && !fresh {
            p = self.free[k];
            self.free[k] = *(p as *const usize);
            c.recycled += 1;
        } else {
            c.arena_fresh += 1;
            if self.seed != 0 {
                self.top += self.rng.below(8) as usize * 16;
            }
            let al = l.align().max(if k > 64 { 64 } else { 16 });
            self.top = (self.top + al - 1) & !(al - 1);
            p = self.top;
            self.top += sz;
            if self.top > ARENA_BASE + ARENA_SIZE {
                finish(ST_MEM);
            }
        }
        // What a program must not read is filled with whatever the seed says.
        let fill = if self.seed == 0 { 0xA5 } else { (mix(self.seed, c.allocs) & 0xff) as u8 };
        std::ptr::write_bytes(p as *mut u8, fill, sz.min(1 << 14));
        p as *mut u8
    }
    unsafe fn give(&mut self, p: *mut u8, l: Layout) {
        let (k, sz) = class(if l.align() > 16 { l.size().max(2048) } else { l.size() });
        self.live -= l.size() as u64;
        self.blocks -= 1;
        std::ptr::write_bytes(p, 0xDD ^ self.seed as u8, sz.min(1 << 12));
        *(p as *mut usize) = self.free[k];
        self.free[k] = p as usize;
    }
}

pub struct SimAlloc;

#[allow(static_mut_refs)]
unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !CHILD.load(SeqCst) {
            return libc::memalign(l.align().max(16), l.size()) as *mut u8;
        }
        while ARENA.lock.swap(true, SeqCst) {}
        let p = ARENA.take(l);
        ARENA.lock.store(false, SeqCst);
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let a = p as usize;
        if (ARENA_BASE..ARENA_BASE + ARENA_SIZE).contains(&a) {
            while ARENA.lock.swap(true, SeqCst) {}
            ARENA.give(p, l);
            ARENA.lock.store(false, SeqCst);
        } else if !CHILD.load(SeqCst) {
            libc::free(p as *mut libc::c_void);
        }
    }
}
