//! Performs the calls of a plan on the real library and encodes what a caller can see, bit by bit.

use crate::plan::{Op, Plan, Step};
use crate::sim;
use crystsymm::analyzer::SymmetryAnalyzer;
use crystsymm::pointgroup::PointGroup;
use crystsymm::reduce::Reducer;
use crystsymm::spacegroup::SpaceGroup;
use crystsymm::structure::Structure;
use crystsymm::symmop::SymmOp;
use nalgebra::{Matrix3, Vector3};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub const OK: u64 = 0;
pub const REFUSED: u64 = 1;
pub const SKIPPED: u64 = 2;

pub const FLAG_OBJECT: u64 = 1;
pub const FLAG_SHARED: u64 = 2;
pub const FLAG_GROUP: u64 = 4;
pub const FLAG_ARGS: u64 = 8;
/// First of the bits for changes to the process, in the order of `TRACES`.
pub const FLAG_TRACE: u64 = 1 << 16;
pub const TRACES: [&str; 13] = [
    "the environment variables",
    "the working directory",
    "the signal handlers",
    "the file creation mask",
    "the resource limits",
    "the locale",
    "the timers",
    "the random numbers of the C library",
    "the standard streams",
    "the rounding mode, signal mask, name, priority or processors of the calling thread",
    "the panic hook",
    "standard output",
    "the files in the working, temporary and home directory",
];

pub fn put_str(w: &mut Vec<u64>, s: &str) {
    w.push(s.len() as u64);
    for c in s.as_bytes().chunks(8) {
        let mut b = [0u8; 8];
        b[..c.len()].copy_from_slice(c);
        w.push(u64::from_le_bytes(b));
    }
}

pub fn get_str(w: &[u64]) -> String {
    let n = *w.first().unwrap_or(&0) as usize;
    let mut b = Vec::new();
    for x in w.iter().skip(1).take(n.div_ceil(8)) {
        b.extend_from_slice(&x.to_le_bytes());
    }
    b.truncate(n);
    String::from_utf8_lossy(&b).into_owned()
}

/// Bits of a number; all NaNs count as one value (their sign and payload carry no meaning).
pub fn bits(x: f64) -> u64 {
    if x.is_nan() {
        0x7ff8_0000_0000_0000
    } else {
        x.to_bits()
    }
}

fn put_f<'a, T: IntoIterator<Item = &'a f64>>(w: &mut Vec<u64>, it: T) {
    w.extend(it.into_iter().map(|x| bits(*x)));
}

pub fn enc_structure(w: &mut Vec<u64>, s: &Structure) {
    put_f(w, s.lattice.iter());
    w.push(s.species.len() as u64);
    for x in &s.species {
        put_str(w, x);
    }
    w.push(s.coords.len() as u64);
    for c in &s.coords {
        put_f(w, c.iter());
    }
    w.push(s.frac_coords.len() as u64);
    for c in &s.frac_coords {
        put_f(w, c.iter());
    }
}

fn enc_pg(w: &mut Vec<u64>, g: &PointGroup) {
    put_str(w, g.symbol);
    for l in [&g.operations, &g.generators] {
        w.push(l.len() as u64);
        for m in l {
            w.extend(m.iter().map(|x| *x as u8 as u64));
        }
    }
}

fn enc_sg(w: &mut Vec<u64>, g: &SpaceGroup) {
    w.push(g.operations.len() as u64);
    for o in &g.operations {
        w.extend(o.rotation.iter().map(|x| *x as u8 as u64));
        put_f(w, o.translation.iter());
    }
}

pub struct Tools {
    pub an: SymmetryAnalyzer,
    pub re: Reducer,
}

pub struct World {
    pub plan: &'static Plan,
    pub tools: Vec<Tools>,
    pub shared: Vec<Option<Structure>>,
    /// Record operands before every call, so that it can be repeated in a process of its own.
    pub snap: bool,
    /// The process as the program has set it up, when that is watched.
    pub around: Option<[u64; 9]>,
}

#[derive(Default)]
pub struct Slots {
    st: Vec<Option<Structure>>,
    pg: Vec<Option<PointGroup>>,
    sg: Vec<Option<SpaceGroup>>,
}

fn put<T>(v: &mut Vec<Option<T>>, i: i64, x: Option<T>) {
    let i = i as usize;
    while v.len() <= i {
        v.push(None);
    }
    v[i] = x;
}

fn mat(f: &[f64]) -> Matrix3<f64> {
    Matrix3::from_iterator(f.iter().take(9).copied())
}
fn vec3(f: &[f64]) -> Vector3<f64> {
    Vector3::new(f[0], f[1], f[2])
}
fn vecs(f: &[f64]) -> Vec<Vector3<f64>> {
    f.chunks_exact(3).map(vec3).collect()
}

pub fn make_tools(t: &[(f64, f64)]) -> Vec<Tools> {
    t.iter()
        .map(|(d, a)| {
            let mut re = Reducer::default();
            re.dtol = *d;
            re.atol = *a;
            Tools { an: SymmetryAnalyzer { dtol: *d, atol: *a }, re }
        })
        .collect()
}

pub fn build(st: &Step) -> Structure {
    let n = st.i[2] as usize;
    match st.op {
        Op::New => {
            let mut c = Vec::with_capacity(n + sim::spare(n));
            c.extend(vecs(&st.f[9..9 + 3 * n]));
            let mut s = Vec::with_capacity(st.s.len() + sim::spare(n));
            s.extend(st.s.iter().cloned());
            Structure::new(mat(&st.f), s, c, st.i[1] != 0)
        }
        _ => {
            // Rebuild an observed object field by field.
            let (nc, nf) = (st.i[2] as usize, st.i[3] as usize);
            let mut s = Structure::new(Matrix3::identity(), vec![], vec![], false);
            s.lattice = mat(&st.f);
            s.species = st.s.clone();
            s.coords = vecs(&st.f[9..9 + 3 * nc]);
            s.frac_coords = vecs(&st.f[9 + 3 * nc..9 + 3 * nc + 3 * nf]);
            s
        }
    }
}

pub fn panic_text(e: &(dyn std::any::Any + Send)) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "?".into()
    }
}

fn guard<T>(f: impl FnOnce() -> T) -> Result<T, Vec<u64>> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(e) => {
            let mut w = vec![REFUSED];
            put_str(&mut w, &panic_text(&*e));
            Err(w)
        }
    }
}

/// One observation inside a compound step; a refusal is part of the observation.
fn sub(w: &mut Vec<u64>, f: impl FnOnce(&mut Vec<u64>)) {
    let mut o = Vec::new();
    match guard(|| {
        f(&mut o);
    }) {
        Ok(()) => {
            w.push(OK);
            w.extend(o);
        }
        Err(e) => w.extend(e),
    }
}

fn observe(w: &mut Vec<u64>, s: &Structure) {
    sub(w, |w| {
        w.push(s.num_sites() as u64);
        for x in [s.a(), s.b(), s.c(), s.alpha(), s.beta(), s.gamma(), s.volume()] {
            w.push(bits(x));
        }
        put_f(w, s.metric_tensor().iter());
    });
    sub(w, |w| put_f(w, s.reciprocal_lattice().iter()));
    sub(w, |w| put_f(w, s.delaunay_matrix().iter()));
    sub(w, |w| {
        let (f, r) = s.formulas();
        put_str(w, &f);
        put_str(w, &r);
    });
    sub(w, |w| {
        let (e, inds, counts) = s.get_min_element();
        put_str(w, &e);
        // Maps have no order of their own.
        let mut a: Vec<(String, u64)> = inds.into_iter().map(|(k, v)| (k, v as u64)).collect();
        let mut b: Vec<(String, u64)> = counts.into_iter().map(|(k, v)| (k, v as u64)).collect();
        a.sort();
        b.sort();
        for (k, v) in a.iter().chain(b.iter()) {
            put_str(w, k);
            w.push(*v);
        }
    });
    sub(w, |w| {
        for c in Structure::get_cart_coords(&s.lattice, &s.frac_coords) {
            put_f(w, c.iter());
        }
        for c in Structure::get_frac_coords(&s.lattice, &s.coords) {
            put_f(w, c.iter());
        }
    });
    let mut o = Vec::new();
    enc_structure(&mut o, s);
    w.extend(o);
}

/// The list is exactly the group its generators make, each operation once.
fn pg_complete(g: &PointGroup) -> bool {
    let ops = &g.operations;
    let mut all: Vec<Matrix3<i8>> = g.generators.clone();
    let mut i = 0;
    while i < all.len() && all.len() <= 96 {
        for k in 0..g.generators.len() {
            let p = g.generators[k] * all[i];
            if !all.contains(&p) {
                all.push(p);
            }
        }
        i += 1;
    }
    all.dedup();
    let mut uniq: Vec<Matrix3<i8>> = Vec::new();
    for m in &all {
        if !uniq.contains(m) {
            uniq.push(*m);
        }
    }
    ops.contains(&Matrix3::identity())
        && ops.len() == uniq.len()
        && uniq.iter().all(|m| ops.contains(m))
        && ops.iter().enumerate().all(|(i, m)| !ops[..i].contains(m))
}

/// Closed modulo lattice translations, within a few tolerances, and without repeats.
fn sg_complete(g: &SpaceGroup, gens: &[SymmOp], tol: &Vector3<f64>) -> bool {
    let same = |r: &Matrix3<i8>, t: &Vector3<f64>, o: &SymmOp, k: f64| {
        *r == o.rotation
            && (0..3).all(|i| {
                let d = t[i] - o.translation[i];
                (d - d.round()).abs() < k * tol[i]
            })
    };
    let ops = &g.operations;
    // A repeated generator stays in the list as given; products are never repeated.
    let n = gens.len();
    for (i, o) in ops.iter().enumerate().skip(n) {
        if ops[..i].iter().any(|p| same(&p.rotation, &p.translation, o, 0.5)) {
            return false;
        }
    }
    for e in gens {
        if !ops.iter().any(|o| same(&e.rotation, &e.translation, o, 1.0)) {
            return false;
        }
    }
    // The product is a group law only where the rotations commute.
    if gens.iter().any(|a| gens.iter().any(|b| a.rotation * b.rotation != b.rotation * a.rotation)) {
        return true;
    }
    for a in ops {
        for b in gens {
            let r = a.rotation * b.rotation;
            let t = b.rotation.cast::<f64>() * a.translation + b.translation;
            if !ops.iter().any(|o| same(&r, &t, o, 3.0)) {
                return false;
            }
        }
    }
    true
}

fn ident(w: &mut Vec<u64>, r: (u8, String, SpaceGroup)) {
    w.push(OK);
    w.push(r.0 as u64);
    put_str(w, &r.1);
    enc_sg(w, &r.2);
}

/// Position of steps that are not reported.
const QUIET: usize = usize::MAX;

/// The step as it is in the given round, when inputs change from round to round.
pub fn varied(st: &Step, round: usize, how: u64) -> Step {
    let mut s = st.clone();
    if s.op != Op::New || how == 0 || round == 0 {
        return s;
    }
    let x = (round as f64 * 0.618_033_988_749_895).fract();
    if how & 1 != 0 {
        let n = if s.i[1] != 0 { s.f.len() } else { 9 };
        s.f[..n].iter_mut().for_each(|v| *v *= 1.0 + 0.5 * x);
    }
    if how & 2 != 0 {
        s.s.iter_mut().for_each(|e| *e = format!("{e}{round}"));
    }
    if how & 4 != 0 && s.i[1] == 0 {
        for (i, v) in s.f[9..].iter_mut().enumerate() {
            *v += x * [0.1, 0.2, 0.3][i % 3];
        }
    }
    s
}

fn snapshot(world: &World, t: usize, k: usize, n: usize, which: u64, s: &Structure) {
    if !world.snap || n == QUIET {
        return;
    }
    let mut o = vec![];
    enc_structure(&mut o, s);
    let mut h = vec![(t as u64) << 48 | (k as u64) << 24 | n as u64, 1 + which, o.len() as u64];
    h.extend(o);
    sim::emit(&h);
}

/// What a caller may do to the public fields of a structure between calls.
fn edit(s: &mut Structure, st: &Step) {
    let n = s.frac_coords.len().min(s.coords.len()).min(s.species.len());
    if n == 0 {
        return;
    }
    let k = st.i[2] as usize % n;
    match st.i[1] {
        0 => {
            s.frac_coords[k] += Vector3::new(st.f[0], st.f[1], st.f[2]);
            s.coords[k] = s.lattice * s.frac_coords[k];
        }
        1 => s.species[k] = st.s[0].clone(),
        2 => {
            s.lattice *= 1.0 + st.f[0].abs();
            s.coords = s.frac_coords.iter().map(|x| s.lattice * x).collect();
        }
        3 => {
            s.frac_coords.remove(k);
            s.coords.remove(k);
            s.species.remove(k);
        }
        _ => s.species.swap(0, k),
    }
}

pub fn run_step(world: &World, sl: &mut Slots, st: &Step, at: (usize, usize, usize)) -> Vec<u64> {
    let mut w: Vec<u64> = Vec::new();
    let src = |sl: &Slots, i: i64| -> Option<*const Structure> {
        if i < 0 {
            world.shared.get((-1 - i) as usize)?.as_ref().map(|s| s as *const Structure)
        } else {
            sl.st.get(i as usize)?.as_ref().map(|s| s as *const Structure)
        }
    };
    let (t, k, n) = at;
    macro_rules! operand {
        ($i:expr, $which:expr) => {
            match src(sl, $i) {
                Some(p) => {
                    let s = unsafe { &*p };
                    snapshot(world, t, k, n, $which, s);
                    s
                }
                None => return vec![SKIPPED],
            }
        };
    }
    macro_rules! tools {
        () => {
            &world.tools[st.i[1] as usize]
        };
    }
    match st.op {
        Op::Rep => w.push(OK),
        Op::Fork => {
            #[cfg(feature = "py")]
            crate::py::fork();
            #[cfg(not(feature = "py"))]
            sim::fork_here();
            w.push(OK);
        }
        Op::New | Op::Raw => match guard(|| build(st)) {
            Ok(s) => {
                w.push(OK);
                enc_structure(&mut w, &s);
                put(&mut sl.st, st.i[0], Some(s));
            }
            Err(e) => {
                put(&mut sl.st, st.i[0], None);
                return e;
            }
        },
        Op::SgInfo => {
            let s = operand!(st.i[0], 0);
            match guard(|| tools!().an.get_space_group_info(s)) {
                Ok(r) => ident(&mut w, r),
                Err(e) => return e,
            }
        }
        Op::StdPrim | Op::StdConv | Op::FindPrim | Op::Niggli | Op::Delaunay => {
            let s = operand!(st.i[0], 0);
            let r = guard(|| match st.op {
                Op::StdPrim => tools!().an.get_standard_primitive_structure(s),
                Op::StdConv => tools!().an.get_standard_conventional_structure(s),
                Op::FindPrim => tools!().re.find_primitive_cell(s),
                Op::Niggli => tools!().re.niggli_reduce(s, &st.f[0]),
                _ => tools!().re.delaunay_reduce(s, st.i[3] != 0),
            });
            match r {
                Ok(r) => {
                    w.push(OK);
                    enc_structure(&mut w, &r);
                    if st.i[2] >= 0 {
                        put(&mut sl.st, st.i[2], Some(r));
                    }
                }
                Err(e) => return e,
            }
        }
        Op::Apply | Op::Norm => {
            let i = st.i[0] as usize;
            if sl.st.get(i).map_or(true, |s| s.is_none()) {
                return vec![SKIPPED];
            }
            let s = sl.st[i].as_mut().unwrap();
            snapshot(world, t, k, n, 0, s);
            let mut before = vec![];
            enc_structure(&mut before, s);
            let r = guard(|| {
                if st.op == Op::Apply {
                    s.apply_transformation(&mat(&st.f), &st.f[9])
                } else {
                    s.normalize_coords(&st.f[0])
                }
            });
            let mut after = vec![];
            enc_structure(&mut after, s);
            match r {
                Ok(()) => {
                    w.push(OK);
                    w.extend(after);
                }
                Err(e) => {
                    if before != after {
                        sim::sh().flags |= FLAG_OBJECT;
                    }
                    return e;
                }
            }
        }
        Op::Edit => {
            let s = match sl.st.get_mut(st.i[0] as usize).and_then(|s| s.as_mut()) {
                Some(s) => s,
                None => return vec![SKIPPED],
            };
            edit(s, st);
            w.push(OK);
            enc_structure(&mut w, s);
        }
        Op::Obs => {
            let s = operand!(st.i[0], 0);
            w.push(OK);
            observe(&mut w, s);
        }
        Op::TMat => {
            let a = operand!(st.i[0], 0);
            let b = operand!(st.i[1], 1);
            match guard(|| a.get_transformation_matrix(b)) {
                Ok(m) => {
                    w.push(OK);
                    put_f(&mut w, m.iter());
                }
                Err(e) => return e,
            }
        }
        Op::PgNew => match guard(|| PointGroup::from_number(&(st.i[1] as u8))) {
            Ok(g) => {
                w.push(OK);
                enc_pg(&mut w, &g);
                if !pg_complete(&g) {
                    sim::sh().flags |= FLAG_GROUP;
                }
                put(&mut sl.pg, st.i[0], Some(g));
            }
            Err(e) => {
                put(&mut sl.pg, st.i[0], None);
                return e;
            }
        },
        Op::PgApply => {
            let i = st.i[0] as usize;
            if sl.pg.get(i).map_or(true, |s| s.is_none()) {
                return vec![SKIPPED];
            }
            let g = sl.pg[i].as_mut().unwrap();
            let mut before = vec![];
            enc_pg(&mut before, g);
            let r = guard(|| g.apply_transformation(&mat(&st.f)));
            let mut after = vec![];
            enc_pg(&mut after, g);
            match r {
                Ok(()) => {
                    w.push(OK);
                    w.extend(after);
                }
                Err(e) => {
                    if before != after {
                        sim::sh().flags |= FLAG_OBJECT;
                    }
                    return e;
                }
            }
        }
        Op::SgNew => {
            let n = st.i[1] as usize;
            let ops: Vec<SymmOp> = (0..n)
                .map(|j| SymmOp {
                    rotation: Matrix3::from_iterator(st.i[2 + 9 * j..11 + 9 * j].iter().map(|x| *x as i8)),
                    translation: vec3(&st.f[3 * j..3 * j + 3]),
                })
                .collect();
            let tol = vec3(&st.f[3 * n..]);
            match guard(|| SpaceGroup::from_generators(&ops, &tol)) {
                Ok(g) => {
                    w.push(OK);
                    enc_sg(&mut w, &g);
                    let exact = (0..3).all(|i| tol[i] <= 0.02 && tol[i] >= 1e-4)
                        && ops.iter().all(|o| o.translation.iter().all(|x| (x * 12.0 - (x * 12.0).round()).abs() < 1e-9));
                    if exact && g.operations.len() <= 200 && !sg_complete(&g, &ops, &tol) {
                        sim::sh().flags |= FLAG_GROUP;
                    }
                    put(&mut sl.sg, st.i[0], Some(g));
                }
                Err(e) => return e,
            }
        }
        Op::SgApply => {
            let i = st.i[0] as usize;
            if sl.sg.get(i).map_or(true, |s| s.is_none()) {
                return vec![SKIPPED];
            }
            let g = sl.sg[i].as_mut().unwrap();
            let mut before = vec![];
            enc_sg(&mut before, g);
            let r = guard(|| g.apply_transformation(&mat(&st.f), &vec3(&st.f[9..])));
            let mut after = vec![];
            enc_sg(&mut after, g);
            match r {
                Ok(()) => {
                    w.push(OK);
                    w.extend(after);
                }
                Err(e) => {
                    if before != after {
                        sim::sh().flags |= FLAG_OBJECT;
                    }
                    return e;
                }
            }
        }
        Op::OpMul | Op::Util => return extra(st),
        #[cfg(feature = "py")]
        _ => return crate::py::call(world, st),
        #[cfg(not(feature = "py"))]
        _ => return vec![SKIPPED],
    }
    w
}

#[cfg(not(feature = "extra"))]
fn extra(_: &Step) -> Vec<u64> {
    vec![SKIPPED]
}

#[cfg(feature = "extra")]
fn extra(st: &Step) -> Vec<u64> {
    use crystsymm::utils::*;
    let mut w = vec![OK];
    if st.op == Op::OpMul {
        let op = |j: usize| SymmOp {
            rotation: Matrix3::from_iterator(st.i[9 * j..9 * j + 9].iter().map(|x| *x as i8)),
            translation: vec3(&st.f[3 * j..]),
        };
        let tol = vec3(&st.f[9..]);
        sub(&mut w, |w| {
            let p = op(0) * op(1);
            w.extend(p.rotation.iter().map(|x| *x as u8 as u64));
            put_f(w, p.translation.iter());
            let mut q = op(0);
            q.normalize(&tol);
            put_f(w, q.translation.iter());
            w.push(q.is_approx_eq(&op(1), &tol) as u64);
            put_f(w, (op(0) * vec3(&st.f[6..])).iter());
        });
        return w;
    }
    match st.i[0] {
        0 => sub(&mut w, |w| {
            let mut v = vecs(&st.f[3..]);
            normalize_frac_vectors(&mut v, &vec3(&st.f));
            for c in &v {
                put_f(w, c.iter());
            }
        }),
        1 => sub(&mut w, |w| {
            let (a, b) = num_negative_zero(&st.f[1..].to_vec(), &st.f[0]);
            w.push(a as u64);
            w.push(b as u64);
        }),
        2 => sub(&mut w, |w| {
            let v = decode(st.i[1] as u32, st.i[2] as u8, st.i[3] as i8, st.i[4] as i8);
            w.extend(v.iter().map(|x| *x as u64));
        }),
        3 => sub(&mut w, |w| w.push(compare_matrices(&mat(&st.f), &mat(&st.f[9..]), &st.f[18..27]) as u64)),
        _ => {
            let na = st.i[1] as usize;
            let r = guard(|| approx_equal_iter(st.f[1..1 + na].iter(), st.f[1 + na..].iter(), &st.f[0]));
            match r {
                Ok(b) => w.push(b as u64),
                Err(e) => return e,
            }
        }
    }
    w
}

/// Executes all tasks of one thread, reporting every outcome as it happens.
pub fn run_thread(world: &World, t: usize) {
    if world.plan.repeat > 0 {
        let n = if world.plan.apart > 0 { world.plan.apart } else { world.plan.repeat };
        for k in 0..n {
            for task in &world.plan.threads[0] {
                let mut sl = Slots::default();
                for (j, st) in task.iter().enumerate() {
                    run_step(world, &mut sl, &varied(st, t * n + k, world.plan.vary), (t, k, j));
                }
            }
            if world.plan.apart == 0 && (n <= 2048 || [8, 4, 2, 1].iter().any(|d| k + 1 == n / d)) {
                checkpoint(t, k);
            }
        }
        return;
    }
    let own = world.around.as_ref().map(|_| sim::around_thread());
    for (k, task) in world.plan.threads[t].iter().enumerate() {
        let report = |n: usize, steps: u64, w: &[u64]| {
            let mut h = vec![(t as u64) << 48 | (k as u64) << 24 | n as u64, 0, w.len() as u64 + 1];
            h.push(steps);
            h.extend(w);
            sim::emit(&h);
        };
        let many = crate::plan::rounds(task) as usize;
        if many > 1 {
            let how = task[0].i[1] as u64;
            let mut first: Vec<Vec<u64>> = vec![];
            for round in (0..many).rev() {
                let mut sl = Slots::default();
                let mut all = vec![];
                for st in task {
                    let s0 = sim::my_effort();
                    let w = run_step(world, &mut sl, &varied(st, round, how), (t, k, QUIET));
                    all.push((sim::my_effort() - s0, w));
                }
                // The last round is reported, or the first that differs from the one before.
                let odd = how == 0 && !first.is_empty() && first.iter().zip(&all).any(|(a, b)| *a != b.1);
                if round == 0 || odd {
                    all.iter().enumerate().for_each(|(n, (s, w))| report(n, *s, w));
                    break;
                }
                first = all.into_iter().map(|x| x.1).collect();
            }
            continue;
        }
        let mut sl = Slots::default();
        for (n, st) in task.iter().enumerate() {
            let s0 = sim::my_effort();
            let w = run_step(world, &mut sl, st, (t, k, n));
            report(n, sim::my_effort() - s0, &w);
        }
        if let (Some(a), Some(own)) = (&world.around, own) {
            let b = sim::around();
            let mut f = 0;
            for i in 0..a.len() {
                f |= ((a[i] != b[i]) as u64) << i;
            }
            f |= ((own != sim::around_thread()) as u64) << 9;
            f |= (!hook_in_place() as u64) << 10;
            let _ = std::io::Write::flush(&mut std::io::stdout());
            f |= ((sim::sh().c.stdout_bytes > 0) as u64) << 11;
            sim::sh().flags |= f * FLAG_TRACE;
        }
    }
}

pub static HOOKED: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

/// Does a panic still reach the hook that the program has set?
fn hook_in_place() -> bool {
    let n = HOOKED.load(std::sync::atomic::Ordering::SeqCst);
    let _ = catch_unwind(|| std::panic::panic_any(0u8));
    HOOKED.load(std::sync::atomic::Ordering::SeqCst) == n + 1
}

pub fn open_files() -> u64 {
    (0..1200usize).filter(|f| unsafe { sim::raw(libc::SYS_fcntl, *f, libc::F_GETFD as usize, 0, 0, 0, 0) } >= 0).count() as u64
}

/// Open files at the start, which belong to the harness.
pub static FILES: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

/// What the process holds at this moment: memory, threads, open files, files.
pub fn checkpoint(t: usize, k: usize) {
    let h = sim::held();
    sim::outside(|| {
        let w = [(t as u64) << 48 | (k as u64) << 24, 0, 6, 0, h[0], h[1], h[2], open_files() - FILES.load(std::sync::atomic::Ordering::SeqCst), crate::run::count_files() as u64];
        sim::emit(&w);
    });
}

/// Short human-readable form of an outcome, for reports.
pub fn describe(w: &[u64]) -> String {
    match w.first() {
        None => "nothing".into(),
        Some(&REFUSED) => format!("refused: {}", get_str(&w[1..])),
        Some(&SKIPPED) => "skipped".into(),
        Some(_) => {
            let mut h = 0u64;
            for x in w {
                h = crate::rng::mix(h, *x);
            }
            format!("answer of {} words, digest {h:016x}", w.len())
        }
    }
}
