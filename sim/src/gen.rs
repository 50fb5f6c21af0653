//! Workload generation: crystals, near-duplicates, call sequences, failing calls, whole plans.

use crate::plan::{Op, Plan, Step, Task};
use crate::rng::{mix, Rng};
use crate::sgdata::SG;
use crate::sim::{SchedCfg, Strat, Universe};
use nalgebra::{Matrix3, Rotation3, Vector3};

#[derive(Clone)]
pub struct Crystal {
    pub lat: Matrix3<f64>,
    pub sp: Vec<String>,
    pub fc: Vec<Vector3<f64>>,
    pub cart: bool,
}

const ELE: &[&str] = &["A", "B", "C", "Na", "Cl", "O", "Si", "Fe", "Xx", "N", "Ca", "He"];

fn conv_lattice(sys: u8, r: &mut Rng) -> Matrix3<f64> {
    // Round numbers provoke accidental equalities; plain ones do not.
    let len = |r: &mut Rng| if r.chance(1, 3) { r.range(3, 8) as f64 } else { r.uni(3.0, 9.0) };
    let (a, b, c) = (len(r), len(r), len(r));
    let ang = |r: &mut Rng| {
        if r.chance(1, 6) {
            r.pick(&[60.0, 90.0, 120.0, 109.4712206])
        } else {
            r.uni(65.0, 115.0)
        }
    };
    let (a, b, c, al, be, ga): (f64, f64, f64, f64, f64, f64) = match sys {
        0 => (a, b, c, ang(r), ang(r), ang(r)),
        1 => (a, b, c, 90.0, r.uni(91.0, 118.0), 90.0),
        2 => (a, b, c, 90.0, 90.0, 90.0),
        3 => (a, a, c, 90.0, 90.0, 90.0),
        4 | 5 => (a, a, c, 90.0, 90.0, 120.0),
        _ => (a, a, a, 90.0, 90.0, 90.0),
    };
    let d = std::f64::consts::PI / 180.0;
    let (ca, cb, cg, sg) = ((al * d).cos(), (be * d).cos(), (ga * d).cos(), (ga * d).sin());
    let cx = c * cb;
    let cy = c * (ca - cb * cg) / sg;
    let cz2 = c * c - cx * cx - cy * cy;
    let cz = if cz2 > 0.5 { cz2.sqrt() } else { c };
    let z = |x: f64| if x.abs() < 1e-15 { 0.0 } else { x };
    Matrix3::from_columns(&[
        Vector3::new(a, 0.0, 0.0),
        Vector3::new(z(b * cg), z(b * sg), 0.0),
        Vector3::new(z(cx), z(cy), z(cz)),
    ])
}

fn centring(c: char) -> Matrix3<f64> {
    let (m, d): ([f64; 9], f64) = match c {
        'A' => ([2., 0., 0., 0., 1., -1., 0., 1., 1.], 2.),
        'B' => ([1., 0., -1., 0., 2., 0., 1., 0., 1.], 2.),
        'C' => ([1., 1., 0., -1., 1., 0., 0., 0., 2.], 2.),
        'I' => ([-1., 1., 1., 1., -1., 1., 1., 1., -1.], 2.),
        'F' => ([0., 1., 1., 1., 0., 1., 1., 1., 0.], 2.),
        'R' => ([2., -1., -1., 1., 1., -2., 1., 1., 1.], 3.),
        _ => ([1., 0., 0., 0., 1., 0., 0., 0., 1.], 1.),
    };
    Matrix3::from_row_slice(&m) / d
}

pub fn decode_op(mut e: u32) -> ([i64; 9], [f64; 3]) {
    // Row-major rotation in base 3, translation in eighths of a special alphabet (twelfths).
    let tr = e / 19683;
    e %= 19683;
    let mut rot = [0i64; 9];
    for i in (0..9).rev() {
        rot[i] = (e % 3) as i64 - 1;
        e /= 3;
    }
    let map = [0.0, 2.0, 3.0, 4.0, 6.0, 8.0, 9.0, 10.0];
    let t = [map[(tr / 64 % 8) as usize] / 12.0, map[(tr / 8 % 8) as usize] / 12.0, map[(tr % 8) as usize] / 12.0];
    (rot, t)
}

fn wrap(v: Vector3<f64>) -> Vector3<f64> {
    v.map(|x| x - x.round())
}

pub fn min_dist(l: &Matrix3<f64>, a: &Vector3<f64>, b: &Vector3<f64>) -> f64 {
    let d = wrap(a - b);
    let mut m = f64::MAX;
    for i in -1..2 {
        for j in -1..2 {
            for k in -1..2 {
                m = m.min((l * (d + Vector3::new(i as f64, j as f64, k as f64))).norm());
            }
        }
    }
    m
}

fn special(r: &mut Rng) -> f64 {
    r.pick(&[0.0, 0.0, 0.5, 0.25, 0.75, 1.0 / 3.0, 2.0 / 3.0, 0.125])
}

/// A crystal with the symmetry of a random space group (or more), in the standard primitive basis.
fn from_group(r: &mut Rng, cap: usize) -> Crystal {
    loop {
        let g = &SG[r.idx(SG.len())];
        let ops = g.3;
        if ops.len() > 2 * cap && !r.chance(1, 4) {
            continue;
        }
        let lat = conv_lattice(g.1, r) * centring(g.2);
        let mut c = Crystal { lat, sp: vec![], fc: vec![], cart: false };
        let n_orb = 1 + r.idx(3);
        let same_ele = r.chance(1, 8);
        for o in 0..n_orb {
            let e = if same_ele { ELE[0] } else { ELE[(o * 5 + r.idx(4)) % ELE.len()] }.to_string();
            for _try in 0..12 {
                let x = Vector3::new(
                    if r.chance(1, 2) { special(r) } else { r.f() },
                    if r.chance(1, 2) { special(r) } else { r.f() },
                    if r.chance(1, 2) { special(r) } else { r.f() },
                );
                let mut orb: Vec<Vector3<f64>> = vec![];
                for e in ops {
                    let (m, t) = decode_op(*e);
                    let m = Matrix3::from_row_slice(&m.map(|x| x as f64));
                    let y = m * x + Vector3::from_row_slice(&t);
                    if !orb.iter().any(|z| min_dist(&lat, z, &y) < 1e-6) {
                        orb.push(y);
                    }
                }
                if c.fc.len() + orb.len() > cap {
                    continue;
                }
                let all: Vec<Vector3<f64>> = c.fc.iter().chain(orb.iter()).copied().collect();
                let ok = (0..all.len()).all(|i| (0..i).all(|j| min_dist(&lat, &all[i], &all[j]) > 0.9));
                if ok {
                    c.sp.extend(orb.iter().map(|_| e.clone()));
                    c.fc = all;
                    break;
                }
            }
        }
        if !c.fc.is_empty() {
            return c;
        }
    }
}

/// Well-known arrangements in conventional cells.
fn prototype(r: &mut Rng) -> Crystal {
    let a = r.uni(3.5, 6.5);
    let k = r.uni(0.8, 1.5);
    let f: &[[f64; 3]] = &[[0., 0., 0.], [0., 0.5, 0.5], [0.5, 0., 0.5], [0.5, 0.5, 0.]];
    let mut sp: Vec<String> = vec![];
    let mut fc: Vec<Vector3<f64>> = vec![];
    let mut lat = Matrix3::identity() * a;
    let mut add = |e: &str, v: [f64; 3]| {
        sp.push(e.into());
        fc.push(Vector3::from_row_slice(&v));
    };
    match r.idx(9) {
        0 => f.iter().for_each(|v| add("Cu", *v)),
        1 => [[0., 0., 0.], [0.5, 0.5, 0.5]].iter().for_each(|v| add("Fe", *v)),
        2 => {
            for v in f {
                add("Na", *v);
                add("Cl", [v[0] + 0.5, v[1] + 0.5, v[2] + 0.5]);
            }
        }
        3 => {
            for v in f {
                add("Si", *v);
                add("Si", [v[0] + 0.25, v[1] + 0.25, v[2] + 0.25]);
            }
        }
        4 => {
            add("Cs", [0., 0., 0.]);
            add("Cl", [0.5, 0.5, 0.5]);
        }
        5 => {
            add("Ca", [0., 0., 0.]);
            add("Ti", [0.5, 0.5, 0.5]);
            for v in [[0.5, 0.5, 0.], [0.5, 0., 0.5], [0., 0.5, 0.5]] {
                add("O", v);
            }
        }
        6 => {
            lat = Matrix3::from_columns(&[
                Vector3::new(a, 0., 0.),
                Vector3::new(-a / 2., a * 3f64.sqrt() / 2., 0.),
                Vector3::new(0., 0., a * k * 1.4),
            ]);
            add("Mg", [1. / 3., 2. / 3., 0.25]);
            add("Mg", [2. / 3., 1. / 3., 0.75]);
        }
        7 => {
            lat = Matrix3::from_diagonal(&Vector3::new(a, a, a * k));
            let u = r.uni(0.28, 0.32);
            add("Ti", [0., 0., 0.]);
            add("Ti", [0.5, 0.5, 0.5]);
            for v in [[u, u, 0.], [-u, -u, 0.], [0.5 + u, 0.5 - u, 0.5], [0.5 - u, 0.5 + u, 0.5]] {
                add("O", v);
            }
        }
        _ => {
            lat = Matrix3::from_columns(&[
                Vector3::new(-3.748244, 0., 0.),
                Vector3::new(1.874122, -4.750729, 0.),
                Vector3::new(0., 1.5562529, 6.25794799),
            ]);
            add("Au", [0.5, 0., 0.5]);
            add("Au", [0., 0., 0.]);
            add("Se", [0.5, 0.636, 0.276]);
            add("Se", [0., 0.364, 0.724]);
        }
    }
    Crystal { lat, sp, fc, cart: false }
}

fn low_symmetry(r: &mut Rng) -> Crystal {
    let lat = conv_lattice(r.idx(7) as u8, r);
    let n = 1 + r.idx(6);
    let mut c = Crystal { lat, sp: vec![], fc: vec![], cart: false };
    let kinds = 1 + r.idx(3);
    let mut tries = 0;
    while c.fc.len() < n && tries < 200 {
        tries += 1;
        let x = Vector3::new(r.f(), r.f(), r.f());
        if c.fc.iter().all(|y| min_dist(&lat, y, &x) > 1.0) {
            c.sp.push(ELE[r.idx(kinds)].into());
            c.fc.push(x);
        }
    }
    c
}

/// Tens of sites: a repeated small crystal or a mixture of many elements.
fn large(r: &mut Rng, cap: usize) -> Crystal {
    if r.chance(1, 4) {
        let mut c = Crystal { lat: conv_lattice(r.idx(7) as u8, r) * 2.0, sp: vec![], fc: vec![], cart: false };
        let kinds = 1 + r.idx(ELE.len());
        let n = cap / 2 + r.idx(cap / 2);
        for _ in 0..4 * n {
            let x = Vector3::new(r.f(), r.f(), r.f());
            if c.fc.len() < n && c.fc.iter().all(|y| min_dist(&c.lat, y, &x) > 0.9) {
                c.sp.push(ELE[r.idx(kinds)].into());
                c.fc.push(x);
            }
        }
        return c;
    }
    let mut c = if r.chance(1, 3) { prototype(r) } else { from_group(r, 8) };
    let mut m = [1; 3];
    loop {
        let k = r.idx(3);
        m[k] += 1;
        if (m[0] * m[1] * m[2]) as usize * c.fc.len() > cap {
            m[k] -= 1;
            break;
        }
    }
    c = supercell(&c, m);
    if r.chance(1, 3) {
        // A defect: the small cell is not a cell of this one.
        let i = r.idx(c.sp.len());
        c.sp[i] = r.pick(ELE).to_string();
    }
    c
}

pub fn supercell(c: &Crystal, m: [i64; 3]) -> Crystal {
    let d = Vector3::new(m[0] as f64, m[1] as f64, m[2] as f64);
    let mut o = Crystal { lat: c.lat * Matrix3::from_diagonal(&d), sp: vec![], fc: vec![], cart: c.cart };
    for (x, s) in c.fc.iter().zip(&c.sp) {
        for i in 0..m[0] {
            for j in 0..m[1] {
                for k in 0..m[2] {
                    o.fc.push((x + Vector3::new(i as f64, j as f64, k as f64)).component_div(&d));
                    o.sp.push(s.clone());
                }
            }
        }
    }
    o
}

fn unimodular(r: &mut Rng) -> Matrix3<f64> {
    let mut m: Matrix3<f64> = Matrix3::identity();
    for _ in 0..1 + r.idx(3) {
        let (i, j) = (r.idx(3), r.idx(3));
        if i != j {
            let mut e = Matrix3::identity();
            e[(i, j)] = r.pick(&[1.0, -1.0, 1.0, 2.0]);
            m *= e;
        }
    }
    m
}

/// Another, usually less compact cell of the same lattice.
fn skew(r: &mut Rng, c: &mut Crystal) {
    let mut u = unimodular(r);
    if r.chance(1, 2) {
        u *= unimodular(r);
    }
    if let Some(ui) = u.try_inverse() {
        c.lat *= u;
        for x in c.fc.iter_mut() {
            *x = ui * *x;
        }
    }
}

pub fn noise(r: &mut Rng, c: &mut Crystal, amp: f64) {
    if let Some(li) = c.lat.try_inverse() {
        for x in c.fc.iter_mut() {
            *x += li * Vector3::new(r.uni(-amp, amp), r.uni(-amp, amp), r.uni(-amp, amp));
        }
    }
}

/// Equivalent or nearly equivalent descriptions of the same crystal.
fn redescribe(r: &mut Rng, c: &mut Crystal, cap: usize) {
    if r.chance(1, 4) && c.fc.len() * 2 <= cap {
        let m = r.pick(&[[2, 1, 1], [1, 2, 1], [1, 1, 2]]);
        *c = supercell(c, m);
    }
    if r.chance(1, 4) {
        let u = unimodular(r);
        if let Some(ui) = u.try_inverse() {
            c.lat *= u;
            for x in c.fc.iter_mut() {
                *x = ui * *x;
            }
        }
    }
    if r.chance(1, 5) {
        let q = Rotation3::from_euler_angles(r.uni(-3., 3.), r.uni(-3., 3.), r.uni(-3., 3.));
        c.lat = q.matrix() * c.lat;
    }
    if r.chance(1, 4) {
        let o = if r.chance(1, 2) { Vector3::new(special(r), special(r), special(r)) } else { Vector3::new(r.f(), r.f(), r.f()) };
        for x in c.fc.iter_mut() {
            *x += o;
        }
    }
    if r.chance(1, 4) {
        for x in c.fc.iter_mut() {
            *x += Vector3::new(r.range(-2, 2) as f64, r.range(-2, 2) as f64, r.range(-2, 2) as f64);
        }
    }
    if r.chance(1, 4) {
        permute(r, c);
    }
    c.cart = r.chance(1, 4);
}

fn permute(r: &mut Rng, c: &mut Crystal) {
    let mut ix: Vec<usize> = (0..c.fc.len()).collect();
    r.shuffle(&mut ix);
    c.sp = ix.iter().map(|i| c.sp[*i].clone()).collect();
    c.fc = ix.iter().map(|i| c.fc[*i]).collect();
}

pub const DTOLS: &[f64] = &[0.05, 0.05, 0.01, 0.01, 0.1, 0.001, 0.2];

pub fn tolerances(r: &mut Rng) -> (f64, f64) {
    // Loose tolerances make several groups and translations match at once.
    if r.chance(1, 8) {
        return (r.pick(&[0.4, 0.7, 1.0, 1.5, 2.5]), 5.0);
    }
    (r.pick(DTOLS), r.pick(&[5.0, 5.0, 1.0, 0.5]))
}

pub fn crystal(r: &mut Rng, cap: usize, dtol: f64) -> Crystal {
    let mut c = match r.idx(8) {
        _ if cap >= 32 => large(r, cap),
        0 | 1 => prototype(r),
        2 => low_symmetry(r),
        _ => from_group(r, cap),
    };
    redescribe(r, &mut c, cap);
    if r.chance(2, 5) {
        let k = r.pick(&[1e-6, 0.02, 0.1, 0.3, 0.5, 0.8]);
        let a = dtol * k;
        noise(r, &mut c, a);
    }
    if r.chance(1, 16) {
        // Lattice itself slightly off.
        let a = dtol * r.pick(&[0.1, 0.5, 1.0]);
        for x in c.lat.iter_mut() {
            *x += r.uni(-a, a);
        }
    }
    c
}

/// A structure that agrees with `c` in most respects; what differs is what a careless shortcut
/// (cache key, early exit, reused buffer) would overlook.
pub fn variant(r: &mut Rng, c: &Crystal) -> Crystal {
    let mut v = c.clone();
    let n = v.fc.len().max(1);
    match r.idx(16) {
        14 | 15 => skew(r, &mut v),
        0 => permute(r, &mut v),
        1 => {
            // same everything, one site moved
            let i = r.idx(n);
            if let Some(x) = v.fc.get_mut(i) {
                *x += Vector3::new(r.uni(-0.1, 0.1), r.uni(-0.1, 0.1), r.uni(-0.1, 0.1));
            }
        }
        2 => {
            let i = r.idx(n);
            if let Some(s) = v.sp.get_mut(i) {
                *s = r.pick(ELE).to_string();
            }
        }
        3 => {
            // same shape, other scale
            let k = r.pick(&[0.5, 0.9, 1.001, 1.1, 2.0]);
            v.lat *= k;
        }
        4 => {
            let i = r.idx(3);
            for k in 0..3 {
                v.lat[(k, i)] *= 1.07;
            }
        }
        5 => {
            let o = Vector3::new(r.f(), r.f(), r.f());
            v.fc.iter_mut().for_each(|x| *x += o);
        }
        6 => noise(r, &mut v, 1e-3),
        7 => {
            // same volume and composition, other shape
            let k = r.uni(1.02, 1.3);
            let d = Matrix3::from_diagonal(&Vector3::new(k, 1.0 / k, 1.0));
            v.lat *= d;
        }
        8 => {
            // species exchanged: same formula when counts agree
            let mut kinds: Vec<String> = v.sp.clone();
            kinds.sort();
            kinds.dedup();
            if kinds.len() > 1 {
                let (a, b) = (kinds[0].clone(), kinds[1].clone());
                v.sp.iter_mut().for_each(|s| *s = if *s == a { b.clone() } else if *s == b { a.clone() } else { s.clone() });
            }
        }
        9 => {
            if v.fc.len() <= 8 {
                let m = r.pick(&[[2, 1, 1], [1, 2, 1], [1, 1, 2]]);
                v = supercell(&v, m);
            }
        }
        10 => {
            let i = r.idx(n);
            if v.fc.len() > 1 {
                v.fc.remove(i);
                v.sp.remove(i);
            }
        }
        11 => {
            // swap the positions of two sites: same lattice, same species list, same set of points
            if n > 1 {
                let (i, j) = (r.idx(n), r.idx(n));
                v.fc.swap(i, j);
            }
        }
        12 => v.lat = Rotation3::from_euler_angles(r.uni(-3., 3.), r.uni(-3., 3.), r.uni(-3., 3.)).matrix() * v.lat,
        _ => {
            // axes relabelled
            let p = Matrix3::new(0., 0., 1., 1., 0., 0., 0., 1., 0.);
            v.lat *= p;
            let pi = p.transpose();
            v.fc.iter_mut().for_each(|x| *x = pi * *x);
        }
    }
    v
}

pub fn new_step(slot: i64, c: &Crystal) -> Step {
    let mut f: Vec<f64> = c.lat.iter().copied().collect();
    for x in &c.fc {
        let y = if c.cart { c.lat * x } else { *x };
        f.extend(y.iter());
    }
    Step::new(Op::New, &[slot, c.cart as i64, c.fc.len() as i64], &f, &c.sp)
}

fn matrix(r: &mut Rng) -> Vec<f64> {
    let m: Matrix3<f64> = match r.idx(6) {
        0 => Matrix3::identity(),
        1 => Matrix3::from_diagonal(&Vector3::new(r.range(1, 2) as f64, r.range(1, 2) as f64, 1.0)),
        2 => Matrix3::new(0., 0., 1., 1., 0., 0., 0., 1., 0.),
        3 => centring(r.pick(&['C', 'I', 'F', 'A'])).try_inverse().unwrap(),
        _ => unimodular(r),
    };
    m.iter().copied().collect()
}

/// A matrix that cannot be inverted.
pub fn singular(r: &mut Rng) -> Vec<f64> {
    let mut m = Matrix3::from_iterator((0..9).map(|_| r.range(-2, 2) as f64));
    match r.idx(5) {
        0 => m = Matrix3::zeros(),
        1 => {
            let c: Vector3<f64> = m.column(0).into();
            m.set_column(1, &c);
        }
        2 => {
            m.set_column(2, &Vector3::zeros());
        }
        3 => {
            let c: Vector3<f64> = m.column(0) * 2.0;
            m.set_column(2, &c);
        }
        _ => {
            m.set_row(1, &nalgebra::RowVector3::zeros());
        }
    }
    m.iter().copied().collect()
}

pub fn call(r: &mut Rng, src: i64, ntools: usize, dst: i64) -> Step {
    let k = r.idx(12);
    call_kind(r, k, src, ntools, dst)
}

fn call_kind(r: &mut Rng, kind: usize, src: i64, ntools: usize, dst: i64) -> Step {
    let t = r.idx(ntools) as i64;
    match kind {
        0..=4 => Step::new(Op::SgInfo, &[src, t], &[], &[]),
        5 => Step::new(Op::StdPrim, &[src, t, dst], &[], &[]),
        6 => Step::new(Op::StdConv, &[src, t, dst], &[], &[]),
        7 | 8 => Step::new(Op::FindPrim, &[src, t, dst], &[], &[]),
        9 => Step::new(Op::Niggli, &[src, t, dst], &[r.pick(&[1e-5, 1e-5, 1e-3, 0.01])], &[]),
        10 => Step::new(Op::Delaunay, &[src, t, dst, r.idx(2) as i64], &[], &[]),
        _ => Step::new(Op::Obs, &[src], &[], &[]),
    }
}

fn apply(r: &mut Rng, slot: i64) -> Step {
    let mut f = matrix(r);
    f.push(r.pick(&[0.05, 0.01, 0.1]));
    Step::new(Op::Apply, &[slot], &f, &[])
}

/// The caller changes a field of its own structure.
fn edit(r: &mut Rng, slot: i64) -> Step {
    let f = [r.uni(-0.3, 0.3), r.uni(-0.3, 0.3), r.uni(-0.3, 0.3)];
    Step::new(Op::Edit, &[slot, r.idx(5) as i64, r.idx(64) as i64], &f, &[r.pick(ELE).to_string()])
}

/// The same task with one thing changed: what an incomplete key would overlook.
fn tweak(r: &mut Rng, task: &Task, ntools: usize) -> Task {
    let mut t = task.clone();
    let n = t.len();
    if n == 0 {
        return t;
    }
    // Mostly the last call itself, else what it works on.
    let k = if r.chance(2, 3) { n - 1 } else { r.idx(n) };
    let s = &mut t[k];
    match s.op {
        Op::SgInfo | Op::StdPrim | Op::StdConv | Op::FindPrim => s.i[1] = r.idx(ntools) as i64,
        Op::Niggli if r.chance(3, 4) => s.f[0] = r.pick(&[1e-5, 1e-3, 0.01, 0.1, 1e-7]),
        Op::Niggli => s.i[1] = r.idx(ntools) as i64,
        Op::Delaunay => s.i[3] = 1 - s.i[3],
        Op::PgNew => s.i[1] = r.range(1, 32),
        Op::New if !s.s.is_empty() && r.chance(1, 3) => {
            let j = r.idx(s.s.len());
            s.s[j] = r.pick(ELE).to_string();
        }
        _ if !s.f.is_empty() => {
            let j = r.idx(s.f.len());
            s.f[j] += r.pick(&[1e-9, -1e-6, 1e-3, 0.05, 0.5]);
        }
        _ => {}
    }
    t
}

/// A program of several calls on one or two structures, feeding results into later calls.
pub fn session(r: &mut Rng, c: &Crystal, ntools: usize, len: usize) -> Task {
    let mut t = vec![new_step(0, c)];
    let mut top = 0i64;
    for _ in 0..len {
        let s = r.range(0, top);
        match r.idx(9) {
            8 => t.push(edit(r, s)),
            0 | 1 => {
                let f = apply(r, s);
                t.push(f);
            }
            2 => t.push(Step::new(Op::Norm, &[s], &[r.pick(&[0.05, 0.01, 1e-3])], &[])),
            3 => t.push(Step::new(Op::TMat, &[s, r.range(0, top)], &[], &[])),
            4 => t.push(Step::new(Op::Obs, &[s], &[], &[])),
            _ => {
                let st = call(r, s, ntools, top + 1);
                if st.i.len() > 2 && top < 4 {
                    top += 1;
                }
                t.push(st);
            }
        }
    }
    t.push(Step::new(Op::Obs, &[top], &[], &[]));
    t
}

fn sg_generators(r: &mut Rng) -> (Vec<i64>, Vec<f64>, usize) {
    let g = &SG[r.idx(SG.len())];
    let all = r.chance(1, 2) && g.3.len() <= 24;
    let k = if all { g.3.len() } else { 1 + r.idx(3) };
    let mut i = vec![];
    let mut f = vec![];
    for q in 0..k {
        let e = if all { g.3[q] } else { g.3[r.idx(g.3.len())] };
        let (m, t) = decode_op(e);
        // column-major
        for c in 0..3 {
            for rr in 0..3 {
                i.push(m[rr * 3 + c]);
            }
        }
        f.extend(t);
    }
    (i, f, k)
}

pub fn group_task(r: &mut Rng) -> Task {
    let mut t = vec![];
    if r.chance(1, 2) {
        t.push(Step::new(Op::PgNew, &[0, r.range(1, 32)], &[], &[]));
        if r.chance(1, 2) {
            t.push(Step::new(Op::PgApply, &[0], &matrix(r), &[]));
        }
    }
    if t.is_empty() || r.chance(1, 2) {
        let (i, mut f, k) = sg_generators(r);
        let tol = r.pick(&[1e-3, 0.01, 0.005, 0.05]);
        f.extend([tol; 3]);
        let mut ii = vec![0, k as i64];
        ii.extend(i);
        t.push(Step::new(Op::SgNew, &ii, &f, &[]));
        if r.chance(1, 2) {
            let mut f = matrix(r);
            f.extend([tol; 3]);
            t.push(Step::new(Op::SgApply, &[0], &f, &[]));
        }
    }
    if r.chance(1, 4) {
        t.push(extra(r));
    }
    t
}

fn extra(r: &mut Rng) -> Step {
    match r.idx(5) {
        0 => {
            let (mut i, mut f, _) = sg_generators(r);
            i.truncate(9);
            f.truncate(3);
            let (i2, f2, _) = sg_generators(r);
            i.extend(&i2[..9]);
            f.extend(&f2[..3]);
            f.extend([r.f(), r.f(), r.f(), 1e-3, 1e-3, 1e-3]);
            Step::new(Op::OpMul, &i, &f, &[])
        }
        1 => {
            let f: Vec<f64> = [1e-3, 1e-3, 1e-3].into_iter().chain((0..9).map(|_| r.uni(-3., 3.))).collect();
            Step::new(Op::Util, &[0], &f, &[])
        }
        2 => {
            let f: Vec<f64> = [1e-5].into_iter().chain((0..6).map(|_| r.pick(&[0.0, 1e-6, -1e-6, 1.0, -1.0]))).collect();
            Step::new(Op::Util, &[1], &f, &[])
        }
        3 => Step::new(Op::Util, &[2, r.below(19683) as i64, 3, 1, 9], &[], &[]),
        _ => {
            let f: Vec<f64> = (0..27).map(|k| if k > 17 { 0.01 } else { r.range(-1, 1) as f64 }).collect();
            Step::new(Op::Util, &[3], &f, &[])
        }
    }
}

/// A call that the library refuses (or may refuse), of many kinds and at many depths.
pub fn fault_task(r: &mut Rng, ntools: usize) -> Task {
    let t = r.idx(ntools) as i64;
    let mut c = if r.chance(1, 2) { prototype(r) } else { low_symmetry(r) };
    let any = |r: &mut Rng| {
        r.pick(&[Op::SgInfo, Op::SgInfo, Op::FindPrim, Op::StdPrim, Op::StdConv, Op::Niggli, Op::Delaunay])
    };
    let on = |op: Op, r: &mut Rng| Step::new(op, &[0, t, 1, r.idx(2) as i64], &[1e-5], &[]);
    match r.idx(17) {
        15 => vec![new_step(0, &c), Step::new(Op::Niggli, &[0, t, 1], &[r.pick(&[-1e-3, -0.1, -1.0, f64::NAN])], &[])],
        0 => {
            let mut f = singular(r);
            f.push(0.05);
            vec![new_step(0, &c), Step::new(Op::Apply, &[0], &f, &[]), Step::new(Op::Obs, &[0], &[], &[])]
        }
        1 => vec![Step::new(Op::PgNew, &[0, r.pick(&[0, 33, 64, 255])], &[], &[])],
        2 => vec![Step::new(Op::PgNew, &[0, r.range(1, 32)], &[], &[]), Step::new(Op::PgApply, &[0], &singular(r), &[])],
        3 => {
            let (i, mut f, k) = sg_generators(r);
            f.extend([1e-3; 3]);
            let mut ii = vec![0, k as i64];
            ii.extend(i);
            let mut g = singular(r);
            g.extend([1e-3; 3]);
            vec![Step::new(Op::SgNew, &ii, &f, &[]), Step::new(Op::SgApply, &[0], &g, &[])]
        }
        4 => {
            c.sp.clear();
            c.fc.clear();
            let op = any(r);
            vec![new_step(0, &c), on(op, r), Step::new(Op::Obs, &[0], &[], &[])]
        }
        5 => {
            // more coordinates than species, or fewer
            if r.chance(1, 2) {
                c.sp.pop();
            } else {
                c.fc.pop();
            }
            let op = any(r);
            vec![new_step(0, &c), on(op, r)]
        }
        6 => {
            c.lat[r.idx(9)] = f64::NAN;
            let op = any(r);
            vec![new_step(0, &c), on(op, r)]
        }
        7 => {
            let k = r.idx(c.fc.len().max(1));
            if let Some(x) = c.fc.get_mut(k) {
                x[r.idx(3)] = r.pick(&[f64::NAN, f64::INFINITY]);
            }
            let op = any(r);
            vec![new_step(0, &c), on(op, r)]
        }
        8 => {
            // flat cell
            let col: Vector3<f64> = c.lat.column(0).into();
            c.lat.set_column(1, &col);
            let op = any(r);
            vec![new_step(0, &c), on(op, r), Step::new(Op::Obs, &[0], &[], &[])]
        }
        9 => {
            // left-handed cell
            let col: Vector3<f64> = c.lat.column(0) * -1.0;
            c.lat.set_column(0, &col);
            let op = any(r);
            vec![new_step(0, &c), on(op, r)]
        }
        10 | 11 => {
            // symmetry that the tables hold in another setting
            let mut c = from_group(r, 12);
            let o = Vector3::new(r.f(), r.f(), r.f());
            c.fc.iter_mut().for_each(|x| *x += o);
            let op = r.pick(&[Op::SgInfo, Op::SgInfo, Op::StdConv]);
            vec![new_step(0, &c), on(op, r)]
        }
        12 => {
            let f: Vec<f64> = (0..8).map(|_| r.f()).collect();
            vec![Step::new(Op::Util, &[4, 3], &f, &[])]
        }
        13 => {
            // strongly skewed cell: reduction may give up
            let mut m: Matrix3<f64> = Matrix3::identity();
            for _ in 0..6 {
                m *= unimodular(r);
            }
            let k = r.pick(&[1.0, 1e3, 1e-3]);
            c.lat = c.lat * m * k;
            vec![new_step(0, &c), on(Op::Niggli, r)]
        }
        _ => {
            // sites nearly on top of each other
            if let Some(x) = c.fc.first().copied() {
                c.fc.push(x + Vector3::new(1e-4, 0.0, 0.0));
                c.sp.push("Q".into());
            }
            let op = any(r);
            vec![new_step(0, &c), on(op, r)]
        }
    }
}

fn sched(r: &mut Rng, nthreads: usize) -> SchedCfg {
    let strat = match r.idx(17) {
        15 | 16 => {
            let vars = r.chance(2, 3) as u64;
            let skip = r.log_uni(1.0, if vars == 1 { 40.0 } else { 1500.0 });
            Strat::Meet { skip, short: r.pick(&[1, 2, 4, 10]), mean: r.log_uni(100.0, 60000.0), vars }
        }
        14 => Strat::Uneven {
            victim: r.idx(nthreads),
            mean: r.log_uni(4.0, 20000.0).max(2),
            other: r.log_uni(100.0, 60000.0),
        },
        // Preempted mostly at shared variables.
        12 | 13 => {
            let first_hit = r.pick(&[0, 2000, 20000]) + (r.pick(&[1000, 4000, 16000, 40000]) << 16);
            return SchedCfg { seed: r.next(), strat: Strat::Pct { points: vec![] }, first_hit };
        }
        // Preempted only where code runs for the first time, and then for long.
        10 | 11 => {
            let first_hit = r.pick(&[500, 2000, 6000, 20000, 50000]);
            return SchedCfg { seed: r.next(), strat: Strat::Pct { points: vec![] }, first_hit };
        }
        0..=3 => Strat::Random { mean: r.log_uni(4.0, 40000.0).max(2) },
        4..=7 => {
            // Fractions of the expected length (of 2^20), made absolute once the length is known.
            let d = 1 + r.idx(6);
            let mut p: Vec<u64> = (0..d)
                .map(|_| if r.chance(1, 3) { r.log_uni(1.0, (1 << 20) as f64) } else { r.below(1 << 20) })
                .collect();
            p.sort();
            Strat::Pct { points: p }
        }
        _ => {
            let at = if r.chance(1, 2) { r.log_uni(1.0, (1 << 20) as f64) } else { r.below(1 << 20) };
            Strat::Stall { victim: r.idx(nthreads), at, mean: r.log_uni(50.0, 40000.0) }
        }
    };
    let first_hit = r.pick(&[0, 0, 200, 2000, 20000]);
    SchedCfg { seed: r.next(), strat, first_hit }
}

/// Two nearly equal tolerances and a structure with a displacement between them.
fn close_tolerances(r: &mut Rng, tools: &mut Vec<(f64, f64)>, v: &mut Vec<Task>) {
    let (d, a) = (r.pick(&[0.01, 0.05, 0.1, 0.1]), r.pick(&[5.0, 1.0]));
    let k = 1.0 + r.pick(&[1e-9, 1e-7, 1e-4, 1e-3, 1e-2, 0.04, 0.04]);
    let m = r.pick(&[[2, 1, 1], [1, 2, 1], [1, 1, 2]]);
    let mut c = supercell(&crystal(r, 2, d), m);
    if let (Some(x), Some(inv)) = (c.fc.last().copied(), c.lat.try_inverse()) {
        let u = Vector3::new(r.uni(-1.0, 1.0), r.uni(-1.0, 1.0), r.uni(-1.0, 1.0)).normalize();
        let n = c.fc.len();
        c.fc[n - 1] = x + inv * (u * (r.pick(&[1.0, 2.0]) * d * (1.0 + (k - 1.0) / 2.0)));
    }
    let n = tools.len();
    tools.push((d, a));
    tools.push((d * k, a));
    let mut calls: Vec<usize> = (0..1 + r.idx(3)).map(|_| r.pick(&[0, 5, 6, 7])).collect();
    calls.dedup();
    for _ in 0..2 + r.idx(5) {
        let kind = r.pick(&calls);
        let mut t = vec![new_step(0, &c), call_kind(r, kind, 0, n + 2, 1)];
        t[1].i[1] = (n + r.idx(2)) as i64;
        v.push(t);
    }
}

/// Number of rounds for a counter to run over.
fn long(r: &mut Rng) -> i64 {
    if r.chance(1, 3) {
        66_000 + r.below(4000) as i64
    } else {
        r.log_uni(300.0, 60_000.0) as i64
    }
}

fn blank(prop: &str, seed: u64) -> Plan {
    Plan {
        prop: prop.into(),
        seed,
        uni: Universe::from_seed(mix(seed, 77)),
        tools: vec![],
        shared: vec![],
        threads: vec![],
        warm: false,
        sched: SchedCfg { seed: 0, strat: Strat::Serial, first_hit: 0 },
        kill_at: None,
        faults: vec![],
        repeat: 0,
        apart: 0,
        vary: 0,
        budget: 3_000_000,
    }
}

/// A call of a given kind on a structure for which it has work to do.
fn focus_task(r: &mut Rng, kind: usize, c: &Crystal, ntools: usize, nshared: usize) -> Task {
    if kind == 12 {
        return group_task(r);
    }
    if nshared > 0 && r.chance(1, 4) {
        let s = -1 - (r.idx(nshared) as i64);
        return vec![call_kind(r, kind, s, ntools, 0)];
    }
    let mut c = c.clone();
    if (kind == 9 || kind == 10) && r.chance(3, 4) {
        skew(r, &mut c);
    }
    vec![new_step(0, &c), call_kind(r, kind, 0, ntools, 1)]
}

fn small_task(r: &mut Rng, c: &Crystal, ntools: usize, nshared: usize) -> Task {
    match r.idx(10) {
        0 => group_task(r),
        1 => {
            let n = 1 + r.idx(3);
            session(r, c, ntools, n)
        }
        2 | 3 if nshared > 0 => {
            let s = -1 - (r.idx(nshared) as i64);
            vec![call(r, s, ntools, 0)]
        }
        _ => vec![new_step(0, c), call(r, 0, ntools, 1)],
    }
}

pub fn plan(prop: &str, seed: u64, thorough: bool) -> Plan {
    let mut r = Rng::new(mix(seed, 0xC0FFEE));
    let r = &mut r;
    let mut p = blank(prop, seed);
    let mut crowd = false;
    let big = if thorough { 24 } else { 16 };
    // Now and then everything is about cells with many sites.
    let many = if r.chance(1, 32) { Some(r.pick(&[32, 32, 48, if thorough { 96 } else { 64 }])) } else { None };
    if many.is_some() {
        p.budget = 30_000_000;
    }
    match prop {
        "C01" => {
            p.tools.push(tolerances(r));
            let cap = many.unwrap_or(r.pick(&[4, 8, 8, 12, big]));
            let c = crystal(r, cap, p.tools[0].0);
            p.threads = vec![vec![vec![new_step(0, &c), Step::new(Op::SgInfo, &[0, 0], &[], &[])]]];
            p.warm = r.chance(1, 8);
        }
        "C02" => {
            p.tools.push(tolerances(r));
            p.tools.push(tolerances(r));
            let cap = many.unwrap_or(r.pick(&[4, 8, 8, 12, big]));
            let c = crystal(r, cap, p.tools[0].0);
            let n = 1 + r.idx(8);
            let mut t = session(r, &c, 2, n);
            // Space-group answers are another property's business.
            t.retain(|s| s.op != Op::SgInfo);
            p.threads = vec![vec![t]];
            p.warm = r.chance(1, 8);
        }
        "C03" => {
            p.tools.push((0.05, 5.0));
            let k = 1 + r.idx(4);
            let mut t = vec![];
            for _ in 0..k {
                t.extend(group_task(r));
            }
            if r.chance(1, 10) {
                t.push(Step::new(Op::PgNew, &[1, r.pick(&[0, 33, 200])], &[], &[]));
            }
            p.threads = vec![vec![t]];
            p.warm = r.chance(1, 8);
        }
        "C08" if r.chance(1, 8) => {
            // One thing fails over and over, then everything is used.
            p.tools.push(tolerances(r));
            let base = crystal(r, 2, p.tools[0].0);
            let bad: Vec<Task> = (0..r.pick(&[1, 1, 2])).map(|_| fault_task(r, 1)).collect();
            let mut v: Vec<Task> = vec![];
            for _ in 0..r.log_uni(5.0, if thorough { 400.0 } else { 100.0 }) {
                v.push(r.pick(&bad));
            }
            if r.chance(1, 8) {
                v.truncate(1);
                v[0].insert(0, Step::new(Op::Rep, &[long(r), 0], &[], &[]));
            }
            let m = v.len();
            let apart = r.chance(1, 3);
            let mut w: Vec<Task> = vec![];
            for kind in [9, 10, 7, 5, 6, 0, 11, 12] {
                if r.chance(2, 3) {
                    let c = variant(r, &base);
                    w.push(focus_task(r, kind, &c, 1, 0));
                }
            }
            p.faults = (0..m).map(|k| (0, k)).collect();
            if apart {
                p.threads = vec![v, w];
            } else {
                v.extend(w);
                p.threads = vec![v];
            }
        }
        "C04" | "C05" if many.is_none() && r.chance(1, 8) => {
            // One thread at a long call while the others make many short ones.
            p.tools.push(tolerances(r));
            let kind = r.pick(&[0, 5, 6, 7, 9, 9, 10, 10, 11, 12]);
            let cap = r.pick(&[2, 4, 8]);
            let c = crystal(r, cap, p.tools[0].0);
            p.threads.push((0..1 + r.idx(2)).map(|_| focus_task(r, kind, &c, 1, 0)).collect());
            let set: Vec<Task> = (0..1 + r.idx(3))
                .map(|_| {
                    let c = crystal(r, 1, p.tools[0].0);
                    let k = if r.chance(5, 6) { kind } else { 9 };
                    focus_task(r, k, &c, 1, 0)
                })
                .collect();
            for _ in 0..r.pick(&[1, 1, 2, 3]) {
                let n = r.log_uni(8.0, if thorough { 200.0 } else { 60.0 });
                p.threads.push((0..n).map(|_| r.pick(&set)).collect());
            }
            p.budget = 6_000_000;
            crowd = true;
        }
        "C04" | "C05" | "C08" | "C11" => {
            for _ in 0..1 + r.idx(2) {
                p.tools.push(tolerances(r));
            }
            let nt = p.tools.len();
            let nth = if matches!(prop, "C08" | "C11") { 1 + r.idx(3) } else { r.pick(&[2, 2, 2, 3, 3, 4]) };
            let nth = if many.is_some() { nth.min(2) } else { nth };
            let fam = r.chance(2, 3);
            let cap = many.unwrap_or(r.pick(&[2, 4, 4, 8, if thorough { 16 } else { 8 }]));
            let base = crystal(r, cap, p.tools[0].0);
            let ns = r.idx(3);
            for _ in 0..ns {
                let c = if fam { variant(r, &base) } else { crystal(r, cap, p.tools[0].0) };
                p.shared.push(new_step(0, &c));
            }
            // All threads busy with the same kind of call, or with the very same calls.
            let focus = if r.chance(2, 5) { Some(r.pick(&[0, 5, 6, 7, 9, 9, 10, 10, 11, 12])) } else { None };
            let mut seen: Vec<Task> = vec![];
            let again = r.pick(&[0, 0, 1, 2]);
            for t in 0..nth {
                let n = if matches!(prop, "C08" | "C11") { 2 + r.idx(5) } else { 1 + r.idx(if thorough { 6 } else { 3 }) };
                let n = if many.is_some() { n.min(2) } else { n };
                let mut v = vec![];
                for k in 0..n {
                    let fault = match prop {
                        "C08" | "C11" => r.chance(2, 5),
                        "C05" => r.chance(1, 5),
                        _ => false,
                    };
                    if fault {
                        p.faults.push((t, k));
                        v.push(fault_task(r, nt));
                    } else {
                        let c = if fam { variant(r, &base) } else { crystal(r, cap, p.tools[0].0) };
                        let t = match focus {
                            _ if !seen.is_empty() && r.below(4) < again => {
                                let old = seen[r.idx(seen.len())].clone();
                                if r.chance(1, 2) {
                                    tweak(r, &old, nt)
                                } else {
                                    old
                                }
                            }
                            Some(k) if r.chance(5, 6) => focus_task(r, k, &c, nt, ns),
                            _ => small_task(r, &c, nt, ns),
                        };
                        seen.push(t.clone());
                        v.push(t);
                    }
                }
                p.threads.push(v);
            }
            p.warm = r.chance(1, if focus.is_some() { 6 } else { 3 });
        }
        "C06" => {
            for _ in 0..1 + r.idx(3) {
                p.tools.push(tolerances(r));
            }
            let cap = many.unwrap_or(r.pick(&[1, 2, 2, 4, 4, 8]));
            let n = if many.is_some() {
                2 + r.idx(4)
            } else if r.chance(1, 8) { 60 + r.idx(if thorough { 400 } else { 100 }) } else { 3 + r.idx(22) };
            let cap = if n > 40 { cap.min(2) } else { cap };
            let mut pool: Vec<Crystal> = (0..1 + r.idx(3)).map(|_| crystal(r, cap, p.tools[0].0)).collect();
            let mut v: Vec<Task> = vec![];
            let forks = r.chance(1, 6);
            if many.is_none() && r.chance(1, 12) {
                close_tolerances(r, &mut p.tools, &mut v);
            }
            let nt = p.tools.len();
            let marathon = v.is_empty() && many.is_none() && r.chance(1, 60);
            if marathon {
                // Tens of thousands of calls, then the rest.
                let kind = r.pick(&[0, 7, 9, 9, 9, 10, 10, 10, 11, 11, 12]);
                let c = crystal(r, 1, p.tools[0].0);
                let mut t = if r.chance(1, 6) { fault_task(r, nt) } else { focus_task(r, kind, &c, nt, 0) };
                let vary = if r.chance(1, 2) { 1 + r.below(7) as i64 } else { 0 };
                t.insert(0, Step::new(Op::Rep, &[long(r), vary], &[], &[]));
                v.push(t);
                v.push(focus_task(r, kind, &c, nt, 0));
            }
            let n = if marathon { 4 + r.idx(8) } else { n };
            if v.is_empty() && many.is_none() && r.chance(1, 10) {
                // Very many calls of one kind, from a small set of inputs.
                let kind = r.pick(&[0, 5, 6, 7, 9, 9, 10, 10, 11, 12]);
                let set: Vec<Task> = (0..2 + r.idx(6))
                    .map(|_| {
                        if r.chance(1, 12) {
                            return fault_task(r, nt);
                        }
                        let mut c = crystal(r, 2, p.tools[0].0);
                        if c.fc.len() > 4 {
                            c.fc.truncate(2);
                            c.sp.truncate(2);
                        }
                        focus_task(r, kind, &c, nt, 0)
                    })
                    .collect();
                let most = match (kind, thorough) {
                    (9 | 10 | 11, false) => 700.0,
                    (9 | 10 | 11, true) => 3000.0,
                    (_, false) => 300.0,
                    _ => 1000.0,
                };
                for _ in 0..r.log_uni(40.0, most) {
                    v.push(r.pick(&set));
                }
            }
            let n = if v.len() < 40 { n.max(v.len()) } else { v.len() };
            // Exact repetitions, near-duplicates and fresh structures in one history.
            while v.len() < n {
                match r.idx(10) {
                    _ if forks && r.chance(1, 8) => v.push(vec![Step::new(Op::Fork, &[], &[], &[])]),
                    0 | 1 if !v.is_empty() => {
                        let t = r.pick(&v);
                        v.push(t);
                    }
                    4 | 5 if !v.is_empty() => {
                        let t = r.pick(&v);
                        let t = tweak(r, &t, nt);
                        v.push(t);
                    }
                    2 => v.push(group_task(r)),
                    3 => v.push(fault_task(r, nt)),
                    _ => {
                        let k = r.idx(pool.len());
                        let c = if r.chance(3, 4) { variant(r, &pool[k]) } else { crystal(r, cap, p.tools[0].0) };
                        if c.fc.len() <= cap.max(12) && r.chance(1, 3) {
                            pool.push(c.clone());
                        }
                        v.push(small_task(r, &c, nt, 0));
                    }
                }
            }
            p.threads = vec![v];
            if r.chance(1, 4) {
                p.kill_at = Some(r.log_uni(1.0, (1 << 20) as f64));
            }
        }
        "C07" => {
            p.tools.push(tolerances(r));
            let cap = many.unwrap_or(r.pick(&[2, 4, 8]));
            let c = crystal(r, cap, p.tools[0].0);
            let kind = r.idx(3);
            let mut t: Task = vec![];
            let n = 2 + r.idx(7);
            match kind {
                0 => {
                    t.push(new_step(0, &c));
                    for _ in 0..n {
                        let s = if r.chance(1, 2) {
                            let mut f = singular(r);
                            f.push(r.pick(&[0.05, 0.01, 0.1]));
                            Step::new(Op::Apply, &[0], &f, &[])
                        } else {
                            match r.idx(5) {
                                0 | 1 => apply(r, 0),
                                2 => Step::new(Op::Norm, &[0], &[0.05], &[]),
                                3 => Step::new(Op::Obs, &[0], &[], &[]),
                                _ => call(r, 0, 1, 1),
                            }
                        };
                        t.push(s);
                    }
                    t.push(Step::new(Op::Obs, &[0], &[], &[]));
                }
                1 => {
                    t.push(Step::new(Op::PgNew, &[0, r.range(1, 32)], &[], &[]));
                    for _ in 0..n {
                        let m = if r.chance(1, 2) { singular(r) } else { matrix(r) };
                        t.push(Step::new(Op::PgApply, &[0], &m, &[]));
                    }
                    t.push(Step::new(Op::PgApply, &[0], &[1., 0., 0., 0., 1., 0., 0., 0., 1.], &[]));
                }
                _ => {
                    let (i, mut f, k) = sg_generators(r);
                    f.extend([0.005; 3]);
                    let mut ii = vec![0, k as i64];
                    ii.extend(i);
                    t.push(Step::new(Op::SgNew, &ii, &f, &[]));
                    for _ in 0..n {
                        let mut m = if r.chance(1, 2) { singular(r) } else { matrix(r) };
                        m.extend([0.005; 3]);
                        t.push(Step::new(Op::SgApply, &[0], &m, &[]));
                    }
                    t.push(Step::new(Op::SgApply, &[0], &[1., 0., 0., 0., 1., 0., 0., 0., 1., 0.005, 0.005, 0.005], &[]));
                }
            }
            p.threads = vec![vec![t]];
        }
        "C09" => {
            for _ in 0..1 + r.idx(2) {
                p.tools.push(tolerances(r));
            }
            let nt = p.tools.len();
            let nth = r.pick(&[1, 1, 1, 2, 3]);
            let cap = many.unwrap_or(r.pick(&[2, 4, 8]));
            let base = crystal(r, cap, p.tools[0].0);
            for t in 0..nth {
                let n = if nth == 1 && many.is_none() { 2 + r.idx(10) } else { 1 + r.idx(3) };
                let mut v = vec![];
                for k in 0..n {
                    if nth == 1 && r.chance(1, 24) {
                        v.push(vec![Step::new(Op::Fork, &[], &[], &[])]);
                        continue;
                    }
                    let c = match r.idx(5) {
                        0 => crystal(r, cap, p.tools[0].0),
                        _ => variant(r, &base),
                    };
                    let op = r.pick(&[Op::PySg, Op::PySg, Op::PyPrim, Op::PyNig, Op::PyConv, Op::PyStdPrim]);
                    let mut s = new_step(0, &c);
                    if r.chance(1, 5) {
                        p.faults.push((t, k));
                        if r.chance(1, 3) {
                            v.push(vec![Step::new(Op::PyBad, &[r.idx(5 * 16) as i64], &[], &[])]);
                            continue;
                        }
                        let ft = fault_task(r, nt);
                        if let Some(x) = ft.first().filter(|x| x.op == Op::New) {
                            s = x.clone();
                        } else {
                            s.s.clear();
                        }
                    }
                    s.op = op;
                    if op == Op::PyNig && r.chance(1, 3) {
                        s.f.push(r.pick(&[1e-3, 0.01, 1e-7, -1e-3, -0.1]));
                    }
                    s.i[0] = r.idx(nt) as i64;
                    v.push(vec![s]);
                }
                p.threads.push(v);
            }
            p.warm = false;
        }
        "C10" => {
            for _ in 0..1 + r.idx(2) {
                p.tools.push(tolerances(r));
            }
            let nt = p.tools.len();
            let cap = many.unwrap_or(r.pick(&[1, 2, 2, 4]));
            let base = crystal(r, cap, p.tools[0].0);
            let mut v = vec![];
            for k in 0..1 + r.idx(4) {
                let c = variant(r, &base);
                v.push(match r.idx(4) {
                    0 => {
                        p.faults.push((0, k));
                        fault_task(r, nt)
                    }
                    1 => {
                        let kind = r.pick(&[0, 5, 6, 7, 9, 10, 11, 12]);
                        focus_task(r, kind, &c, nt, 0)
                    }
                    _ => small_task(r, &c, nt, 0),
                });
            }
            p.threads = vec![v];
            p.apart = r.chance(1, 3) as usize;
            p.repeat = if many.is_some() {
                16
            } else if p.apart > 0 {
                r.pick(&[16, 32])
            } else { r.pick(&[16, 32, 64]) };
            // The same inputs again, or new ones each time.
            p.vary = if r.chance(1, 2) { 1 + r.below(7) } else { 0 };
            p.sched.seed = r.next();
            return p;
        }
        _ => {}
    }
    // With one caller, the schedule matters only if the library starts threads of its own.
    let n = p.threads.len();
    p.sched = sched(r, if n > 1 { n } else { 4 });
    if crowd && r.chance(2, 3) {
        p.sched.strat = Strat::Uneven {
            victim: 0,
            mean: r.log_uni(100.0, 20000.0),
            other: r.log_uni(1000.0, 60000.0),
        };
    }
    p
}

/// A long history for C06 and friends is expensive to check call by call; this is the per-call form
/// of one step on rebuilt operands.
pub fn rebuild_task(st: &Step, operands: &[Step]) -> Task {
    let mut t: Task = operands.to_vec();
    let mut s = st.clone();
    s.i[0] = 0;
    if s.op == Op::TMat {
        s.i[1] = 1;
    } else if matches!(s.op, Op::StdPrim | Op::StdConv | Op::FindPrim | Op::Niggli | Op::Delaunay) {
        s.i[2] = 2;
    }
    t.push(s);
    t
}
