//! Calls through the Python module, in an embedded interpreter.

use crate::exec::{self, bits, put_str, World, OK, REFUSED};
use crate::plan::{Op, Step};
use crate::sim;
use std::ffi::{c_char, c_double, c_int, c_long, c_void, CString};
use std::panic::{catch_unwind, AssertUnwindSafe};

type Obj = *mut c_void;

extern "C" {
    static mut Py_NoSiteFlag: c_int;
    static mut Py_IsolatedFlag: c_int;
    static mut Py_DontWriteBytecodeFlag: c_int;
    static mut Py_HashRandomizationFlag: c_int;
    static mut _Py_NoneStruct: [u8; 16];
    static mut _Py_TrueStruct: [u8; 32];
    static mut _Py_FalseStruct: [u8; 32];
    static mut PyList_Type: [u8; 8];
    static mut PyTuple_Type: [u8; 8];
    static mut PyFloat_Type: [u8; 8];
    static mut PyLong_Type: [u8; 8];
    static mut PyUnicode_Type: [u8; 8];
    fn PyImport_AppendInittab(name: *const c_char, f: unsafe extern "C" fn() -> Obj) -> c_int;
    fn Py_InitializeEx(sigs: c_int);
    fn PyOS_BeforeFork();
    fn PyOS_AfterFork_Parent();
    fn PyOS_AfterFork_Child();
    fn PyEval_SaveThread() -> Obj;
    fn PyGILState_Ensure() -> c_int;
    fn PyGILState_Release(s: c_int);
    fn PyImport_ImportModule(name: *const c_char) -> Obj;
    fn PyObject_GetAttrString(o: Obj, name: *const c_char) -> Obj;
    fn PyObject_Call(f: Obj, args: Obj, kw: Obj) -> Obj;
    fn PyObject_Repr(o: Obj) -> Obj;
    fn PyObject_IsInstance(o: Obj, t: Obj) -> c_int;
    fn PyErr_Occurred() -> Obj;
    fn PyErr_Clear();
    fn PyList_New(n: isize) -> Obj;
    fn PyList_SetItem(l: Obj, i: isize, x: Obj) -> c_int;
    fn PyList_GetItem(l: Obj, i: isize) -> Obj;
    fn PyList_Size(l: Obj) -> isize;
    fn PyTuple_New(n: isize) -> Obj;
    fn PyTuple_SetItem(l: Obj, i: isize, x: Obj) -> c_int;
    fn PyTuple_GetItem(l: Obj, i: isize) -> Obj;
    fn PyTuple_Size(l: Obj) -> isize;
    fn PyFloat_FromDouble(x: c_double) -> Obj;
    fn PyFloat_AsDouble(o: Obj) -> c_double;
    fn PyLong_FromLong(x: c_long) -> Obj;
    fn PyLong_AsLong(o: Obj) -> c_long;
    fn PyBool_FromLong(x: c_long) -> Obj;
    fn PyUnicode_FromStringAndSize(s: *const c_char, n: isize) -> Obj;
    fn PyUnicode_AsUTF8AndSize(o: Obj, n: *mut isize) -> *const c_char;
    fn Py_IncRef(o: Obj);
    fn Py_DecRef(o: Obj);
    fn PyInit_crystsymm() -> Obj;
}

static mut MODULE: Obj = std::ptr::null_mut();

/// Starts the interpreter, before any fork. The module itself is imported by each simulated process.
pub fn init() {
    unsafe {
        Py_NoSiteFlag = 1;
        Py_IsolatedFlag = 1;
        Py_DontWriteBytecodeFlag = 1;
        Py_HashRandomizationFlag = 0;
        PyImport_AppendInittab(c"crystsymm".as_ptr(), PyInit_crystsymm);
        Py_InitializeEx(0);
    }
}

pub fn before_fork() {
    unsafe { PyOS_BeforeFork() }
}

pub fn after_fork_parent() {
    unsafe { PyOS_AfterFork_Parent() }
}

pub fn fork() {
    unsafe {
        PyGILState_Ensure();
        PyOS_BeforeFork();
        sim::fork_here();
        PyOS_AfterFork_Child();
        // The copy's only thread keeps its state to the end, as a main thread does.
        PyEval_SaveThread();
    }
}

/// In the simulated process: import the module and let go of the interpreter lock.
pub fn after_fork(native: bool) {
    unsafe {
        PyOS_AfterFork_Child();
        if !native {
            MODULE = PyImport_ImportModule(c"crystsymm".as_ptr());
            PyErr_Clear();
        }
        PyEval_SaveThread();
    }
}

fn put_list(w: &mut Vec<u64>, n: usize) {
    w.push(0x1157);
    w.push(n as u64);
}

unsafe fn is(o: Obj, t: *mut [u8; 8]) -> bool {
    PyObject_IsInstance(o, t as Obj) == 1
}

/// Sequences, numbers and text, whatever the exact container type.
unsafe fn encode(w: &mut Vec<u64>, o: Obj) {
    if is(o, &raw mut PyTuple_Type) {
        put_list(w, PyTuple_Size(o) as usize);
        for i in 0..PyTuple_Size(o) {
            encode(w, PyTuple_GetItem(o, i));
        }
    } else if is(o, &raw mut PyList_Type) {
        put_list(w, PyList_Size(o) as usize);
        for i in 0..PyList_Size(o) {
            encode(w, PyList_GetItem(o, i));
        }
    } else if is(o, &raw mut PyFloat_Type) {
        w.push(0xf);
        w.push(bits(PyFloat_AsDouble(o)));
    } else if is(o, &raw mut PyLong_Type) {
        w.push(0x1);
        w.push(PyLong_AsLong(o) as u64);
    } else if is(o, &raw mut PyUnicode_Type) {
        w.push(0x5);
        put_str(w, &text(o));
    } else {
        w.push(0xbad);
    }
}

unsafe fn text(o: Obj) -> String {
    let mut n = 0;
    let p = PyUnicode_AsUTF8AndSize(o, &mut n);
    if p.is_null() {
        PyErr_Clear();
        return "?".into();
    }
    String::from_utf8_lossy(std::slice::from_raw_parts(p as *const u8, n as usize)).into_owned()
}

unsafe fn floats(f: &[f64]) -> Obj {
    let l = PyList_New(f.len() as isize);
    for (i, x) in f.iter().enumerate() {
        PyList_SetItem(l, i as isize, PyFloat_FromDouble(*x));
    }
    l
}
unsafe fn word(s: &str) -> Obj {
    PyUnicode_FromStringAndSize(s.as_ptr() as *const c_char, s.len() as isize)
}
unsafe fn words(s: &[String]) -> Obj {
    let l = PyList_New(s.len() as isize);
    for (i, x) in s.iter().enumerate() {
        PyList_SetItem(l, i as isize, word(x));
    }
    l
}
unsafe fn rows(f: &[f64], k: usize) -> Obj {
    let n = f.len() / k;
    let l = PyList_New(n as isize);
    for i in 0..n {
        PyList_SetItem(l, i as isize, floats(&f[k * i..k * i + k]));
    }
    l
}
unsafe fn list(v: &[Obj]) -> Obj {
    let l = PyList_New(v.len() as isize);
    for (i, x) in v.iter().enumerate() {
        PyList_SetItem(l, i as isize, *x);
    }
    l
}
unsafe fn pack(v: &[Obj]) -> Obj {
    let t = PyTuple_New(v.len() as isize);
    for (i, x) in v.iter().enumerate() {
        PyTuple_SetItem(t, i as isize, *x);
    }
    t
}
unsafe fn repr(o: Obj) -> String {
    let r = PyObject_Repr(o);
    if r.is_null() {
        PyErr_Clear();
        return "?".into();
    }
    let s = text(r);
    Py_DecRef(r);
    s
}

fn name(op: Op, k: i64) -> &'static str {
    const ALL: [&str; 5] = [
        "get_space_group_info",
        "find_primitive",
        "get_standard_conventional_structure",
        "get_standard_primitive_structure",
        "niggli_reduce",
    ];
    match op {
        Op::PySg => ALL[0],
        Op::PyPrim => ALL[1],
        Op::PyConv => ALL[2],
        Op::PyStdPrim => ALL[3],
        Op::PyNig => ALL[4],
        _ => ALL[k.rem_euclid(5) as usize],
    }
}

/// Arguments no function accepts.
unsafe fn bad_args(k: i64, nig: bool) -> Vec<Obj> {
    let lat = [4.0, 0.0, 0.0, 0.0, 4.0, 0.0, 0.0, 0.0, 4.0];
    let none = &raw mut _Py_NoneStruct as Obj;
    Py_IncRef(none);
    let mut v = vec![floats(&lat), words(&["Na".into(), "Cl".into()]), rows(&[0.0, 0.0, 0.0, 0.5, 0.5, 0.5], 3), PyBool_FromLong(0), PyFloat_FromDouble(0.05)];
    if !nig {
        v.push(PyFloat_FromDouble(5.0));
    }
    match k {
        0 => v.clear(),
        1 => v[0] = none,
        2 => {
            let l = PyList_New(1);
            PyList_SetItem(l, 0, PyLong_FromLong(11));
            v[1] = l;
        }
        3 => v[2] = words(&["x".into()]),
        4 => v[0] = floats(&lat[..5]),
        5 => v[2] = rows(&[0.0, 0.0, 0.5, 0.5], 2),
        6 => v.push(none),
        7 => v[4] = word("0.05"),
        // Only a later element is wrong: by then the earlier ones have been taken.
        8 | 9 | 10 => {
            let mut l = vec![floats(&[0.1, 0.2, 0.3]), floats(&[0.6, 0.7, 0.8]), floats(&[0.4, 0.5, 0.1])];
            l[(k - 7).min(2) as usize] = if k == 10 { words(&["a".into(), "b".into(), "c".into()]) } else { floats(&[0.5, 0.5]) };
            v[1] = words(&["Na".into(), "Cl".into(), "O".into()]);
            v[2] = list(&l);
        }
        11 => v[1] = list(&[word("Na"), PyLong_FromLong(17)]),
        12 => v[0] = list(&[PyFloat_FromDouble(4.0), PyFloat_FromDouble(0.0), word("0")]),
        13 => v[3] = none,
        14 => {
            v.pop();
        }
        _ => v[2] = list(&[floats(&[0.0, 0.0, 0.0]), floats(&[])]),
    }
    v
}

fn nig_tol(st: &Step) -> f64 {
    st.f.get(9 + 3 * st.i[2] as usize).copied().unwrap_or(1e-5)
}

pub fn call(world: &World, st: &Step) -> Vec<u64> {
    if unsafe { crate::run::NATIVE } {
        return native(world, st);
    }
    let mut w = vec![];
    unsafe {
        let g = PyGILState_Ensure();
        if MODULE.is_null() {
            PyGILState_Release(g);
            return vec![REFUSED];
        }
        let args = if st.op == Op::PyBad {
            let f = st.i[0] / 16;
            pack(&bad_args(st.i[0] % 16, name(st.op, f) == "niggli_reduce"))
        } else {
            let t = world.plan.tools[st.i[0] as usize];
            let n = st.i[2] as usize;
            let mut v = vec![floats(&st.f[..9]), words(&st.s), rows(&st.f[9..9 + 3 * n], 3), PyBool_FromLong((st.i[1] != 0) as c_long)];
            if st.op == Op::PyNig {
                v.push(PyFloat_FromDouble(nig_tol(st)));
            } else {
                v.push(PyFloat_FromDouble(t.0));
                v.push(PyFloat_FromDouble(t.1));
            }
            pack(&v)
        };
        let before = repr(args);
        let f = CString::new(name(st.op, st.i[0] / 16)).unwrap();
        let f = PyObject_GetAttrString(MODULE, f.as_ptr());
        let r = if f.is_null() { f } else { PyObject_Call(f, args, std::ptr::null_mut()) };
        if r.is_null() {
            // The exception's text is free; that there is one is not.
            w.push(REFUSED);
            if PyErr_Occurred().is_null() {
                w.push(0xbad);
            }
            PyErr_Clear();
        } else {
            w.push(OK);
            encode(&mut w, r);
            if !PyErr_Occurred().is_null() {
                w.push(0xbad);
                PyErr_Clear();
            }
            Py_DecRef(r);
        }
        if repr(args) != before {
            sim::sh().flags |= exec::FLAG_ARGS;
        }
        if !f.is_null() {
            Py_DecRef(f);
        }
        Py_DecRef(args);
        PyGILState_Release(g);
    }
    w
}

/// The same call on the Rust library.
fn native(world: &World, st: &Step) -> Vec<u64> {
    use crystsymm::structure::Structure;
    if st.op == Op::PyBad {
        return vec![REFUSED];
    }
    let r = catch_unwind(AssertUnwindSafe(|| {
        let mut w = vec![OK];
        let mut b = st.clone();
        b.op = Op::New;
        let s = exec::build(&b);
        let t = &world.tools[st.i[0] as usize];
        fn out(w: &mut Vec<u64>, s: &Structure) {
            let fl = |w: &mut Vec<u64>, v: Vec<f64>| {
                put_list(w, v.len());
                for x in v {
                    w.push(0xf);
                    w.push(bits(x));
                }
            };
            put_list(w, 3);
            fl(w, s.lattice.iter().copied().collect());
            put_list(w, s.species.len());
            for x in &s.species {
                w.push(0x5);
                put_str(w, x);
            }
            put_list(w, s.frac_coords.len());
            for c in &s.frac_coords {
                fl(w, c.iter().copied().collect());
            }
        }
        match st.op {
            Op::PySg => {
                let (n, sym, g) = t.an.get_space_group_info(&s);
                put_list(&mut w, 3);
                w.extend([0x1, n as u64, 0x5]);
                put_str(&mut w, &sym);
                put_list(&mut w, g.operations.len());
                for o in &g.operations {
                    put_list(&mut w, 2);
                    put_list(&mut w, 9);
                    for x in o.rotation.transpose().iter() {
                        w.extend([0x1, *x as i64 as u64]);
                    }
                    put_list(&mut w, 3);
                    for x in o.translation.iter() {
                        w.extend([0xf, bits(*x)]);
                    }
                }
            }
            Op::PyPrim => out(&mut w, &t.re.find_primitive_cell(&s)),
            Op::PyConv => out(&mut w, &t.an.get_standard_conventional_structure(&s)),
            Op::PyStdPrim => out(&mut w, &t.an.get_standard_primitive_structure(&s)),
            _ => out(&mut w, &crystsymm::reduce::Reducer::default().niggli_reduce(&s, &nig_tol(st))),
        }
        w
    }));
    r.unwrap_or_else(|_| vec![REFUSED])
}
