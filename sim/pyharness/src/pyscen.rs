//! Runs one case through the Python classes and judges what the Python caller got.
use crate::case::*;
use crate::oracle::*;
use crate::rt;
use crate::scen::*;
use numpy::{IntoPyArray, PyArray1, PyArray2, PyArrayDyn};
use pyo3::prelude::*;
use pyo3::types::{PyDict, PyTuple};
use std::panic::{catch_unwind, AssertUnwindSafe};

extern crate pyfnntw;
extern "C" {
    fn PyInit_pyfnntw() -> *mut pyo3::ffi::PyObject;
}

// TreeSpec::flags
/// the caller drops its array as soon as the tree is built
pub const T_DROP: u32 = 1;
/// the array is not in C order (2: Fortran order, with T_STEP every second row of a larger one)
pub const T_FORTRAN: u32 = 2;
pub const T_STEP: u32 = 4;
/// a column too many
pub const T_WIDE: u32 = 8;
/// the box has a component too many
pub const T_BOXLEN: u32 = 16;
/// the other float type
pub const T_DTYPE: u32 = 32;
/// the optional arguments are passed by position, in order
pub const T_POSITIONAL: u32 = 64;
// Op::flags
pub const O_FORTRAN: u32 = 2;
pub const O_STEP: u32 = 4;
pub const O_WIDE: u32 = 8;
pub const O_DTYPE: u32 = 32;
/// k is left out (instead of k=1)
pub const O_NO_K: u32 = 64;
/// the caller writes over the arrays it got, or drops them at once (otherwise it keeps them to the end)
pub const O_OVERWRITE: u32 = 128;
pub const O_FORGET: u32 = 256;

pub trait Num: Real + numpy::Element {
    const CLASS: &'static str;
    type Other: numpy::Element + Copy;
    fn other(self) -> Self::Other;
}
impl Num for f64 {
    const CLASS: &'static str = "Treef64";
    type Other = f32;
    fn other(self) -> f32 { self as f32 }
}
impl Num for f32 {
    const CLASS: &'static str = "Treef32";
    type Other = f64;
    fn other(self) -> f64 { self as f64 }
}

fn fortran<E: numpy::Element>(py: Python<'_>, v: Vec<E>, n: usize, d: usize) -> PyResult<PyObject>
where
    E: Copy,
{
    // the transpose of the transposed contents
    let mut t = Vec::with_capacity(v.len());
    for c in 0..d {
        for i in 0..n {
            t.push(v[i * d + c]);
        }
    }
    let a = PyArray1::from_vec(py, t).reshape([d, n])?;
    Ok(a.getattr("T")?.to_object(py))
}
/// An array whose memory belongs to the simulated heap: freed with the last reference to it.
fn array<E: numpy::Element + Copy>(py: Python<'_>, mut v: Vec<E>, n: usize, d: usize, fl: u32) -> PyResult<PyObject> {
    if fl & T_FORTRAN != 0 {
        return fortran(py, v, n, d);
    }
    if fl & T_STEP != 0 {
        let mut w = Vec::with_capacity(2 * v.len());
        for r in v.chunks(d.max(1)) {
            w.extend_from_slice(r);
            w.extend_from_slice(r);
        }
        let a = w.into_pyarray(py).reshape([2 * n, d])?;
        let s = pyo3::types::PySlice::new(py, 0, 2 * n as isize, 2);
        return Ok(a.get_item(s)?.to_object(py));
    }
    v.shrink_to_fit();
    Ok(v.into_pyarray(py).reshape([n, d])?.to_object(py))
}
fn rows<T: Num, const D: usize>(py: Python<'_>, pts: &[[T; D]], fl: u32) -> PyResult<PyObject> {
    let wide = (fl & T_WIDE != 0) as usize;
    let d = D + if wide == 1 { if D == 2 { 2 } else { 1 } } else { 0 };
    let flat: Vec<T> = pts.iter().flat_map(|p| (0..d).map(|c| p[c % D])).collect();
    if fl & T_DTYPE != 0 {
        let v: Vec<T::Other> = flat.iter().map(|x| x.other()).collect();
        array(py, v, pts.len(), d, fl)
    } else {
        array(py, flat, pts.len(), d, fl)
    }
}

/// What the caller saw.
enum Seen {
    Tree(PyObject),
    Raised { kind: String, text: String, panic: bool, exception: bool },
}
/// The caller, in Python: what a call returned, or the exception it raised.
const CALLER: &str = r#"
def call(f, args, kw):
    try:
        return (f(*args, **kw), None, None)
    except BaseException as e:
        return (None, [c.__name__ for c in type(e).__mro__], str(e))
"#;
fn call<'p>(py: Python<'p>, caller: &PyAny, f: &PyAny, args: PyObject, kw: &PyDict) -> Result<&'p PyAny, Seen> {
    let go = || -> PyResult<(PyObject, Option<Vec<String>>, Option<String>)> { caller.call1((f, args, kw))?.extract() };
    match go() {
        Ok((r, None, _)) => Ok(r.into_ref(py)),
        Ok((_, Some(names), text)) => Err(Seen::Raised {
            kind: if names.iter().any(|n| n == "OSError") { "OSError".into() } else { names[0].clone() },
            text: text.unwrap_or_default(),
            panic: names.iter().any(|n| n == "PanicException"),
            exception: names.iter().any(|n| n == "Exception"),
        }),
        Err(e) => panic!("harness: {e}"),
    }
}

fn build<T: Num, const D: usize>(py: Python<'_>, m: &PyAny, caller: &PyAny, s: &TreeSpec, data: &[[T; D]], bx: Option<[T; D]>) -> (Seen, Option<PyObject>) {
    let prepare = || -> PyResult<(PyObject, PyObject, &PyDict)> {
        let a = rows(py, data, s.flags)?;
        let kw = PyDict::new(py);
        let b = match bx {
            None => py.None(),
            Some(b) => {
                let mut v = b.to_vec();
                if s.flags & T_BOXLEN != 0 { v.push(b[0]) }
                PyArray1::from_vec(py, v).to_object(py)
            }
        };
        let psl = match s.psl { None => py.None(), Some(p) => p.to_object(py) };
        let args = if s.flags & T_POSITIONAL != 0 {
            (a.clone_ref(py), s.leaf, psl, b).to_object(py)
        } else {
            if s.psl.is_some() { kw.set_item("par_split_level", psl)? }
            if bx.is_some() { kw.set_item("boxsize", b)? }
            (a.clone_ref(py), s.leaf).to_object(py)
        };
        Ok((a, args, kw))
    };
    let (a, args, kw) = prepare().expect("harness: arguments");
    let cls = m.getattr(T::CLASS).expect("harness: class");
    match call(py, caller, cls, args, kw) {
        Ok(t) => (Seen::Tree(t.to_object(py)), if s.flags & T_DROP == 0 { Some(a) } else { None }),
        Err(e) => (e, None),
    }
}

/// The two arrays of an answer: shapes and contents.
#[derive(PartialEq)]
struct Ans {
    shapes: [Vec<usize>; 2],
    d: Vec<f64>,
    i: Vec<u64>,
    non: Vec<f64>,
}
fn query<T: Num, const D: usize>(py: Python<'_>, caller: &PyAny, t: &PyObject, o: &Op, qs: &[[T; D]]) -> Result<(Ans, PyObject), Seen> {
    let prepare = || -> PyResult<(PyObject, &PyDict)> {
        let q = rows(py, qs, o.flags)?;
        let kw = PyDict::new(py);
        match o.kind {
            OpKind::Q1 => if o.flags & O_NO_K == 0 { kw.set_item("k", 1)? },
            OpKind::Axis => {
                kw.set_item("axis", o.axis)?;
                if !(o.k == 1 && o.flags & O_NO_K != 0) { kw.set_item("k", o.k)? }
            }
            _ => kw.set_item("k", o.k)?,
        }
        Ok(((q,).to_object(py), kw))
    };
    let (q, kw) = prepare().expect("harness: arguments");
    let f = t.as_ref(py).getattr("query").expect("harness: query");
    let r = call(py, caller, f, q, kw)?;
    let ans = read::<T>(r, o).map_err(|e| Seen::Raised { kind: "result".into(), text: format!("the result is not two arrays of the right types: {e}"), panic: false, exception: true })?;
    Ok((ans, r.to_object(py)))
}
fn read<T: Num>(r: &PyAny, o: &Op) -> PyResult<Ans> {
    let r: &PyTuple = r.downcast()?;
    let a: &PyArrayDyn<T> = r.get_item(0)?.extract()?;
    let mut ans = Ans { shapes: [a.shape().to_vec(), vec![]], d: vec![], i: vec![], non: vec![] };
    ans.d = a.readonly().as_array().iter().map(|x| x.f()).collect();
    if o.kind == OpKind::Axis {
        let b: &PyArrayDyn<T> = r.get_item(1)?.extract()?;
        ans.shapes[1] = b.shape().to_vec();
        ans.non = b.readonly().as_array().iter().map(|x| x.f()).collect();
    } else {
        let b: &PyArrayDyn<u64> = r.get_item(1)?.extract()?;
        ans.shapes[1] = b.shape().to_vec();
        ans.i = b.readonly().as_array().iter().copied().collect();
    }
    if r.len() != 2 { ans.shapes[0].clear() }
    Ok(ans)
}
/// The caller uses the arrays it got for something else.
fn overwrite<T: Num>(r: &PyAny, o: &Op) -> PyResult<()> {
    let r: &PyTuple = r.downcast()?;
    let a: &PyArrayDyn<T> = r.get_item(0)?.extract()?;
    unsafe { a.as_array_mut().fill(T::of(-7.0)) };
    if o.kind == OpKind::Axis {
        let b: &PyArrayDyn<T> = r.get_item(1)?.extract()?;
        unsafe { b.as_array_mut().fill(T::of(-7.0)) };
    } else {
        let b: &PyArrayDyn<u64> = r.get_item(1)?.extract()?;
        unsafe { b.as_array_mut().fill(777_777_777) };
    }
    Ok(())
}

fn verdict(v: V, at: String) -> Verdict {
    Verdict { class: v.0, msg: format!("{at}: {}", v.1) }
}

pub fn run<T: Num, const D: usize>(case: &Case, cfg: &rt::Cfg, out: *mut rt::Out) -> Option<Verdict> {
    Python::with_gil(|py| {
        let m: PyObject = unsafe { PyObject::from_owned_ptr(py, PyInit_pyfnntw()) };
        // the interpreter's and numpy's own tables are made before the run
        let warm = PyArray1::from_vec(py, vec![1.0f64, 2.0]).reshape([1, 2]).unwrap();
        let _ = warm.getattr("T");
        let _ = PyArray2::<T>::zeros(py, [1, 2], false).readonly();
        let g = PyDict::new(py);
        py.run(CALLER, Some(g), None).expect("harness: caller");
        let caller = g.get_item("call").unwrap();
        let _ = call(py, caller, caller, py.None(), g);
        inner::<T, D>(py, m.as_ref(py), caller, case, cfg, out)
    })
}

fn inner<T: Num, const D: usize>(py: Python<'_>, m: &PyAny, caller: &PyAny, case: &Case, cfg: &rt::Cfg, out: *mut rt::Out) -> Option<Verdict> {
    let data: Vec<Vec<[T; D]>> = case
        .trees
        .iter()
        .map(|t| (0..t.n).map(|i| std::array::from_fn(|c| T::of(data_value(t, i, c)))).collect())
        .collect();
    let boxes: Vec<Option<[T; D]>> = case
        .trees
        .iter()
        .zip(&data)
        .map(|(t, d)| if t.bx == 0 { None } else { Some(std::array::from_fn(|c| box_of(t, d, c))) })
        .collect();
    let ops = &case.clients[0];
    let queries: Vec<Vec<[T; D]>> = ops.iter().map(|o| queries_of(&case.trees[o.tree], o, boxes[o.tree])).collect();

    unsafe { rt::rt_begin(cfg, out) };
    let r = catch_unwind(AssertUnwindSafe(|| {
        let pool = unsafe { py.new_pool() };
        let py = pool.python();
        let mut trees = vec![];
        for (i, s) in case.trees.iter().enumerate() {
            let p = unsafe { py.new_pool() };
            trees.push(build(p.python(), m, caller, s, &data[i], boxes[i]));
        }
        let mut answers = vec![];
        // the arrays the caller still holds
        let mut held: Vec<(usize, PyObject)> = vec![];
        let mut changed: Option<(usize, &'static str)> = None;
        for (oi, o) in ops.iter().enumerate() {
            let p = unsafe { py.new_pool() };
            let py = p.python();
            answers.push(match &trees[o.tree].0 {
                Seen::Tree(t) => Some(query(py, caller, t, o, &queries[oi]).map(|(a, r)| {
                    if o.flags & O_OVERWRITE != 0 {
                        overwrite::<T>(r.as_ref(py), o).expect("harness: overwrite");
                    } else if o.flags & O_FORGET == 0 {
                        held.push((oi, r));
                    }
                    a
                })),
                _ => None,
            });
        }
        let mut again = |when| {
            let p = unsafe { py.new_pool() };
            for (oi, r) in &held {
                let now = read::<T>(r.as_ref(p.python()), &ops[*oi]).ok();
                if changed.is_none() && now.as_ref() != answers[*oi].as_ref().and_then(|a| a.as_ref().ok()) { changed = Some((*oi, when)) }
            }
        };
        again("after later calls");
        // the last references go; what the extension held for these trees goes with them
        let seen: Vec<Option<(String, String, bool, bool)>> = trees
            .into_iter()
            .map(|(s, _)| match s {
                Seen::Tree(_) => None,
                Seen::Raised { kind, text, panic, exception } => Some((kind, text, panic, exception)),
            })
            .collect();
        again("after the trees were gone");
        drop(again);
        drop(held);
        (seen, answers, changed)
    }));
    unsafe {
        rt::rt_quiesce();
        rt::rt_end();
    }
    let refused = unsafe { rt::rt_spawn_refused() } > 0;
    let (trees, answers, changed) = match r {
        Ok(x) => x,
        Err(e) => return Some(Verdict { class: "harness", msg: format!("harness: {}", panic_text(e)) }),
    };
    for (i, t) in trees.iter().enumerate() {
        if let Err(v) = judge_tree(&case.trees[i], &data[i], boxes[i], t.as_ref(), refused, cfg.ncpu == 0) {
            return Some(verdict(v, format!("tree {i}")));
        }
    }
    for (oi, a) in answers.iter().enumerate() {
        let o = &ops[oi];
        let Some(a) = a else { continue };
        if let Err(v) = judge_answer(&case.trees[o.tree], o, &data[o.tree], boxes[o.tree], &queries[oi], a, refused) {
            return Some(verdict(v, format!("op {oi} ({})", o.kind.name())));
        }
    }
    if let Some((oi, when)) = changed {
        return Some(verdict(("changed", format!("the arrays the caller got have changed {when}")), format!("op {oi} ({})", ops[oi].kind.name())));
    }
    None
}

fn judge_tree<T: Num, const D: usize>(s: &TreeSpec, data: &[[T; D]], bx: Option<[T; D]>, r: Option<&(String, String, bool, bool)>, refused: bool, nocpu: bool) -> Result<(), V> {
    let right = box_verdict(data, bx);
    let wrong = if s.flags & (T_WIDE | T_DTYPE) != 0 {
        Some("an array that is not a proper data array")
    } else if s.flags & (T_FORTRAN | T_STEP) != 0 && !contiguous(s.flags, s.n, D) {
        // either refused, or accepted and answered right
        if let Some((k, t, p, e)) = r {
            return if *p || !*e { Err(("panic", format!("an array that is not in C order raised {k}: {t}"))) } else { Ok(()) };
        }
        None
    } else if s.n == 0 {
        Some("no data")
    } else if active_bad(&s.bad, s.n, D) {
        Some("a non-finite coordinate")
    } else if bx.is_some() && s.flags & T_BOXLEN != 0 {
        Some("a box of the wrong length")
    } else if !right.is_empty() {
        Some("an improper box")
    } else {
        None
    };
    match (wrong, r) {
        (_, Some((_, t, true, _))) if spawn_panic(t, refused) => Ok(()),
        (_, Some((k, _, _, true))) if nocpu && k == "OSError" => Ok(()),
        (_, Some((k, t, p, e))) if *p || !*e => Err(("panic", format!("the constructor raised {k}: {t}"))),
        (None, None) => Ok(()),
        (None, Some((k, t, ..))) => Err(("error", format!("proper data was refused with {k}: {t}"))),
        (Some(w), None) => Err(("error", format!("{w} was accepted"))),
        (Some(_), Some((k, t, ..))) => {
            let type_error = s.flags & (T_WIDE | T_DTYPE) != 0;
            if k == "TypeError" && type_error || k == "ValueError" { Ok(()) } else { Err(("error", format!("the constructor raised {k}: {t}"))) }
        }
    }
}
fn contiguous(fl: u32, n: usize, d: usize) -> bool {
    n == 0 || (fl & T_FORTRAN != 0 && (n == 1 || d == 1)) || (fl & T_FORTRAN == 0 && fl & T_STEP != 0 && n == 1)
}

fn judge_answer<T: Num, const D: usize>(s: &TreeSpec, o: &Op, data: &[[T; D]], bx: Option<[T; D]>, qs: &[[T; D]], r: &Result<Ans, Seen>, refused: bool) -> Result<(), V> {
    let k = if o.kind == OpKind::Q1 { 1 } else { o.k.min(data.len()) };
    let wrong = if o.flags & (O_WIDE | O_DTYPE) != 0 {
        Some("an array that is not a proper query array")
    } else if o.kind == OpKind::Axis && o.axis >= D {
        Some("an axis that does not exist")
    } else if active_bad(&o.bad, o.nq, D) {
        Some("a non-finite query")
    } else {
        None
    };
    match r {
        Err(Seen::Tree(_)) => Ok(()),
        Err(Seen::Raised { kind, text, panic, exception }) => {
            if kind == "result" {
                return Err(("shape", text.clone()));
            }
            if spawn_panic(text, refused) {
                return Ok(());
            }
            if *panic || !*exception {
                return Err(("panic", format!("the query raised {kind}: {text}")));
            }
            // an array that is not in C order may be refused
            let order = o.flags & (O_FORTRAN | O_STEP) != 0 && !contiguous(o.flags, qs.len(), D);
            match wrong {
                None if order => Ok(()),
                None => Err(("error", format!("a proper query raised {kind}: {text}"))),
                Some(_) if kind == "ValueError" || (kind == "TypeError" && o.flags & (O_WIDE | O_DTYPE) != 0) => Ok(()),
                Some(w) => Err(("error", format!("{w} raised {kind}: {text}"))),
            }
        }
        Ok(a) => {
            if let Some(w) = wrong {
                return Err(("error", format!("{w} was accepted")));
            }
            let shape = if o.kind == OpKind::Q1 || (o.kind == OpKind::QK && o.k == 1) { vec![qs.len()] } else { vec![qs.len(), k] };
            for x in &a.shapes {
                if *x != shape {
                    return Err(("shape", format!("result arrays of shape {:?} and {:?}, right would be {shape:?}", a.shapes[0], a.shapes[1])));
                }
            }
            let res = if o.kind == OpKind::Axis {
                Res::Axis { ax: a.d.clone(), non: a.non.clone(), i: None }
            } else {
                Res::Rows { d: a.d.clone(), i: a.i.clone(), pos: None }
            };
            judge_query(s, o, data, bx, qs, &res, refused)
        }
    }
}
