//! Runs one case inside the simulation and judges what came out.
use crate::case::*;
use crate::oracle::*;
use crate::rt;
use fnntw::utils::FnntwError;
use fnntw::Tree;
use rayon::prelude::*;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub const CFG: &str = if cfg!(feature = "py") {
    "P"
} else if cfg!(all(feature = "par", feature = "nopos", feature = "sqrt", feature = "noidx")) {
    if cfg!(feature = "timing") { "T" } else { "A" }
} else if cfg!(all(feature = "par", feature = "nopos", feature = "sqrt")) {
    "C"
} else if cfg!(feature = "par") {
    "B"
} else {
    "D"
};
pub const BATCH: bool = cfg!(all(feature = "par", feature = "nopos"));

struct Rec {
    client: usize,
    op: usize,
    copy: usize,
    res: Res,
}

pub fn panic_text(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "?".into()
    }
}
fn err<T: Real>(e: FnntwError<T>) -> Res {
    match e {
        FnntwError::InvalidInputData { data_point } => Res::Invalid(data_point.iter().map(|x| x.bits()).collect()),
        FnntwError::ZeroLengthInputData => Res::Empty,
        FnntwError::InvalidAxis => Res::BadAxis,
        FnntwError::NegativeDataPeriodicQuery => Res::BadBox("negative"),
        FnntwError::SmallBoxsize => Res::BadBox("small"),
        FnntwError::InvalidBoxsize => Res::BadBox("invalid"),
        e => Res::OtherErr(e.to_string()),
    }
}
fn f<T: Real>(v: &[T]) -> Vec<f64> {
    v.iter().map(|x| x.f()).collect()
}

fn q1<T: Real, const D: usize>(t: &Tree<'_, T, D>, q: &[T; D]) -> Res {
    match t.query_nearest(q) {
        Ok(r) => Res::Rows {
            d: vec![r.0.f()],
            i: vec![r.1],
            #[cfg(feature = "nopos")]
            pos: None,
            #[cfg(not(feature = "nopos"))]
            pos: Some(r.2.iter().map(|x| x.into_inner().bits()).collect()),
        },
        Err(e) => err(e),
    }
}
fn qk<T: Real, const D: usize>(t: &Tree<'_, T, D>, q: &[T; D], k: usize) -> Res {
    match t.query_nearest_k(q, k) {
        Ok(r) => Res::Rows {
            d: f(&r.0),
            i: r.1.clone(),
            #[cfg(feature = "nopos")]
            pos: None,
            #[cfg(not(feature = "nopos"))]
            pos: Some(r.2.iter().flat_map(|p| p.iter().map(|x| x.into_inner().bits())).collect()),
        },
        Err(e) => err(e),
    }
}
#[cfg(all(feature = "par", feature = "nopos"))]
fn batch<T: Real, const D: usize>(t: &Tree<'_, T, D>, kind: OpKind, qs: &[[T; D]], k: usize, axis: usize) -> Res {
    match kind {
        OpKind::Axis => match t.query_nearest_k_parallel_axis(qs, k, axis) {
            Ok(r) => Res::Axis {
                ax: f(&r.0),
                non: f(&r.1),
                #[cfg(feature = "noidx")]
                i: None,
                #[cfg(not(feature = "noidx"))]
                i: Some(r.2.clone()),
            },
            Err(e) => err(e),
        },
        _ => match if kind == OpKind::Par { t.query_nearest_k_parallel(qs, k) } else { t.query_nearest_k_parallel_with(qs, k) } {
            Ok(r) => Res::Rows { d: f(&r.0), i: r.1.clone(), pos: None },
            Err(e) => err(e),
        },
    }
}
#[cfg(not(all(feature = "par", feature = "nopos")))]
fn batch<T: Real, const D: usize>(t: &Tree<'_, T, D>, _kind: OpKind, qs: &[[T; D]], k: usize, _axis: usize) -> Res {
    // no batch functions in this configuration: the same rows one by one
    let (mut d, mut i, mut p) = (vec![], vec![], vec![]);
    for q in qs {
        match qk(t, q, k) {
            Res::Rows { d: a, i: b, pos } => {
                d.extend(a);
                i.extend(b);
                p.extend(pos.unwrap_or_default());
            }
            e => return e,
        }
    }
    Res::Rows { d, i, pos: if cfg!(feature = "nopos") { None } else { Some(p) } }
}

fn build<'a, T: Real, const D: usize>(s: &TreeSpec, data: &'a [[T; D]], bx: Option<[T; D]>) -> Result<Tree<'a, T, D>, FnntwError<T>> {
    let t = match s.psl {
        None => Tree::new(data, s.leaf)?,
        Some(p) => Tree::new_parallel(data, s.leaf, p)?,
    };
    match bx {
        None => Ok(t),
        Some(b) => {
            let twice = b.map(|x| T::of(x.f() * 2.0));
            if s.flags & 2 != 0 && box_verdict(data, Some(twice)).is_empty() {
                return t.with_boxsize(&twice)?.with_boxsize(&b);
            }
            t.with_boxsize(&b)
        }
    }
}

/// After a build: queries that together see the whole tree.
fn probe_tree<T: Real, const D: usize>(t: &Tree<'_, T, D>, n: usize, qs: &[[T; D]]) -> Vec<(OpKind, usize, usize, Res)> {
    let mut v = vec![];
    let all = if n <= 3000 { n } else { 64 };
    for (i, q) in qs.iter().enumerate() {
        v.push((OpKind::Q1, i, 1, q1(t, q)));
        if i == 0 {
            v.push((OpKind::QK, i, all, qk(t, q, all)));
        } else {
            v.push((OpKind::QK, i, 3, qk(t, q, 3)));
        }
    }
    v
}

struct Env<'e, T: Real, const D: usize> {
    case: &'e Case,
    data: &'e [Vec<[T; D]>],
    boxes: &'e [Option<[T; D]>],
    queries: &'e [Vec<Vec<[T; D]>>],
    pools: &'e [rayon::ThreadPool],
}

/// What a tree says about itself.
fn facts<T: Real, const D: usize>(t: &Tree<'_, T, D>, s: &TreeSpec, data: &[[T; D]]) -> Option<String> {
    let (n, g) = (data.len(), t.get_data());
    if g.len() != n || (g.as_ptr() != data.as_ptr() && g.iter().zip(data).any(|(a, b)| (0..D).any(|c| a[c].bits() != b[c].bits()))) {
        return Some("(no panic) get_data is not the caller's data".into());
    }
    let size = t.size();
    if size < 1 || size > 2 * n + 1 || (size == 1) != (n <= s.leaf) {
        return Some(format!("(no panic) a tree of {n} points with leaves of {} has {size} nodes", s.leaf));
    }
    None
}

/// Other points for the same memory.
fn decoy<T: Real, const D: usize>(pts: &[[T; D]], seed: u64) -> Vec<[T; D]> {
    let mut v: Vec<[T; D]> = pts.iter().rev().map(|p| p.map(|x| if x.f().is_finite() { x } else { T::of(0.0) })).collect();
    if seed & 64 == 0 && v.len() > 1 {
        v[0][0] = T::of(f64::NAN);
    }
    v
}

fn one_op<T: Real, const D: usize>(env: &Env<'_, T, D>, trees: &[Option<Tree<'_, T, D>>], c: usize, oi: usize) -> Res {
    let o = &env.case.clients[c][oi];
    let qs = &env.queries[c][oi][..];
    let r = catch_unwind(AssertUnwindSafe(|| {
        if o.kind == OpKind::Build {
            let s = &env.case.trees[o.tree];
            let data = &env.data[o.tree][..];
            if o.flags & 4 != 0 {
                // memory of the caller's that held other data for an earlier tree
                let mut own = decoy(data, o.qseed);
                if let Ok(t) = build(s, &own, None) {
                    if let Some(q) = qs.first() { q1(&t, q); }
                }
                own.copy_from_slice(data);
                return match build(s, &own, env.boxes[o.tree]) {
                    Ok(t) => match facts(&t, s, data) { None => Res::Built(probe_tree(&t, s.n, qs)), Some(f) => Res::Panic(f) },
                    Err(e) => err(e),
                };
            }
            return match build(s, data, env.boxes[o.tree]) {
                Ok(t) => match facts(&t, s, data) { None => Res::Built(probe_tree(&t, s.n, qs)), Some(f) => Res::Panic(f) },
                Err(e) => err(e),
            };
        }
        let Some(t) = trees[o.tree].as_ref() else { return Res::Skipped };
        let mut own = vec![];
        let mut qs = qs;
        if o.flags & 4 != 0 && !matches!(o.kind, OpKind::Q1 | OpKind::QK) {
            // memory of the caller's that held other queries before
            own = decoy(qs, o.qseed);
            batch(t, o.kind, &own, o.k, o.axis);
            own.copy_from_slice(qs);
            qs = &own;
        }
        match o.kind {
            OpKind::Q1 => {
                let (mut d, mut i, mut p) = (vec![], vec![], vec![]);
                let mut own = [T::of(0.0); D];
                for q in qs {
                    let mut q = q;
                    if o.flags & 4 != 0 {
                        own = *q;
                        q = &own;
                    }
                    match q1(t, q) {
                        Res::Rows { d: a, i: b, pos } => {
                            d.extend(a);
                            i.extend(b);
                            p.extend(pos.unwrap_or_default());
                        }
                        e => return e,
                    }
                }
                Res::Rows { d, i, pos: if cfg!(feature = "nopos") { None } else { Some(p) } }
            }
            OpKind::QK => {
                let (mut d, mut i, mut p) = (vec![], vec![], vec![]);
                for q in qs {
                    match qk(t, q, o.k) {
                        Res::Rows { d: a, i: b, pos } => {
                            d.extend(a);
                            i.extend(b);
                            p.extend(pos.unwrap_or_default());
                        }
                        e => return e,
                    }
                }
                Res::Rows { d, i, pos: if cfg!(feature = "nopos") { None } else { Some(p) } }
            }
            k => batch(t, k, qs, o.k, o.axis),
        }
    }));
    r.unwrap_or_else(|e| Res::Panic(panic_text(e)))
}

fn on_pool<R: Send>(env_pools: &[rayon::ThreadPool], p: usize, f: impl FnOnce() -> R + Send) -> R {
    if p == 0 || p > env_pools.len() {
        // the global pool: a scope runs its body on a worker
        rayon::scope(|_| f())
    } else {
        env_pools[p - 1].install(f)
    }
}

fn run_op<T: Real, const D: usize>(env: &Env<'_, T, D>, trees: &[Option<Tree<'_, T, D>>], c: usize, oi: usize, out: &mut Vec<Rec>) {
    let o = &env.case.clients[c][oi];
    let rec = |copy, res| Rec { client: c, op: oi, copy, res };
    let r = catch_unwind(AssertUnwindSafe(|| match o.via {
        Via::Direct => vec![one_op(env, trees, c, oi)],
        Via::Install(p) => vec![on_pool(env.pools, p, || one_op(env, trees, c, oi))],
        Via::Nest(p, m) => on_pool(env.pools, p, || (0..m).into_par_iter().map(|_| one_op(env, trees, c, oi)).collect()),
        Via::Join(p) => on_pool(env.pools, p, || {
            let (a, b) = rayon::join(|| one_op(env, trees, c, oi), || one_op(env, trees, c, oi));
            vec![a, b]
        }),
    }));
    match r {
        Ok(v) => out.extend(v.into_iter().enumerate().map(|(i, r)| rec(i, r))),
        Err(e) => out.push(rec(0, Res::Panic(panic_text(e)))),
    }
}

pub struct Verdict {
    pub class: &'static str,
    pub msg: String,
}

pub fn hash_data<T: Real, const D: usize>(d: &[[T; D]]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for p in d {
        for x in p {
            h = (h ^ x.bits()).wrapping_mul(0x100000001b3);
        }
    }
    h
}

/// Side c of the box: proper ones from the specification, the others from the data.
pub fn box_of<T: Real, const D: usize>(t: &TreeSpec, data: &[[T; D]], c: usize) -> T {
    let top = data.iter().map(|p| p[c].f()).filter(|x| x.is_finite()).fold(f64::NEG_INFINITY, f64::max);
    let pick = t.seed as usize % D == c;
    match t.bx {
        // as tight as it can be
        9 if top > 0.5 * t.scale => T::of(top),
        // one component too small, by little or by much
        5 if pick => {
            if top > 0.0 { T::of(top * if t.seed & 64 == 0 { 0.99999 } else { 0.5 }) } else { T::of(-0.5) }
        }
        6 if pick => T::of(f64::NAN),
        7 if pick => T::of(f64::INFINITY),
        8 if pick => T::of(f64::NEG_INFINITY),
        _ => T::of(box_side(t, c)),
    }
}
/// Which answers to the box are right; none: it has to be accepted.
pub fn box_verdict<T: Real, const D: usize>(data: &[[T; D]], bx: Option<[T; D]>) -> &'static [&'static str] {
    let Some(b) = bx else { return &[] };
    let neg = data.iter().flatten().any(|x| x.f() < 0.0);
    let odd = b.iter().any(|x| !x.f().is_finite());
    let small = data.iter().any(|p| (0..D).any(|c| p[c] > b[c]));
    match (neg, odd, small) {
        (false, false, false) => &[],
        (true, false, false) => &["negative"],
        (false, true, false) => &["invalid"],
        (false, false, true) => &["small"],
        (false, true, true) => &["invalid", "small"],
        (true, true, false) => &["negative", "invalid"],
        (true, false, true) => &["negative", "small"],
        (true, true, true) => &["negative", "small", "invalid"],
    }
}

/// The queries of one operation.
pub fn queries_of<T: Real, const D: usize>(t: &TreeSpec, o: &Op, bx: Option<[T; D]>) -> Vec<[T; D]> {
    // which row of the data each query is about, where that matters
    let mut rows: Vec<usize> = vec![];
    if o.qkind == 8 {
        // points in the middle of some coordinate's order, where trees are split
        let order: Vec<Vec<u32>> = (0..D)
            .map(|a| {
                let v: Vec<f64> = (0..t.n).map(|i| coord(t, i, a)).collect();
                let mut w: Vec<u32> = (0..t.n as u32).collect();
                w.sort_unstable_by(|&x, &y| v[x as usize].total_cmp(&v[y as usize]));
                w
            })
            .collect();
        rows = (0..o.nq)
            .map(|i| {
                let h = o.qseed.wrapping_mul(i as u64 * 2 + 1) >> 20;
                if i % 2 == 0 { return h as usize % t.n }
                let off = (i / 2 / D) as isize;
                let at = t.n as isize / 2 + if off % 2 == 0 { off / 2 } else { -off / 2 - 1 };
                order[i / 2 % D][at.clamp(0, t.n as isize - 1) as usize] as usize
            })
            .collect();
    }
    (0..o.nq)
        .map(|i| {
            std::array::from_fn(|c| {
                let x = T::of(query_value(t, o, if o.qkind == 8 { rows[i] } else { i }, c));
                match bx {
                    Some(b) if x.f().is_finite() && b[c].f().is_finite() => {
                        let x = if x > b[c] { b[c] } else { x };
                        // which image is nearer is undefined exactly in the middle
                        if o.kind != OpKind::Q1 && (x.f() - b[c].f() / 2.0).abs() < 1e-6 * b[c].f() { T::of(b[c].f() * 0.46875) } else { x }
                    }
                    _ => x,
                }
            })
        })
        .collect()
}

pub fn run<T: Real, const D: usize>(case: &Case, cfg: &rt::Cfg, out: *mut rt::Out) -> Option<Verdict> {
    let data: Vec<Vec<[T; D]>> = case
        .trees
        .iter()
        .map(|t| (0..t.n).map(|i| std::array::from_fn(|c| T::of(data_value(t, i, c)))).collect())
        .collect();
    let boxes: Vec<Option<[T; D]>> = case
        .trees
        .iter()
        .zip(&data)
        .map(|(t, d)| if t.bx == 0 { None } else { Some(std::array::from_fn(|c| box_of(t, d, c))) })
        .collect();
    let queries: Vec<Vec<Vec<[T; D]>>> = case
        .clients
        .iter()
        .map(|c| {
            c.iter()
                .map(|o| queries_of(&case.trees[o.tree], o, boxes[o.tree]))
                .collect()
        })
        .collect();
    let hashes: Vec<u64> = data.iter().map(|d| hash_data(d)).collect();
    let qh: Vec<u64> = queries.iter().flatten().map(|d| hash_data(d)).collect();

    unsafe { rt::rt_begin(cfg, out) };
    let r = catch_unwind(AssertUnwindSafe(|| simulate::<T, D>(case, &data, &boxes, &queries)));
    unsafe {
        rt::rt_quiesce();
        rt::rt_end();
    }
    let refused = unsafe { rt::rt_spawn_refused() } > 0;
    let (recs, builds) = match r {
        Ok(x) => x,
        Err(e) => {
            let m = panic_text(e);
            if m.starts_with("harness:") {
                return Some(Verdict { class: "harness", msg: m });
            }
            return Some(Verdict { class: "panic", msg: format!("panic in the scenario: {m}") });
        }
    };
    if data.iter().zip(&hashes).any(|(d, h)| hash_data(d) != *h) {
        return Some(Verdict { class: "input", msg: "the caller's data was modified".into() });
    }
    if queries.iter().flatten().zip(&qh).any(|(d, h)| hash_data(d) != *h) {
        return Some(Verdict { class: "input", msg: "the caller's queries were modified".into() });
    }
    // shared builds
    for (i, b) in builds.iter().enumerate() {
        if let Err(v) = judge_build(&case.trees[i], &data[i], boxes[i], &[], b, refused) {
            return Some(Verdict { class: v.0, msg: format!("tree {i}: {}", v.1) });
        }
    }
    let mut expect = 0;
    for c in &case.clients {
        for o in c {
            expect += match o.via { Via::Nest(_, m) => m, Via::Join(_) => 2, _ => 1 };
        }
    }
    let mut groups: std::collections::BTreeMap<u32, (&Rec, usize)> = Default::default();
    let mut panics = 0;
    for r in &recs {
        let o = &case.clients[r.client][r.op];
        let qs = &queries[r.client][r.op];
        let at = |v: (&'static str, String)| Verdict {
            class: v.0,
            msg: format!("client {} op {} ({}, copy {}): {}", r.client, r.op, o.kind.name(), r.copy, v.1),
        };
        if let Res::Panic(_) = r.res { panics += 1 }
        if o.kind == OpKind::Build {
            if let Err(v) = judge_build(&case.trees[o.tree], &data[o.tree], boxes[o.tree], qs, &r.res, refused) {
                return Some(at(v));
            }
        } else if let Err(v) = judge_query(&case.trees[o.tree], o, &data[o.tree], boxes[o.tree], qs, &r.res, refused) {
            return Some(at(v));
        }
        if o.grp != 0 {
            if let Some((first, _)) = groups.get(&o.grp) {
                if let Err(m) = same_answer::<T>(&first.res, &r.res) {
                    return Some(at(("diverged", format!("differs from client {} op {}: {m}", first.client, first.op))));
                }
            } else if !matches!(r.res, Res::Panic(_) | Res::Skipped) {
                groups.insert(o.grp, (r, 0));
            }
        }
    }
    if recs.len() != expect * case.repeat.max(1) && panics == 0 {
        return Some(Verdict { class: "harness", msg: format!("{} records, expected {}", recs.len(), expect) });
    }
    None
}

pub fn spawn_panic(m: &str, refused: bool) -> bool {
    refused
        && (m.contains("spawn thread")
            || m.contains("thread pool has not been initialized")
            || m.contains("Resource temporarily unavailable")
            || m.contains("a scoped thread panicked")
            || m.contains("on an `Err` value: Any")
            || m.contains("WouldBlock"))
}

pub fn same_answer<T: Real>(a: &Res, b: &Res) -> Result<(), String> {
    let close = |x: &[f64], y: &[f64]| -> Result<(), String> {
        if x.len() != y.len() {
            return Err(format!("{} entries against {}", x.len(), y.len()));
        }
        for (k, (p, q)) in x.iter().zip(y).enumerate() {
            if !((p - q).abs() <= 16.0 * T::EPS * p.abs().max(q.abs()) + 1e-150) {
                return Err(format!("entry {k}: {p:e} against {q:e}"));
            }
        }
        Ok(())
    };
    match (a, b) {
        (Res::Rows { d: x, i: xi, .. }, Res::Rows { d: y, i: yi, .. }) => {
            close(x, y)?;
            if xi.len() != yi.len() {
                return Err("different numbers of indices".into());
            }
            Ok(())
        }
        (Res::Axis { ax: x, non: xn, .. }, Res::Axis { ax: y, non: yn, .. }) => {
            let c = |a: &[f64], b: &[f64]| -> Vec<f64> { a.iter().zip(b).map(|(a, b)| if SQRT { a * a + b * b } else { a + b }).collect() };
            close(&c(x, xn), &c(y, yn))
        }
        (Res::Panic(_) | Res::Skipped, _) | (_, Res::Panic(_) | Res::Skipped) => Ok(()),
        (Res::Built(_), Res::Built(_)) => Ok(()),
        _ if std::mem::discriminant(a) == std::mem::discriminant(b) => Ok(()),
        _ => Err("one answered, the other did not".into()),
    }
}

pub type V = (&'static str, String);

fn check_invalid<T: Real, const D: usize>(bad: &[Bad], pts: &[[T; D]], got: &[u64]) -> Result<(), V> {
    let ok = bad.iter().any(|b| b.0 < pts.len() && b.1 < D && pts[b.0].iter().map(|x| x.bits()).eq(got.iter().copied()));
    if ok {
        Ok(())
    } else {
        Err(("error", format!("reported point {got:x?} is not one of the invalid points")))
    }
}
pub fn active_bad(bad: &[Bad], n: usize, d: usize) -> bool {
    bad.iter().any(|b| b.0 < n && b.1 < d)
}

pub fn judge_build<T: Real, const D: usize>(s: &TreeSpec, data: &[[T; D]], bx: Option<[T; D]>, qs: &[[T; D]], r: &Res, refused: bool) -> Result<(), V> {
    match r {
        Res::Skipped => Ok(()),
        Res::Panic(m) if spawn_panic(m, refused) => Ok(()),
        Res::Panic(m) => Err(("panic", format!("build panicked: {m}"))),
        Res::Empty if s.n == 0 => Ok(()),
        _ if s.n == 0 => Err(("error", "building from no data did not report it".into())),
        Res::Invalid(p) if active_bad(&s.bad, s.n, D) => check_invalid(&s.bad, data, p),
        Res::Built(_) if active_bad(&s.bad, s.n, D) => Err(("error", "data with a non-finite coordinate was accepted".into())),
        Res::BadBox(why) if !active_bad(&s.bad, s.n, D) => {
            let right = box_verdict(data, bx);
            if right.contains(why) {
                Ok(())
            } else if right.is_empty() {
                Err(("error", format!("a proper box {:?} was refused ({why})", bx.unwrap())))
            } else {
                Err(("error", format!("the box was refused as {why}, right would be {right:?}")))
            }
        }
        Res::Built(_) if !box_verdict(data, bx).is_empty() => {
            Err(("error", format!("an improper box {:?} was accepted, right would be {:?}", bx.unwrap(), box_verdict(data, bx))))
        }
        Res::Built(checks) => {
            for (kind, qi, k, res) in checks {
                let o = Op { kind: *kind, tree: 0, k: *k, axis: 0, nq: 1, qseed: 0, qkind: 0, bad: vec![], via: Via::Direct, grp: 0, flags: 0 };
                judge_query(s, &o, data, bx, &qs[*qi..qi + 1], res, refused).map_err(|v| (v.0, format!("after the build, {} query {qi}: {}", kind.name(), v.1)))?;
            }
            Ok(())
        }
        e => Err(("error", format!("build of valid data failed: {e:?}"))),
    }
}

pub fn judge_query<T: Real, const D: usize>(s: &TreeSpec, o: &Op, data: &[[T; D]], bx: Option<[T; D]>, qs: &[[T; D]], r: &Res, refused: bool) -> Result<(), V> {
    let w = World { data, bx };
    let n = data.len();
    let m = if o.kind == OpKind::Q1 { 1 } else { o.k.min(n) };
    let bad = active_bad(&o.bad, o.nq, D);
    match r {
        Res::Skipped => Ok(()),
        Res::Panic(p) if spawn_panic(p, refused) => Ok(()),
        Res::Panic(p) => Err(("panic", format!("query panicked: {p}"))),
        Res::BadAxis if BATCH && o.kind == OpKind::Axis && o.axis >= D => Ok(()),
        _ if BATCH && o.kind == OpKind::Axis && o.axis >= D => Err(("error", "an axis that does not exist was accepted".into())),
        Res::Invalid(p) if bad => check_invalid(&o.bad, qs, p),
        _ if bad => Err(("error", format!("a batch with a non-finite query was not rejected"))),
        Res::Rows { d, i, pos } => {
            if d.len() != m * qs.len() || i.len() != m * qs.len() {
                return Err(("shape", format!("{} distances and {} indices for {} queries of {m} neighbours", d.len(), i.len(), qs.len())));
            }
            let big = data.len() > 4000 && m < data.len();
            let step = if big && qs.len() > 6 { qs.len() / 6 } else { 1 };
            for (row, q) in qs.iter().enumerate() {
                if row % step != 0 {
                    // on a data point nothing is nearer
                    if (o.qkind == 7 || o.qkind == 8) && m > 0 && bx.is_none() {
                        let p = data.get(i[row * m] as usize);
                        if d[row * m].f() != 0.0 || p.map_or(true, |p| p != q) {
                            return Err(("wrong", format!("row {row} (n={n}, k={}, leafsize={}): the query is a data point, the answer point {} at distance {:e}", o.k, s.leaf, i[row * m], d[row * m].f())));
                        }
                    }
                    continue;
                }
                let p = pos.as_ref().map(|p| &p[row * m * D..(row + 1) * m * D]);
                w.check_row(q, m, &d[row * m..(row + 1) * m], &i[row * m..(row + 1) * m], p)
                    .map_err(|e| ("wrong", format!("row {row} (n={n}, k={}, leafsize={}): {e}", o.k, s.leaf)))?;
            }
            Ok(())
        }
        Res::Axis { ax, non, i, .. } => {
            if ax.len() != m * qs.len() || non.len() != m * qs.len() {
                return Err(("shape", format!("{} axis and {} off-axis distances for {} queries of {m} neighbours", ax.len(), non.len(), qs.len())));
            }
            for (row, q) in qs.iter().enumerate() {
                let a = row * m..(row + 1) * m;
                w.check_axis_row(q, o.axis, m, &ax[a.clone()], &non[a.clone()], i.as_ref().map(|i| &i[a.clone()]))
                    .map_err(|e| ("wrong", format!("row {row} (n={n}, k={}, axis={}, leafsize={}): {e}", o.k, o.axis, s.leaf)))?;
            }
            Ok(())
        }
        e => Err(("error", format!("query failed: {e:?}"))),
    }
}

fn simulate<T: Real, const D: usize>(
    case: &Case,
    data: &[Vec<[T; D]>],
    boxes: &[Option<[T; D]>],
    queries: &[Vec<Vec<[T; D]>>],
) -> (Vec<Rec>, Vec<Res>) {
    let mut pools = vec![];
    unsafe { rt::rt_nofault(1) };
    for &n in &case.pools {
        let mut b = rayon::ThreadPoolBuilder::new().num_threads(n);
        if case.stack_kb > 0 {
            b = b.stack_size(case.stack_kb * 1024);
        }
        pools.push(b.build().expect("harness: pool"));
    }
    if case.preinit {
        rayon::scope(|_| ());
    }
    unsafe { rt::rt_nofault(0) };
    let mut recs = vec![];
    let mut builds = vec![];
    for _ in 0..case.repeat.max(1) {
        builds.clear();
        let env = Env { case, data, boxes, queries, pools: &pools };
        // trees used by queries are built first, by the main thread
        let mut trees: Vec<Option<Tree<'_, T, D>>> = vec![];
        for (i, s) in case.trees.iter().enumerate() {
            let used = case.clients.iter().flatten().any(|o| o.tree == i && o.kind != OpKind::Build);
            if !used {
                trees.push(None);
                builds.push(Res::Skipped);
                continue;
            }
            let go = || catch_unwind(AssertUnwindSafe(|| build(s, &data[i], boxes[i])));
            let mut r = go();
            if r.is_err() && unsafe { rt::rt_spawn_refused() } > 0 {
                // a refused thread may fail the build; the next attempt must work
                unsafe { rt::rt_nofault(2) };
                r = go();
                unsafe { rt::rt_nofault(0) };
            }
            match r {
                Ok(Ok(t)) => {
                    let facts = facts(&t, s, &data[i]);
                    trees.push(Some(t));
                    builds.push(match facts { None => Res::Built(vec![]), Some(f) => Res::Panic(f) });
                }
                Ok(Err(e)) => {
                    trees.push(None);
                    builds.push(err(e));
                }
                Err(e) => {
                    trees.push(None);
                    builds.push(Res::Panic(panic_text(e)));
                }
            }
        }
        let (env, trees) = (&env, &trees);
        if case.clients.len() == 1 {
            for oi in 0..case.clients[0].len() {
                run_op(env, trees, 0, oi, &mut recs);
            }
        } else {
            std::thread::scope(|s| {
                let hs: Vec<_> = (0..case.clients.len())
                    .map(|c| {
                        unsafe { rt::rt_nofault(1) };
                        let h = s.spawn(move || {
                            unsafe { rt::rt_nofault(0) };
                            let mut v = vec![];
                            for oi in 0..env.case.clients[c].len() {
                                run_op(env, trees, c, oi, &mut v);
                            }
                            v
                        });
                        unsafe { rt::rt_nofault(0) };
                        h
                    })
                    .collect();
                for h in hs {
                    recs.extend(h.join().expect("harness: client"));
                }
            });
        }
    }
    (recs, builds)
}
