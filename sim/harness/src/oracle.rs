//! Reference model: exhaustive search over all points (and periodic images).
use crate::case::*;

pub trait Real: fnntw::point::Float + Send + Sync + 'static {
    const EPS: f64;
    /// rounding of a distance whose square is subnormal
    const TINY: f64;
    fn of(x: f64) -> Self;
    fn f(self) -> f64;
    fn bits(self) -> u64;
}
impl Real for f64 {
    const EPS: f64 = f64::EPSILON;
    const TINY: f64 = 1e-150;
    fn of(x: f64) -> Self { x }
    fn f(self) -> f64 { self }
    fn bits(self) -> u64 { self.to_bits() }
}
impl Real for f32 {
    const EPS: f64 = f32::EPSILON as f64;
    const TINY: f64 = 2e-22;
    fn of(x: f64) -> Self { x as f32 }
    fn f(self) -> f64 { self as f64 }
    fn bits(self) -> u64 { self.to_bits() as u64 }
}

pub const SQRT: bool = cfg!(feature = "sqrt");

#[derive(Clone, Debug)]
pub enum Res {
    /// rows x m distances (as returned), indices, positions
    Rows { d: Vec<f64>, i: Vec<u64>, pos: Option<Vec<u64>> },
    Axis { ax: Vec<f64>, non: Vec<f64>, i: Option<Vec<u64>> },
    Built(Vec<(OpKind, usize, usize, Res)>),
    Invalid(Vec<u64>),
    Empty,
    BadAxis,
    /// the box was refused: "negative", "small" or "invalid"
    BadBox(&'static str),
    OtherErr(String),
    Panic(String),
    Skipped,
}

pub struct Cand {
    pub d2: f64,
    pub ax2: f64,
    pub non2: f64,
    pub idx: usize,
}

pub struct World<'a, T, const D: usize> {
    pub data: &'a [[T; D]],
    pub bx: Option<[T; D]>,
}

impl<'a, T: Real, const D: usize> World<'a, T, D> {
    fn scale(&self, q: &[T; D]) -> f64 {
        let mut s = 0.0f64;
        for c in 0..D {
            s = s.max(q[c].f().abs());
            if let Some(b) = &self.bx { s = s.max(b[c].f()); }
        }
        s
    }
    pub fn cands(&self, q: &[T; D], axis: usize) -> Vec<Cand> {
        let images = if self.bx.is_some() { 1usize << D } else { 1 };
        let mut v = Vec::with_capacity(images * self.data.len());
        for im in 0..images {
            let mut qq = [0.0f64; D];
            for c in 0..D {
                qq[c] = q[c].f();
                if im >> c & 1 == 1 {
                    let b = self.bx.as_ref().unwrap()[c].f();
                    if qq[c] < b / 2.0 { qq[c] += b } else { qq[c] -= b }
                }
            }
            for (idx, p) in self.data.iter().enumerate() {
                let (mut d2, mut ax2, mut non2) = (0.0, 0.0, 0.0);
                for c in 0..D {
                    let x = qq[c] - p[c].f();
                    d2 += x * x;
                    if c == axis { ax2 = x * x } else { non2 += x * x }
                }
                v.push(Cand { d2, ax2, non2, idx });
            }
        }
        v
    }
    pub fn tol(&self, q: &[T; D], d: f64) -> f64 {
        let per = if self.bx.is_some() { 16.0 * T::EPS * self.scale(q) } else { 0.0 };
        8.0 * (D as f64 + 2.0) * T::EPS * d + per + T::TINY
    }
    pub fn out(x: f64) -> f64 {
        if SQRT { x } else { x.sqrt() }
    }

    /// One row of a k-nearest answer. `m` = expected number of neighbours.
    pub fn check_row(&self, q: &[T; D], m: usize, d: &[f64], i: &[u64], pos: Option<&[u64]>) -> Result<(), String> {
        if d.len() != m || i.len() != m {
            return Err(format!("row has {} distances and {} indices, expected {m}", d.len(), i.len()));
        }
        if m == 0 { return Ok(()) }
        let n = self.data.len();
        for (r, &ix) in i.iter().enumerate() {
            if ix as usize >= n {
                return Err(format!("rank {r}: index {ix} is outside the data (n = {n})"));
            }
            if let Some(p) = pos {
                for c in 0..D {
                    if p[r * D + c] != self.data[ix as usize][c].bits() {
                        return Err(format!("rank {r}: position is not that of point {ix}"));
                    }
                }
            }
        }
        let mut c = self.cands(q, 0);
        if m < c.len() {
            c.select_nth_unstable_by(m, |a, b| a.d2.total_cmp(&b.d2));
        }
        let mm = m.min(c.len());
        c[..mm].sort_by(|a, b| a.d2.total_cmp(&b.d2));
        for r in 0..m {
            let got = Self::out(d[r]);
            let want = c[r].d2.sqrt();
            if !((got - want).abs() <= self.tol(q, want.max(got))) {
                return Err(format!("rank {r}: distance {got:e}, the {r}-th nearest point is at {want:e} (point {})", c[r].idx));
            }
            if r > 0 && !(got >= Self::out(d[r - 1]) - self.tol(q, got)) {
                return Err(format!("rank {r}: distances are not in ascending order"));
            }
        }
        // every index carries its own distance, and is used at most once per image
        let mut order: Vec<usize> = (0..m).collect();
        order.sort_by(|&a, &b| i[a].cmp(&i[b]).then(d[a].total_cmp(&d[b])));
        let mut s = 0;
        while s < m {
            let mut e = s;
            while e < m && i[order[e]] == i[order[s]] { e += 1 }
            let mut own: Vec<f64> = self.one(q, i[order[s]] as usize);
            own.sort_by(|a, b| a.total_cmp(b));
            let mut o = 0;
            for &r in &order[s..e] {
                let got = Self::out(d[r]);
                while o < own.len() && own[o] < got - self.tol(q, got.max(own[o])) { o += 1 }
                if o >= own.len() || !((own[o] - got).abs() <= self.tol(q, got.max(own[o]))) {
                    return Err(if e - s > 1 && self.bx.is_none() {
                        format!("rank {r}: point {} appears more than once", i[r])
                    } else {
                        format!("rank {r}: point {} is not at the distance {got:e} returned with it", i[r])
                    });
                }
                o += 1;
            }
            s = e;
        }
        Ok(())
    }
    /// distances of one point over all images
    fn one(&self, q: &[T; D], idx: usize) -> Vec<f64> {
        let w = World { data: std::slice::from_ref(&self.data[idx]), bx: self.bx };
        w.cands(q, 0).iter().map(|c| c.d2.sqrt()).collect()
    }

    pub fn check_axis_row(&self, q: &[T; D], axis: usize, m: usize, ax: &[f64], non: &[f64], i: Option<&[u64]>) -> Result<(), String> {
        if ax.len() != m || non.len() != m || i.map_or(false, |i| i.len() != m) {
            return Err(format!("row has {} axis and {} off-axis entries, expected {m}", ax.len(), non.len()));
        }
        if m == 0 { return Ok(()) }
        let n = self.data.len();
        let all = self.cands(q, axis);
        let mut dist: Vec<f64> = all.iter().map(|c| c.d2).collect();
        if m < dist.len() { dist.select_nth_unstable_by(m, |a, b| a.total_cmp(b)); }
        dist[..m].sort_by(|a, b| a.total_cmp(b));
        let mut used = vec![usize::MAX; all.len()];
        for r in 0..m {
            let (a, o) = (Self::out(ax[r]), Self::out(non[r]));
            if !a.is_finite() || !o.is_finite() || a < 0.0 || o < 0.0 {
                return Err(format!("rank {r}: axis/off-axis distances {a:e}, {o:e} are not distances"));
            }
            let got = (a * a + o * o).sqrt();
            let want = dist[r].sqrt();
            if !((got - want).abs() <= 2.0 * self.tol(q, want.max(got))) {
                return Err(format!("rank {r}: combined distance {got:e}, the {r}-th nearest point is at {want:e}"));
            }
            if let Some(i) = i {
                if i[r] as usize >= n {
                    return Err(format!("rank {r}: index {} is outside the data (n = {n})", i[r]));
                }
            }
            // the split belongs to a real candidate, each candidate used once
            let mut best: Option<(f64, usize)> = None;
            for (j, c) in all.iter().enumerate() {
                if used[j] != usize::MAX || i.map_or(false, |i| i[r] as usize != c.idx) { continue }
                let e = (c.ax2.sqrt() - a).abs().max((c.non2.sqrt() - o).abs());
                if best.map_or(true, |b| e < b.0) { best = Some((e, j)) }
            }
            match best {
                Some((e, j)) if e <= 2.0 * self.tol(q, got) => used[j] = r,
                // where candidates are hard to tell apart, earlier rows may have to move on
                _ if self.reassign(q, &all, &mut used, r, ax, non, i) => (),
                _ => return Err(format!("rank {r}: axis/off-axis distances {a:e}, {o:e} are those of no remaining point{}",
                    i.map(|i| format!(" with index {}", i[r])).unwrap_or_default())),
            }
        }
        Ok(())
    }
    /// A candidate for row r, found by moving other rows to other candidates that fit them.
    fn reassign(&self, q: &[T; D], all: &[Cand], used: &mut [usize], r: usize, ax: &[f64], non: &[f64], i: Option<&[u64]>) -> bool {
        let mut from = vec![usize::MAX; all.len()];
        let mut seen = vec![false; all.len()];
        let mut queue = vec![r];
        let mut at = 0;
        while at < queue.len() {
            let row = queue[at];
            at += 1;
            let (a, o) = (Self::out(ax[row]), Self::out(non[row]));
            let tol = 2.0 * self.tol(q, (a * a + o * o).sqrt());
            for (j, c) in all.iter().enumerate() {
                let fits = i.map_or(true, |i| i[row] as usize == c.idx) && (c.ax2.sqrt() - a).abs() <= tol && (c.non2.sqrt() - o).abs() <= tol;
                if seen[j] || !fits { continue }
                seen[j] = true;
                from[j] = row;
                if used[j] != usize::MAX {
                    queue.push(used[j]);
                    continue;
                }
                // along the path, every row takes the next candidate
                let mut j = j;
                loop {
                    let row = from[j];
                    let old = if row == r { None } else { used.iter().position(|&x| x == row) };
                    used[j] = row;
                    match old {
                        Some(next) if next != j => { used[next] = usize::MAX; j = next }
                        _ => return true,
                    }
                }
            }
        }
        false
    }
}
