//! A simulated scenario ("case"): a pure value, printed to and parsed from text.
use std::fmt::Write;

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x5851f42d4c957f2d);
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        mix(self.0)
    }
    /// uniform in 0..n
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n.max(1) as u64) as usize
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn pick<X: Copy>(&mut self, xs: &[X]) -> X {
        xs[self.below(xs.len())]
    }
    pub fn chance(&mut self, pct: usize) -> bool {
        self.below(100) < pct
    }
}
pub fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum OpKind { Build, Q1, QK, Par, With, Axis }
impl OpKind {
    pub fn name(self) -> &'static str {
        match self {
            OpKind::Build => "build", OpKind::Q1 => "q1", OpKind::QK => "qk",
            OpKind::Par => "par", OpKind::With => "with", OpKind::Axis => "axis",
        }
    }
    pub fn parse(s: &str) -> Option<Self> {
        [OpKind::Build, OpKind::Q1, OpKind::QK, OpKind::Par, OpKind::With, OpKind::Axis]
            .into_iter().find(|k| k.name() == s)
    }
}
/// Where an operation is issued from.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Via {
    Direct,
    /// inside pool.install (pool 0 is the global pool)
    Install(usize),
    /// m copies issued from the items of a parallel iterator running on the pool
    Nest(usize, usize),
    /// two copies through rayon::join on the pool
    Join(usize),
}
impl Via {
    fn enc(self) -> String {
        match self {
            Via::Direct => "direct".into(),
            Via::Install(p) => format!("install:{p}"),
            Via::Nest(p, m) => format!("nest:{p}:{m}"),
            Via::Join(p) => format!("join:{p}"),
        }
    }
    fn parse(s: &str) -> Option<Via> {
        let v: Vec<&str> = s.split(':').collect();
        Some(match v[0] {
            "direct" => Via::Direct,
            "install" => Via::Install(v[1].parse().ok()?),
            "nest" => Via::Nest(v[1].parse().ok()?, v[2].parse().ok()?),
            "join" => Via::Join(v[1].parse().ok()?),
            _ => return None,
        })
    }
}

/// (record index, component, 0 = NaN, 1 = +inf, 2 = -inf)
pub type Bad = (usize, usize, u8);

#[derive(Clone, Debug, PartialEq)]
pub struct TreeSpec {
    pub n: usize,
    pub kind: u8,
    pub seed: u64,
    pub scale: f64,
    pub bad: Vec<Bad>,
    pub leaf: usize,
    pub psl: Option<usize>,
    /// 0 = not periodic, 1.. = how the box is chosen
    pub bx: u8,
    /// how the Python caller hands the data over (only in the build of the extension)
    pub flags: u32,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Op {
    pub kind: OpKind,
    pub tree: usize,
    pub k: usize,
    pub axis: usize,
    pub nq: usize,
    pub qseed: u64,
    pub qkind: u8,
    pub bad: Vec<Bad>,
    pub via: Via,
    /// operations with the same non-zero group must give the same answers
    pub grp: u32,
    /// how the Python caller makes the call (only in the build of the extension)
    pub flags: u32,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Case {
    pub prop: String,
    pub f32_: bool,
    pub d: usize,
    pub ncpu: usize,
    pub pools: Vec<usize>,
    pub stack_kb: usize,
    pub preinit: bool,
    pub repeat: usize,
    pub trees: Vec<TreeSpec>,
    pub clients: Vec<Vec<Op>>,
}

fn enc_bad(b: &[Bad]) -> String {
    if b.is_empty() {
        return "-".into();
    }
    b.iter().map(|x| format!("{}:{}:{}", x.0, x.1, x.2)).collect::<Vec<_>>().join(",")
}
fn parse_bad(s: &str) -> Option<Vec<Bad>> {
    if s == "-" {
        return Some(vec![]);
    }
    s.split(',')
        .map(|t| {
            let v: Vec<&str> = t.split(':').collect();
            Some((v.first()?.parse().ok()?, v.get(1)?.parse().ok()?, v.get(2)?.parse().ok()?))
        })
        .collect()
}
fn kv<'a>(line: &'a str, key: &str) -> Option<&'a str> {
    line.split_whitespace().find_map(|t| t.strip_prefix(key).and_then(|r| r.strip_prefix('=')))
}

impl Case {
    pub fn encode(&self) -> String {
        let mut s = String::new();
        let _ = writeln!(
            s, "case prop={} ty={} d={} ncpu={} pools={} stack_kb={} preinit={} repeat={}",
            self.prop, if self.f32_ { "f32" } else { "f64" }, self.d, self.ncpu,
            if self.pools.is_empty() { "-".into() } else { self.pools.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",") },
            self.stack_kb, self.preinit as u8, self.repeat
        );
        for t in &self.trees {
            let _ = writeln!(
                s, "tree n={} kind={} seed={} scale={:?} bad={} leaf={} psl={} box={} flags={}",
                t.n, t.kind, t.seed, t.scale, enc_bad(&t.bad), t.leaf,
                t.psl.map(|x| x.to_string()).unwrap_or("-".into()), t.bx, t.flags
            );
        }
        for c in &self.clients {
            let _ = writeln!(s, "client");
            for o in c {
                let _ = writeln!(
                    s, "op kind={} tree={} k={} axis={} nq={} qseed={} qkind={} bad={} via={} grp={} flags={}",
                    o.kind.name(), o.tree, o.k, o.axis, o.nq, o.qseed, o.qkind, enc_bad(&o.bad), o.via.enc(), o.grp, o.flags
                );
            }
        }
        s
    }
    pub fn parse(text: &str) -> Option<Case> {
        let mut c: Option<Case> = None;
        for l in text.lines() {
            let l = l.trim();
            if l.starts_with("case ") {
                c = Some(Case {
                    prop: kv(l, "prop")?.into(),
                    f32_: kv(l, "ty")? == "f32",
                    d: kv(l, "d")?.parse().ok()?,
                    ncpu: kv(l, "ncpu")?.parse().ok()?,
                    pools: match kv(l, "pools")? { "-" => vec![], p => p.split(',').filter_map(|x| x.parse().ok()).collect() },
                    stack_kb: kv(l, "stack_kb")?.parse().ok()?,
                    preinit: kv(l, "preinit")? == "1",
                    repeat: kv(l, "repeat")?.parse().ok()?,
                    trees: vec![],
                    clients: vec![],
                });
            } else if l.starts_with("tree ") {
                c.as_mut()?.trees.push(TreeSpec {
                    n: kv(l, "n")?.parse().ok()?,
                    kind: kv(l, "kind")?.parse().ok()?,
                    seed: kv(l, "seed")?.parse().ok()?,
                    scale: kv(l, "scale")?.parse().ok()?,
                    bad: parse_bad(kv(l, "bad")?)?,
                    leaf: kv(l, "leaf")?.parse().ok()?,
                    psl: match kv(l, "psl")? { "-" => None, p => Some(p.parse().ok()?) },
                    bx: kv(l, "box")?.parse().ok()?,
                    flags: kv(l, "flags").unwrap_or("0").parse().ok()?,
                });
            } else if l == "client" {
                c.as_mut()?.clients.push(vec![]);
            } else if l.starts_with("op ") {
                c.as_mut()?.clients.last_mut()?.push(Op {
                    kind: OpKind::parse(kv(l, "kind")?)?,
                    tree: kv(l, "tree")?.parse().ok()?,
                    k: kv(l, "k")?.parse().ok()?,
                    axis: kv(l, "axis")?.parse().ok()?,
                    nq: kv(l, "nq")?.parse().ok()?,
                    qseed: kv(l, "qseed")?.parse().ok()?,
                    qkind: kv(l, "qkind")?.parse().ok()?,
                    bad: parse_bad(kv(l, "bad")?)?,
                    via: Via::parse(kv(l, "via")?)?,
                    grp: kv(l, "grp")?.parse().ok()?,
                    flags: kv(l, "flags").unwrap_or("0").parse().ok()?,
                });
            }
        }
        c
    }
}

// ---------------------------------------------------------------- data
fn u01(seed: u64, i: u64, c: u64) -> f64 {
    (mix(seed ^ mix(i.wrapping_mul(0x9e3779b97f4a7c15) ^ (c << 56) ^ 0x1234567)) >> 11) as f64 / (1u64 << 53) as f64
}
/// number of data kinds
pub const DATA_KINDS: u8 = 22;
/// coordinate c of point i, before scaling, in [0, 1] (kind 7: [-1, 1))
pub fn coord(t: &TreeSpec, i: usize, c: usize) -> f64 {
    let (s, iu, cu) = (t.seed, i as u64, c as u64);
    let u = u01(s, iu, cu);
    match t.kind {
        0 => u,
        1 => (u * 8.0).floor() / 8.0,                       // coarse grid: many ties
        2 => {
            let k = (u01(s, iu, 77) * 4.0) as u64;           // clusters
            (0.1 + 0.8 * u01(s, k, cu) + 0.02 * (u - 0.5)).clamp(0.0, 1.0)
        }
        3 => 0.375,                                          // all points equal
        4 => (i % 1000) as f64 / 1000.0,                     // on the diagonal, ordered
        5 => if c == 0 { (i % 4096) as f64 / 4096.0 } else { u }, // first coordinate ascending
        6 => if u01(s, iu, 78) < 0.8 { 0.25 } else { u },    // heavy duplicates
        7 => 2.0 * u - 1.0,                                  // signed
        8 => if u < 0.5 { 0.0 } else { 1.0 },                // corners of the unit cube
        9 => if c == 0 { 0.5 } else { u },                   // one constant dimension
        10 => 1.0 - (i % 4096) as f64 / 4096.0,              // descending
        11 => if u < 0.1 { 0.0 } else if u > 0.9 { 1.0 } else { u }, // many points on the faces
        12 => (u * 64.0).floor() / 64.0,
        // nearly ordered: every block of some size shuffled within itself
        13 => {
            let b = [2usize, 16, 64, 1024][(s % 4) as usize];
            let n = t.n.max(1);
            if c == 0 || s & 16 != 0 { (((i / b) as f64 + 0.999 * u) * b as f64 / (n + b) as f64).min(1.0) } else { u }
        }
        // sawtooth
        14 => {
            let b = [8usize, 64, 100, 4096][(s % 4) as usize];
            ((i % b) as f64 + if s & 16 != 0 { u } else { 0.0 }) / b as f64
        }
        // up, then down
        15 => {
            let n = t.n.max(2);
            (i.min(n - 1 - i.min(n - 1))) as f64 / n as f64 * 2.0
        }
        // one half constant, the other anything
        16 => if (i < t.n / 2) == (s & 16 != 0) { 0.5 } else { u },
        // far from the origin, close together
        18 => 1.0 - u * [0.001, 1e-5][(s % 2) as usize],
        // every dimension on its own scale
        19 => u * [1.0, 0.01, 1e-4, 1e-5, 1e-6][(c + s as usize % 3) % 5],
        // from large to tiny
        20 => u01(s, iu, 80 + cu) * 2f64.powi(-((u * 60.0) as i32)),
        // a grid with every point moved a little: neighbours almost equally near
        21 => ((u * 8.0).floor() / 8.0 + [1e-6, 1e-7, 1e-9, 1e-11][(s % 4) as usize] * u01(s, iu, 90 + cu)).min(1.0),
        // ordered with a few strays
        _ => if u01(s, iu, 79) < 0.01 { u } else { i as f64 / t.n.max(1) as f64 },
    }
}
pub fn data_value(t: &TreeSpec, i: usize, c: usize) -> f64 {
    for b in &t.bad {
        if b.0 == i && b.1 == c {
            return bad_value(b.2);
        }
    }
    let x = coord(t, i, c) * t.scale;
    // zero of either sign
    if x == 0.0 { if t.seed & 0x300 == 0x300 && (i + c) % 2 == 1 { -0.0 } else { 0.0 } } else { x }
}
pub fn bad_value(k: u8) -> f64 {
    match k { 0 => f64::NAN, 1 => f64::INFINITY, _ => f64::NEG_INFINITY }
}
/// side c of the periodic box (the data lies in [0, scale])
pub fn box_side(t: &TreeSpec, c: usize) -> f64 {
    match t.bx {
        1 | 9 => t.scale,
        2 => t.scale * 1.25,
        3 => t.scale * (1.0 + 0.25 * c as f64),
        _ => t.scale * 2.0,
    }
}
/// number of query kinds
pub const QUERY_KINDS: u8 = 7;
/// query i is data point i: not drawn at random
pub fn query_value(t: &TreeSpec, o: &Op, i: usize, c: usize) -> f64 {
    for b in &o.bad {
        if b.0 == i && b.1 == c {
            return bad_value(b.2);
        }
    }
    // the same row more than once
    let i = match o.qseed % 8 { _ if o.qkind >= 7 => i, 0 => i / 2, 1 => i % 3, _ => i };
    let u = u01(o.qseed, i as u64, c as u64);
    let periodic = t.bx != 0;
    let side = if periodic { box_side(t, c) } else { t.scale };
    let same = |j: usize| if t.n == 0 { 0.0 } else { coord(t, j % t.n, c) * t.scale };
    let j = (u01(o.qseed, i as u64, 99) * t.n.max(1) as f64) as usize;
    let x = match o.qkind {
        0 => u * side,
        1 => same(j),                                        // exactly on a data point
        2 => if u < 0.25 { 0.0 } else if u < 0.5 { side } else if u < 0.75 { u * 0.02 * side } else { side * (1.0 - 0.02 * u) },
        3 => if periodic { u * side } else { (u - 0.5) * 20.0 * t.scale }, // far outside the data
        4 => (u * 16.0).floor() / 16.0 * t.scale,            // grid
        6 if periodic && o.qseed & 8 != 0 => [0.0, 0.25, 0.5, 0.75, 1.0, u][(u * 6.0) as usize] * side,
        7 | 8 => same(i),
        5 => same(j) + (u - 0.5) * 0.01 * t.scale,           // close to a data point
        _ => if periodic { u * side } else { (2.0 * u - 1.0) * t.scale },
    };
    if periodic {
        let mut x = x.clamp(0.0, side);
        if x == 0.0 { x = if o.qseed & 0x30 == 0x30 { -0.0 } else { 0.0 } }
        // which image is nearer is undefined exactly in the middle
        if (x - side / 2.0).abs() < 1e-6 * side {
            // (for the nearest one it does not matter)
            x = if o.kind == OpKind::Q1 { side / 2.0 } else { side * 0.46875 }
        }
        x
    } else {
        x
    }
}
