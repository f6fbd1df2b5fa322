//! Seeded generation of cases, schedules and faults for each property.
use crate::case::*;
use crate::rt::Cfg;
use crate::scen::BATCH;

fn size(r: &mut Rng, max: usize) -> usize {
    if max >= 140 && r.chance(2) {
        return r.range(260, 3000);
    }
    match r.below(10) {
        0 => r.range(1, 3),
        1 | 2 => r.range(1, 12),
        3..=6 => r.range(10, 80.min(max)),
        _ => r.range(20.min(max), max),
    }
}
fn leafsize(r: &mut Rng, n: usize) -> usize {
    match r.below(10) {
        0 => 1,
        1 => n.max(1),
        2 => n.saturating_sub(1).max(1),
        3 => if r.chance(10) { r.pick(&HUGE) } else { n + r.range(1, 5) },
        4 => 16,
        5 | 6 => r.range(1, 4),
        _ => r.range(1, 40),
    }
}
fn psl(r: &mut Rng) -> Option<usize> {
    match r.below(8) {
        0 | 1 => None,
        2 => Some(0),
        3 => Some(1),
        4 => Some(2),
        5 => Some(3),
        _ => Some(r.range(1, 5)),
    }
}
pub fn tree(r: &mut Rng, max_n: usize, periodic: bool) -> TreeSpec {
    let n = size(r, max_n);
    let mut kind = r.below(DATA_KINDS as usize) as u8;
    if periodic && kind == 7 {
        kind = 0;
    }
    let mut leaf = leafsize(r, n);
    if r.chance(2) {
        leaf = 0;
    }
    let mut psl = psl(r);
    if n / leaf.max(1) <= 24 && r.chance(3) {
        // a thread for every node
        psl = Some(r.pick(&[6usize, 8, 31, 32, 63, 64, 65, 1000, usize::MAX]));
    }
    TreeSpec {
        n,
        kind,
        seed: r.next(),
        scale: if r.chance(6) { r.pick(&[1e-12, 1e12, 3e-9, 7e8]) } else { r.pick(&[1.0, 1.0, 1.0, 8.0, 1000.0, 0.03125]) },
        bad: vec![],
        leaf,
        psl,
        bx: if periodic { r.pick(&[1u8, 2, 3, 4, 9]) } else { 0 },
        flags: 0,
    }
}
/// as large as the type allows, and where smaller types end
const HUGE: [usize; 6] = [usize::MAX, usize::MAX - 1, usize::MAX / 2 + 1, 1 << 32, (1 << 32) + 1, 65_536];
fn kk(r: &mut Rng, n: usize) -> usize {
    match r.below(12) {
        0 | 1 => 1,
        2 => n,
        3 => n.saturating_sub(1).max(1),
        4 => if r.chance(15) { r.pick(&HUGE) } else { n + r.range(1, 4) },
        5 => 0,
        6 => r.range(1, n.max(1)),
        _ => r.range(1, 16),
    }
}
/// many queries in one batch
fn long(r: &mut Rng, o: &mut Op) {
    o.nq = match r.below(8) { 0 => r.pick(&[64usize, 128, 256, 512, 1024, 2048]) + r.below(3) - 1, 1 => r.range(1000, 3000), _ => r.range(25, 400) };
    if o.nq.saturating_mul(o.k) > 3000 { o.k = r.range(1, (3000 / o.nq).max(1)) }
}
pub fn op(r: &mut Rng, kind: OpKind, tree: usize, n: usize, d: usize) -> Op {
    Op {
        kind,
        tree,
        k: kk(r, n),
        axis: r.below(d),
        nq: match r.below(8) { 0 => 0, 1 => 1, 2 => r.range(1, 4), _ => r.range(2, 24) },
        qseed: r.next(),
        qkind: r.below(QUERY_KINDS as usize) as u8,
        bad: vec![],
        via: Via::Direct,
        grp: 0,
        flags: 0,
    }
}
fn single(r: &mut Rng) -> OpKind {
    r.pick(&[OpKind::Q1, OpKind::QK])
}
fn batch(r: &mut Rng) -> OpKind {
    if BATCH { r.pick(&[OpKind::Par, OpKind::Par, OpKind::Par, OpKind::Par, OpKind::Par, OpKind::With, OpKind::Axis, OpKind::Axis, OpKind::Axis]) } else { OpKind::QK }
}
fn via(r: &mut Rng, pools: usize) -> Via {
    let p = r.below(pools + 1);
    match r.below(8) {
        0..=2 => Via::Direct,
        3 | 4 => Via::Install(p),
        5 | 6 => Via::Nest(p, r.range(1, 4)),
        _ => Via::Join(p),
    }
}
fn pools(r: &mut Rng) -> Vec<usize> {
    (0..r.pick(&[0usize, 0, 1, 1, 2])).map(|_| if r.chance(4) { r.range(6, 20) } else { r.range(1, 5) }).collect()
}
fn bad_list(r: &mut Rng, n: usize, d: usize, max: usize) -> Vec<Bad> {
    if n == 0 {
        return vec![];
    }
    (0..r.range(1, max))
        .map(|_| (match r.below(4) { 0 => 0, 1 => n - 1, _ => r.below(n) }, r.below(d), r.below(3) as u8))
        .collect()
}
fn base(prop: &str, r: &mut Rng) -> Case {
    let f32_ = r.chance(30);
    let d = if f32_ { r.pick(&[1usize, 2, 2, 2, 3, 3, 3, 3]) } else { r.pick(&[1usize, 1, 2, 2, 2, 2, 3, 3, 3, 3, 3, 3, 4, 4, 6]) };
    Case {
        prop: prop.into(),
        f32_,
        d,
        ncpu: if r.chance(3) { r.pick(&[9usize, 12, 16, 17, 24, 33, 40]) } else { r.pick(&[1usize, 2, 2, 3, 4, 4, 6, 8]) },
        pools: vec![],
        stack_kb: 0,
        preinit: r.chance(30),
        repeat: 1,
        trees: vec![],
        clients: vec![vec![]],
    }
}

/// the schedule and the environment of one run
pub fn schedule(r: &mut Rng, faults: &Faults) -> Cfg {
    let mut c = Cfg { seed: r.next(), ..Cfg::default() };
    match r.below(20) {
        0 => c.policy = 0,
        1..=11 => {
            c.policy = 1;
            match r.below(6) {
                0 => { c.gap_sync = 1; }
                1 => { c.gap_sync = r.range(2, 6) as u32; }
                2 => { c.gap_sync = r.range(5, 60) as u32; c.gap_mem = r.range(20, 400) as u32; }
                3 => { c.gap_sync = r.range(2, 12) as u32; c.gap_mem = r.range(5, 60) as u32; }
                4 => { c.gap_mem = r.range(3, 300) as u32; c.gap_sync = 200; }
                _ => { c.gap_sync = r.range(2, 40) as u32; c.gap_mem = r.range(500, 5000) as u32; }
            }
        }
        12..=17 => {
            c.policy = 2;
            c.pct_depth = r.range(1, 10) as u32;
            c.pct_len = r.pick(&[200u64, 1000, 3000, 10000]);
        }
        _ => {
            c.policy = 3;
            c.quantum = r.pick(&[1u32, 3, 10, 40, 200, 1000]);
        }
    }
    if r.chance(35) {
        c.stall_ppm = r.pick(&[500u32, 5000, 30000]);
        c.stall_len = r.pick(&[300u32, 3000, 15000]);
    }
    c.poison = r.pick(&[0u32, 0, 1, 2, 3]);
    c.reuse = r.chance(25) as u32;
    if faults.spurious && r.chance(40) {
        c.spurious_ppm = r.pick(&[20000u32, 100000, 300000]);
    }
    if faults.spawn {
        c.spawn_ppm = r.pick(&[150000u32, 400000, 1000000]);
        c.spawn_max = r.range(1, 4) as u32;
        c.spawn_from = if r.chance(15) { r.range(5, 40) } else { r.range(1, 8) } as u32;
    }
    if faults.clock && r.chance(50) {
        c.clock_ppm = r.pick(&[20000u32, 300000]);
    }
    c
}
#[derive(Default, Clone, Copy)]
pub struct Faults {
    pub spurious: bool,
    pub spawn: bool,
    pub clock: bool,
}

/// long runs: decisions further apart
fn big(c: &mut Cfg) {
    c.max_steps = 1_500_000_000;
    if c.gap_mem > 0 { c.gap_mem = c.gap_mem.max(200) * 40 }
    if c.policy == 3 { c.quantum = c.quantum.max(2000) }
    c.stall_len *= 10;
}

pub fn generate(prop: &str, seed: u64) -> (Case, Cfg) {
    let mut r = Rng::new(mix(seed ^ 0xf00d) ^ prop.bytes().fold(0u64, |h, b| h.wrapping_mul(131).wrapping_add(b as u64)));
    let r = &mut r;
    let mut c = base(prop, r);
    let mut fl = Faults { spurious: true, clock: cfg!(feature = "timing"), ..Default::default() };
    let mut cfg_mod: Box<dyn Fn(&mut Cfg)> = Box::new(|_| ());
    let mut huge = false;
    match prop {
        // builds
        "C01" => {
            let per = r.chance(15);
            c.trees.push(tree(r, 260, per));
            if r.chance(60) && c.trees[0].psl.is_none() {
                c.trees[0].psl = Some(r.range(1, 5));
            }
            let n = c.trees[0].n;
            let nc = r.pick(&[1usize, 1, 1, 2, 3]);
            c.clients = (0..nc)
                .map(|_| {
                    let mut o = op(r, OpKind::Build, 0, n, c.d);
                    o.nq = r.range(2, 5);
                    vec![o]
                })
                .collect();
        }
        // batches
        "C02" | "C03" if BATCH && r.below(100) == 0 => {
            // more queries than small integers count
            let mut t = tree(r, 24, false);
            t.n = r.range(1, 24);
            t.scale = 1.0;
            let n = t.n;
            c.trees.push(t);
            c.pools = pools(r);
            let kind = if prop == "C03" { OpKind::Axis } else { r.pick(&[OpKind::Par, OpKind::Par, OpKind::With]) };
            let mut o = op(r, kind, 0, n, c.d);
            o.k = r.range(1, 2);
            o.nq = match r.below(3) { 0 => r.range(65_530, 70_000), 1 => r.range(16_000, 40_000), _ => r.range(4_000, 16_000) };
            if r.chance(50) { o.via = Via::Install(r.below(c.pools.len() + 1)) }
            c.clients = vec![vec![o]];
            huge = true;
            cfg_mod = Box::new(big);
        }
        "C02" => {
            c.trees.push(tree(r, 200, false));
            c.pools = pools(r);
            let n = c.trees[0].n;
            let k = if BATCH { r.pick(&[OpKind::Par, OpKind::Par, OpKind::Par, OpKind::With]) } else { OpKind::QK };
            let mut o = op(r, k, 0, n, c.d);
            if r.chance(50) { o.via = Via::Install(r.below(c.pools.len() + 1)) }
            if r.chance(6) { long(r, &mut o) }
            let mut ops = vec![o];
            if r.chance(40) {
                ops.push(op(r, OpKind::Par, 0, n, c.d));
            }
            c.clients = vec![ops];
        }
        "C03" => {
            c.trees.push(tree(r, 160, false));
            c.pools = pools(r);
            let n = c.trees[0].n;
            c.clients = vec![(0..r.range(1, 2))
                .map(|_| {
                    let mut o = op(r, OpKind::Axis, 0, n, c.d);
                    if r.chance(50) { o.via = Via::Install(r.below(c.pools.len() + 1)) }
                    if r.chance(4) { o.axis = c.d + r.below(2) }
                    if r.chance(5) { long(r, &mut o) }
                    o
                })
                .collect()];
        }
        "C04" => {
            c.trees.push(tree(r, 140, true));
            c.pools = pools(r);
            let n = c.trees[0].n;
            c.clients = vec![(0..r.range(1, 3))
                .map(|_| {
                    let kind = if BATCH { r.pick(&[OpKind::Par, OpKind::Par, OpKind::With, OpKind::Axis, OpKind::Axis, OpKind::QK, OpKind::Q1]) } else { single(r) };
                    let mut o = op(r, kind, 0, n, c.d);
                    if r.chance(60) { o.qkind = 2 }
                    if r.chance(2) { long(r, &mut o) }
                    if r.chance(30) { o.via = Via::Install(r.below(c.pools.len() + 1)) }
                    o
                })
                .collect()];
        }
        // many readers of one tree
        "C05" => {
            let per = r.chance(35);
            c.trees.push(tree(r, 120, per));
            if r.chance(20) {
                let per = r.chance(35);
                c.trees.push(tree(r, 80, per));
            }
            c.pools = pools(r);
            let nc = r.range(2, 5);
            let nt = c.trees.len();
            c.clients = (0..nc)
                .map(|_| {
                    (0..r.range(1, 3))
                        .map(|_| {
                            let ti = r.below(nt);
                            let kind = if r.chance(50) { batch(r) } else { single(r) };
                            let n = c.trees[ti].n;
                            let mut o = op(r, kind, ti, n, c.d);
                            o.nq = o.nq.min(10);
                            if r.chance(3) { long(r, &mut o) }
                            if r.chance(40) { o.via = via(r, c.pools.len()) }
                            o
                        })
                        .collect()
                })
                .collect();
            // the same question from different threads
            if r.chance(60) {
                let o = c.clients[0][0].clone();
                for cl in c.clients.iter_mut() {
                    let mut o = o.clone();
                    o.grp = 1;
                    cl[0] = o;
                }
            }
        }
        // memory discipline: everything, mixed
        "C06" => {
            let nt = r.range(1, 2);
            for _ in 0..nt {
                let per = r.chance(35);
                c.trees.push(tree(r, 150, per));
            }
            c.pools = pools(r);
            let nc = r.range(1, 4);
            c.clients = (0..nc)
                .map(|_| {
                    (0..r.range(1, 3))
                        .map(|_| {
                            let ti = r.below(nt);
                            let kind = match r.below(10) { 0..=3 => OpKind::Build, 4 | 5 => single(r), _ => batch(r) };
                            let n = c.trees[ti].n;
                            let mut o = op(r, kind, ti, n, c.d);
                            o.nq = o.nq.min(12);
                            if r.chance(15) { o.k = n + r.range(0, 3) }
                            if r.chance(2) { long(r, &mut o) }
                            if kind == OpKind::Build { o.nq = o.nq.clamp(1, 3) }
                            else if r.chance(12) { o.bad = bad_list(r, o.nq, c.d, 2) }
                            if r.chance(35) { o.via = via(r, c.pools.len()) }
                            o
                        })
                        .collect()
                })
                .collect();
        }
        // invalid data
        "C07" => {
            let per = r.chance(15);
            c.trees.push(tree(r, 120, per));
            let t = &mut c.trees[0];
            if r.chance(80) { t.bx = 0 }
            if r.chance(8) { t.n = r.range(300, 5000) }
            match r.below(10) {
                0 => t.n = 0,
                _ => t.bad = bad_list(r, t.n, c.d, 3),
            }
            if r.chance(2) {
                // much data, all of it looked at
                t.n = match r.below(3) { 0 => r.range(5000, 20_000), 1 => r.range(60_000, 70_000), _ => r.range(95_000, 140_000) };
                t.bad = vec![bad_list(r, t.n, c.d, 1)[0]];
                cfg_mod = Box::new(big);
            }
            c.trees.push(tree(r, 60, false));
            c.pools = pools(r);
            let nc = r.range(1, 3);
            c.clients = (0..nc)
                .map(|_| {
                    let mut v = vec![op(r, OpKind::Build, 0, 1, c.d)];
                    v[0].nq = 1;
                    if r.chance(40) { v[0].via = via(r, c.pools.len()) }
                    // a failed build leaves nothing behind: valid work still succeeds
                    if r.chance(60) {
                        let mut o = op(r, OpKind::Build, 1, 1, c.d);
                        o.nq = 2;
                        v.push(o);
                    }
                    v
                })
                .collect();
            if r.chance(50) && !c.clients[0].is_empty() {
                let n = c.trees[1].n;
                let k = batch(r);
                let o = op(r, k, 1, n, c.d);
                c.clients[0].push(o);
            }
        }
        // invalid queries
        "C08" => {
            let per = r.chance(30);
            c.trees.push(tree(r, 100, per));
            c.pools = pools(r);
            let n = c.trees[0].n;
            let nc = r.range(1, 3);
            c.clients = (0..nc)
                .map(|_| {
                    let mut v = vec![];
                    for _ in 0..r.range(1, 3) {
                        let kind = if r.chance(70) { batch(r) } else { single(r) };
                        let mut o = op(r, kind, 0, n, c.d);
                        o.nq = o.nq.max(1);
                        if r.chance(4) && n <= 200 { long(r, &mut o) }
                        if r.chance(75) { o.bad = bad_list(r, o.nq, c.d, 3) }
                        if r.chance(40) { o.via = via(r, c.pools.len()) }
                        if r.chance(1) && n <= 60 && nc == 1 && BATCH && v.is_empty() {
                            o.kind = r.pick(&[OpKind::Par, OpKind::With, OpKind::Axis]);
                            o.k = r.range(1, 2);
                            o.nq = match r.below(3) { 0 => r.range(4000, 20_000), 1 => r.range(30_000, 35_000), _ => r.range(65_000, 70_000) };
                            o.bad = vec![bad_list(r, o.nq, c.d, 1)[0]];
                            o.via = Via::Direct;
                            huge = true;
                            cfg_mod = Box::new(big);
                            c.trees[0].bx = 0;
                            v.push(o);
                            break;
                        }
                        v.push(o);
                    }
                    v
                })
                .collect();
        }
        // progress
        "C09" if r.chance(3) => {
            // large enough for the parallel median search, from inside the pool
            let per = r.chance(15);
            let mut t = tree(r, 10, per);
            t.n = match r.below(3) { 0 => r.range(100_000, 104_000), _ => r.range(200_000, 206_000) };
            t.leaf = r.pick(&[32usize, 500, 3000, 60_000]);
            t.scale = 1.0;
            t.psl = r.pick(&[None, Some(0), Some(1), Some(1), Some(2), Some(2), Some(3)]);
            c.ncpu = r.range(1, 4);
            let n = t.n;
            c.trees.push(t);
            let mut b = op(r, OpKind::Build, 0, n, c.d);
            b.nq = 1;
            b.via = r.pick(&[Via::Install(0), Via::Nest(0, 2), Via::Nest(0, 3), Via::Join(0), Via::Join(0)]);
            c.clients = vec![vec![b]];
            cfg_mod = Box::new(big);
        }
        "C09" => {
            let nt = r.range(1, 2);
            for _ in 0..nt {
                let per = r.chance(20);
                c.trees.push(tree(r, 120, per));
            }
            c.ncpu = r.pick(&[1usize, 1, 1, 2, 2, 3, 4]);
            c.pools = (0..r.below(3)).map(|_| r.pick(&[1usize, 1, 2, 3])).collect();
            let nc = r.range(1, 3);
            c.clients = (0..nc)
                .map(|_| {
                    (0..r.range(1, 2))
                        .map(|_| {
                            let ti = r.below(nt);
                            let kind = match r.below(10) { 0..=4 => OpKind::Build, _ => batch(r) };
                            let n = c.trees[ti].n;
                            let mut o = op(r, kind, ti, n, c.d);
                            o.nq = o.nq.min(8);
                            if r.chance(6) { long(r, &mut o) }
                            if kind == OpKind::Build { o.nq = 1 }
                            o.via = match r.below(4) { 0 => Via::Direct, 1 => Via::Install(r.below(c.pools.len() + 1)), 2 => Via::Join(r.below(c.pools.len() + 1)), _ => Via::Nest(r.below(c.pools.len() + 1), r.range(2, 5)) };
                            o
                        })
                        .collect()
                })
                .collect();
        }
        // the answer does not depend on schedule, split level, pool
        "C10" => {
            let per = r.chance(30);
            let t = tree(r, 160, per);
            let n = t.n;
            c.pools = vec![r.range(1, 4), r.range(1, 6)];
            let nt = r.range(2, 4);
            for i in 0..nt {
                let mut t = t.clone();
                t.psl = if i == 0 { None } else { Some(r.range(0, 5)) };
                if i > 0 && r.chance(40) { t.leaf = leafsize(r, n) }
                c.trees.push(t);
            }
            let kinds: Vec<OpKind> = (0..r.range(1, 2)).map(|_| if r.chance(70) { batch(r) } else { single(r) }).collect();
            let mut cl = vec![vec![]; if r.chance(50) { 1 } else { nt }];
            let nc = cl.len();
            for (g, kind) in kinds.iter().enumerate() {
                let mut o = op(r, *kind, 0, n, c.d);
                if r.chance(3) { long(r, &mut o) }
                if o.kind == OpKind::With { o.k = o.k.min(6) }
                for ti in 0..nt {
                    let mut o = o.clone();
                    o.tree = ti;
                    o.grp = g as u32 + 1;
                    o.via = match r.below(4) { 0 => Via::Direct, 1 => Via::Install(0), 2 => Via::Install(1), _ => Via::Install(2) };
                    cl[ti % nc].push(o);
                }
            }
            c.clients = cl;
        }
        // refused threads
        "C11" => {
            fl.spawn = true;
            let per = r.chance(20);
            c.trees.push(tree(r, 120, per));
            c.trees[0].psl = Some(r.range(1, 5));
            c.preinit = r.chance(60);
            let n = c.trees[0].n;
            let nc = r.range(1, 3);
            c.clients = (0..nc)
                .map(|_| {
                    let mut b = op(r, OpKind::Build, 0, n, c.d);
                    b.nq = 2;
                    let mut v = vec![b];
                    for _ in 0..r.range(1, 2) {
                        let kind = if r.chance(60) { batch(r) } else if r.chance(50) { OpKind::Build } else { single(r) };
                        let mut o = op(r, kind, 0, n, c.d);
                        o.nq = o.nq.clamp(1, 6);
                        v.push(o);
                    }
                    v
                })
                .collect();
        }
        // large data
        "C12" => {
            let mut t = tree(r, 10, false);
            if r.chance(30) {
                // deep searches on small stacks
                t.n = r.range(2000, 6000);
                t.leaf = r.range(1, 2);
                c.stack_kb = r.pick(&[256usize, 512]);
                c.pools = vec![r.range(1, 3)];
                let n = t.n;
                c.trees.push(t);
                let mut o = { let b = batch(r); op(r, b, 0, n, c.d) };
                o.k = if r.chance(50) { n } else { n / 2 };
                o.nq = 1;
                o.via = Via::Install(1);
                if BATCH && o.kind == OpKind::Axis { o.kind = OpKind::Par }
                c.clients = vec![vec![o]];
            } else if r.chance(25) {
                // a sweep: every data point has to be found
                t.n = r.pick(&[1000usize, 1024, 2500, 4095, 4096, 4097, 5000, 8191, 10_000]) + r.below(3);
                t.leaf = r.pick(&[1usize, 4, 16, 32, 64, 500]);
                t.scale = 1.0;
                c.ncpu = r.range(1, 3);
                let n = t.n;
                c.trees.push(t);
                let mut o = op(r, OpKind::Q1, 0, n, c.d);
                o.qkind = 7;
                o.nq = n;
                if BATCH && r.chance(70) { o.kind = OpKind::Par; o.k = r.range(1, 2) }
                c.clients = vec![vec![o]];
            } else {
                t.n = match r.below(6) { 0 => 99_999, 1 => 100_000, 2 => 100_001, 3 => r.range(200_000, 210_000), _ => r.range(100_000, 140_000) };
                t.leaf = if t.n < 110_000 && r.chance(20) { r.pick(&[1usize, 2]) } else { r.pick(&[16usize, 32, 64, 500]) };
                t.kind = r.pick(&[0u8, 0, 1, 2, 4, 5, 6, 6, 3, 8, 9, 10, 11, 13, 14, 15, 16, 17]);
                t.scale = 1.0;
                t.psl = r.pick(&[None, Some(0), Some(1), Some(2), Some(3)]);
                if r.chance(15) { t.bx = 1 }
                c.ncpu = r.range(1, 4);
                let n = t.n;
                c.trees.push(t);
                let mut o = { let b = batch(r); op(r, b, 0, n, c.d) };
                if o.kind == OpKind::Axis { o.kind = OpKind::Par }
                o.nq = 6;
                o.k = r.range(1, 12);
                let mut o1 = op(r, OpKind::Q1, 0, n, c.d);
                o1.nq = 5;
                o1.qkind = 1;
                c.clients = vec![vec![o, o1]];
                if r.chance(40) {
                    // points around the middle, where they may end up on the wrong side
                    let mut o = op(r, OpKind::Q1, 0, n, c.d);
                    o.qkind = 8;
                    o.nq = r.range(500, 6000);
                    if BATCH && r.chance(50) { o.kind = OpKind::Par; o.k = 1 }
                    c.clients[0].push(o);
                }
                if r.chance(25) {
                    // all of the tree
                    let mut o = op(r, OpKind::QK, 0, n, c.d);
                    o.k = n;
                    o.nq = 1;
                    c.clients[0].push(o);
                }
                if r.chance(15) {
                    let mut b = op(r, OpKind::Build, 0, n, c.d);
                    b.nq = 1;
                    b.via = r.pick(&[Via::Install(0), Via::Nest(0, 2), Via::Direct]);
                    c.clients = vec![vec![b]];
                }
            }
            cfg_mod = Box::new(big);
        }
        // memory is returned
        "C13" => {
            let nt = r.range(1, 2);
            for _ in 0..nt {
                let per = r.chance(30);
                c.trees.push(tree(r, 100, per));
            }
            if r.chance(25) {
                let n = c.trees[0].n;
                c.trees[0].bad = bad_list(r, n, c.d, 2);
                c.trees[0].bx = 0;
            } else if r.chance(6) {
                c.trees[0].n = 0;
            } else if r.chance(10) {
                c.trees[0].bx = r.pick(&[5u8, 6, 7, 8]);
            }
            if r.chance(25) {
                fl.spawn = true;
                c.trees[0].psl = Some(r.range(1, 4));
            }
            c.pools = pools(r);
            let nc = r.range(1, 3);
            c.clients = (0..nc)
                .map(|_| {
                    (0..r.range(1, 3))
                        .map(|_| {
                            let ti = r.below(nt);
                            let kind = match r.below(10) { 0..=3 => OpKind::Build, 4 | 5 => single(r), _ => batch(r) };
                            let n = c.trees[ti].n;
                            let mut o = op(r, kind, ti, n, c.d);
                            o.nq = o.nq.min(8);
                            if kind == OpKind::Build { o.nq = 1 }
                            else if r.chance(30) { o.bad = bad_list(r, o.nq, c.d, 2) }
                            else if kind == OpKind::Axis && r.chance(8) { o.axis = c.d + r.below(2) }
                            if r.chance(35) { o.via = via(r, c.pools.len()) }
                            o
                        })
                        .collect()
                })
                .collect();
            cfg_mod = Box::new(|c| c.leak = 1);
        }
        // which boxes are accepted
        // the Python classes
        "C14" => {
            c.d = r.range(2, 3);
            c.f32_ = r.chance(40);
            let nt = r.pick(&[1usize, 1, 1, 2]);
            for _ in 0..nt {
                let per = r.chance(35);
                let mut t = tree(r, 160, per);
                if r.chance(35) { t.flags |= 1 }
                if r.chance(20) { t.flags |= 64 }
                match r.below(40) {
                    0 => t.flags |= 2,
                    1 => t.flags |= 4,
                    2 => t.flags |= 8,
                    3 => t.flags |= 16,
                    4 => t.flags |= 32,
                    5 => t.n = 0,
                    6 | 7 => t.bad = bad_list(r, t.n, c.d, 3),
                    8 => t.bx = r.pick(&[5u8, 6, 7, 8]),
                    _ => {}
                }
                c.trees.push(t);
            }
            // how often the next call asks for an answer of the same shape
            let same = r.pick(&[0usize, 30, 60]);
            let mut last = None;
            c.clients = vec![(0..r.range(1, 5))
                .map(|_| {
                    let ti = r.below(nt);
                    let n = c.trees[ti].n;
                    let kind = r.pick(&[OpKind::Q1, OpKind::Q1, OpKind::QK, OpKind::QK, OpKind::QK, OpKind::Axis, OpKind::Axis]);
                    let mut o = op(r, kind, ti, n, c.d);
                    if let Some((k, kk, nq, ax)) = last {
                        if r.chance(same) { o.kind = k; o.k = kk; o.nq = nq; o.axis = ax }
                    }
                    if r.chance(4) && n <= 200 { long(r, &mut o) }
                    last = Some((o.kind, o.k, o.nq, o.axis));
                    if r.chance(50) { o.flags |= 64 }
                    match r.below(5) { 0 => o.flags |= 128, 1 => o.flags |= 256, _ => {} }
                    match r.below(30) {
                        0 => o.flags |= 2,
                        1 => o.flags |= 4,
                        2 => o.flags |= 8,
                        3 => o.flags |= 32,
                        4 => o.axis += c.d,
                        5 | 6 => o.bad = bad_list(r, o.nq, c.d, 3),
                        _ => {}
                    }
                    o
                })
                .collect()];
            if r.chance(12) { fl.spawn = true }
            cfg_mod = Box::new(|g| g.leak = 1);
        }
        "C16" => {
            let mut t = tree(r, 140, false);
            if r.chance(8) { t.n = r.range(300, 5000) }
            t.bx = r.pick(&[1u8, 2, 3, 5, 5, 5, 6, 7, 8, 9, 9, 9]);
            if r.chance(70) { t.psl = Some(r.range(1, 5)) }
            let n = t.n;
            c.trees.push(t);
            c.pools = pools(r);
            let nc = r.range(1, 3);
            c.clients = (0..nc)
                .map(|i| {
                    let mut b = op(r, OpKind::Build, 0, n, c.d);
                    b.nq = 3;
                    if r.chance(40) { b.via = via(r, c.pools.len()) }
                    let mut v = vec![b];
                    if i == 0 && r.chance(50) {
                        let kind = if r.chance(50) { batch(r) } else { single(r) };
                        let mut o = op(r, kind, 0, n, c.d);
                        o.nq = o.nq.clamp(1, 8);
                        v.push(o);
                    }
                    v
                })
                .collect();
        }
        // positions, indices and distances agree (configurations that return them)
        "C15" => {
            let per = r.chance(40);
            c.trees.push(tree(r, 120, per));
            let n = c.trees[0].n;
            let nc = r.range(1, 4);
            c.clients = (0..nc)
                .map(|_| {
                    (0..r.range(1, 2))
                        .map(|_| {
                            let kind = if r.chance(25) { OpKind::Build } else { single(r) };
                            let mut o = op(r, kind, 0, n, c.d);
                            o.nq = o.nq.clamp(1, 8);
                            if r.chance(30) { o.via = Via::Nest(0, 2) }
                            o
                        })
                        .collect()
                })
                .collect();
        }
        _ => panic!("unknown property {prop}"),
    }
    let mut g = schedule(r, &fl);
    g.ncpu = c.ncpu as u32;
    if r.chance(4) && !(prop == "C12") {
        g.ncpu = 0; // the processor count cannot be read
    }
    // clamp work: huge batches add nothing
    for cl in c.clients.iter_mut() {
        let mut withs = 0;
        for o in cl.iter_mut() {
            if o.kind == OpKind::With {
                // this call allocates for every possible worker: keep it rare
                withs += 1;
                if withs > 1 { o.kind = OpKind::Par }
                else if o.k > 8 && o.grp == 0 && o.qseed % 16 != 0 { o.k = 1 + o.k % 8 }
                if let Via::Nest(p, m) = o.via { o.via = Via::Nest(p, m.min(2)) }
            }
        }
    }
    if prop != "C12" && !huge { fit(&mut c) }
    if prop != "C14" {
        for o in c.clients.iter_mut().flatten() {
            if prop != "C12" && o.qseed % 8 == 3 { o.flags |= 4 }
        }
        for t in c.trees.iter_mut() {
            // another box first, which the second replaces
            if t.bx > 0 && t.seed % 8 == 5 { t.flags |= 2 }
        }
    }
    cfg_mod(&mut g);
    (c, g)
}
/// Keep the work of one run well below its bound on steps, the same way for all members of a group.
fn fit(c: &mut Case) {
    let ops: usize = c.clients.iter().map(|cl| cl.len()).sum();
    let images = if c.trees.iter().any(|t| t.bx > 0) { 1 << c.d } else { 1 };
    let n = c.trees.iter().map(|t| t.n).max().unwrap_or(0);
    for o in c.clients.iter_mut().flatten() {
        let cost = ops * images * (o.k.min(n) + 30 + n / 8) * c.repeat.max(1);
        o.nq = o.nq.min((200_000 / cost).max(1));
    }
}
