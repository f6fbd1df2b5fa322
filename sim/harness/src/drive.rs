//! Runs simulations in forked children, filters and minimises what they report.
use crate::case::*;
use crate::{gen, rt, scen};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::fmt::Write as _;
use std::io::Write as _;
use std::time::{Duration, Instant};

mod sys {
    extern "C" {
        pub fn fork() -> i32;
        pub fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
        pub fn _exit(c: i32) -> !;
        pub fn mmap(a: *mut u8, n: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
        pub fn memfd_create(n: *const u8, f: u32) -> i32;
        pub fn dup2(a: i32, b: i32) -> i32;
        pub fn ftruncate(fd: i32, n: i64) -> i32;
        pub fn lseek(fd: i32, o: i64, w: i32) -> i64;
        pub fn pread(fd: i32, b: *mut u8, n: usize, o: i64) -> isize;
        pub fn setrlimit(r: i32, l: *const [u64; 2]) -> i32;
        pub fn personality(p: u64) -> i32;
        pub fn kill(p: i32, s: i32) -> i32;
        pub fn prctl(o: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
    }
}

pub struct Shared {
    out: *mut rt::Out,
    verdict: *mut [u8; 8192],
    errfd: i32,
    pub cpu_limit: u64,
}
unsafe fn shm(n: usize) -> *mut u8 {
    let p = sys::mmap(std::ptr::null_mut(), n, 3, 0x21, -1, 0);
    assert!(p as isize != -1);
    p
}
impl Shared {
    fn new() -> Self {
        unsafe {
            Shared {
                out: shm(std::mem::size_of::<rt::Out>()) as *mut rt::Out,
                verdict: shm(8192) as *mut [u8; 8192],
                errfd: sys::memfd_create(b"err\0".as_ptr(), 1),
                cpu_limit: 120,
            }
        }
    }
    fn o(&self) -> &rt::Out {
        unsafe { &*self.out }
    }
}

#[cfg(not(feature = "py"))]
fn dispatch(case: &Case, cfg: &rt::Cfg, out: *mut rt::Out) -> Option<scen::Verdict> {
    match (case.f32_, case.d) {
        (false, 1) => scen::run::<f64, 1>(case, cfg, out),
        (false, 2) => scen::run::<f64, 2>(case, cfg, out),
        (false, 3) => scen::run::<f64, 3>(case, cfg, out),
        (false, 4) => scen::run::<f64, 4>(case, cfg, out),
        (false, _) => scen::run::<f64, 6>(case, cfg, out),
        (true, 1) => scen::run::<f32, 1>(case, cfg, out),
        (true, 2) => scen::run::<f32, 2>(case, cfg, out),
        (true, _) => scen::run::<f32, 3>(case, cfg, out),
    }
}

#[cfg(feature = "py")]
fn dispatch(case: &Case, cfg: &rt::Cfg, out: *mut rt::Out) -> Option<scen::Verdict> {
    use crate::pyscen::run;
    match (case.f32_, case.d) {
        (false, 2) => run::<f64, 2>(case, cfg, out),
        (false, _) => run::<f64, 3>(case, cfg, out),
        (true, 2) => run::<f32, 2>(case, cfg, out),
        (true, _) => run::<f32, 3>(case, cfg, out),
    }
}

/// What one run came to.
#[derive(Clone, Debug, PartialEq)]
pub struct Outcome {
    pub class: String, // "ok", "harness", or the kind of violation
    pub msg: String,
}
impl Outcome {
    /// the same defect, as far as the report tells
    fn like(&self, class: &str, sig: &str) -> bool {
        self.class == class && signature(&self.class, &self.msg) == sig
    }
    fn bad(&self) -> bool {
        self.class != "ok" && self.class != "harness"
    }
}

/// what of a report has to stay the same while its case is made smaller
fn signature(class: &str, msg: &str) -> String {
    match class {
        "panic" => msg.rsplit("panicked: ").next().unwrap().chars().filter(|c| !c.is_ascii_digit()).take(60).collect(),
        _ => String::new(),
    }
}

pub struct Sym {
    exe: String,
    cache: HashMap<u64, Vec<(String, String)>>,
    tool: Option<(std::process::Child, std::process::ChildStdin, std::io::BufReader<std::process::ChildStdout>)>,
}
impl Sym {
    fn new() -> Self {
        // the extension is a shared object of another executable
        let exe = std::env::var("SIM_OBJ").unwrap_or_else(|_| std::env::current_exe().unwrap().to_string_lossy().into_owned());
        Sym { exe, cache: HashMap::new(), tool: None }
    }
    /// innermost-first (function, file:line) of an address relative to the executable
    fn frames(&mut self, off: u64) -> Vec<(String, String)> {
        if let Some(v) = self.cache.get(&off) {
            return v.clone();
        }
        let v = self.ask(off).unwrap_or_default();
        self.cache.insert(off, v.clone());
        v
    }
    /// One symbolizer stays up for the whole search; it answers with function and file lines,
    /// innermost first, and an empty line.
    fn ask(&mut self, off: u64) -> Option<Vec<(String, String)>> {
        use std::io::{BufRead, Write};
        if self.tool.is_none() {
            let mut c = std::process::Command::new("llvm-symbolizer")
                .args(["--obj", &self.exe, "--inlines", "--demangle", "--functions=linkage"])
                .stdin(std::process::Stdio::piped())
                .stdout(std::process::Stdio::piped())
                .spawn()
                .expect("llvm-symbolizer");
            let i = c.stdin.take().unwrap();
            let o = std::io::BufReader::new(c.stdout.take().unwrap());
            self.tool = Some((c, i, o));
        }
        let (_, i, o) = self.tool.as_mut().unwrap();
        writeln!(i, "0x{off:x}").ok()?;
        i.flush().ok()?;
        let mut v = vec![];
        loop {
            let (mut f, mut l) = (String::new(), String::new());
            if o.read_line(&mut f).ok()? == 0 || f.trim().is_empty() {
                break;
            }
            o.read_line(&mut l).ok()?;
            // file:line:column
            let l = l.trim();
            v.push((f.trim().to_string(), l.rsplit_once(':').map_or(l, |x| x.0).to_string()));
        }
        Some(v)
    }
    fn at(&mut self, base: u64, pc: u64) -> Vec<(String, String)> {
        if pc < base { vec![] } else { self.frames(pc - base - 1) }
    }
    fn text(&mut self, base: u64, pc: u64) -> String {
        for (f, l) in self.at(base, pc) {
            if !is_std(&l) {
                return format!("{} ({})", short(&f), shortfile(&l));
            }
        }
        self.at(base, pc).first().map(|(f, l)| format!("{} ({})", short(f), shortfile(l))).unwrap_or("?".into())
    }
}
fn is_std(file: &str) -> bool {
    file.contains("/rustlib/src/rust/") || file.contains("/library/core/") || file.contains("/library/std/") || file.contains("/library/alloc/") || file.starts_with("??")
}
fn short(f: &str) -> String {
    f.chars().take(90).collect()
}
fn shortfile(f: &str) -> String {
    let f = f.rsplit("/registry/src/").next().unwrap();
    f.chars().rev().take(70).collect::<Vec<_>>().into_iter().rev().collect()
}
fn is_runtime_lib(file: &str) -> bool {
    file.contains("/crossbeam") || file.contains("/rayon-core-")
}

pub struct Runner {
    pub sh: Shared,
    pub sym: Sym,
    pub wall: Duration,
}
impl Runner {
    pub fn new() -> Self {
        Runner { sh: Shared::new(), sym: Sym::new(), wall: Duration::from_secs(240) }
    }
    pub fn go(&mut self, case: &Case, cfg: &rt::Cfg) -> Outcome {
        unsafe {
            let o = self.sh.out;
            let head = std::mem::offset_of!(rt::Out, trace);
            std::ptr::write_bytes(o as *mut u8, 0, head);
            (*self.sh.verdict)[0] = 0;
            sys::ftruncate(self.sh.errfd, 0);
            sys::lseek(self.sh.errfd, 0, 0);
            let pid = sys::fork();
            if pid == 0 {
                sys::prctl(1, 9, 0, 0, 0); // die with the parent
                sys::dup2(self.sh.errfd, 1);
                sys::dup2(self.sh.errfd, 2);
                sys::setrlimit(0, &[self.sh.cpu_limit, self.sh.cpu_limit + 10]);
                sys::setrlimit(4, &[0, 0]);
                let v = dispatch(case, cfg, o);
                if let Some(v) = v {
                    let mut s = format!("{}\n{}", v.class, v.msg).into_bytes();
                    s.truncate(8190);
                    s.push(0);
                    let b = &mut *self.sh.verdict;
                    b[..s.len()].copy_from_slice(&s);
                }
                (*o).done = 1;
                sys::_exit(0);
            }
            if pid < 0 {
                return Outcome { class: "harness".into(), msg: "fork failed".into() };
            }
            let t0 = Instant::now();
            let mut st = 0;
            let mut spins = 0u32;
            loop {
                let r = sys::waitpid(pid, &mut st, 1);
                if r == pid {
                    break;
                }
                if t0.elapsed() > self.wall {
                    sys::kill(pid, 9);
                    sys::waitpid(pid, &mut st, 0);
                    return Outcome { class: "harness".into(), msg: "wall clock limit of one run".into() };
                }
                spins += 1;
                std::thread::sleep(Duration::from_micros(if spins < 40 { 200 } else { 2000 }));
            }
            self.classify(st)
        }
    }
    fn stderr(&self) -> String {
        let mut b = vec![0u8; 1 << 16];
        let n = unsafe { sys::pread(self.sh.errfd, b.as_mut_ptr(), b.len(), 0) }.max(0) as usize;
        let s = String::from_utf8_lossy(&b[..n]).into_owned();
        s.lines().filter(|l| !l.trim().is_empty() && !l.starts_with("note:")).take(6).collect::<Vec<_>>().join(" | ")
    }
    fn stack(&mut self) -> String {
        let base = self.sh.o().exe_base;
        let pcs: Vec<u64> = self.sh.o().rc_stk.iter().copied().filter(|p| *p != 0).collect();
        let mut s = String::new();
        let mut n = 0;
        for pc in pcs {
            for (f, l) in self.sym.at(base, pc) {
                if is_std(&l) || f.is_empty() { continue }
                let _ = write!(s, "{}{} ({})", if n > 0 { " < " } else { " in " }, short(&f), shortfile(&l));
                n += 1;
                if n >= 5 { return s }
            }
        }
        s
    }
    fn classify(&mut self, st: i32) -> Outcome {
        let (rc, sig, nrace, nleak, done, base) = { let o = self.sh.o(); (o.rc, o.sig, o.nrace, o.nleak, o.done, o.exe_base) };
        let mk = |c: &str, m: String| Outcome { class: c.into(), msg: m };
        if rc != 0 {
            let m = self.sh.o().message();
            if rc == 7 && sig == 24 {
                return mk("noprogress", format!("the run used up its CPU limit without finishing{}", self.stack()));
            }
            let class = match rc {
                1 => "deadlock", 2 => "noprogress", 3 | 4 => "memory", 5 => "harness", 7 => "crash", 8 => "stack", _ => "user",
            };
            let extra = if rc == 7 { let e = self.stderr(); if e.is_empty() { e } else { format!(": {e}") } } else { String::new() };
            return mk(class, format!("{m}{extra}{}", self.stack()));
        }
        if done == 0 {
            let e = self.stderr();
            return mk("crash", format!("the process ended early (status {st:#x}): {e}"));
        }
        let v = unsafe { &*self.sh.verdict };
        if v[0] != 0 {
            let n = v.iter().position(|b| *b == 0).unwrap();
            let s = String::from_utf8_lossy(&v[..n]).into_owned();
            let (c, m) = s.split_once('\n').unwrap();
            return mk(c, m.into());
        }
        for i in 0..nrace as usize {
            let r = self.sh.o().races[i];
            let fa = self.sym.at(base, r.pc_a);
            let fb = self.sym.at(base, r.pc_b);
            let lib = |f: &Vec<(String, String)>| f.iter().find(|x| !is_std(&x.1)).map(|x| is_runtime_lib(&x.1)).unwrap_or(false);
            if lib(&fa) || lib(&fb) {
                continue;
            }
            let kind = |k: u32| format!("{}{}", if k & 2 != 0 { "atomic " } else { "" }, if k & 1 != 0 { "write" } else { "read" });
            let (ta, tb) = (self.sym.text(base, r.pc_a), self.sym.text(base, r.pc_b));
            return mk("race", format!("data race: {} by t{} in {} and {} by t{} in {}", kind(r.kind_a), r.tid_a, ta, kind(r.kind_b), r.tid_b, tb));
        }
        for i in 0..nleak as usize {
            let l = self.sh.o().leaks[i];
            // the first frame that is neither std nor the allocator decides who owns the block
            'f: for pc in l.pc {
                if pc == 0 { break }
                for (f, file) in self.sym.at(base, pc) {
                    if is_std(&file) || file.contains("/rt.rs") { continue }
                    if file.contains("/repo/src/") || file.contains("/repo/pyfnntw/src/") {
                        return mk("leak", format!("{} block(s), {} bytes, never freed, allocated in {} ({})", l.count, l.bytes, short(&f), shortfile(&file)));
                    }
                    break 'f;
                }
            }
        }
        mk("ok", String::new())
    }
    fn trace(&self) -> Vec<rt::Ent> {
        let o = self.sh.o();
        o.trace[..(o.ntrace as usize).min(rt::TRACE_CAP)].to_vec()
    }
}

// ------------------------------------------------------------------ replay files
fn enc_cfg(c: &rt::Cfg) -> String {
    format!(
        "cfg seed={} policy={} gap_sync={} gap_mem={} pct_depth={} pct_len={} quantum={} stall_ppm={} stall_len={} spurious_ppm={} clock_ppm={} spawn_ppm={} spawn_from={} spawn_max={} poison={} race={} memcheck={} max_steps={} ncpu={} alloc_at={} leak={} reuse={} replay={}\n",
        c.seed, c.policy, c.gap_sync, c.gap_mem, c.pct_depth, c.pct_len, c.quantum, c.stall_ppm, c.stall_len, c.spurious_ppm,
        c.clock_ppm, c.spawn_ppm, c.spawn_from, c.spawn_max, c.poison, c.race, c.memcheck, c.max_steps, c.ncpu, c.alloc_at, c.leak, c.reuse, c.replay
    )
}
fn parse_cfg(l: &str) -> rt::Cfg {
    let mut c = rt::Cfg::default();
    for t in l.split_whitespace().skip(1) {
        let Some((k, v)) = t.split_once('=') else { continue };
        let v: u64 = v.parse().unwrap_or(0);
        match k {
            "seed" => c.seed = v,
            "policy" => c.policy = v as u32,
            "gap_sync" => c.gap_sync = v as u32,
            "gap_mem" => c.gap_mem = v as u32,
            "pct_depth" => c.pct_depth = v as u32,
            "pct_len" => c.pct_len = v,
            "quantum" => c.quantum = v as u32,
            "stall_ppm" => c.stall_ppm = v as u32,
            "stall_len" => c.stall_len = v as u32,
            "spurious_ppm" => c.spurious_ppm = v as u32,
            "clock_ppm" => c.clock_ppm = v as u32,
            "spawn_ppm" => c.spawn_ppm = v as u32,
            "spawn_from" => c.spawn_from = v as u32,
            "spawn_max" => c.spawn_max = v as u32,
            "poison" => c.poison = v as u32,
            "race" => c.race = v as u32,
            "memcheck" => c.memcheck = v as u32,
            "max_steps" => c.max_steps = v,
            "ncpu" => c.ncpu = v as u32,
            "alloc_at" => c.alloc_at = v,
            "leak" => c.leak = v as u32,
            "reuse" => c.reuse = v as u32,
            "replay" => c.replay = v as u32,
            _ => {}
        }
    }
    c
}
pub struct Replay {
    pub case: Case,
    pub cfg: rt::Cfg,
    pub trace: Vec<rt::Ent>,
    pub class: String,
    pub msg: String,
    pub orig_seed: u64,
}
impl Replay {
    fn encode(&self, prop: &str) -> String {
        let mut s = String::new();
        let _ = writeln!(s, "# replay of a violation of {prop}: /verif/bin/check {prop} --replay <this file>");
        let _ = writeln!(s, "build {}", scen::CFG);
        let _ = writeln!(s, "violation {}", self.class);
        let _ = writeln!(s, "message {}", self.msg.replace('\n', " "));
        let _ = writeln!(s, "found_with_seed {}", self.orig_seed);
        s.push_str(&self.case.encode());
        s.push_str(&enc_cfg(&self.cfg));
        for e in &self.trace {
            let _ = writeln!(s, "at {} {} {}", e.step, rt::TK_NAMES[e.kind as usize & 7], e.val);
        }
        s
    }
    fn parse(t: &str) -> Option<Replay> {
        let case = Case::parse(t)?;
        let mut r = Replay { case, cfg: rt::Cfg::default(), trace: vec![], class: String::new(), msg: String::new(), orig_seed: 0 };
        for l in t.lines() {
            if l.starts_with("cfg ") {
                r.cfg = parse_cfg(l);
            } else if let Some(x) = l.strip_prefix("violation ") {
                r.class = x.into();
            } else if let Some(x) = l.strip_prefix("message ") {
                r.msg = x.into();
            } else if let Some(x) = l.strip_prefix("found_with_seed ") {
                r.orig_seed = x.parse().unwrap_or(0);
            } else if let Some(x) = l.strip_prefix("at ") {
                let v: Vec<&str> = x.split_whitespace().collect();
                r.trace.push(rt::Ent {
                    step: v[0].parse().ok()?,
                    kind: rt::TK_NAMES.iter().position(|n| *n == v[1])? as u32,
                    val: v[2].parse().ok()?,
                });
            }
        }
        Some(r)
    }
    fn cfg(&self) -> rt::Cfg {
        let mut c = self.cfg;
        c.trace = self.trace.as_ptr();
        c.ntrace = self.trace.len() as u32;
        c
    }
}

// ------------------------------------------------------------------ minimisation
fn smaller(c: &Case) -> Vec<Case> {
    let mut v = vec![];
    let mut add = |f: &dyn Fn(&mut Case)| {
        let mut x = c.clone();
        f(&mut x);
        if x != *c {
            v.push(x);
        }
    };
    if c.repeat > 1 {
        add(&|x| x.repeat = 1);
        add(&|x| x.repeat -= 1);
    }
    for i in 0..c.clients.len() {
        if c.clients.len() > 1 {
            add(&|x| {
                x.clients.remove(i);
            });
        }
        for j in 0..c.clients[i].len() {
            if c.clients[i].len() > 1 {
                add(&|x| {
                    x.clients[i].remove(j);
                });
            }
        }
    }
    for i in 0..c.trees.len() {
        let t = &c.trees[i];
        if c.trees.len() > 1 && i == c.trees.len() - 1 && !c.clients.iter().flatten().any(|o| o.tree == i) {
            add(&|x| {
                x.trees.pop();
            });
        }
        for n in [1, t.n / 4, t.n / 2, t.n * 3 / 4, t.n.saturating_sub(1)] {
            if n < t.n && n > 0 {
                add(&|x| x.trees[i].n = n);
            }
        }
        if t.bad.len() > 1 {
            for b in 0..t.bad.len() {
                add(&|x| {
                    x.trees[i].bad.remove(b);
                });
            }
        }
        add(&|x| x.trees[i].psl = None);
        if t.psl.map_or(false, |p| p > 1) {
            add(&|x| x.trees[i].psl = Some(1));
        }
        add(&|x| x.trees[i].kind = 0);
        add(&|x| x.trees[i].scale = 1.0);
        add(&|x| x.trees[i].bx = 0);
    }
    for i in 0..c.clients.len() {
        for j in 0..c.clients[i].len() {
            let o = &c.clients[i][j];
            add(&|x| x.clients[i][j].via = Via::Direct);
            if let Via::Nest(p, m) = o.via {
                if m > 2 {
                    add(&|x| x.clients[i][j].via = Via::Nest(p, 2));
                }
            }
            for q in [1, o.nq / 2, o.nq.saturating_sub(1)] {
                if q < o.nq && q > 0 {
                    add(&|x| x.clients[i][j].nq = q);
                }
            }
            for k in [1, o.k / 2, o.k.saturating_sub(1)] {
                if k < o.k {
                    add(&|x| x.clients[i][j].k = k);
                }
            }
            if o.bad.len() > 1 {
                for b in 0..o.bad.len() {
                    add(&|x| {
                        x.clients[i][j].bad.remove(b);
                    });
                }
            }
            if o.grp != 0 {
                add(&|x| x.clients[i][j].grp = 0);
            }
        }
    }
    if !c.pools.is_empty() && !c.clients.iter().flatten().any(|o| matches!(o.via, Via::Install(p) | Via::Nest(p, _) | Via::Join(p) if p > 0)) {
        add(&|x| x.pools.clear());
    }
    for i in 0..c.pools.len() {
        if c.pools[i] > 1 {
            add(&|x| x.pools[i] = 1);
        }
    }
    if c.ncpu > 1 {
        add(&|x| x.ncpu = 1);
        add(&|x| x.ncpu -= 1);
    }
    v
}

fn minimise(r: &mut Runner, case: &Case, cfg: &rt::Cfg, first: &Outcome, budget: Duration, seed: u64) -> Option<Replay> {
    let t0 = Instant::now();
    let class = first.class.clone();
    let sig = signature(&class, &first.msg);
    let again = r.go(case, cfg);
    let slow = t0.elapsed() > Duration::from_secs(12);
    let mut best = Replay { case: case.clone(), cfg: *cfg, trace: vec![], class: class.clone(), msg: first.msg.clone(), orig_seed: seed };
    if !again.like(&class, &sig) {
        return None; // not a repeatable execution: nothing to report
    }
    if slow {
        return Some(best);
    }
    // as a trace
    let as_trace = |r: &mut Runner, best: &mut Replay| {
        if r.sh.o().trace_overflow != 0 { return false }
        let tr = r.trace();
        let mut x = Replay { case: best.case.clone(), cfg: best.cfg, trace: tr, class: class.clone(), msg: best.msg.clone(), orig_seed: seed };
        x.cfg.replay = 1;
        let c = x.cfg();
        let o = r.go(&x.case, &c);
        if o.like(&class, &sig) {
            x.msg = o.msg;
            *best = x;
            true
        } else {
            false
        }
    };
    as_trace(r, &mut best);
    // a smaller case
    let mut progress = true;
    while progress && t0.elapsed() < budget {
        progress = false;
        for cand in smaller(&best.case) {
            if t0.elapsed() > budget { break }
            let mut hit = false;
            for attempt in 0..6u64 {
                let mut c2 = *cfg;
                c2.ncpu = if cfg.ncpu == 0 { 0 } else { cand.ncpu as u32 };
                let tr;
                match attempt {
                    0 => { c2.replay = 1; c2.ntrace = 0; }
                    1 => { if best.cfg.replay == 0 { continue } tr = best.trace.clone(); c2 = Replay { case: cand.clone(), cfg: Replay { case: cand.clone(), cfg: c2, trace: vec![], class: String::new(), msg: String::new(), orig_seed: 0 }.cfg, trace: vec![], class: String::new(), msg: String::new(), orig_seed: 0 }.cfg; c2.replay = 1; c2.trace = tr.as_ptr(); c2.ntrace = tr.len() as u32; }
                    a => { c2.seed = mix(cfg.seed ^ a * 0x1337); }
                }
                let o = r.go(&cand, &c2);
                if o.like(&class, &sig) {
                    c2.trace = std::ptr::null();
                    c2.ntrace = 0;
                    let tr = r.trace();
                    let overflow = r.sh.o().trace_overflow != 0;
                    let mut x = Replay { case: cand.clone(), cfg: c2, trace: vec![], class: class.clone(), msg: o.msg.clone(), orig_seed: seed };
                    if !overflow {
                        x.trace = tr;
                        x.cfg.replay = 1;
                        let c = x.cfg();
                        let o2 = r.go(&x.case, &c);
                        if !o2.like(&class, &sig) { continue }
                        x.msg = o2.msg;
                    }
                    best = x;
                    hit = true;
                    break;
                }
            }
            if hit { progress = true; break }
        }
    }
    // fewer deviations from the default schedule
    if best.cfg.replay == 1 {
        let mut n = 2usize;
        while best.trace.len() > 0 && t0.elapsed() < budget * 2 {
            let len = best.trace.len();
            let chunk = (len + n - 1) / n;
            let mut hit = false;
            let mut i = 0;
            while i < len && t0.elapsed() < budget * 2 {
                let mut tr = best.trace.clone();
                tr.drain(i..(i + chunk).min(len));
                let x = Replay { case: best.case.clone(), cfg: best.cfg, trace: tr, class: class.clone(), msg: String::new(), orig_seed: seed };
                let c = x.cfg();
                let o = r.go(&x.case, &c);
                if o.like(&class, &sig) {
                    best = x;
                    best.msg = o.msg;
                    n = n.saturating_sub(1).max(2);
                    hit = true;
                    break;
                }
                i += chunk;
            }
            if !hit {
                if chunk == 1 { break }
                n = (n * 2).min(len);
            }
        }
    }
    Some(best)
}

// ------------------------------------------------------------------ statistics
#[derive(Default)]
struct Stats {
    runs: u64,
    harness: BTreeMap<String, u64>,
    sums: BTreeMap<&'static str, u64>,
    maxs: BTreeMap<&'static str, u64>,
    schedules: HashSet<u64>,
    cases: HashSet<u64>,
    nontrivial: HashSet<u64>,
    policies: BTreeMap<&'static str, u64>,
    ops: BTreeMap<&'static str, u64>,
    det_checked: u64,
    det_failed: u64,
    racy_runs: u64,
    unrepeatable: u64,
}
fn h64(s: &str) -> u64 {
    s.bytes().fold(0xcbf29ce484222325, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3))
}
impl Stats {
    fn add(&mut self, case: &Case, cfg: &rt::Cfg, o: &rt::Out, out: &Outcome) {
        self.runs += 1;
        if out.class == "harness" {
            *self.harness.entry(out.msg.chars().take(60).collect()).or_default() += 1;
        }
        for (k, v) in [
            ("steps", o.steps), ("sync_events", o.sync_events), ("memory_events", o.mem_events), ("context_switches", o.switches),
            ("preemptions", o.preempts), ("threads", o.threads), ("futex_waits", o.futex_waits), ("futex_wakes", o.futex_wakes),
            ("yields", o.yields), ("simulated_ns", o.vtime_ns.saturating_sub(1_000_000_000_000)), ("allocations", o.allocs), ("frees", o.frees),
            ("fault_thread_creation_refused", o.faults[4]), ("fault_spurious_wakeup", o.faults[5]), ("fault_clock_jump", o.faults[6]),
            ("fault_thread_stalled", o.stalls), ("fault_cpu_count_unreadable", o.nproc_refused), ("fault_wake_reordered", o.faults[3]),
            ("fault_stale_memory_bytes", o.fresh_bytes), ("fault_memory_reused_at_once", o.reused),
        ] {
            *self.sums.entry(k).or_default() += v;
        }
        for (k, v) in [("threads_runnable_at_once", o.max_runnable as u64), ("steps_in_one_run", o.steps), ("stack_bytes_of_one_thread", o.max_stack), ("heap_bytes", o.peak_bytes), ("threads_in_one_run", o.threads)] {
            let e = self.maxs.entry(k).or_default();
            *e = (*e).max(v);
        }
        let ch = h64(&case.encode());
        self.schedules.insert(o.sched_hash);
        self.cases.insert(ch);
        if o.switches > 0 && o.threads > 1 {
            self.nontrivial.insert(ch ^ o.sched_hash.rotate_left(17));
        }
        *self.policies.entry(rt::POL_NAMES[cfg.policy as usize & 3]).or_default() += 1;
        for c in case.clients.iter().flatten() {
            *self.ops.entry(c.kind.name()).or_default() += 1;
        }
        if o.nrace > 0 {
            self.racy_runs += 1;
        }
    }
    fn json(&self, secs: f64, samples: &[String]) -> String {
        let q = |s: &str| format!("\"{}\"", s.replace('\\', "\\\\").replace('"', "\\\"").replace('\n', "\\n"));
        let mut s = String::from("{");
        let _ = write!(s, "\"build\":{},\"runs\":{},\"seconds\":{:.3},\"distinct_schedules\":{},\"distinct_cases\":{},\"nontrivial\":{},\"determinism_checked\":{},\"determinism_failed\":{},\"library_races_ignored_runs\":{},\"unrepeatable\":{}",
            q(scen::CFG), self.runs, secs, self.schedules.len(), self.cases.len(), self.nontrivial.len(), self.det_checked, self.det_failed, self.racy_runs, self.unrepeatable);
        let map = |name: &str, it: Vec<(String, u64)>| {
            format!(",\"{name}\":{{{}}}", it.iter().map(|(k, v)| format!("{}:{v}", q(k))).collect::<Vec<_>>().join(","))
        };
        s += &map("sums", self.sums.iter().map(|(k, v)| (k.to_string(), *v)).collect());
        s += &map("maxs", self.maxs.iter().map(|(k, v)| (k.to_string(), *v)).collect());
        s += &map("policies", self.policies.iter().map(|(k, v)| (k.to_string(), *v)).collect());
        s += &map("operations", self.ops.iter().map(|(k, v)| (k.to_string(), *v)).collect());
        s += &map("inconclusive", self.harness.iter().map(|(k, v)| (k.to_string(), *v)).collect());
        let _ = write!(s, ",\"samples\":[{}]", samples.iter().map(|x| q(x)).collect::<Vec<_>>().join(","));
        s.push('}');
        s
    }
}

/// the arguments of the simulator; an interpreter has two of its own before them
fn args() -> Vec<String> {
    std::env::args().skip(if cfg!(feature = "py") { 3 } else { 1 }).collect()
}
fn arg(name: &str) -> Option<String> {
    let a = args();
    a.iter().position(|x| x == name).and_then(|i| a.get(i + 1).cloned())
}
fn num(name: &str, d: u64) -> u64 {
    arg(name).and_then(|x| x.parse().ok()).unwrap_or(d)
}

pub fn main() -> i32 {
    std::env::set_var("RUST_BACKTRACE", "0");
    // same addresses every time, where the machine allows it
    unsafe {
        let cur = sys::personality(0xffffffff);
        if cur >= 0 && cur & 0x40000 == 0 && std::env::var_os("SIM_NOASLR").is_none() {
            if sys::personality(cur as u64 | 0x40000) >= 0 {
                use std::os::unix::process::CommandExt;
                let e = std::process::Command::new(std::env::current_exe().unwrap()).args(std::env::args_os().skip(1)).env("SIM_NOASLR", "1").exec();
                eprintln!("re-exec: {e}");
            }
        }
    }
    // the buffer of the standard output is made once per process: not inside a run
    drop(std::io::stdout().lock());
    drop(std::io::stderr().lock());
    let cmd = args().into_iter().next().unwrap_or_default();
    match cmd.as_str() {
        "search" => search(),
        "replay" => replay(),
        "one" => one(),
        _ => {
            eprintln!("usage: simharness search|replay|one");
            2
        }
    }
}

fn one() -> i32 {
    let prop = arg("--prop").unwrap();
    let seed = num("--seed", 1);
    let (case, mut cfg) = gen::generate(&prop, seed);
    if arg("--default").is_some() { cfg.replay = 1 }
    print!("{}{}", case.encode(), enc_cfg(&cfg));
    let mut r = Runner::new();
    let t = Instant::now();
    let o = r.go(&case, &cfg);
    let x = r.sh.o();
    println!("{o:?} steps={} sync={} mem={} switches={} threads={} vt={} ev={:x} sched={:x} nrace={} arena={} ms={}", x.steps, x.sync_events, x.mem_events, x.switches, x.threads, x.vtime_ns, x.ev_hash, x.sched_hash, x.nrace, x.arena_used, t.elapsed().as_millis());
    for i in 0..x.nrace as usize {
        let rc = r.sh.o().races[i];
        let base = r.sh.o().exe_base;
        println!("  race {} / {}", r.sym.text(base, rc.pc_a), r.sym.text(base, rc.pc_b));
    }
    for i in 0..x.nleak as usize {
        let l = r.sh.o().leaks[i];
        let base = r.sh.o().exe_base;
        let t: Vec<String> = l.pc.iter().take_while(|p| **p != 0).map(|p| r.sym.text(base, *p)).collect();
        println!("  leak {} block(s) {} bytes: {}", l.count, l.bytes, t.join(" < "));
    }
    println!("stderr: {}", r.stderr());
    o.bad() as i32
}

fn search() -> i32 {
    let prop = arg("--prop").unwrap();
    let seed = num("--seed", 1);
    let stream = num("--stream", 0);
    let secs = num("--secs", 10);
    let max_runs = num("--runs", u64::MAX);
    let known: Vec<(String, String)> = arg("--known")
        .and_then(|f| std::fs::read_to_string(f).ok())
        .map(|s| s.lines().filter_map(|l| l.split_once('\t').map(|(a, b)| (a.to_string(), b.to_string()))).collect())
        .unwrap_or_default();
    let mut r = Runner::new();
    r.sh.cpu_limit = num("--cpu", 120);
    let mut st = Stats::default();
    let mut samples = vec![];
    let t0 = Instant::now();
    let mut j = 0u64;
    let mut code = 0;
    let mut known_hits: BTreeMap<String, u64> = BTreeMap::new();
    while t0.elapsed().as_secs() < secs && j < max_runs {
        let s = mix(mix(seed.wrapping_mul(0x9e3779b97f4a7c15) ^ stream << 40) ^ j);
        let (case, cfg) = gen::generate(&prop, s);
        let o = r.go(&case, &cfg);
        st.add(&case, &cfg, r.sh.o(), &o);
        if samples.len() < 2 {
            samples.push(format!("{}{}# {} steps, {} threads, {} switches, outcome {}", case.encode(), enc_cfg(&cfg), r.sh.o().steps, r.sh.o().threads, r.sh.o().switches, o.class));
        }
        if o.bad() {
            if let Some(k) = known.iter().find(|k| o.class == k.0 && o.msg.contains(&k.1)) {
                *known_hits.entry(format!("{}\t{}", k.0, k.1)).or_default() += 1;
                j += 1;
                continue;
            }
            println!("FOUND {} seed {s}: {}", o.class, o.msg);
            let _ = std::io::stdout().flush();
            let Some(rp) = minimise(&mut r, &case, &cfg, &o, Duration::from_secs(num("--min-secs", 25)), s) else {
                println!("UNREPEATABLE seed {s}");
                st.unrepeatable += 1;
                j += 1;
                continue;
            };
            if let Some(f) = arg("--replay-out") {
                if let Some(d) = std::path::Path::new(&f).parent() {
                    let _ = std::fs::create_dir_all(d);
                }
                let _ = std::fs::write(&f, rp.encode(&prop));
                println!("REPLAY {f}");
            }
            println!("MESSAGE {} {}", rp.class, rp.msg);
            code = 1;
            break;
        }
        if j % 40 == 7 && o.class == "ok" && r.sh.o().steps < 3_000_000 {
            let (a, b, c) = (r.sh.o().ev_hash, r.sh.o().steps, r.sh.o().sched_hash);
            let o2 = r.go(&case, &cfg);
            st.det_checked += 1;
            if o2.class != o.class || (a, b, c) != (r.sh.o().ev_hash, r.sh.o().steps, r.sh.o().sched_hash) {
                st.det_failed += 1;
                println!("NONDETERMINISTIC seed {s}");
            }
        }
        j += 1;
    }
    for (k, n) in &known_hits {
        println!("KNOWN {n}\t{k}");
    }
    if let Some(f) = arg("--hashes") {
        let b: Vec<u8> = st.nontrivial.iter().flat_map(|h| h.to_le_bytes()).collect();
        let _ = std::fs::write(f, b);
    }
    if let Some(f) = arg("--stats") {
        let _ = std::fs::write(f, st.json(t0.elapsed().as_secs_f64(), &samples));
    }
    code
}

fn replay() -> i32 {
    let f = args().into_iter().nth(1).unwrap();
    let t = std::fs::read_to_string(&f).unwrap_or_default();
    let Some(rp) = Replay::parse(&t) else {
        eprintln!("{f} is not a replay file");
        return 2;
    };
    let mut r = Runner::new();
    let cfg = rp.cfg();
    let o = r.go(&rp.case, &cfg);
    let x = r.sh.o();
    println!("{} {}", o.class, o.msg);
    println!("steps={} switches={} threads={} event_hash={:016x} schedule_hash={:016x}", x.steps, x.switches, x.threads, x.ev_hash, x.sched_hash);
    if o.bad() { 1 } else { 0 }
}
