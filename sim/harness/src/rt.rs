//! Interface to the simulation runtime (../rt/simrt.c).
#![allow(dead_code)]
use std::alloc::{GlobalAlloc, Layout};

pub const TRACE_CAP: usize = 1 << 20;
pub const RACES: usize = 32;
pub const LEAKS: usize = 512;
pub const PROBES: usize = 64;

pub const TK_NAMES: [&str; 8] = [
    "none", "preempt", "next", "wake", "spawn_refused", "spurious_wake", "clock_jump", "?",
];

pub const POL_NAMES: [&str; 4] = ["default", "random", "pct", "rr"];

#[repr(C)]
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Ent {
    pub step: u64,
    pub kind: u32,
    pub val: u32,
}

#[repr(C)]
#[derive(Clone, Copy, Debug)]
pub struct Cfg {
    pub seed: u64,
    pub policy: u32,
    pub gap_sync: u32,
    pub gap_mem: u32,
    pub pct_depth: u32,
    pub pct_len: u64,
    pub quantum: u32,
    pub stall_ppm: u32,
    pub stall_len: u32,
    pub spurious_ppm: u32,
    pub clock_ppm: u32,
    pub spawn_ppm: u32,
    pub spawn_from: u32,
    pub spawn_max: u32,
    pub poison: u32,
    pub race: u32,
    pub memcheck: u32,
    pub max_steps: u64,
    pub ncpu: u32,
    pub replay: u32,
    pub ntrace: u32,
    pub alloc_at: u64,
    pub leak: u32,
    pub reuse: u32,
    pub trace: *const Ent,
}

impl Default for Cfg {
    fn default() -> Self {
        Cfg {
            seed: 1, policy: 0, gap_sync: 0, gap_mem: 0, pct_depth: 0, pct_len: 0, quantum: 1000,
            stall_ppm: 0, stall_len: 0, spurious_ppm: 0, clock_ppm: 0, spawn_ppm: 0, spawn_from: 0,
            spawn_max: 0, poison: 0, race: 1, memcheck: 1, max_steps: 60_000_000, ncpu: 4, replay: 0,
            ntrace: 0, alloc_at: 0, leak: 0, reuse: 0, trace: std::ptr::null(),
        }
    }
}

#[repr(C)]
#[derive(Clone, Copy, Debug)]
pub struct Race {
    pub pc_a: u64,
    pub pc_b: u64,
    pub addr: u64,
    pub tid_a: u32,
    pub tid_b: u32,
    pub kind_a: u32,
    pub kind_b: u32,
    pub size: u32,
    pub pad: u32,
    pub stk: [u64; 12],
}

#[repr(C)]
#[derive(Clone, Copy, Debug)]
pub struct Leak {
    pub pc: [u64; 8],
    pub bytes: u64,
    pub count: u64,
}

#[repr(C)]
pub struct Out {
    pub done: u32,
    pub rc: u32,
    pub rc_pc: u64,
    pub rc_addr: u64,
    pub rc_stk: [u64; 24],
    pub rc_tid: u32,
    pub sig: u32,
    pub msg: [u8; 4096],
    pub steps: u64,
    pub sync_events: u64,
    pub mem_events: u64,
    pub allocs: u64,
    pub frees: u64,
    pub switches: u64,
    pub preempts: u64,
    pub threads: u64,
    pub futex_waits: u64,
    pub futex_wakes: u64,
    pub yields: u64,
    pub vtime_ns: u64,
    pub faults: [u64; 8],
    pub stalls: u64,
    pub alloc_refused: u64,
    pub nproc_refused: u64,
    pub fresh_bytes: u64,
    pub reused: u64,
    pub ev_hash: u64,
    pub sched_hash: u64,
    pub live_bytes: u64,
    pub live_blocks: u64,
    pub peak_bytes: u64,
    pub arena_used: u64,
    pub max_stack: u64,
    pub nrace: u32,
    pub max_runnable: u32,
    pub race_lost: u32,
    pub pad1: u32,
    pub races: [Race; RACES],
    pub probes: [u64; PROBES],
    pub nleak: u32,
    pub pad2: u32,
    pub leaks: [Leak; LEAKS],
    pub ntrace: u32,
    pub trace_overflow: u32,
    pub exe_base: u64,
    pub trace: [Ent; TRACE_CAP],
}

impl Out {
    pub fn message(&self) -> String {
        let n = self.msg.iter().position(|&b| b == 0).unwrap_or(self.msg.len());
        String::from_utf8_lossy(&self.msg[..n]).into_owned()
    }
}

extern "C" {
    pub fn rt_process_init();
    pub fn rt_begin(cfg: *const Cfg, out: *mut Out);
    pub fn rt_end();
    pub fn rt_quiesce();
    pub fn rt_nofault(on: u32);
    pub fn rt_probe(id: u32);
    pub fn rt_steps() -> u64;
    pub fn rt_live_bytes() -> u64;
    pub fn rt_live_blocks() -> u64;
    pub fn rt_tid() -> u64;
    pub fn rt_spawn_refused() -> u64;
    fn rt_alloc(size: usize, align: usize) -> *mut u8;
    fn rt_free(p: *mut u8, size: usize, align: usize);
    fn rt_realloc(p: *mut u8, old: usize, align: usize, size: usize) -> *mut u8;
}

pub struct SimAlloc;
unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        rt_alloc(l.size(), l.align())
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        rt_free(p, l.size(), l.align())
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        rt_realloc(p, l.size(), l.align(), n)
    }
}
#[global_allocator]
static A: SimAlloc = SimAlloc;
