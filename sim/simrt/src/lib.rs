//! Runtime of the deterministic simulator.
//!
//! * Tasks are real OS threads (so that thread-local state is real), but only the holder of the baton runs; every
//!   hand-over is decided here, from the plan or from the seeded generator.
//! * Instrumented code (weedle, nom, the call sites) calls back at every basic block, load and store: each call is a
//!   step of simulated time and a possible preemption, stall or abort point.
//! * The global allocator, futexes, clocks, randomness, environment variables and stream I/O used by the code under
//!   test are served by the simulator (interposed libc symbols), and are the places where faults are injected.
//!
//! The code under test runs only inside `sut(..)`; everything else is harness and is never preempted.
#![feature(alloc_error_hook, thread_local)]
#![allow(static_mut_refs, non_upper_case_globals)]

use std::alloc::{GlobalAlloc, Layout};
use std::arch::asm;
use std::cell::UnsafeCell;
use std::sync::atomic::{AtomicBool, AtomicU32, Ordering};

pub const MAXT: usize = 72;
pub const NONE: usize = usize::MAX;
pub const MAX_SITES: usize = 1 << 16;
pub const MAX_TRACE: usize = 1 << 15;
pub const MAX_SWITCHES: u64 = 3000; // random preemptions stop after this many switches of a run

// ---------------------------------------------------------------------------------------------------------------
// raw system calls (the libc wrappers are interposed below)

pub mod sys {
    use super::*;
    #[inline]
    pub unsafe fn raw(n: usize, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
        let r: isize;
        asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d,
             in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
        r
    }
    pub const READ: usize = 0;
    pub const WRITE: usize = 1;
    pub const OPEN: usize = 2;
    pub const MMAP: usize = 9;
    pub const SCHED_YIELD: usize = 24;
    pub const NANOSLEEP: usize = 35;
    pub const GETPID: usize = 39;
    pub const FORK: usize = 57;
    pub const WAIT4: usize = 61;
    pub const KILL: usize = 62;
    pub const WRITEV: usize = 20;
    pub const FUTEX: usize = 202;
    pub const SCHED_SETAFFINITY: usize = 203;
    pub const CLOCK_GETTIME: usize = 228;
    pub const CLOCK_NANOSLEEP: usize = 230;
    pub const EXIT_GROUP: usize = 231;
    pub const GETRANDOM: usize = 318;

    pub unsafe fn exit_now(code: i32) -> ! {
        loop {
            raw(EXIT_GROUP, code as usize, 0, 0, 0, 0, 0);
        }
    }
    /// Shared anonymous mapping, visible to forked children.
    pub unsafe fn map_shared(len: usize) -> *mut u8 {
        let p = raw(MMAP, 0, len, 3, 0x21 | 0x4000, usize::MAX, 0);
        assert!(p > 0, "mmap failed");
        p as *mut u8
    }
    pub unsafe fn map_fixed(addr: usize, len: usize) -> bool {
        // MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE
        raw(MMAP, addr, len, 3, 0x2 | 0x20 | 0x4000 | 0x100000, usize::MAX, 0) == addr as isize
    }
    pub unsafe fn futex_wait(a: &AtomicU32, v: u32) {
        raw(FUTEX, a as *const _ as usize, 128, v as usize, 0, 0, 0);
    }
    pub unsafe fn futex_wake(a: &AtomicU32) {
        raw(FUTEX, a as *const _ as usize, 129, 1, 0, 0, 0);
    }
    pub fn now_ns() -> u64 {
        let mut ts = [0u64; 2];
        unsafe { raw(CLOCK_GETTIME, 1, ts.as_mut_ptr() as usize, 0, 0, 0, 0) };
        ts[0] * 1_000_000_000 + ts[1]
    }
}

extern "C" {
    fn pthread_create(t: *mut usize, attr: *const u8, f: extern "C" fn(*mut u8) -> *mut u8, arg: *mut u8) -> i32;
    fn pthread_join(t: usize, ret: *mut *mut u8) -> i32;
    fn pthread_self() -> usize;
    fn pthread_attr_init(a: *mut u8) -> i32;
    fn pthread_attr_destroy(a: *mut u8) -> i32;
    fn pthread_attr_setstack(a: *mut u8, base: *mut u8, len: usize) -> i32;
    fn __errno_location() -> *mut i32;
    static mut environ: *const *const u8;
}

pub unsafe fn fork() -> isize {
    // glibc's fork (keeps its thread bookkeeping right); the process is single-threaded when this is called
    extern "C" {
        #[link_name = "fork"]
        fn libc_fork() -> i32;
    }
    libc_fork() as isize
}

// ---------------------------------------------------------------------------------------------------------------
// PRNG

#[derive(Clone, Copy)]
pub struct Rng(pub u64);
impl Rng {
    pub const fn new(s: u64) -> Rng {
        Rng(s)
    }
    #[inline]
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    #[inline]
    pub fn below(&mut self, n: u64) -> u64 {
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
    /// Geometric-like gap with the given mean.
    pub fn gap(&mut self, mean: u64) -> u64 {
        let u = ((self.next() >> 11) as f64 + 1.0) / (1u64 << 53) as f64;
        1 + (-(u.ln()) * mean as f64) as u64
    }
}

#[inline]
pub fn mix(h: u64, v: u64) -> u64 {
    let mut z = (h ^ v).wrapping_mul(0x9E3779B97F4A7C15);
    z ^= z >> 29;
    z = z.wrapping_mul(0xBF58476D1CE4E5B9);
    z ^ (z >> 32)
}

// ---------------------------------------------------------------------------------------------------------------
// what a run leaves behind, in memory shared with the parent process

#[derive(Clone, Copy)]
#[repr(C)]
pub struct TraceEnt {
    pub uid: u32,
    pub step: u64,
    pub to: u8,
    pub kind: u8, // point kind, see K_*
    pub site: u32,
}

pub const K_BLOCK: u8 = 0;
pub const K_MEM: u8 = 1;
pub const K_ALLOC: u8 = 2;
pub const K_SYNC: u8 = 3;
pub const K_OP: u8 = 4; // operation boundary
pub const K_COMP: u8 = 5; // inside a component
pub const K_FORCED: u8 = 6; // the running task blocked, stalled or finished
pub const K_START: u8 = 7;
pub const K_STALL: u8 = 8;

pub const F_PREEMPT: usize = 0;
pub const F_PREEMPT_HOT: usize = 1;
pub const F_STALL_FOREVER: usize = 2;
pub const F_STALL_LONG: usize = 3;
pub const F_ALLOC_FAIL: usize = 4;
pub const F_RAND: usize = 5;
pub const F_CLOCK: usize = 6;
pub const F_ENV: usize = 7;
pub const F_IO: usize = 8;
pub const F_FUTEX_BLOCK: usize = 9;
pub const F_RESPAWN: usize = 10;
pub const F_ALLOC_REUSE: usize = 11;
pub const F_COMP_ERROR: usize = 12;
pub const F_COMP_FAILURE: usize = 13;
pub const F_COMP_INCOMPLETE: usize = 14;
pub const F_COMP_PANIC: usize = 15;
pub const F_COMP_EMPTY: usize = 16;
pub const F_SUT_PANIC: usize = 17;
pub const F_TEXT_REUSE: usize = 18;
pub const F_HOT_ACCESS: usize = 19;
pub const F_COMP_YIELD: usize = 20;
pub const F_SLEEP: usize = 21;
pub const F_CLOCK_JUMP: usize = 22;
pub const F_COMP_REENTER: usize = 23;
pub const F_UNWINDING: usize = 24;
pub const F_AT_END: usize = 25;
pub const F_STD_THREAD: usize = 26;
pub const F_COMP_DROP_PANIC: usize = 27;
pub const NF: usize = 28;
pub const F_NAMES: [&str; NF] = [
    "preemption", "preemption_at_static_access", "stall_forever", "stall_until_others_done", "allocation_failure",
    "random_read", "clock_read", "env_read", "stream_or_file_call", "lock_wait", "thread_death_and_restart",
    "heap_block_reuse", "component_recoverable_error", "component_fatal_failure", "component_incomplete",
    "component_panic", "component_zero_length_success", "parse_panic", "text_buffer_overwritten_and_reused",
    "static_data_access", "component_yield", "sleep", "clock_jump", "component_reenters_library",
    "call_while_unwinding", "call_while_the_thread_ends", "named_or_numbered_thread", "component_destructor_panic",
];

#[repr(C)]
pub struct Shared {
    pub state: u32, // 0 = did not report, 1 = ok, 2 = violation, 3 = inconclusive
    pub msg_len: u32,
    pub msg: [u8; 4096],
    pub phase: u32,
    pub cur_uid: u32,
    pub steps: u64,
    pub switches: u64,
    pub event_hash: u64,
    pub inter_hash: u64,
    pub faults: [u64; NF],
    pub fault_in_cur_op: u32,
    pub corrupt: u32,
    pub io_len: u32,
    pub io_msg: [u8; 256],
    pub ntrace: u32,
    pub trace_overflow: u32,
    pub trace: [TraceEnt; MAX_TRACE],
    pub sites: [u8; MAX_SITES],
    pub ops: u64,
    pub aux: [u64; 16],
}

pub static mut SH: *mut Shared = std::ptr::null_mut();
pub fn sh() -> &'static mut Shared {
    unsafe { &mut *SH }
}
#[inline]
pub fn count(f: usize) {
    unsafe {
        if !SH.is_null() {
            (*SH).faults[f] += 1;
        }
    }
}

// ---------------------------------------------------------------------------------------------------------------
// configuration of a run

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum PlanKind {
    Switch,       // preempt: hand over to `to` (255: any)
    Forced,       // the choice made when the task could not go on
    StallForever, // the task never runs again
    StallLong,    // the task runs again only when nothing else can
}
#[derive(Clone, Copy, Debug)]
pub struct Planned {
    pub uid: u32,
    pub step: u64,
    pub kind: PlanKind,
    pub to: u8,
}

#[derive(Clone, Copy)]
pub struct EnvCfg {
    pub rand_seed: u64,
    pub clock_base_ns: u64,
    pub clock_jump_ns: i64, // added every time the clock is read
    pub env_hostile: bool,
    pub io_errno: i32, // 0: stream writes succeed
    pub heap_mode: u8, // 0 LIFO reuse, 1 FIFO reuse, 2 never reuse, 3 coin
    pub heap_seed: u64,
    pub heap_shift: u32,
    pub stack_shift: u32,
    pub pid: u32,
    pub text_shift: u32,
    pub thread: u8, // 0 not started through std, 1 unnamed, 2 called "main", 3 called something else
    pub ids: u8,    // thread ids used up beforehand
    pub args: u8,   // which command line
}
impl EnvCfg {
    pub const fn plain() -> EnvCfg {
        EnvCfg {
            rand_seed: 1, clock_base_ns: 1_700_000_000_000_000_000, clock_jump_ns: 0, env_hostile: false, io_errno: 0,
            heap_mode: 0, heap_seed: 1, heap_shift: 0, stack_shift: 0, pid: 4242, text_shift: 0, thread: 0, ids: 0, args: 0,
        }
    }
}

pub struct Policy {
    pub seed: u64,
    pub random: bool,   // false: only `planned` decides
    pub mean_gap: u64,  // 0: no random preemption
    pub hot_p: u8,      // of 256, at accesses to writable static data and at lock operations
    pub alloc_p: u8,
    pub op_p: u8,
    pub comp_p: u8,
    pub stall_p: u8,    // a random preemption is for good with this probability, of 256
    pub sites: Vec<u32>,
    pub planned: Vec<Planned>,
}
impl Policy {
    pub fn sequential() -> Policy {
        Policy { seed: 0, random: false, mean_gap: 0, hot_p: 0, alloc_p: 0, op_p: 0, comp_p: 0, stall_p: 0, sites: vec![], planned: vec![] }
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum AllocFault {
    None,
    Nth(u64),
    From(u64),
    MinSize(u64),
}

// ---------------------------------------------------------------------------------------------------------------
// state

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Empty,
    Runnable,
    Blocked,
    StalledLong,
    Stalled,
    Finished,
}

struct Task {
    st: St,
    word: AtomicU32,
    uid: u32,
    step: u64,
    trigger: u64,
    next_random: u64,
    budget: u64,
    fair: u32,
    fault_hit: bool,
    phase: u32,
    plan_pos: usize,
    plan_end: usize,
    allocs: u64,
    fault: AllocFault,
    wait_addr: usize,
    deadline: u64,
    timed_out: bool,
    generation: usize,
}

struct Sim {
    tasks: [Task; MAXT],
    n: usize,
    rng: Rng,
    env_rng: Rng,
    env: EnvCfg,
    pol: Option<Policy>,
    clock: u64,
    total: u64,
    pending_join: usize,
    main_word: AtomicU32,
    done: Option<End>,
    body: Option<fn(usize) -> Exit>,
    last: Option<fn(usize)>, // called while a thread ends, after its thread-local state is gone
    io_events: u64,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum End {
    Done,
    Deadlock,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Exit {
    Finished,
    Respawn,
}

const T0: Task = Task {
    st: St::Empty, word: AtomicU32::new(0), uid: 0, step: 0, trigger: u64::MAX, next_random: u64::MAX, budget: u64::MAX, fair: 0, fault_hit: false, phase: 0,
    plan_pos: 0, plan_end: 0, allocs: 0, fault: AllocFault::None, wait_addr: 0, deadline: 0, timed_out: false, generation: 0,
};
static mut S: Sim = Sim {
    tasks: [T0; MAXT], n: 0, rng: Rng::new(0), env_rng: Rng::new(0), env: EnvCfg::plain(), pol: None, clock: 0, total: 0,
    pending_join: 0, main_word: AtomicU32::new(0), done: None, body: None, last: None, io_events: 0,
};

#[thread_local]
static mut SUT: bool = false;
#[thread_local]
static mut ME: usize = NONE;

static mut HOT_LO: usize = 0;
static mut HOT_HI: usize = 0;
static mut SITES_SEL: [u8; MAX_SITES] = [0; MAX_SITES];
static mut NSITES: u32 = 0;
static mut OOM_HOOK_RAN: u64 = 0;

pub fn nsites() -> u32 {
    unsafe { NSITES }
}

/// Payload of the panic raised when an allocation cannot be satisfied.
pub struct Oom;

/// Once per process, before anything is parsed.
pub fn init() {
    // writable static data of this executable (for the preemption bias)
    if let Ok(m) = std::fs::read_to_string("/proc/self/maps") {
        let exe = std::env::current_exe().map(|p| p.display().to_string()).unwrap_or_default();
        let mut last_end = 0;
        for l in m.lines() {
            let mut f = l.split_whitespace();
            let (range, perm) = (f.next().unwrap_or(""), f.next().unwrap_or(""));
            let path = f.nth(3).unwrap_or("");
            let Some((a, b)) = range.split_once('-') else { continue };
            let (a, b) = (usize::from_str_radix(a, 16).unwrap_or(0), usize::from_str_radix(b, 16).unwrap_or(0));
            if path == exe || (path.is_empty() && a == last_end && last_end != 0) {
                if perm.starts_with("rw") {
                    unsafe {
                        if HOT_LO == 0 {
                            HOT_LO = a;
                        }
                        HOT_HI = b;
                    }
                }
                last_end = b;
            } else {
                last_end = 0;
            }
        }
    }
    std::panic::set_hook(Box::new(|_| {}));
    std::alloc::set_alloc_error_hook(|_| {
        unsafe {
            OOM_HOOK_RAN += 1;
            if ME != NONE {
                S.tasks[ME].fault = AllocFault::None;
            }
        }
        std::panic::panic_any(Oom);
    });
}

// ---------------------------------------------------------------------------------------------------------------
// running code under test

/// Runs `f` as code under test (preemptible, its allocations and system calls belong to the simulation).
pub fn sut<R>(f: impl FnOnce() -> R) -> Result<R, Box<dyn std::any::Any + Send>> {
    unsafe {
        let old = SUT;
        SUT = ME != NONE;
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
        SUT = old;
        if r.is_err() {
            count(F_SUT_PANIC);
        }
        r
    }
}

/// Runs harness code called back from code under test.
pub fn harness<R>(f: impl FnOnce() -> R) -> R {
    struct G(bool);
    impl Drop for G {
        fn drop(&mut self) {
            unsafe { SUT = self.0 }
        }
    }
    unsafe {
        let _g = G(SUT);
        SUT = false;
        f()
    }
}

/// Marks the start of an operation of the running task. `budget`: steps it may take before another task is given a
/// turn; after `fair` such turns the operation counts as a runaway.
pub fn begin_op(uid: u32, budget: u64, fair: u32, fault: AllocFault) {
    unsafe {
        let t = &mut S.tasks[ME];
        t.uid = uid;
        t.step = 0;
        t.allocs = 0;
        t.fault = fault;
        t.budget = budget;
        t.fair = fair;
        t.fault_hit = false;
        sh().cur_uid = uid;
        sh().fault_in_cur_op = 0;
        sh().ops += 1;
        let pol = S.pol.as_ref().unwrap();
        t.plan_pos = pol.planned.partition_point(|p| p.uid < uid);
        t.plan_end = pol.planned.partition_point(|p| p.uid <= uid);
        t.next_random = if pol.random && pol.mean_gap > 0 { S.rng.gap(pol.mean_gap) } else { u64::MAX };
        retrigger(t, pol);
        slow(K_OP, 0, false);
    }
}
pub fn end_op() -> (u64, u64) {
    unsafe {
        let t = &mut S.tasks[ME];
        t.fault = AllocFault::None;
        (t.step, t.allocs)
    }
}
/// Ends the allocation fault of the running operation; says whether it hit.
pub fn clear_fault() -> bool {
    unsafe {
        let t = &mut S.tasks[ME];
        t.fault = AllocFault::None;
        t.fault_hit
    }
}
/// 0: harness, 1: the library runs, 2: a result is being examined.
pub fn set_phase(p: u32) {
    unsafe {
        if ME != NONE {
            S.tasks[ME].phase = p;
        }
        sh().phase = p;
    }
}
pub fn oom_count() -> u64 {
    unsafe { OOM_HOOK_RAN }
}
pub fn io_events() -> u64 {
    unsafe { S.io_events }
}
pub fn total_steps() -> u64 {
    unsafe { S.total }
}
pub fn me() -> usize {
    unsafe { ME }
}

fn retrigger(t: &mut Task, pol: &Policy) {
    let mut p = t.plan_pos;
    while p < t.plan_end && (pol.planned[p].kind == PlanKind::Forced || pol.planned[p].step < t.step) {
        p += 1;
    }
    let plan = if p < t.plan_end { pol.planned[p].step } else { u64::MAX };
    t.trigger = plan.min(t.next_random).min(t.budget);
}

#[inline(always)]
fn hit(kind: u8, site: u32, special: bool) {
    unsafe {
        if !SUT {
            return;
        }
        let t = &mut S.tasks[ME];
        t.step += 1;
        S.total += 1;
        if t.step >= t.trigger || special {
            slow(kind, site, special);
        }
    }
}

/// The caller's writer or hasher, called from code under test, offers a preemption point.
pub fn callback_point() {
    hit(K_COMP, 0, true);
}
/// A component (harness code called by the library) offers a preemption point.
pub fn component_point() {
    unsafe {
        if ME == NONE {
            return;
        }
        let old = SUT;
        SUT = true;
        hit(K_COMP, 0, true);
        SUT = old;
    }
}

#[inline(never)]
fn slow(kind: u8, site: u32, special: bool) {
    unsafe {
        let old = SUT;
        SUT = false;
        let t = &mut S.tasks[ME];
        let pol = S.pol.as_ref().unwrap();
        let mut target = None;
        if t.step > t.budget {
            if t.fair == 0 {
                budget_over(&format!("operation {} of task {} took more than {} steps", t.uid, ME, t.budget));
            }
            t.fair -= 1;
            t.budget = t.budget.saturating_mul(2);
            target = Some(255);
        }
        let mut p = t.plan_pos;
        let mut stall = None;
        while p < t.plan_end && pol.planned[p].step <= t.step {
            let e = pol.planned[p];
            if e.step == t.step {
                match e.kind {
                    PlanKind::Switch => target = Some(e.to),
                    PlanKind::StallForever => stall = Some(St::Stalled),
                    PlanKind::StallLong => stall = Some(St::StalledLong),
                    PlanKind::Forced => {}
                }
            }
            p += 1;
        }
        // forced choices at this very step are looked up by the scheduler; keep them reachable
        while t.plan_pos < t.plan_end && pol.planned[t.plan_pos].step < t.step {
            t.plan_pos += 1;
        }
        let mut hot = false;
        if pol.random && sh().switches < MAX_SWITCHES {
            if t.step >= t.next_random {
                target = Some(255);
                t.next_random = t.step + S.rng.gap(pol.mean_gap);
            }
            let pr = match kind {
                K_MEM | K_SYNC => pol.hot_p,
                K_ALLOC => pol.alloc_p,
                K_OP => pol.op_p,
                K_COMP => pol.comp_p,
                K_BLOCK if special => 128,
                _ => 0,
            };
            if special || kind == K_OP {
                if pr > 0 && (S.rng.next() as u8) < pr {
                    target = Some(255);
                    hot = kind == K_MEM || kind == K_SYNC;
                }
            }
        }
        if target == Some(255) && stall.is_none() && pol.random && pol.stall_p > 0 && (S.rng.next() as u8) < pol.stall_p {
            let active = (0..S.n).filter(|&i| matches!(S.tasks[i].st, St::Runnable | St::Blocked | St::StalledLong)).count();
            if active > 1 {
                stall = Some(St::Stalled);
            }
        }
        // consumed: never fire the same planned step twice
        while t.plan_pos < t.plan_end && pol.planned[t.plan_pos].step <= t.step && pol.planned[t.plan_pos].kind != PlanKind::Forced {
            t.plan_pos += 1;
        }
        retrigger(t, pol);
        if t.trigger <= t.step {
            // same step again (a Forced entry sits in front): look strictly ahead
            let mut q = t.plan_pos;
            while q < t.plan_end && (pol.planned[q].step <= t.step || pol.planned[q].kind == PlanKind::Forced) {
                q += 1;
            }
            let plan = if q < t.plan_end { pol.planned[q].step } else { u64::MAX };
            t.trigger = plan.min(t.next_random).min(t.budget.max(t.step + 1));
        }
        if let Some(st) = stall {
            t.st = st;
            count(if st == St::Stalled { F_STALL_FOREVER } else { F_STALL_LONG });
            leave(K_STALL, site, false);
        } else if let Some(to) = target {
            let to = if to == 255 {
                pick(ME)
            } else if S.tasks[to as usize].st == St::Runnable && to as usize != ME {
                Some(to as usize)
            } else {
                None
            };
            if let Some(to) = to {
                count(F_PREEMPT);
                if hot {
                    count(F_PREEMPT_HOT);
                }
                record(ME, to, kind, site);
                wake(to);
                park(ME);
            }
        }
        SUT = old;
    }
}

unsafe fn record(from: usize, to: usize, kind: u8, site: u32) {
    let s = sh();
    let (uid, step) = if from == NONE { (0, 0) } else { (S.tasks[from].uid, S.tasks[from].step) };
    s.switches += 1;
    s.event_hash = mix(s.event_hash, mix(mix(uid as u64, step), mix(to as u64, kind as u64)));
    s.inter_hash = mix(s.inter_hash, mix(((from as u64) << 8) | to as u64, mix(site as u64, kind as u64)));
    if (s.ntrace as usize) < MAX_TRACE {
        s.trace[s.ntrace as usize] = TraceEnt { uid, step, to: to as u8, kind, site };
        s.ntrace += 1;
    } else {
        s.trace_overflow = 1;
    }
}

/// Adds an observation to the run's event log hash.
pub fn log_event(v: u64) {
    let s = sh();
    s.event_hash = mix(s.event_hash, v ^ 0x5eed);
}

unsafe fn pick(not: usize) -> Option<usize> {
    let mut c = [0usize; MAXT];
    let mut n = 0;
    for i in 0..S.n {
        if i != not && S.tasks[i].st == St::Runnable {
            c[n] = i;
            n += 1;
        }
    }
    if n == 0 {
        None
    } else if S.pol.as_ref().unwrap().random {
        Some(c[S.rng.below(n as u64) as usize])
    } else {
        let b = if not == NONE { 0 } else { not };
        Some(*c[..n].iter().find(|&&x| x > b).unwrap_or(&c[0]))
    }
}

unsafe fn wake(i: usize) {
    let w = &S.tasks[i].word;
    w.store(1, Ordering::SeqCst);
    sys::futex_wake(w);
}
unsafe fn park(i: usize) {
    let w = &S.tasks[i].word;
    while w.swap(0, Ordering::SeqCst) == 0 {
        sys::futex_wait(w, 0);
    }
    join_pending();
    sh().cur_uid = S.tasks[i].uid;
    sh().fault_in_cur_op = S.tasks[i].fault_hit as u32;
    sh().phase = S.tasks[i].phase;
}
unsafe fn join_pending() {
    if S.pending_join != 0 {
        let p = S.pending_join;
        S.pending_join = 0;
        pthread_join(p, std::ptr::null_mut());
    }
}

/// The running task cannot go on (blocked, stalled or finished): pass the baton. Returns when it runs again, at once
/// if `exiting`.
unsafe fn leave(kind: u8, site: u32, exiting: bool) {
    let me = ME;
    loop {
        let mut to = None;
        if !S.pol.as_ref().unwrap().random {
            // replay: the recorded choice, if it is still possible
            let t = &S.tasks[me];
            let pol = S.pol.as_ref().unwrap();
            let (a, b) = (pol.planned.partition_point(|p| p.uid < t.uid), pol.planned.partition_point(|p| p.uid <= t.uid));
            for p in &pol.planned[a..b] {
                if p.kind == PlanKind::Forced && p.step == t.step && S.tasks[p.to as usize].st == St::Runnable {
                    to = Some(p.to as usize);
                }
            }
        }
        if to.is_none() {
            to = pick(NONE_OR(me));
        }
        if to.is_none() && S.tasks[me].st == St::Runnable {
            to = Some(me);
        }
        if let Some(to) = to {
            record(me, to, if kind == K_STALL && S.tasks[me].st == St::Stalled { K_STALL } else { K_FORCED }, site);
            if to == me {
                return;
            }
            wake(to);
            if !exiting {
                park(me);
            }
            return;
        }
        // nobody can run: release long stalls, then jump the clock, then stop
        let mut any = false;
        for i in 0..S.n {
            if S.tasks[i].st == St::StalledLong {
                S.tasks[i].st = St::Runnable;
                any = true;
            }
        }
        if any {
            continue;
        }
        let mut best = None;
        for i in 0..S.n {
            let t = &S.tasks[i];
            if t.st == St::Blocked && t.deadline != 0 && best.map_or(true, |(d, _)| t.deadline < d) {
                best = Some((t.deadline, i));
            }
        }
        if let Some((d, i)) = best {
            S.clock = S.clock.max(d);
            S.tasks[i].st = St::Runnable;
            S.tasks[i].timed_out = true;
            continue;
        }
        let blocked = (0..S.n).any(|i| S.tasks[i].st == St::Blocked);
        S.done = Some(if blocked { End::Deadlock } else { End::Done });
        S.main_word.store(1, Ordering::SeqCst);
        sys::futex_wake(&S.main_word);
        if !exiting {
            park(me); // never returns in practice
        }
        return;
    }
}
#[allow(non_snake_case)]
fn NONE_OR(me: usize) -> usize {
    me
}

/// What running over the budget of an operation means in this run.
pub static mut BUDGET_IS_VIOLATION: bool = true;
fn budget_over(msg: &str) -> ! {
    if unsafe { BUDGET_IS_VIOLATION } {
        fail("runaway", msg)
    }
    inconclusive(msg)
}

/// Ends the process at once, reporting a violation (or, for the pristine oracle, an outcome).
pub fn fail(class: &str, msg: &str) -> ! {
    unsafe {
        SUT = false;
        set_msg(&format!("{class}: {msg}"));
        sh().state = 2;
        sys::exit_now(0)
    }
}
pub fn inconclusive(msg: &str) -> ! {
    unsafe {
        SUT = false;
        set_msg(msg);
        sh().state = 3;
        sys::exit_now(0)
    }
}
pub fn set_msg(m: &str) {
    let s = sh();
    let n = m.len().min(4096);
    s.msg[..n].copy_from_slice(&m.as_bytes()[..n]);
    s.msg_len = n as u32;
}

// ---------------------------------------------------------------------------------------------------------------
// starting and ending tasks

const STACK_BASE: usize = 0x5000_0000_0000;
const STACK_GAP: usize = 0x0400_0000; // 64 MiB apart
const STACK_LEN: usize = 0x0180_0000; // 24 MiB
static mut STACKS: [[bool; 2]; MAXT] = [[false; 2]; MAXT];

/// Where std's next thread gets its stack.
static mut NEXT_STACK: (usize, usize) = (0, 0);
#[no_mangle]
pub unsafe extern "C" fn pthread_attr_setstacksize(a: *mut u8, len: usize) -> i32 {
    let (base, n) = if NEXT_STACK.0 != 0 {
        NEXT_STACK
    } else {
        // a thread of the harness itself
        let n = (len + 0xfffff) & !0xfffff;
        let p = sys::raw(9, 0, n, 3, 0x20022, usize::MAX, 0);
        (p as usize, n)
    };
    pthread_attr_setstack(a, base as *mut u8, n)
}

/// std insists on a guard page; what lies below the stacks is not mapped.
#[no_mangle]
pub unsafe extern "C" fn pthread_attr_getguardsize(_: *const u8, n: *mut usize) -> i32 {
    *n = 4096;
    0
}

unsafe fn start_thread(i: usize) {
    let par = S.tasks[i].generation & 1;
    let base = STACK_BASE + (i * 2 + par) * STACK_GAP;
    if !STACKS[i][par] {
        assert!(sys::map_fixed(base, STACK_LEN), "stack mapping");
        STACKS[i][par] = true;
    }
    let len = STACK_LEN - (S.env.stack_shift as usize) * 16;
    if S.env.thread != 0 {
        let b = match S.env.thread {
            1 => std::thread::Builder::new(),
            2 => std::thread::Builder::new().name("main".into()),
            _ => std::thread::Builder::new().name("worker-7".into()),
        };
        count(F_STD_THREAD);
        NEXT_STACK = (base, len);
        STARTED.store(0, Ordering::SeqCst);
        std::mem::forget(b.spawn(move || { thread_main(i as *mut u8); }).expect("spawn"));
        NEXT_STACK = (0, 0);
        return await_start();
    }
    let mut attr = [0u64; 16];
    let a = attr.as_mut_ptr() as *mut u8;
    pthread_attr_init(a);
    assert!(pthread_attr_setstack(a, base as *mut u8, len) == 0, "setstack");
    let mut t = 0usize;
    STARTED.store(0, Ordering::SeqCst);
    assert!(pthread_create(&mut t, a, thread_main, i as *mut u8) == 0, "pthread_create");
    pthread_attr_destroy(a);
    if S.last.is_some() {
        await_start();
    }
}
/// What a thread does before its first operation is over before anything else runs.
static STARTED: AtomicU32 = AtomicU32::new(0);
fn await_start() {
    while STARTED.load(Ordering::SeqCst) == 0 {
        unsafe { sys::futex_wait(&STARTED, 0) };
    }
}

/// Registered before anything else of the thread, so it goes last: the library's own thread-local state is gone by then.
struct AtEnd(std::cell::Cell<Option<(usize, Exit)>>);
thread_local!(static AT_END: AtEnd = const { AtEnd(std::cell::Cell::new(None)) });
impl Drop for AtEnd {
    fn drop(&mut self) {
        if let Some((i, ex)) = self.0.take() {
            unsafe {
                if let Some(f) = S.last {
                    f(i);
                }
                pass_on(i, ex);
            }
        }
    }
}
extern "C" fn thread_main(arg: *mut u8) -> *mut u8 {
    unsafe {
        let i = arg as usize;
        ME = i;
        if S.last.is_some() {
            AT_END.with(|_| ());
        }
        STARTED.store(1, Ordering::SeqCst);
        sys::futex_wake(&STARTED);
        park(i);
        let ex = (S.body.unwrap())(i);
        SUT = false;
        if S.last.is_some() {
            AT_END.with(|e| e.0.set(Some((i, ex))));
        } else {
            pass_on(i, ex);
        }
    }
    std::ptr::null_mut()
}
unsafe fn pass_on(i: usize, ex: Exit) {
    {
        SUT = false;
        match ex {
            Exit::Respawn => {
                count(F_RESPAWN);
                S.tasks[i].generation += 1;
                start_thread(i);
                S.pending_join = pthread_self();
                wake(i);
            }
            Exit::Finished => {
                S.tasks[i].st = St::Finished;
                S.pending_join = pthread_self();
                leave(K_FORCED, 0, true);
            }
        }
    }
}

pub fn set_last(f: Option<fn(usize)>) {
    unsafe { S.last = f }
}
/// Uses up some thread ids.
pub fn burn_ids(n: u8) {
    for _ in 0..n {
        let _ = std::thread::spawn(|| ()).join();
    }
}

/// Runs `n` tasks to the end. `body(i)` performs the operations of task i.
pub fn run(n: usize, pol: Policy, env: EnvCfg, body: fn(usize) -> Exit) -> End {
    unsafe {
        assert!(n >= 1 && n <= MAXT && ME == NONE);
        S.n = n;
        S.rng = Rng::new(pol.seed ^ 0x5c4ed);
        S.done = None;
        S.body = Some(body);
        S.pending_join = 0;
        set_env(env);
        for b in SITES_SEL.iter_mut() {
            *b = 0;
        }
        for &s in &pol.sites {
            SITES_SEL[s as usize % MAX_SITES] = 1;
        }
        S.pol = Some(pol);
        for i in 0..n {
            S.tasks[i] = T0;
            S.tasks[i].st = St::Runnable;
            start_thread(i);
        }
        let mut first = pick(NONE).unwrap();
        for p in &S.pol.as_ref().unwrap().planned {
            if p.uid == 0 && p.kind == PlanKind::Switch && (p.to as usize) < n {
                first = p.to as usize;
            }
        }
        record(NONE, first, K_START, 0);
        wake(first);
        while S.main_word.swap(0, Ordering::SeqCst) == 0 {
            sys::futex_wait(&S.main_word, 0);
        }
        join_pending();
        sh().steps = S.total;
        S.done.unwrap()
    }
}
pub fn set_env(env: EnvCfg) {
    unsafe {
        S.env = env;
        S.env_rng = Rng::new(env.rand_seed);
        S.clock = env.clock_base_ns;
        // the command line std hands out (it stops at the first null); ours has two words at least
        if ARGV.0 >= 2 {
            const LINES: [&[u8]; 5] = [b"\0", b"--lenient\0", b"-v\0", b"1\0", b"--strict\0"];
            let l = LINES[env.args as usize % 5];
            *ARGV.1.add(1) = if l.len() > 1 { l.as_ptr() } else { std::ptr::null() };
            if ARGV.0 > 2 {
                *ARGV.1.add(2) = std::ptr::null();
            }
        }
    }
}
static mut ARGV: (i32, *mut *const u8) = (0, std::ptr::null_mut());
extern "C" fn note_args(n: i32, v: *mut *const u8, _: *const *const u8) {
    unsafe { ARGV = (n, v) }
}
#[used]
#[link_section = ".init_array"]
static NOTE_ARGS: extern "C" fn(i32, *mut *const u8, *const *const u8) = note_args;

// ---------------------------------------------------------------------------------------------------------------
// instrumentation callbacks

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    let mut p = start;
    if p == stop || *p != 0 {
        return;
    }
    while p < stop {
        NSITES += 1;
        *p = NSITES % MAX_SITES as u32;
        p = p.add(1);
    }
}
/// Basic blocks with a read-modify-write instruction (an atomic counter, a lock taken without contention) are switching
/// points of their own. The scan of the machine code is approximate and only steers the scheduler.
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_pcs_init(start: *const [usize; 2], stop: *const [usize; 2]) {
    static mut DONE: bool = false;
    if DONE {
        return;
    }
    DONE = true;
    let n = stop.offset_from(start) as usize;
    let pcs = std::slice::from_raw_parts(start, n);
    let mut order: Vec<(usize, usize)> = pcs.iter().enumerate().map(|(i, p)| (p[0], i)).collect();
    order.sort();
    for k in 0..n {
        let (pc, i) = order[k];
        let end = order.get(k + 1).map_or(pc + 16, |x| x.0).min(pc + 256);
        let code = std::slice::from_raw_parts(pc as *const u8, end - pc);
        let mem = |m: u8| m >> 6 != 3;
        // lock add, or, and, sub, xor, inc, dec, not, xadd, cmpxchg, bit operations; xchg with a size prefix
        let locked = code.windows(5).any(|w| {
            let rex = w[1] & 0xf0 == 0x40;
            let o = if rex { &w[2..] } else { &w[1..] };
            w[0] == 0xf0 && match o[0] {
                0x0f => matches!(o[1], 0xb0 | 0xb1 | 0xc0 | 0xc1 | 0xc7 | 0xab | 0xb3 | 0xba | 0xbb) && o.get(2).map_or(true, |m| mem(*m)),
                0x00 | 0x01 | 0x08 | 0x09 | 0x20 | 0x21 | 0x28..=0x31 | 0x80..=0x83 | 0xf6 | 0xf7 | 0xfe | 0xff => o[1] & 0xc7 == 5 || rex && o[1] != 0 && mem(o[1]),
                _ => false,
            }
        });
        let swapped = code.windows(3).any(|w| w[0] & 0xf8 == 0x48 && w[1] == 0x87 && mem(w[2]));
        if locked || swapped {
            SITE_SYNC[(i + 1) % MAX_SITES] = 1;
            NSYNC += 1;
        }
    }
}
static mut SITE_SYNC: [u8; MAX_SITES] = [0; MAX_SITES];
static mut NSYNC: u32 = 0;
/// How many basic blocks have such an instruction.
pub fn nsync() -> u32 {
    unsafe { NSYNC }
}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *const u32) {
    if !SUT {
        return;
    }
    let id = *g as usize;
    let c = &mut (*SH).sites[id];
    *c = c.saturating_add(1);
    if SITE_SYNC[id] != 0 {
        return hit(K_SYNC, id as u32, true);
    }
    hit(K_BLOCK, id as u32, SITES_SEL[id] != 0);
}
macro_rules! mem {
    ($($n:ident)*) => { $(
        #[no_mangle]
        pub unsafe extern "C" fn $n(p: *const u8) {
            if !SUT { return; }
            let a = p as usize;
            let hot = a >= HOT_LO && a < HOT_HI;
            if hot { count(F_HOT_ACCESS); }
            hit(K_MEM, (a & 0xffff) as u32, hot);
        } )* };
}
mem!(__sanitizer_cov_load1 __sanitizer_cov_load2 __sanitizer_cov_load4 __sanitizer_cov_load8 __sanitizer_cov_load16
     __sanitizer_cov_store1 __sanitizer_cov_store2 __sanitizer_cov_store4 __sanitizer_cov_store8 __sanitizer_cov_store16);

// ---------------------------------------------------------------------------------------------------------------
// interposed libc entry points

unsafe fn errno(e: i32) -> i64 {
    *__errno_location() = e;
    -1
}
unsafe fn ret(r: isize) -> i64 {
    if r < 0 && r > -4096 {
        errno(-r as i32)
    } else {
        r as i64
    }
}
unsafe fn io_event(what: &str, f: usize) {
    count(f);
    S.io_events += 1;
    let s = sh();
    if s.io_len == 0 {
        let n = what.len().min(256);
        s.io_msg[..n].copy_from_slice(&what.as_bytes()[..n]);
        s.io_len = n as u32;
    }
    log_event(f as u64);
}

#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    if n as usize == sys::FUTEX && SUT {
        let word = &*(a as *const AtomicU32);
        hit(K_SYNC, (a & 0xffff) as u32, true);
        SUT = false;
        let r = match b & 127 {
            0 | 9 => {
                if word.load(Ordering::SeqCst) != c as u32 {
                    errno(11)
                } else {
                    count(F_FUTEX_BLOCK);
                    let t = &mut S.tasks[ME];
                    t.st = St::Blocked;
                    t.wait_addr = a;
                    t.timed_out = false;
                    t.deadline = 0;
                    if d != 0 {
                        let ts = &*(d as *const [u64; 2]);
                        let ns = ts[0].wrapping_mul(1_000_000_000).wrapping_add(ts[1]);
                        t.deadline = if b & 127 == 9 { ns } else { S.clock + ns }.max(1);
                    }
                    leave(K_SYNC, 0, false);
                    if S.tasks[ME].timed_out {
                        errno(110)
                    } else {
                        0
                    }
                }
            }
            1 | 10 => {
                let mut woken = 0;
                for i in 0..S.n {
                    if woken < c as i64 && S.tasks[i].st == St::Blocked && S.tasks[i].wait_addr == a {
                        S.tasks[i].st = St::Runnable;
                        woken += 1;
                    }
                }
                woken
            }
            _ => ret(sys::raw(n as usize, a, b, c, d, e, f)),
        };
        SUT = true;
        return r;
    }
    if SUT {
        match n {
            39 => return getpid() as i64,
            110 => return getppid() as i64,
            186 => return gettid() as i64,
            228 => return clock_gettime(a as i32, b as *mut [u64; 2]) as i64,
            318 => return getrandom(a as *mut u8, b, c as u32) as i64,
            _ => {}
        }
    }
    ret(sys::raw(n as usize, a, b, c, d, e, f))
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, flags: u32) -> isize {
    if SUT {
        count(F_RAND);
        for i in 0..len {
            *buf.add(i) = S.env_rng.next() as u8;
        }
        return len as isize;
    }
    ret(sys::raw(sys::GETRANDOM, buf as usize, len, flags as usize, 0, 0, 0)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: i32, ts: *mut [u64; 2]) -> i32 {
    if SUT {
        io_event("clock read", F_CLOCK);
        if S.env.clock_jump_ns != 0 {
            count(F_CLOCK_JUMP);
        }
        S.clock = S.clock.wrapping_add(S.env.clock_jump_ns as u64);
        let now = S.clock + S.total;
        *ts = [now / 1_000_000_000, now % 1_000_000_000];
        return 0;
    }
    ret(sys::raw(sys::CLOCK_GETTIME, clk as usize, ts as usize, 0, 0, 0, 0)) as i32
}
unsafe fn sim_sleep(ts: *const [u64; 2], abs: bool) -> i32 {
    io_event("sleep", F_SLEEP);
    SUT = false;
    let ns = (*ts)[0].wrapping_mul(1_000_000_000).wrapping_add((*ts)[1]);
    let t = &mut S.tasks[ME];
    t.st = St::Blocked;
    t.wait_addr = 0;
    t.timed_out = false;
    t.deadline = (if abs { ns } else { S.clock + ns }).max(1);
    leave(K_SYNC, 0, false);
    SUT = true;
    0
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(ts: *const [u64; 2], rem: *mut [u64; 2]) -> i32 {
    if SUT {
        return sim_sleep(ts, false);
    }
    ret(sys::raw(sys::NANOSLEEP, ts as usize, rem as usize, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(clk: i32, flags: i32, ts: *const [u64; 2], rem: *mut [u64; 2]) -> i32 {
    if SUT {
        return sim_sleep(ts, flags & 1 != 0);
    }
    -(sys::raw(sys::CLOCK_NANOSLEEP, clk as usize, flags as usize, ts as usize, rem as usize, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if SUT {
        hit(K_SYNC, 0, true);
        return 0;
    }
    sys::raw(sys::SCHED_YIELD, 0, 0, 0, 0, 0, 0) as i32
}
#[no_mangle]
pub unsafe extern "C" fn getpid() -> i32 {
    if SUT {
        return S.env.pid as i32;
    }
    sys::raw(sys::GETPID, 0, 0, 0, 0, 0, 0) as i32
}
#[no_mangle]
pub unsafe extern "C" fn getppid() -> i32 {
    if SUT {
        return S.env.pid as i32 / 3 + 1;
    }
    sys::raw(110, 0, 0, 0, 0, 0, 0) as i32
}
/// Changes of the environment by the code under test are noted and refused; the simulator itself makes none.
#[no_mangle]
pub unsafe extern "C" fn setenv(_: *const u8, _: *const u8, _: i32) -> i32 {
    if SUT {
        io_event("environment variable written", F_ENV);
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn unsetenv(_: *const u8) -> i32 {
    if SUT {
        io_event("environment variable removed", F_ENV);
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const u8) -> *const u8 {
    if SUT {
        io_event("environment variable read", F_ENV);
        return if S.env.env_hostile { b"1\0".as_ptr() } else { std::ptr::null() };
    }
    let mut n = 0;
    while *name.add(n) != 0 {
        n += 1;
    }
    let mut e = environ;
    if e.is_null() {
        return std::ptr::null();
    }
    while !(*e).is_null() {
        let s = *e;
        let mut i = 0;
        while i < n && *s.add(i) == *name.add(i) {
            i += 1;
        }
        if i == n && *s.add(n) == b'=' {
            return s.add(n + 1);
        }
        e = e.add(1);
    }
    std::ptr::null()
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: i32, buf: *const u8, len: usize) -> isize {
    if SUT {
        io_event("write to a stream or file", F_IO);
        if S.env.io_errno != 0 {
            return errno(S.env.io_errno) as isize;
        }
        return len as isize;
    }
    ret(sys::raw(sys::WRITE, fd as usize, buf as usize, len, 0, 0, 0)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: i32, iov: *const [usize; 2], n: i32) -> isize {
    if SUT {
        io_event("write to a stream or file", F_IO);
        if S.env.io_errno != 0 {
            return errno(S.env.io_errno) as isize;
        }
        let mut t = 0;
        for i in 0..n as usize {
            t += (*iov.add(i))[1];
        }
        return t as isize;
    }
    ret(sys::raw(sys::WRITEV, fd as usize, iov as usize, n as usize, 0, 0, 0)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: i32, buf: *mut u8, len: usize) -> isize {
    if SUT {
        io_event("read from a stream or file", F_IO);
        return errno(5) as isize;
    }
    ret(sys::raw(sys::READ, fd as usize, buf as usize, len, 0, 0, 0)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const u8, flags: i32, mode: u32) -> i32 {
    if SUT {
        io_event("open of a file", F_IO);
        return errno(if S.env.io_errno != 0 { S.env.io_errno } else { 2 }) as i32;
    }
    ret(sys::raw(sys::OPEN, path as usize, flags as usize | 0x8000, mode as usize, 0, 0, 0)) as i32
}

macro_rules! refuse {
    ($($n:ident($($a:ident: $t:ty),*) -> $r:ty, $num:expr, $what:literal;)*) => { $(
        #[no_mangle]
        pub unsafe extern "C" fn $n($($a: $t),*) -> $r {
            if SUT {
                io_event($what, F_IO);
                return errno(if S.env.io_errno != 0 { S.env.io_errno } else { 2 }) as $r;
            }
            let a: [usize; 6] = { let mut v = [0usize; 6]; let mut i = 0; $( v[i] = $a as usize; i += 1; )* let _ = i; v };
            ret(sys::raw($num, a[0], a[1], a[2], a[3], a[4], a[5])) as $r
        } )* };
}
refuse! {
    stat64(p: *const u8, b: *mut u8) -> i32, 4, "file status read";
    lstat64(p: *const u8, b: *mut u8) -> i32, 6, "file status read";
    fstat64(fd: i32, b: *mut u8) -> i32, 5, "file status read";
    statx(d: i32, p: *const u8, f: i32, m: u32, b: *mut u8) -> i32, 332, "file status read";
    access(p: *const u8, m: i32) -> i32, 21, "file status read";
    unlink(p: *const u8) -> i32, 87, "file removed";
    mkdir(p: *const u8, m: u32) -> i32, 83, "directory made";
    rename(a: *const u8, b: *const u8) -> i32, 82, "file renamed";
    readlink(p: *const u8, b: *mut u8, n: usize) -> isize, 89, "link read";
    chdir(p: *const u8) -> i32, 80, "working directory changed";
    sched_getaffinity(p: i32, n: usize, m: *mut u8) -> i32, 204, "number of processors read";
    socket(a: i32, b: i32, c: i32) -> i32, 41, "socket opened";
    pipe2(p: *mut i32, f: i32) -> i32, 293, "pipe opened";
}
#[no_mangle]
pub unsafe extern "C" fn isatty(fd: i32) -> i32 {
    if SUT {
        io_event("terminal state read", F_IO);
        return S.env.env_hostile as i32;
    }
    let mut b = [0u8; 64];
    (sys::raw(16, fd as usize, 0x5401, b.as_mut_ptr() as usize, 0, 0, 0) == 0) as i32
}
#[no_mangle]
pub unsafe extern "C" fn getcwd(buf: *mut u8, len: usize) -> *mut u8 {
    if SUT {
        io_event("working directory read", F_ENV);
        errno(2);
        return std::ptr::null_mut();
    }
    if sys::raw(79, buf as usize, len, 0, 0, 0, 0) < 0 { std::ptr::null_mut() } else { buf }
}
#[no_mangle]
pub unsafe extern "C" fn gettid() -> i32 {
    if SUT {
        return S.env.pid as i32 + ME as i32;
    }
    sys::raw(186, 0, 0, 0, 0, 0, 0) as i32
}

static HOSTILE: [&[u8]; 5] = [b"WEEDLE=1\0", b"WEEDLE_DEBUG=1\0", b"RUST_LOG=trace\0", b"LANG=tr_TR.UTF-8\0", b"RUST_BACKTRACE=full\0"];
static mut HOSTILE_ENV: [*const u8; 6] = [std::ptr::null(); 6];
/// Replaces the environment of this process (a forked child).
pub fn hostile_environment() {
    unsafe {
        for i in 0..5 {
            HOSTILE_ENV[i] = HOSTILE[i].as_ptr();
        }
        environ = HOSTILE_ENV.as_ptr();
    }
}

// ---------------------------------------------------------------------------------------------------------------
// allocator: two arenas at fixed addresses, one for the code under test, one for the harness

const SUT_BASE: usize = 0x2000_0000_0000;
const SUT_LEN: usize = 0x10_0000_0000; // 64 GiB of address space, touched lazily
const HAR_BASE: usize = 0x3000_0000_0000;
const HAR_LEN: usize = 0x10_0000_0000;
const NCLASS: usize = 64 + 40;
const LIVE: u32 = 0x11fe_a110;
const FREE: u32 = 0xf4ee_f4ee;

#[repr(C)]
struct Hdr {
    size: u64,
    class: u16,
    round: u16,
    state: u32,
}
struct Arena {
    base: usize,
    len: usize,
    bump: usize,
    head: [usize; NCLASS],
    tail: [usize; NCLASS],
    live_bytes: u64,
    live_blocks: u64,
    allocs: u64,
    of_round: i64,
}
struct Locked(AtomicBool, UnsafeCell<Arena>);
unsafe impl Sync for Locked {}
const fn arena(base: usize, len: usize) -> Locked {
    Locked(AtomicBool::new(false), UnsafeCell::new(Arena {
        base, len, bump: 0, head: [0; NCLASS], tail: [0; NCLASS], live_bytes: 0, live_blocks: 0, allocs: 0, of_round: 0,
    }))
}
static A_SUT: Locked = arena(SUT_BASE, SUT_LEN);
static A_HAR: Locked = arena(HAR_BASE, HAR_LEN);
/// The current repetition: blocks are marked with it.
static mut ROUND: u16 = 0;
static mut HEAP_RNG: Rng = Rng::new(77);

impl Locked {
    fn with<R>(&self, f: impl FnOnce(&mut Arena) -> R) -> R {
        while self.0.swap(true, Ordering::Acquire) {
            unsafe { sys::raw(sys::SCHED_YIELD, 0, 0, 0, 0, 0, 0) };
        }
        let r = unsafe { f(&mut *self.1.get()) };
        self.0.store(false, Ordering::Release);
        r
    }
}

fn class_of(size: usize) -> (u32, usize) {
    if size <= 1024 {
        let c = (size.max(1) + 15) / 16;
        ((c - 1) as u32, c * 16)
    } else {
        let p = size.next_power_of_two();
        (64 + p.trailing_zeros() - 10, p)
    }
}

impl Arena {
    unsafe fn alloc(&mut self, size: usize, align: usize, mode: u8) -> *mut u8 {
        if self.bump == 0 {
            if !sys::map_fixed(self.base, self.len) {
                sys::exit_now(97);
            }
            self.bump = self.base + 16;
        }
        let (class, cap) = class_of(size);
        self.allocs += 1;
        let p;
        if align > 16 {
            let a = (self.bump + 16 + align - 1) & !(align - 1);
            self.bump = a + cap;
            self.bump = (self.bump + 15) & !15;
            let h = (a - 16) as *mut Hdr;
            *h = Hdr { size: size as u64, class: u16::MAX, round: ROUND, state: LIVE };
            p = a;
        } else {
            let c = class as usize;
            let reuse = self.head[c] != 0
                && match mode {
                    2 => false,
                    3 => HEAP_RNG.next() & 1 == 0,
                    _ => true,
                };
            if reuse {
                p = self.head[c];
                self.head[c] = *(p as *const usize);
                if self.head[c] == 0 {
                    self.tail[c] = 0;
                }
            } else {
                p = self.bump + 16;
                self.bump = p + cap;
            }
            *((p - 16) as *mut Hdr) = Hdr { size: size as u64, class: class as u16, round: ROUND, state: LIVE };
            if mode != 9 {
                if reuse {
                    count(F_ALLOC_REUSE);
                }
                std::ptr::write_bytes(p as *mut u8, 0xA5, size.min(4096));
            }
        }
        if self.bump > self.base + self.len {
            sys::exit_now(98);
        }
        self.live_bytes += size as u64;
        self.of_round += 1;
        self.live_blocks += 1;
        p as *mut u8
    }
    unsafe fn free(&mut self, p: *mut u8, mode: u8) {
        let h = &mut *(p.sub(16) as *mut Hdr);
        if h.state != LIVE {
            if !SH.is_null() {
                (*SH).corrupt = 1;
            }
            return;
        }
        h.state = FREE;
        self.live_bytes -= h.size;
        if h.round == ROUND {
            self.of_round -= 1;
        }
        self.live_blocks -= 1;
        if mode != 9 {
            std::ptr::write_bytes(p, 0xDE, h.size as usize);
        }
        if h.class == u16::MAX || mode == 2 {
            return;
        }
        let c = h.class as usize;
        let a = p as usize;
        if mode == 1 {
            *(a as *mut usize) = 0;
            if self.tail[c] == 0 {
                self.head[c] = a;
            } else {
                *(self.tail[c] as *mut usize) = a;
            }
            self.tail[c] = a;
        } else {
            *(a as *mut usize) = self.head[c];
            self.head[c] = a;
            if self.tail[c] == 0 {
                self.tail[c] = a;
            }
        }
    }
}

/// (live bytes, live blocks, allocations so far) of the code under test.
pub fn sut_heap() -> (u64, u64, u64) {
    A_SUT.with(|a| (a.live_bytes, a.live_blocks, a.allocs))
}
/// Begins a new repetition; returns how many blocks obtained in the last one are still in use.
pub fn heap_round() -> i64 {
    A_SUT.with(|a| unsafe {
        let n = a.of_round;
        a.of_round = 0;
        ROUND = ROUND.wrapping_add(1);
        n
    })
}
/// Seeds placement and shifts the start of the heap of the code under test; only before its first allocation.
pub fn prepare_heap(env: &EnvCfg) {
    unsafe {
        HEAP_RNG = Rng::new(env.heap_seed);
        S.env = *env;
    }
    A_SUT.with(|a| unsafe {
        if a.bump == 0 {
            assert!(sys::map_fixed(a.base, a.len));
            a.bump = a.base + 16;
        }
        a.bump += env.heap_shift as usize * 16;
    })
}
pub fn in_sut_heap(p: usize) -> bool {
    p >= SUT_BASE && p < SUT_BASE + SUT_LEN
}
/// Text buffers live in the simulated heap too, so that freed text is overwritten and its memory reused.
pub fn text_alloc(len: usize) -> *mut u8 {
    let mode = unsafe { S.env.heap_mode };
    A_SUT.with(|a| unsafe {
        let p = a.alloc(len.max(1), 1, mode);
        // not part of the memory a parse obtains
        a.live_bytes -= len.max(1) as u64;
        a.live_blocks -= 1;
        p
    })
}
pub fn text_free(p: *mut u8, len: usize) {
    let mode = unsafe { S.env.heap_mode };
    A_SUT.with(|a| unsafe {
        a.live_bytes += len.max(1) as u64;
        a.live_blocks += 1;
        a.free(p, mode);
    })
}

pub struct SimAlloc;
unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if SUT {
            hit(K_ALLOC, (l.size() & 0xffff) as u32, S.pol.as_ref().map_or(false, |p| p.random && p.alloc_p > 0));
            let t = &mut S.tasks[ME];
            t.allocs += 1;
            let bad = match t.fault {
                AllocFault::None => false,
                AllocFault::Nth(n) => t.allocs == n,
                AllocFault::From(n) => t.allocs >= n,
                AllocFault::MinSize(n) => l.size() as u64 >= n,
            };
            if bad && !std::thread::panicking() {
                count(F_ALLOC_FAIL);
                t.fault_hit = true;
                sh().fault_in_cur_op = 1;
                log_event(0xA110C);
                return std::ptr::null_mut();
            }
            return A_SUT.with(|a| a.alloc(l.size(), l.align(), S.env.heap_mode));
        }
        A_HAR.with(|a| a.alloc(l.size(), l.align(), 9))
    }
    unsafe fn dealloc(&self, p: *mut u8, _l: Layout) {
        let a = p as usize;
        if a >= SUT_BASE && a < SUT_BASE + SUT_LEN {
            A_SUT.with(|x| x.free(p, S.env.heap_mode));
        } else {
            A_HAR.with(|x| x.free(p, 9));
        }
    }
}
