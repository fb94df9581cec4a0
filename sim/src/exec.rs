//! Executes a plan: pristine oracles first, each in a process of its own, then the run itself in another.
use crate::plan::*;
use calls::{Ast, Ret};
use simrt::*;
use std::collections::BTreeMap;
use std::fmt::Write;

#[repr(C)]
#[derive(Clone, Copy, PartialEq, Debug, Default)]
pub struct Out {
    pub tag: u32, // 0 tree, 1 error, 2 failure, 3 incomplete, 4 panic, 5 out of memory, 6 crash, 7 runaway
    pub kind: u32,
    pub rem_off: i64,
    pub rem_len: u64,
    pub digest: u64,
    pub hash: u64,
}
#[repr(C)]
#[derive(Clone, Copy, Default)]
pub struct Solo {
    pub out: Out,
    pub steps: u64,
    pub allocs: u64,
    pub io: u64,
}
impl Out {
    pub fn show(&self) -> String {
        match self.tag {
            0 => format!("tree {:016x} hash {:016x}, remainder {} bytes at {}", self.digest, self.hash, self.rem_len, self.rem_off),
            1 => format!("error kind {} at {} ({} bytes left)", self.kind, self.rem_off, self.rem_len),
            2 => format!("failure kind {} at {}", self.kind, self.rem_off),
            3 => format!("incomplete {}", self.kind),
            4 => format!("panic {:016x}", self.digest),
            5 => "allocation failure unwound".into(),
            6 => "crash".into(),
            _ => "does not end".into(),
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Verdict {
    Held,
    Violated(String, String), // class, message
    NoAnswer(String),
    Broken(String),
}

pub struct Ctx {
    pub run_sh: *mut Shared,
    pub ora_sh: *mut Shared,
    pub payload: *mut u8,
    pub cache: BTreeMap<(usize, String), (Solo, Option<String>)>,
    pub oracle_runs: u64,
    pub envs_run: u64,
}
pub const PAYLOAD: usize = 1 << 20;

impl Ctx {
    pub fn new() -> Ctx {
        unsafe {
            Ctx {
                run_sh: sys::map_shared(std::mem::size_of::<Shared>()) as *mut Shared,
                ora_sh: sys::map_shared(std::mem::size_of::<Shared>()) as *mut Shared,
                payload: sys::map_shared(PAYLOAD + 4096),
                cache: BTreeMap::new(), oracle_runs: 0, envs_run: 0,
            }
        }
    }
}

fn fnv(h: u64, b: &[u8]) -> u64 {
    let mut h = h;
    for &x in b {
        h = (h ^ x as u64).wrapping_mul(0x100000001b3);
    }
    h
}

// ------------------------------------------------------------------------------------------------ state of a child

struct Buf {
    p: *mut u8,
    total: usize,
    cap: usize,
    off: usize,
}
struct Slot {
    ast: Option<Box<dyn Ast>>,
    buf: Option<Buf>,
    text: &'static str,
    want: Out,
    users: u32,
    dead: bool,
    entry: usize,
    doc: usize,
}
struct Run {
    plan: Plan,
    oracle: Vec<Option<(Solo, Option<String>)>>, // by uid
    reenter: Vec<Option<Solo>>,                  // by doc
    cursor: Vec<usize>,
    at_end: Vec<Option<usize>>,
    round: Vec<u32>,
    slots: Vec<Slot>,
    bufs: Vec<Vec<Option<Buf>>>, // task, k
    live: Vec<(usize, usize)>,   // live text buffers
    heap_at: Vec<u64>,
    outer: u32,
    kept: u32,
    pairs: Vec<((usize, usize, usize), (bool, i8))>, // entry, two docs: how their trees compare alone
}
static mut RUN: Option<Run> = None;
fn run_state() -> &'static mut Run {
    #[allow(static_mut_refs)]
    unsafe {
        RUN.as_mut().unwrap()
    }
}

struct Sink {
    h: u64,
    keep: Option<String>,
    own: (usize, usize),
    check: bool,
    foreign: bool,
}
impl Sink {
    fn new(own: &str, keep: bool, check: bool) -> Sink {
        let a = own.as_ptr() as usize;
        Sink { h: 0xcbf29ce484222325, keep: if keep { Some(String::new()) } else { None }, own: (a, a + own.len()), check, foreign: false }
    }
}
impl Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        callback_point();
        self.h = fnv(self.h, s.as_bytes());
        if self.check && !s.is_empty() {
            let a = s.as_ptr() as usize;
            if in_sut_heap(a) && !(a >= self.own.0 && a <= self.own.1) {
                for &(lo, hi) in &run_state().live {
                    if a >= lo && a < hi {
                        self.foreign = true;
                    }
                }
            }
        }
        if let Some(k) = &mut self.keep {
            simrt::harness(|| k.push_str(s));
        }
        Ok(())
    }
}

fn marker(n: u32) -> String {
    let mut v = n;
    let mut s = [b'0'; 4];
    for c in s.iter_mut().rev() {
        *c = b"0123456789abcdefghijklmnopqrstuvwxy"[(v % 35) as usize];
        v /= 35;
    }
    format!("zz{}", std::str::from_utf8(&s).unwrap())
}

/// `shift`: that far into the memory obtained, or, from 1 << 20, so that a page ends at that place of the text.
fn new_buf(cap: usize, len: usize, shift: usize) -> Buf {
    let paged = shift >= 1 << 20;
    let total = cap + if paged { 4096 } else { shift };
    let p = text_alloc(total);
    let shift = if paged { (p as usize + (shift & 0xfffff) % (len + 1)).wrapping_neg() % 4096 } else { shift };
    let b = Buf { p, total, cap, off: shift };
    run_state().live.push((p as usize + shift, p as usize + shift + cap));
    b
}
fn drop_buf(b: Buf) {
    let lo = b.p as usize + b.off;
    run_state().live.retain(|x| x.0 != lo);
    text_free(b.p, b.total);
}
fn fill(b: &Buf, s: &str) -> &'static str {
    unsafe {
        std::ptr::copy_nonoverlapping(s.as_ptr(), b.p.add(b.off), s.len());
        std::str::from_utf8_unchecked(std::slice::from_raw_parts(b.p.add(b.off), s.len()))
    }
}
fn rel(text: &str, r: &str) -> (i64, u64) {
    (r.as_ptr() as usize as i64 - text.as_ptr() as usize as i64, r.len() as u64)
}

/// Digest of what a call gave; the tree is handed back.
fn classify(text: &'static str, r: Result<Ret, Box<dyn std::any::Any + Send>>, keep: bool, check: bool) -> (Out, Option<Box<dyn Ast>>, Option<String>, bool) {
    let mut o = Out::default();
    match r {
        Ok(Ret::Ok(ast, rem)) => {
            let mut s = Sink::new(text, keep, check);
            let _ = ast.debug(&mut s);
            o.digest = s.h;
            o.hash = ast.hash64();
            (o.rem_off, o.rem_len) = rel(text, rem);
            let foreign = s.foreign || check && simrt::harness(|| ast.elsewhere(text));
            return (o, Some(ast), s.keep.take(), foreign);
        }
        Ok(Ret::Error(i, k)) => {
            o.tag = 1;
            o.kind = k;
            (o.rem_off, o.rem_len) = rel(text, i);
        }
        Ok(Ret::Failure(i, k)) => {
            o.tag = 2;
            o.kind = k;
            (o.rem_off, o.rem_len) = rel(text, i);
        }
        Ok(Ret::Incomplete(n)) => {
            o.tag = 3;
            o.digest = n as u64;
        }
        Err(p) => {
            o.tag = 4;
            if p.is::<Oom>() {
                o.tag = 5;
            } else if let Some(s) = p.downcast_ref::<&str>() {
                o.digest = fnv(1, s.as_bytes());
            } else if let Some(s) = p.downcast_ref::<String>() {
                o.digest = fnv(1, s.as_bytes());
            }
        }
    }
    (o, None, None, false)
}

// ------------------------------------------------------------------------------------------------ pristine oracle

static mut ORA: (usize, &str, *mut u8, bool) = (0, "", std::ptr::null_mut(), false);

fn oracle_body(_: usize) -> Exit {
    #[allow(static_mut_refs)]
    let (entry, text, payload, keep) = unsafe { ORA };
    let b = new_buf(text.len(), 0, 0);
    let t = fill(&b, text);
    begin_op(1, 30_000_000, 0, AllocFault::None);
    set_phase(1);
    let r = sut(|| (calls::entry(entry).f)(t));
    set_phase(2);
    let (out, ast, dbg, _) = classify(t, r, keep, false);
    let _ = sut(move || drop(ast));
    let (steps, allocs) = end_op();
    unsafe {
        *(payload as *mut Solo) = Solo { out, steps, allocs, io: io_events() };
        let n = dbg.as_ref().map_or(usize::MAX, |d| d.len());
        *(payload.add(512) as *mut usize) = n;
        if let Some(d) = dbg {
            if n <= PAYLOAD {
                std::ptr::copy_nonoverlapping(d.as_ptr(), payload.add(4096), n);
            }
        }
    }
    sh().state = 1;
    unsafe { sys::exit_now(0) }
}

fn empty_run(plan: Plan) -> Run {
    let n = plan.tasks.len();
    Run {
        plan, oracle: vec![], reenter: vec![], cursor: vec![0; n], at_end: vec![None; n], round: vec![0; n], slots: vec![], bufs: vec![],
        live: vec![], heap_at: vec![], outer: 0, kept: 0, pairs: vec![],
    }
}

pub unsafe fn wait(pid: isize) -> i32 {
    let mut st = 0i32;
    loop {
        let r = sys::raw(sys::WAIT4, pid as usize, &mut st as *mut i32 as usize, 0, 0, 0, 0);
        if r == pid {
            return st;
        }
    }
}
unsafe fn reset(s: *mut Shared) {
    let s = &mut *s;
    s.state = 0;
    s.msg_len = 0;
    s.phase = 0;
    s.cur_uid = 0;
    s.steps = 0;
    s.switches = 0;
    s.event_hash = 0;
    s.inter_hash = 0;
    s.faults = [0; NF];
    s.fault_in_cur_op = 0;
    s.corrupt = 0;
    s.io_len = 0;
    s.ntrace = 0;
    s.trace_overflow = 0;
    s.ops = 0;
    s.aux = [0; 16];
}

/// How the call ends when it is the first thing a process does.
pub fn oracle(ctx: &mut Ctx, entry: usize, text: &str, keep: bool) -> (Solo, Option<String>) {
    let key = (entry, text.to_string());
    if let Some(r) = ctx.cache.get(&key) {
        if !keep || r.1.is_some() || r.0.out.tag != 0 {
            return r.clone();
        }
    }
    if ctx.cache.len() > 4000 {
        ctx.cache.clear();
    }
    ctx.oracle_runs += 1;
    let r = unsafe {
        reset(ctx.ora_sh);
        let pid = fork();
        if pid == 0 {
            SH = ctx.ora_sh;
            sys::raw(37, 60, 0, 0, 0, 0, 0); // alarm
            ORA = (entry, &*(text as *const str), ctx.payload, keep);
            RUN = Some(empty_run(Plan::new("", 0)));
            prepare_heap(&EnvCfg::plain());
            // 8 MiB less stack than in a run, where calls also come from deeper down the stack
            let env = EnvCfg { stack_shift: 524_288, ..EnvCfg::plain() };
            simrt::run(1, Policy::sequential(), env, oracle_body);
            sys::exit_now(3);
        }
        assert!(pid > 0, "fork failed");
        wait(pid);
        let s = &*ctx.ora_sh;
        match s.state {
            1 => {
                let solo = *(ctx.payload as *const Solo);
                let n = *(ctx.payload.add(512) as *const usize);
                let d = if n <= PAYLOAD {
                    Some(String::from_utf8_lossy(std::slice::from_raw_parts(ctx.payload.add(4096), n)).into_owned())
                } else {
                    None
                };
                (solo, d)
            }
            2 => (Solo { out: Out { tag: 7, ..Out::default() }, ..Solo::default() }, None),
            _ => (Solo { out: Out { tag: 6, ..Out::default() }, ..Solo::default() }, None),
        }
    };
    ctx.cache.insert(key, r.clone());
    r
}

static mut PAIRS: Vec<(usize, String)> = vec![];
#[allow(static_mut_refs)]
fn pairs_body(_: usize) -> Exit {
    let (list, payload) = unsafe { (&PAIRS, ORA.2) };
    begin_op(1, u64::MAX, 0, AllocFault::None);
    set_phase(1);
    let mut trees = vec![];
    for (e, t) in list {
        let b = new_buf(t.len(), 0, 0);
        let t = fill(&b, t);
        std::mem::forget(b);
        let f = calls::entry(*e).f;
        trees.push(match sut(move || f(t)) {
            Ok(calls::Ret::Ok(a, _)) => Some(a),
            _ => None,
        });
    }
    for (i, a) in trees.iter().enumerate() {
        for (j, b) in trees.iter().enumerate() {
            let r = match (a, b) {
                (Some(a), Some(b)) if list[i].0 == list[j].0 => sut(|| a.cmp_to(&**b)).ok().flatten(),
                _ => None,
            };
            unsafe { *payload.add(4096 + i * trees.len() + j) = r.map_or(99, |(e, o)| (o + 1) as u8 | (e as u8) << 3) };
        }
    }
    sh().state = 1;
    unsafe { sys::exit_now(0) }
}
/// How the trees the plan holds compare in a process that does nothing else.
fn pair_oracle(ctx: &mut Ctx, plan: &Plan) -> Vec<((usize, usize, usize), (bool, i8))> {
    let mut held: Vec<(usize, usize)> = plan.tasks.iter().flatten().filter_map(|o| match o.kind {
        Kind::Parse { entry, doc, hold, .. } if hold != 0 => Some((entry, doc)),
        _ => None,
    }).collect();
    let mut v = vec![];
    if plan.fresh || held.is_empty() || !plan.tasks.iter().flatten().any(|o| matches!(o.kind, Kind::Cmp { .. })) {
        return v;
    }
    held.sort();
    held.dedup();
    held.retain(|(e, d)| oracle(ctx, *e, &plan.docs[*d], false).0.out.tag == 0);
    held.truncate(60);
    unsafe {
        reset(ctx.ora_sh);
        let pid = fork();
        if pid == 0 {
            SH = ctx.ora_sh;
            sys::raw(37, 60, 0, 0, 0, 0, 0);
            ORA.2 = ctx.payload;
            PAIRS = held.iter().map(|(e, d)| (*e, plan.docs[*d].clone())).collect();
            RUN = Some(empty_run(Plan::new("", 0)));
            prepare_heap(&EnvCfg::plain());
            let env = EnvCfg { stack_shift: 524_288, ..EnvCfg::plain() };
            simrt::run(1, Policy::sequential(), env, pairs_body);
            sys::exit_now(3);
        }
        assert!(pid > 0, "fork failed");
        wait(pid);
        if (*ctx.ora_sh).state == 1 {
            for (i, a) in held.iter().enumerate() {
                for (j, b) in held.iter().enumerate() {
                    let c = *ctx.payload.add(4096 + i * held.len() + j);
                    if c != 99 {
                        v.push(((a.0, a.1, b.1), (c >> 3 != 0, (c & 7) as i8 - 1)));
                    }
                }
            }
        }
    }
    v
}

// ------------------------------------------------------------------------------------------------ the run itself

fn violated(class: &str, msg: String) -> ! {
    simrt::fail(class, &msg)
}

/// How much longer the texts of C05's growing plans are in a repetition.
fn growth(round: u32) -> usize {
    match round {
        0..=5 => 1,
        6 | 7 => 4,
        _ => 16,
    }
}
fn doc_text(doc: usize, round: u32) -> (String, Option<String>) {
    let r = run_state();
    let d = &r.plan.docs[doc];
    if r.plan.grow != 0 && growth(round) > 1 {
        return (crate::gen::stretch(d, r.plan.grow, growth(round)), None);
    }
    if r.plan.fresh && d.contains("zz0000") {
        let m = marker(round);
        (d.replace("zz0000", &m), Some(m))
    } else {
        (d.clone(), None)
    }
}

fn check_out(op: &Op, got: &Out, want: &Solo, hit: bool, var: Option<(&str, &Option<String>, &Option<String>)>) {
    if hit && (got.tag == 4 || got.tag == 5) {
        return;
    }
    let mut same = *got == want.out;
    if let Some((m, wd, gd)) = var {
        if got.tag == 0 && want.out.tag == 0 {
            same = got.rem_off == want.out.rem_off && got.rem_len == want.out.rem_len
                && match (wd, gd) {
                    (Some(w), Some(g)) => w.replace("zz0000", m) == *g,
                    _ => true,
                };
        }
    }
    if !same {
        // a variant's expectation is derived; the parent confirms it against a process of its own
        let s = sh();
        s.aux[0] = var.is_some() as u64;
        if let Kind::Parse { entry, .. } = op.kind {
            s.aux[1] = entry as u64;
        }
        s.aux[2] = run_state().outer as u64;
        s.aux[3] = run_state().round[me()] as u64;
        let w = [got.tag as u64 | (got.kind as u64) << 32, got.rem_off as u64, got.rem_len, got.digest, got.hash];
        s.aux[4..9].copy_from_slice(&w);
        s.aux[9] = op.uid as u64;
        violated("outcome", format!("operation {} (task {}) ended with [{}]; the same call alone in a fresh process ends with [{}]",
            op.uid, me(), got.show(), want.out.show()));
    }
}

fn drop_slot(i: usize) {
    let s = &mut run_state().slots[i];
    if s.users > 0 {
        s.dead = true;
        return;
    }
    s.dead = false;
    let ast = s.ast.take();
    let buf = s.buf.take();
    if let Some(a) = ast {
        set_phase(1);
        let r = sut(move || drop(a));
        set_phase(2);
        if r.is_err() {
            violated("crash", "destroying a tree panicked".into());
        }
    }
    if let Some(b) = buf {
        drop_buf(b);
    }
}
fn use_slot<R>(i: usize, f: impl FnOnce(&'static dyn Ast, &'static str, Out) -> R) -> Option<R> {
    let s = &mut run_state().slots[i];
    if s.dead {
        return None;
    }
    let ast: &'static dyn Ast = unsafe { &*(&**s.ast.as_ref()? as *const dyn Ast) };
    s.users += 1;
    let (text, want) = (s.text, s.want);
    let r = f(ast, text, want);
    let s = &mut run_state().slots[i];
    s.users -= 1;
    if s.users == 0 && s.dead {
        drop_slot(i);
    }
    Some(r)
}

fn do_op(t: usize, op: &Op) {
    let r = run_state();
    let c04 = r.plan.prop == "C04";
    match op.kind {
        Kind::Parse { entry, doc, buf, hold } => {
            let Some((want, want_dbg)) = &r.oracle[op.uid as usize] else { return };
            let (budget, fair) = if r.plan.prop == "C03" { (want.steps * 4 + 30_000, 0) } else { (want.steps * 16 + 500_000, 8) };
            let round = r.round[t] + r.outer;
            let by = if r.plan.grow != 0 { growth(round) as u64 } else { 1 };
            // larger texts may take very much longer; that is not what such a run is about
            let (budget, fair) = if by > 1 { ((budget * by * by).min(400_000_000), 0) } else { (budget, fair) };
            begin_op(op.uid, budget, fair, op.fault);
            let (s, var) = doc_text(doc, round);
            let shift = r.plan.env.text_shift as usize;
            let mut fresh = None;
            let text = if buf == 0 || hold != 0 {
                let b = new_buf(s.len(), s.len(), shift);
                let x = fill(&b, &s);
                fresh = Some(b);
                x
            } else {
                let slot = &mut r.bufs[t][buf as usize - 1];
                if slot.as_ref().map_or(true, |b| b.cap < s.len()) {
                    if let Some(b) = slot.take() {
                        drop_buf(b);
                    }
                    *slot = Some(new_buf(s.len().max(512).next_power_of_two(), s.len(), shift));
                } else {
                    count(F_TEXT_REUSE);
                }
                fill(slot.as_ref().unwrap(), &s)
            };
            set_phase(1);
            let f = calls::entry(entry).f;
            let res = sut(move || f(text));
            let hit = clear_fault();
            set_phase(2);
            let (out, ast, dbg, foreign) = classify(text, res, var.is_some(), c04);
            log_event(out.digest ^ out.tag as u64 ^ (out.rem_off as u64) << 8);
            if by == 1 {
                check_out(op, &out, want, hit, var.as_deref().map(|m| (m, want_dbg, &dbg)));
            }
            if foreign {
                violated("foreign-text", format!("the tree of operation {} refers to something else than its own text", op.uid));
            }
            let r = run_state();
            if hold != 0 && ast.is_some() {
                let i = hold as usize - 1;
                // occupied: replace, unless it is in use. Another task may fill it while the old tree is destroyed.
                while r.slots[i].ast.is_some() {
                    if r.slots[i].users > 0 {
                        let _ = sut(move || drop(ast));
                        if let Some(b) = fresh {
                            drop_buf(b);
                        }
                        end_op();
                        set_phase(0);
                        return;
                    }
                    drop_slot(i);
                }
                r.slots[i] = Slot { ast, buf: fresh, text, want: out, users: 0, dead: false, entry, doc };
            } else {
                set_phase(1);
                let _ = sut(move || drop(ast));
                set_phase(2);
                if let Some(b) = fresh {
                    drop_buf(b);
                }
            }
            end_op();
        }
        Kind::Read { slot, how } => {
            begin_op(op.uid, 60_000_000, 2, AllocFault::None);
            set_phase(2);
            use_slot(slot, |ast, text, want| {
                let bad = match how {
                    0 => {
                        let mut s = Sink::new(text, false, true);
                        let _ = sut(|| ast.debug(&mut s));
                        if s.foreign {
                            violated("foreign-text", format!("a held tree refers to the text of another parse (operation {})", op.uid));
                        }
                        s.h != want.digest
                    }
                    1 => sut(|| ast.hash64()).ok() != Some(want.hash),
                    _ => match sut(|| {
                        let c = ast.dup();
                        let e = ast.cmp_to(&*c);
                        let e2 = c.cmp_to(ast);
                        (c, e, e2)
                    }) {
                        Ok((c, e, e2)) => {
                            let mut s = Sink::new(text, false, true);
                            let _ = c.debug(&mut s);
                            let h = c.hash64();
                            let _ = sut(move || drop(c));
                            s.h != want.digest || h != want.hash || e != Some((true, 0)) || e2 != Some((true, 0)) || s.foreign
                        }
                        Err(_) => true,
                    },
                };
                if bad {
                    violated("tree-changed", format!("operation {} (task {}): {} a held tree no longer gives what it gave when it was returned",
                        op.uid, me(), ["printing", "hashing", "cloning and comparing"][how.min(2) as usize]));
                }
            });
            end_op();
        }
        Kind::Cmp { a, b } => {
            begin_op(op.uid, 60_000_000, 2, AllocFault::None);
            set_phase(2);
            use_slot(a, |x, _, _| {
                use_slot(b, |y, _, _| {
                    let r = run_state();
                    let (e, da, db) = (r.slots[a].entry, r.slots[a].doc, r.slots[b].doc);
                    let known = |p, q| if r.slots[b].entry == e { r.pairs.iter().find(|k| k.0 == (e, p, q)).map(|k| k.1) } else { None };
                    // as in a process of its own; where that is not known, as undisturbed here
                    let alone = match (known(da, db), known(db, da)) {
                        (Some(p), Some(q)) => (Some(p), Some(q)),
                        _ => (x.cmp_to(y), y.cmp_to(x)),
                    };
                    let got = sut(|| (x.cmp_to(y), y.cmp_to(x))).ok();
                    let r = run_state();
                    let equal = r.slots[a].entry == r.slots[b].entry && r.slots[a].doc == r.slots[b].doc && !r.plan.fresh;
                    if got != Some(alone) || (equal && alone.0 != Some((true, 0))) {
                        violated("tree-changed", format!("operation {} (task {}): comparing two held trees gives {:?}, alone {:?}, same text: {}",
                            op.uid, me(), got, alone, equal));
                    }
                });
            });
            end_op();
        }
        Kind::Drop { slot } => {
            begin_op(op.uid, 60_000_000, 2, AllocFault::None);
            if run_state().slots[slot].ast.is_some() && !run_state().slots[slot].dead {
                drop_slot(slot);
            }
            end_op();
        }
        Kind::Comp { case } => crate::compcase::run_case(op, case),
        Kind::Many { entry, doc, times } => {
            let one = Op { uid: op.uid, kind: Kind::Parse { entry, doc, buf: 1, hold: 0 }, fault: op.fault };
            for _ in 0..times {
                do_op(t, &one);
            }
        }
        Kind::Respawn => {}
    }
    set_phase(0);
}

pub fn reenter_oracle(doc: usize) -> Option<Solo> {
    run_state().reenter[doc]
}
pub fn the_plan() -> &'static Plan {
    &run_state().plan
}
/// A component calls the library again.
pub fn reenter(doc: usize) -> bool {
    let Some(want) = reenter_oracle(doc) else { return true };
    let s = &run_state().plan.docs[doc];
    let b = new_buf(s.len(), 0, 0);
    let text = fill(&b, s);
    let f = calls::entry(0).f;
    let res = sut(move || f(text));
    let (out, ast, _, _) = classify(text, res, false, false);
    let _ = sut(move || drop(ast));
    drop_buf(b);
    out == want.out
}

/// Calls come from different depths of the caller's stack.
fn depth(op: &Op) -> u32 {
    let h = mix(run_state().plan.env.heap_seed ^ 0xdee9, op.uid as u64);
    if h & 7 != 0 {
        return 0;
    }
    [1, 2, 4, 9, 20, 60, 130, 230][(h >> 8) as usize & 7]
}
#[inline(never)]
fn deep(n: u32, f: &mut dyn FnMut()) {
    let mut a = [0u8; 4000];
    std::hint::black_box(&mut a);
    if n == 0 {
        f()
    } else {
        deep(n - 1, f)
    }
    std::hint::black_box(&mut a);
}

/// Some calls are made by a destructor while a panic of the caller's is on its way.
fn unwinding(op: &Op) -> bool {
    mix(run_state().plan.env.heap_seed ^ 0xd409, op.uid as u64) & 15 == 3 && matches!(op.kind, Kind::Parse { .. })
}
fn while_unwinding(f: &mut dyn FnMut()) {
    struct Late<'a>(&'a mut dyn FnMut());
    impl Drop for Late<'_> {
        fn drop(&mut self) {
            (self.0)()
        }
    }
    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let _late = Late(f);
        std::panic::resume_unwind(Box::new(()));
    }));
}
/// Some calls are made by the last destructor of the thread's local data.
fn at_end(op: &Op) -> bool {
    let r = run_state();
    r.plan.prop == "C02" && mix(r.plan.env.heap_seed ^ 0xe4d, op.uid as u64) & 3 == 1 && matches!(op.kind, Kind::Parse { .. })
}
fn last(t: usize) {
    if let Some(i) = run_state().at_end[t].take() {
        let op = run_state().plan.tasks[t][i].clone();
        do_op(t, &op);
    }
}

fn body(t: usize) -> Exit {
    let r = run_state();
    loop {
        while r.cursor[t] < r.plan.tasks[t].len() {
            let i = r.cursor[t];
            r.cursor[t] += 1;
            let op = r.plan.tasks[t][i].clone();
            if op.kind == Kind::Respawn {
                return Exit::Respawn;
            }
            if at_end(&op) && r.plan.tasks[t].get(i + 1).map_or(r.plan.repeat <= 1 || r.plan.restart, |o| o.kind == Kind::Respawn) {
                count(F_AT_END);
                r.at_end[t] = Some(i);
                continue;
            }
            if unwinding(&op) {
                count(F_UNWINDING);
                while_unwinding(&mut || do_op(t, &op));
            } else {
                deep(depth(&op), &mut || do_op(t, &op));
            }
        }
        if r.plan.restart {
            return Exit::Finished;
        }
        r.round[t] += 1;
        if t == 0 && r.plan.prop == "C05" {
            empty_slots();
            if heap_settled() {
                return Exit::Finished;
            }
        }
        if r.round[t] >= r.plan.repeat {
            return Exit::Finished;
        }
        r.cursor[t] = 0;
    }
}
fn empty_slots() {
    for i in 0..run_state().slots.len() {
        if run_state().slots[i].ast.is_some() {
            drop_slot(i);
        }
    }
    let r = run_state();
    for t in r.bufs.iter_mut() {
        for b in t.iter_mut() {
            if let Some(b) = b.take() {
                drop_buf(b);
            }
        }
    }
    set_phase(0);
}

/// C05: after every repetition. True: the memory in use has settled.
fn heap_settled() -> bool {
    let r = run_state();
    r.heap_at.push(sut_heap().0);
    let n = r.heap_at.len();
    let h = |c: usize| r.heap_at[c - 1];
    let kept = heap_round();
    if r.plan.grow != 0 {
        if n == 10 && h(6) < h(8) && h(8) < h(10) {
            violated("leak", format!("memory in use after parsing texts as they are, four times and sixteen times as long, everything dropped: {} {} {} bytes",
                h(6), h(8), h(10)));
        }
        return n == 10;
    }
    r.kept += (n > 16 && n <= 64 && kept > 0) as u32;
    if n == 64 && r.kept >= 24 {
        violated("leak", format!("in {} of the repetitions 17 to 64 of the same calls memory obtained by them was still in use when everything had been dropped; {} bytes are in use",
            r.kept, h(64)));
    }
    if n == 64 {
        return r.heap_at[15..64].iter().all(|x| *x == h(16));
    }
    if n == 512 {
        let w = [(64, 128), (128, 256), (256, 512)];
        let grew = w.iter().filter(|(a, b)| h(*b) > h(*a)).count();
        if grew >= 2 {
            violated("leak", format!("memory in use after repetitions 64, 128, 256, 512 of the same calls, everything dropped: {} {} {} {} bytes",
                h(64), h(128), h(256), h(512)));
        }
        return true;
    }
    false
}

fn child(plan: &Plan, env: &EnvCfg, pairs: Vec<((usize, usize, usize), (bool, i8))>, oracle: Vec<Option<(Solo, Option<String>)>>, reenter: Vec<Option<Solo>>) -> ! {
    unsafe {
        let limit = if plan.long() { 600 } else { 60 };
        sys::raw(37, limit, 0, 0, 0, 0, 0);
        let mut plan = plan.clone();
        plan.env = *env;
        BUDGET_IS_VIOLATION = !matches!(plan.prop.as_str(), "C07" | "C08" | "C09") && plan.grow == 0;
        if env.env_hostile {
            hostile_environment();
        }
        simrt::burn_ids(env.ids);
        simrt::set_last(if plan.prop == "C02" { Some(last) } else { None });
        let n = plan.tasks.len();
        let mut st = empty_run(plan.clone());
        st.oracle = oracle;
        st.reenter = reenter;
        st.pairs = pairs;
        let nslots = 1 + plan.tasks.iter().flatten().map(|o| match o.kind {
            Kind::Parse { hold, .. } => hold as usize,
            Kind::Read { slot, .. } | Kind::Drop { slot } => slot + 1,
            Kind::Cmp { a, b } => a.max(b) + 1,
            _ => 0,
        }).max().unwrap_or(0);
        for _ in 0..nslots {
            st.slots.push(Slot { ast: None, buf: None, text: "", want: Out::default(), users: 0, dead: false, entry: 0, doc: 0 });
        }
        for _ in 0..n {
            st.bufs.push((0..4).map(|_| None).collect());
        }
        RUN = Some(st);
        crate::compcase::install(n);
        calls::POINT = callback_point;
        prepare_heap(env);
        let rounds = if plan.restart { plan.repeat } else { 1 };
        for round in 0..rounds {
            let r = run_state();
            r.outer = round;
            r.cursor = vec![0; n];
            let p = &plan.policy;
            let pol = Policy {
                seed: p.seed, random: p.random, mean_gap: p.mean_gap, hot_p: p.hot_p, alloc_p: p.alloc_p, op_p: p.op_p,
                comp_p: p.comp_p, stall_p: p.stall_p, sites: p.sites.clone(), planned: plan.planned.clone(),
            };
            let end = simrt::run(n, pol, *env, body);
            if end == End::Deadlock {
                violated("blocked", "no task can go on: a parse waits for another one that never lets it proceed".into());
            }
            if plan.restart && plan.prop == "C05" {
                empty_slots();
                if heap_settled() {
                    break;
                }
            }
        }
        if sh().corrupt != 0 {
            violated("corrupt", "memory was released twice".into());
        }
        if plan.prop == "C11" {
            simrt::run(1, Policy::sequential(), *env, |_| {
                begin_op(u32::MAX, u64::MAX, 0, AllocFault::None);
                // anything the library left in a stream buffer comes out now
                let _ = sut(|| {
                    use std::io::Write;
                    let _ = std::io::stdout().flush();
                });
                end_op();
                Exit::Finished
            });
            if sh().io_len > 0 {
                let s = sh();
                let m = String::from_utf8_lossy(&s.io_msg[..s.io_len as usize]).into_owned();
                violated("io", format!("during a parse: {m}"));
            }
        }
        sh().state = 1;
        sys::exit_now(0)
    }
}

pub fn execute(ctx: &mut Ctx, plan: &Plan) -> Verdict {
    let maxuid = plan.tasks.iter().flatten().map(|o| o.uid).max().unwrap_or(0) as usize;
    let mut ora: Vec<Option<(Solo, Option<String>)>> = vec![None; maxuid + 1];
    for op in plan.tasks.iter().flatten() {
        if let Some((entry, doc)) = op.kind.target() {
            let keep = plan.fresh && plan.docs[doc].contains("zz0000");
            let (s, d) = oracle(ctx, entry, &plan.docs[doc], keep);
            if s.out.tag < 5 {
                ora[op.uid as usize] = Some((s, d));
            }
        }
    }
    let mut re: Vec<Option<Solo>> = vec![None; plan.docs.len()];
    for c in &plan.cases {
        for e in &c.events {
            if let Do::Reenter(d) = e.what {
                if (d as usize) < plan.docs.len() {
                    let (s, _) = oracle(ctx, 0, &plan.docs[d as usize], false);
                    if s.out.tag < 5 {
                        re[d as usize] = Some(s);
                    }
                }
            }
        }
    }
    let pairs = pair_oracle(ctx, plan);
    let mut envs = vec![plan.env];
    envs.extend(plan.envs.iter().cloned());
    let mut last = Verdict::Held;
    unsafe { reset(ctx.run_sh) };
    for (i, env) in envs.iter().enumerate() {
        ctx.envs_run += 1;
        let v = unsafe {
            let keep = (*ctx.run_sh).faults;
            let (st, sw, eh, ih, ops) = {
                let s = &*ctx.run_sh;
                (s.steps, s.switches, s.event_hash, s.inter_hash, s.ops)
            };
            reset(ctx.run_sh);
            let pid = fork();
            if pid == 0 {
                SH = ctx.run_sh;
                child(plan, env, pairs.clone(), ora.clone(), re.clone());
            }
            assert!(pid > 0, "fork failed");
            let status = wait(pid);
            let s = &mut *ctx.run_sh;
            for k in 0..NF {
                s.faults[k] += keep[k];
            }
            s.steps += st;
            s.switches += sw;
            s.ops += ops;
            s.event_hash = mix(eh, s.event_hash);
            s.inter_hash = mix(ih, s.inter_hash);
            let msg = String::from_utf8_lossy(&s.msg[..s.msg_len as usize]).into_owned();
            match s.state {
                1 => Verdict::Held,
                2 => {
                    let (c, m) = msg.split_once(": ").unwrap_or(("?", &msg));
                    Verdict::Violated(c.into(), if i == 0 { m.into() } else { format!("{m} (environment variant {i})") })
                }
                3 => Verdict::NoAnswer(msg),
                _ => {
                    let sig = status & 0x7f;
                    if sig == 6 && s.fault_in_cur_op != 0 {
                        Verdict::Held // a failed allocation may abort the process
                    } else if sig == 14 {
                        Verdict::NoAnswer(format!("operation {} did not end", s.cur_uid))
                    } else if sig != 0 && s.phase != 0 {
                        Verdict::Violated("crash".into(), format!("operation {} ended the process with signal {sig}", s.cur_uid))
                    } else {
                        Verdict::Broken(format!("child ended with status {status:x} in phase {}", s.phase))
                    }
                }
            }
        };
        if v != Verdict::Held {
            last = v;
            break;
        }
    }
    // an expectation derived for a renamed text is confirmed against a process of its own
    if let Verdict::Violated(c, _) = &last {
        let s = unsafe { &*ctx.run_sh };
        if c == "outcome" && s.aux[0] == 1 {
            let (entry, round, uid) = (s.aux[1] as usize, (s.aux[2] + s.aux[3]) as u32, s.aux[9] as u32);
            let got = Out {
                tag: s.aux[4] as u32, kind: (s.aux[4] >> 32) as u32, rem_off: s.aux[5] as i64, rem_len: s.aux[6],
                digest: s.aux[7], hash: s.aux[8],
            };
            let doc = plan.tasks.iter().flatten().find(|o| o.uid == uid).and_then(|o| o.kind.target()).map(|t| t.1);
            if let Some(doc) = doc {
                let text = plan.docs[doc].replace("zz0000", &marker(round));
                let (solo, _) = oracle(ctx, entry, &text, false);
                if solo.out == got {
                    return Verdict::NoAnswer("the renamed text is read differently".into());
                }
            }
        }
    }
    last
}
