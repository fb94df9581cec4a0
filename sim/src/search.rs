//! Seeded search over runs, minimisation of what fails, replay files, evidence.
use crate::exec::{execute, wait, Ctx, Verdict};
use crate::plan::*;
use crate::props::{self, Tier};
use simrt::*;
use std::sync::atomic::{AtomicU64, Ordering};

const MAX_HASHES: usize = 1 << 21;
const KEEP_EVENTS: usize = 4096;

#[repr(C)]
pub struct Stats {
    runs: AtomicU64,
    held: AtomicU64,
    noanswer: AtomicU64,
    broken: AtomicU64,
    ops: AtomicU64,
    steps: AtomicU64,
    switches: AtomicU64,
    oracles: AtomicU64,
    children: AtomicU64,
    nontrivial: AtomicU64,
    faults: [AtomicU64; NF],
    nhash: AtomicU64,
    first_bad: AtomicU64,
    unstable: AtomicU64,
    next: AtomicU64,
    sites: [u8; MAX_SITES],
    na_msg: [u8; 256],
    br_msg: [u8; 512],
    events: [u64; KEEP_EVENTS],
    hashes: [u64; MAX_HASHES],
}

pub struct Budget {
    pub runs: u64,
    pub wall_s: u64,
    pub workers: usize,
    pub tier: Tier,
}
pub fn budget(prop: &str, thorough: bool) -> Budget {
    // runs of the quick tier, about a minute on eight cores
    let quick = match prop {
        "C01" => 40_000,
        "C02" => 12_000,
        "C03" => 60_000,
        "C04" => 40_000,
        "C05" => 8_000,
        "C06" => 28_000,
        "C11" => 36_000,
        "C07" => 100_000,
        "C09" => 130_000,
        "C08" => 250_000,
        _ => 200_000,
    };
    if thorough {
        Budget { runs: quick * 25, wall_s: 3000, workers: 8, tier: Tier { marathon_every: 400, marathon_steps: 3_000_000_000 } }
    } else {
        Budget { runs: quick, wall_s: 200, workers: 8, tier: Tier { marathon_every: 500, marathon_steps: 250_000_000 } }
    }
}

fn make_pool(prop: &str, seed: u64, thorough: bool, workers: usize) {
    if !matches!(prop, "C07" | "C08" | "C09" | "C10") {
        crate::seeds::build(seed, if thorough { 1000 } else { 150 }, 4, workers);
    } else {
        crate::seeds::build(seed, 0, 0, workers);
    }
    let p = crate::seeds::pool();
    unsafe {
        calls::comp::NUMBERS = p.ints.iter().copied().filter(|n| *n <= 70_000).collect();
        calls::comp::FRAGMENTS = p.words.iter().filter(|w| !w.contains('"')).cloned().collect();
    }
}

/// Was the technique at work in this run: a fault or a switch inside an operation happened.
fn nontrivial(prop: &str, s: &Shared) -> bool {
    let f = &s.faults;
    match prop {
        "C01" => s.trace[..s.ntrace as usize].iter().any(|t| !matches!(t.kind, K_OP | K_FORCED | K_START)),
        "C02" => s.ops >= 2,
        "C03" => f[F_STALL_FOREVER] + f[F_STALL_LONG] + f[F_ALLOC_FAIL] + f[F_COMP_PANIC] > 0,
        "C04" => f[F_ALLOC_REUSE] > 0 || s.switches > 2,
        "C05" => s.ops > 0,
        "C06" => f[F_ALLOC_FAIL] > 0,
        "C07" => f[F_COMP_ERROR] > 0,
        "C08" => f[F_COMP_FAILURE] + f[F_COMP_INCOMPLETE] > 0,
        "C09" => f[F_COMP_PANIC] + f[F_COMP_DROP_PANIC] > 0,
        "C10" => f[F_COMP_EMPTY] > 0,
        _ => true,
    }
}

fn worker(prop: &str, seed: u64, b: &Budget, st: &mut Stats, stop_at: u64, pin: Option<usize>) -> ! {
    unsafe {
        if let Some(c) = pin {
            let mut m = [0u64; 16];
            m[c / 64] = 1 << (c % 64);
            sys::raw(sys::SCHED_SETAFFINITY, 0, 128, m.as_ptr() as usize, 0, 0, 0);
        }
        let mut ctx = Ctx::new();
        SH = ctx.run_sh;
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| loop {
            let i = st.next.fetch_add(1, Ordering::SeqCst);
            if i >= b.runs || i >= st.first_bad.load(Ordering::SeqCst) || sys::now_ns() > stop_at {
                break;
            }
            let plan = props::make(&mut ctx, prop, seed, i, b.tier);
            let v = execute(&mut ctx, &plan);
            let s = &*ctx.run_sh;
            st.runs.fetch_add(1, Ordering::Relaxed);
            st.ops.fetch_add(s.ops, Ordering::Relaxed);
            st.steps.fetch_add(s.steps, Ordering::Relaxed);
            st.switches.fetch_add(s.switches, Ordering::Relaxed);
            for k in 0..NF {
                st.faults[k].fetch_add(s.faults[k], Ordering::Relaxed);
            }
            if (i as usize) < KEEP_EVENTS {
                st.events[i as usize] = s.event_hash;
            }
            match v {
                Verdict::Held => {
                    st.held.fetch_add(1, Ordering::Relaxed);
                }
                Verdict::NoAnswer(m) => {
                    st.noanswer.fetch_add(1, Ordering::Relaxed);
                    let n = m.len().min(255);
                    st.na_msg[..n].copy_from_slice(&m.as_bytes()[..n]);
                    st.na_msg[n] = 0;
                }
                Verdict::Broken(m) => {
                    st.broken.fetch_add(1, Ordering::Relaxed);
                    let m = format!("run {i}: {m}");
                    let n = m.len().min(511);
                    st.br_msg[..n].copy_from_slice(&m.as_bytes()[..n]);
                    st.br_msg[n] = 0;
                }
                Verdict::Violated(..) => {
                    // once more: only what repeats counts
                    if matches!(execute(&mut ctx, &plan), Verdict::Violated(..)) {
                        st.first_bad.fetch_min(i, Ordering::SeqCst);
                    } else {
                        st.unstable.fetch_add(1, Ordering::SeqCst);
                    }
                }
            }
            if nontrivial(prop, s) {
                st.nontrivial.fetch_add(1, Ordering::Relaxed);
                let k = st.nhash.fetch_add(1, Ordering::Relaxed) as usize;
                if k < MAX_HASHES {
                    st.hashes[k] = if prop == "C01" || prop == "C03" { s.inter_hash } else { s.event_hash };
                }
            }
        }));
        st.oracles.fetch_add(ctx.oracle_runs, Ordering::Relaxed);
        st.children.fetch_add(ctx.envs_run, Ordering::Relaxed);
        for k in 0..MAX_SITES {
            if (*ctx.run_sh).sites[k] != 0 || (*ctx.ora_sh).sites[k] != 0 {
                st.sites[k] = 1;
            }
        }
        if r.is_err() {
            let m = b"a worker of the harness panicked\0";
            st.br_msg[..m.len()].copy_from_slice(m);
            st.broken.fetch_add(1, Ordering::SeqCst);
        }
        sys::exit_now(0)
    }
}

fn cstr(b: &[u8]) -> String {
    let n = b.iter().position(|x| *x == 0).unwrap_or(b.len());
    String::from_utf8_lossy(&b[..n]).into_owned()
}

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn check(prop: &str, seed: u64, thorough: bool, root: &str, runs: Option<u64>, workers: Option<usize>) -> i32 {
    let t0 = sys::now_ns();
    let mut b = budget(prop, thorough);
    if let Some(r) = runs {
        b.runs = r;
    }
    if let Some(w) = workers {
        b.workers = w;
    }
    make_pool(prop, seed, thorough, b.workers);
    let st = unsafe { &mut *(sys::map_shared(std::mem::size_of::<Stats>()) as *mut Stats) };
    st.first_bad.store(u64::MAX, Ordering::SeqCst);
    let mut pids = vec![];
    let cpus = std::thread::available_parallelism().map_or(1, |n| n.get());
    for w in 0..b.workers {
        unsafe {
            let pid = fork();
            if pid == 0 {
                worker(prop, seed, &b, st, t0 + b.wall_s * 1_000_000_000, if cpus >= b.workers { Some(w) } else { None });
            }
            pids.push(pid);
        }
    }
    let mut died = 0;
    for p in pids {
        let s = unsafe { wait(p) };
        if s != 0 {
            died += 1;
        }
    }
    let mut ctx = Ctx::new();
    unsafe { SH = ctx.run_sh };
    let bad = st.first_bad.load(Ordering::SeqCst);
    let mut code = 0;
    let mut found = None;
    let mut extra = String::new();

    // part of C04 that no run decides: the types themselves
    if prop == "C04" {
        let no: Vec<_> = calls::auto_traits().into_iter().filter(|x| !x.1 || !x.2).collect();
        if let Some(x) = no.first() {
            let path = format!("{root}/replays/C04-types.replay");
            let _ = std::fs::create_dir_all(format!("{root}/replays"));
            let _ = std::fs::write(&path, format!("property C04\ntypes {}\n# violation not-shareable: {} Send={} Sync={}\n", x.0, x.0, x.1, x.2));
            println!("violation class not-shareable: {} Send={} Sync={}", x.0, x.1, x.2);
            println!("VIOLATION property=C04 replay={path}");
            code = 1;
            found = Some(path);
        }
    }
    if code == 0 && bad != u64::MAX {
        let plan = props::make(&mut ctx, prop, seed, bad, b.tier);
        let mut v = execute(&mut ctx, &plan);
        for _ in 0..4 {
            if matches!(v, Verdict::Violated(..)) {
                break;
            }
            v = execute(&mut ctx, &plan);
        }
        if let Verdict::Violated(class, msg) = v {
            println!("run {bad} (seed {seed}): {class}: {msg}");
            let whole = (plan.clone(), class.clone(), msg.clone());
            let small = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| minimise(&mut ctx, plan, class, msg)));
            let (small, class, msg) = small.unwrap_or_else(|_| {
                execute(&mut ctx, &whole.0);
                whole
            });
            let dir = format!("{root}/replays");
            let _ = std::fs::create_dir_all(&dir);
            let path = format!("{dir}/{prop}-{seed}-{bad}.replay");
            let ev = unsafe { (*ctx.run_sh).event_hash };
            let body = format!("# weedle-sim replay file; run: /verif/replay.sh {path}\n# seed {seed} run {bad}\n# violation {class}: {}\n# events {ev:016x}\n{}",
                msg.replace('\n', " "), small.to_text());
            if std::fs::write(&path, &body).is_err() {
                eprintln!("cannot write {path}");
                return 2;
            }
            // a fresh process reproduces it from the file alone
            let exe = std::env::current_exe().unwrap();
            let o = std::process::Command::new(exe).arg("replay").arg(&path).output();
            let ok = o.as_ref().map_or(false, |o| o.status.code() == Some(1));
            println!("minimised to {} operations in {} tasks, {} scheduling decisions; replayed in a fresh process: {}",
                small.nops(), small.tasks.len(), small.planned.len(), if ok { "same violation" } else { "NOT reproduced" });
            println!("violation class {class}: {msg}");
            println!("VIOLATION property={prop} replay={path}");
            code = 1;
            found = Some(path);
        } else {
            eprintln!("run {bad} failed in a worker but not here");
            code = 2;
        }
    }
    // determinism: some of the runs again, here, and the event logs compared
    let mut same = 0;
    let mut differ = 0;
    if code == 0 {
        let n = st.runs.load(Ordering::SeqCst).min(64).min(KEEP_EVENTS as u64);
        for i in 0..n {
            let plan = props::make(&mut ctx, prop, seed, i, b.tier);
            if plan.long() {
                continue;
            }
            execute(&mut ctx, &plan);
            if unsafe { (*ctx.run_sh).event_hash } == st.events[i as usize] {
                same += 1;
            } else {
                differ += 1;
            }
        }
    }
    let broken = st.broken.load(Ordering::SeqCst);
    if code == 0 && (broken > 0 || died > 0) {
        eprintln!("harness error: {} broken runs, {} workers died: {}", broken, died, cstr(&st.br_msg));
        code = 2;
    }
    let runs = st.runs.load(Ordering::SeqCst);
    let na = st.noanswer.load(Ordering::SeqCst);
    if code == 0 && na * 2 > runs {
        eprintln!("more than half of the runs gave no answer: {}", cstr(&st.na_msg));
        code = 2;
    }
    if na > 0 {
        eprintln!("{na} runs without answer, the last: {}", cstr(&st.na_msg));
    }
    if differ > 0 {
        eprintln!("warning: {differ} of {} repeated runs had another event log", same + differ);
    }

    // evidence
    let nh = (st.nhash.load(Ordering::SeqCst) as usize).min(MAX_HASHES);
    let mut h = st.hashes[..nh].to_vec();
    h.sort_unstable();
    h.dedup();
    let wall = (sys::now_ns() - t0) as f64 / 1e9;
    let covered = st.sites.iter().filter(|x| **x != 0).count();
    let mut samples = vec![];
    for i in 0..3u64.min(runs) {
        let p = props::make(&mut ctx, prop, seed, i, b.tier);
        let mut t = p.to_text();
        if t.len() > 1500 {
            let mut k = 1500;
            while !t.is_char_boundary(k) {
                k -= 1;
            }
            t.truncate(k);
            t.push_str("...");
        }
        samples.push(jstr(&t));
    }
    let steps = st.steps.load(Ordering::SeqCst);
    let faults: Vec<String> =
        (0..NF).map(|k| format!("{}: {}", jstr(F_NAMES[k]), st.faults[k].load(Ordering::SeqCst))).collect();
    extra.push_str(&format!("\"operations\": {}, \"simulated_steps\": {}, \"context_switches\": {}, \"runs_per_hour\": {}, \"seeds_per_hour\": {}, ",
        st.ops.load(Ordering::SeqCst), steps, st.switches.load(Ordering::SeqCst), (runs as f64 / wall * 3600.0) as u64, (runs as f64 / wall * 3600.0) as u64));
    extra.push_str(&format!("\"pristine_oracle_processes\": {}, \"simulated_processes\": {}, \"runs_without_answer\": {}, \"unstable\": {}, ",
        st.oracles.load(Ordering::SeqCst), st.children.load(Ordering::SeqCst), na, st.unstable.load(Ordering::SeqCst)));
    extra.push_str(&format!("\"determinism_recheck\": {{\"same\": {same}, \"different\": {differ}}}, \"code_sites\": {{\"reached\": {covered}, \"instrumented\": {}}}, ", nsites()));
    extra.push_str(&format!("\"simulated_time\": {}, ", jstr(&format!("{steps} instruction-level steps (one per basic block, load, store, allocation or component call of the library); simulated time advances one nanosecond per step"))));
    extra.push_str("\"real_components\": [\"weedle (all of /repo/src)\", \"nom\", \"std\", \"OS threads and thread-locals\"], \"stub_components\": [\"global allocator\", \"thread scheduler\", \"futex\", \"clocks and sleeps\", \"getrandom\", \"environment variables\", \"file and stream calls\", \"user-written component parsers (C07-C10)\"], ");
    extra.push_str(&format!("\"fault_kinds_injected\": {{{}}}", faults.join(", ")));
    let rule = match prop {
        "C01" | "C03" => "one run = one seeded schedule of a generated workload; distinct = different sequence of (from task, to task, kind of point, code site); non-trivial = at least one switch inside an operation (C01), at least one stall or unwinding (C03)",
        _ => "one run = one seeded plan; distinct = different event log (switches, faults, component calls and outcomes); non-trivial = the property's own fault kind fired or the history has at least two operations",
    };
    let ev = format!("{{\"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"exploration\", \"coverage\": {{\"evaluations\": {}, \"distinct_nontrivial\": {}, \"rule\": {}, \"samples\": [{}], {}}}, \"assumptions\": [{}], \"wall_s\": {:.2}, \"violations\": {}}}\n",
        jstr(prop), jstr(if thorough { "thorough" } else { "quick" }), seed, runs, h.len(), jstr(rule), samples.join(", "), extra,
        jstr("preemption happens at basic blocks, loads, stores, allocations, lock calls and component calls of weedle, nom and their callers, sequentially consistent; std itself is not preempted"), wall, (code == 1) as u32);
    let _ = std::fs::create_dir_all(format!("{root}/evidence"));
    if std::fs::write(format!("{root}/evidence/{prop}.json"), ev).is_err() {
        eprintln!("cannot write evidence");
        return 2;
    }
    let pool = crate::seeds::pool();
    println!("{prop}: pool of {} texts from {} tried, {} features, {} numbers, {} blocks with atomic updates", pool.texts.len(), pool.tried, pool.features, pool.ints.len(), nsync());
    println!("{prop}: {runs} runs, {} distinct non-trivial, {} steps, {} switches, {na} without answer, determinism {same}/{}, {:.1} s{}",
        h.len(), steps, st.switches.load(Ordering::SeqCst), same + differ, wall, if found.is_some() { ", violated" } else { "" });
    code
}

pub fn replay(path: &str) -> i32 {
    let Ok(s) = std::fs::read_to_string(path) else {
        eprintln!("cannot read {path}");
        return 2;
    };
    if s.lines().any(|l| l.starts_with("types ")) {
        let no = calls::auto_traits().into_iter().any(|x| !x.1 || !x.2);
        println!("{}", if no { "violation class not-shareable" } else { "held" });
        return no as i32;
    }
    let Some(plan) = Plan::from_text(&s) else {
        eprintln!("cannot understand {path}");
        return 2;
    };
    let mut ctx = Ctx::new();
    unsafe { SH = ctx.run_sh };
    let v = execute(&mut ctx, &plan);
    let ev = unsafe { (*ctx.run_sh).event_hash };
    match v {
        Verdict::Violated(c, m) => {
            println!("violation class {c}: {m}\nevents {ev:016x}");
            println!("VIOLATION property={} replay={path}", plan.prop);
            1
        }
        Verdict::Held => {
            println!("held\nevents {ev:016x}");
            0
        }
        Verdict::NoAnswer(m) | Verdict::Broken(m) => {
            println!("no answer: {m}");
            2
        }
    }
}

/// Prints the event log hash of every run of a range (to compare processes, worker counts and machines).
pub fn events(prop: &str, seed: u64, from: u64, to: u64) {
    let mut ctx = Ctx::new();
    unsafe { SH = ctx.run_sh };
    let tier = budget(prop, false).tier;
    make_pool(prop, seed, false, 8);
    for i in from..to {
        let p = props::make(&mut ctx, prop, seed, i, tier);
        if p.long() {
            continue;
        }
        let v = execute(&mut ctx, &p);
        let s = unsafe { &*ctx.run_sh };
        println!("{prop} {seed} {i} {:016x} {:016x} {} {} {}", s.event_hash, s.inter_hash, s.steps, s.switches,
            match v { Verdict::Held => "held".into(), v => format!("{v:?}") });
    }
}

// ------------------------------------------------------------------------------------------------ minimisation

fn minimise(ctx: &mut Ctx, plan: Plan, class: String, msg: String) -> (Plan, String, String) {
    let t0 = sys::now_ns();
    let cap = 25_000_000_000u64;
    let mut best = plan;
    let mut best_msg = msg;
    let mut tries = 0;
    let mut attempt = |ctx: &mut Ctx, p: &Plan| -> Option<String> {
        tries += 1;
        if sys::now_ns() - t0 > cap {
            return None;
        }
        match execute(ctx, p) {
            Verdict::Violated(c, m) if c == class => Some(m),
            _ => None,
        }
    };
    // write the schedule down
    if best.policy.random {
        execute(ctx, &best);
        let s = unsafe { &*ctx.run_sh };
        if s.trace_overflow == 0 && best.repeat == 1 && best.envs.is_empty() {
            let mut p = best.clone();
            p.policy = PolicySpec { seed: 0, random: false, mean_gap: 0, hot_p: 0, alloc_p: 0, op_p: 0, comp_p: 0, stall_p: 0, sites: vec![] };
            p.planned.retain(|e| matches!(e.kind, PlanKind::StallForever | PlanKind::StallLong));
            for t in &s.trace[..s.ntrace as usize] {
                let kind = if t.kind == K_FORCED || t.kind == K_STALL { PlanKind::Forced } else { PlanKind::Switch };
                p.planned.push(Planned { uid: t.uid, step: t.step, kind, to: t.to });
                if t.kind == K_STALL {
                    p.planned.push(Planned { uid: t.uid, step: t.step, kind: PlanKind::StallForever, to: 255 });
                }
            }
            p.planned.sort_by_key(|e| (e.uid, e.step));
            p.planned.dedup_by(|a, b| a.uid == b.uid && a.step == b.step && a.kind == b.kind && a.kind != PlanKind::Forced);
            if let Some(m) = attempt(ctx, &p) {
                best = p;
                best_msg = m;
            }
        }
    }
    macro_rules! tryit {
        ($p:expr) => {{
            let p = $p;
            match attempt(ctx, &p) {
                Some(m) => {
                    best = p;
                    best_msg = m;
                    true
                }
                None => false,
            }
        }};
    }
    loop {
        let before = (best.nops(), best.planned.len(), best.docs.iter().map(|d| d.len()).sum::<usize>(), best.repeat, best.envs.len(),
            best.cases.iter().map(|c| c.text.len() + c.events.len()).sum::<usize>());
        // repetitions
        while best.repeat > 1 {
            let mut p = best.clone();
            p.repeat = if best.prop == "C05" { break } else { best.repeat / 2 };
            if !tryit!(p) {
                break;
            }
        }
        // environments
        let mut i = 0;
        while i < best.envs.len() {
            let mut p = best.clone();
            p.envs.remove(i);
            if !tryit!(p) {
                i += 1;
            }
        }
        // the operations of a whole task
        for t in 0..best.tasks.len() {
            if !best.tasks[t].is_empty() && best.tasks.len() > 1 {
                let mut p = best.clone();
                p.tasks[t].clear();
                tryit!(p);
            }
        }
        // operations, in shrinking chunks
        for t in 0..best.tasks.len() {
            let mut chunk = best.tasks[t].len();
            while chunk > 0 {
                let mut i = 0;
                while i < best.tasks[t].len() {
                    let mut p = best.clone();
                    let e = (i + chunk).min(p.tasks[t].len());
                    p.tasks[t].drain(i..e);
                    if p.nops() == 0 || !tryit!(p) {
                        i += chunk;
                    }
                }
                chunk /= 2;
            }
        }
        // scheduling decisions
        let mut chunk = best.planned.len();
        while chunk > 0 {
            let mut i = 0;
            while i < best.planned.len() {
                let mut p = best.clone();
                let e = (i + chunk).min(p.planned.len());
                p.planned.drain(i..e);
                if !tryit!(p) {
                    i += chunk;
                }
            }
            chunk /= 2;
        }
        // faults
        for t in 0..best.tasks.len() {
            for i in 0..best.tasks[t].len() {
                if best.tasks[t][i].fault != AllocFault::None {
                    let mut p = best.clone();
                    p.tasks[t][i].fault = AllocFault::None;
                    tryit!(p);
                }
                if let Kind::Parse { entry, doc, buf, hold } = best.tasks[t][i].kind {
                    if buf != 0 {
                        let mut p = best.clone();
                        p.tasks[t][i].kind = Kind::Parse { entry, doc, buf: 0, hold };
                        tryit!(p);
                    }
                    if hold != 0 {
                        let mut p = best.clone();
                        p.tasks[t][i].kind = Kind::Parse { entry, doc, buf, hold: 0 };
                        tryit!(p);
                    }
                }
            }
        }
        // texts
        for d in 0..best.docs.len() {
            let used = best.tasks.iter().flatten().any(|o| o.kind.target().map_or(false, |t| t.1 == d))
                || best.cases.iter().flat_map(|c| &c.events).any(|e| e.what == Do::Reenter(d as u16));
            if !used {
                best.docs[d].clear();
                continue;
            }
            // only when no schedule is tied to the text
            let mut chunk = crate::gen::split_tokens(&best.docs[d]).len();
            while chunk > 0 {
                let mut i = 0;
                loop {
                    let mut toks = crate::gen::split_tokens(&best.docs[d]);
                    if i >= toks.len() {
                        break;
                    }
                    let e = (i + chunk).min(toks.len());
                    toks.drain(i..e);
                    let mut p = best.clone();
                    p.docs[d] = toks.concat();
                    if !tryit!(p) {
                        i += chunk;
                    }
                }
                chunk /= 2;
            }
        }
        // components
        for c in 0..best.cases.len() {
            let used = best.tasks.iter().flatten().any(|o| o.kind == Kind::Comp { case: c });
            if !used {
                best.cases[c].events.clear();
                best.cases[c].text.clear();
                continue;
            }
            let mut i = 0;
            while i < best.cases[c].events.len() {
                let mut p = best.clone();
                p.cases[c].events.remove(i);
                if !tryit!(p) {
                    i += 1;
                }
            }
            let mut chunk = best.cases[c].text.len();
            while chunk > 0 {
                let mut i = 0;
                while i < best.cases[c].text.len() {
                    let mut p = best.clone();
                    let e = (i + chunk).min(p.cases[c].text.len());
                    if !p.cases[c].text.is_char_boundary(i) || !p.cases[c].text.is_char_boundary(e) {
                        i += chunk;
                        continue;
                    }
                    p.cases[c].text.replace_range(i..e, "");
                    for ev in p.cases[c].events.iter_mut() {
                        if !ev.by_call && ev.at as usize >= e {
                            ev.at -= (e - i) as u32;
                        }
                    }
                    if !tryit!(p) {
                        i += chunk;
                    }
                }
                chunk /= 2;
            }
        }
        let after = (best.nops(), best.planned.len(), best.docs.iter().map(|d| d.len()).sum::<usize>(), best.repeat, best.envs.len(),
            best.cases.iter().map(|c| c.text.len() + c.events.len()).sum::<usize>());
        if before == after || sys::now_ns() - t0 > cap {
            break;
        }
    }
    // the last word belongs to the plan that is written
    if let Verdict::Violated(_, m) = execute(ctx, &best) {
        best_msg = m;
    }
    (best, class, best_msg)
}
