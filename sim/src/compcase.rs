//! Components under the simulator's control inside the library's generic constructs (C07 to C10; also used as
//! disturbances in histories).
use crate::exec;
use crate::plan::*;
use calls::comp::{is_payload, Ans, Node, Real, World, COMPOSITIONS, M};
use simrt::*;

struct W {
    text: &'static str,
    events: Vec<Event>,
    calls: u64,
    limit: u64,
    log: Vec<(u8, usize, Ans)>,
    raised: Option<usize>, // index into log of the first fatal, incomplete or panicking answer
    after: bool,
    foreign: bool,
    born: Vec<u32>,
    reenter_bad: bool,
    active: bool,
    list_ok: bool,
    grudges: Vec<(u32, u64)>, // values whose destructor is to panic
    grudged: bool,
}
static mut WORLDS: Vec<W> = vec![];
static mut DROPS: Vec<u8> = vec![];

#[allow(static_mut_refs)]
fn w() -> &'static mut W {
    unsafe { &mut WORLDS[me()] }
}
fn empty() -> W {
    W {
        text: "", events: vec![], calls: 0, limit: 0, log: vec![], raised: None, after: false, foreign: false, born: vec![],
        reenter_bad: false, active: false, list_ok: true, grudges: vec![], grudged: false,
    }
}
#[allow(static_mut_refs)]
pub fn install(n: usize) {
    unsafe {
        WORLDS = (0..n.max(1)).map(|_| empty()).collect();
        DROPS = vec![];
        calls::comp::HOOK = hook;
        calls::comp::BORN = |_| harness(born);
        calls::comp::DROP = |s| harness(|| dropped(s));
    }
}
#[allow(static_mut_refs)]
fn born() -> u32 {
    unsafe {
        DROPS.push(0);
        let s = DROPS.len() as u32 - 1;
        w().born.push(s);
        s
    }
}
#[allow(static_mut_refs)]
fn dropped(s: u32) -> Option<u64> {
    unsafe {
        let d = &mut DROPS[s as usize];
        *d = d.saturating_add(1);
    }
    let x = w();
    let i = x.grudges.iter().position(|g| g.0 == s)?;
    let (_, id) = x.grudges.remove(i);
    if std::thread::panicking() {
        return None;
    }
    count(F_COMP_DROP_PANIC);
    x.grudged = true;
    // whatever was being reported before, the call ends with this panic now
    x.log.push((255, s as usize, Ans::Panic(id)));
    x.raised = Some(x.log.len() - 1);
    Some(id)
}

/// What a component does by nature: its letter, then any digits, quoted pieces and blanks; one of them skips blanks and
/// comments first.
fn natural(k: u8, t: &str, pos: usize) -> Ans {
    let b = t.as_bytes();
    let mut p = if k == 3 { calls::comp::skip(t, pos) } else { pos };
    if p >= b.len() || b[p] != b'a' + k {
        return Ans::Error;
    }
    p += 1;
    loop {
        if p < b.len() && (b[p].is_ascii_digit() || b[p] == b' ') {
            p += 1;
        } else if p < b.len() && b[p] == b'"' {
            match b[p + 1..].iter().position(|c| *c == b'"') {
                Some(n) => p += n + 2,
                None => break,
            }
        } else {
            break;
        }
    }
    Ans::Ok(p)
}
/// The next place at or after `p` where a character begins.
fn whole(t: &str, mut p: usize) -> usize {
    p = p.min(t.len());
    while !t.is_char_boundary(p) {
        p += 1;
    }
    p
}
fn apply(e: Do, k: u8, t: &str, pos: usize) -> Ans {
    match e {
        Do::Error => Ans::Error,
        Do::Failure(wh, c) => {
            let p = match wh { 0 => pos, 1 => 0, 2 => t.len(), 3 => (pos + t.len()) / 2, 4 => pos + 1, _ => pos / 2 };
            Ans::Failure(whole(t, p), c)
        }
        Do::Incomplete(n) => Ans::Incomplete(if n == u16::MAX { usize::MAX } else { n as usize }),
        Do::Panic(n) => Ans::Panic(n as u64),
        Do::Zero => Ans::Ok(pos),
        Do::Take(n) => Ans::Ok(whole(t, if n == 255 { t.len() } else { pos + n as usize })),
        Do::Reenter(_) | Do::Grudge(_) => natural(k, t, pos),
    }
}
pub fn scripted(events: &[Event], k: u8, t: &str, pos: usize) -> Ans {
    for e in events {
        if !e.by_call && e.k == k && e.at as usize == pos {
            return apply(e.what, k, t, pos);
        }
    }
    natural(k, t, pos)
}

fn hook(k: u8, input: &'static str) -> (Ans, &'static str, u32, u32, u32) {
    component_point();
    harness(|| hook2(k, input))
}
fn hook2(k: u8, input: &'static str) -> (Ans, &'static str, u32, u32, u32) {
    let untracked = k & calls::comp::NO_VALUE != 0;
    let k = k & !calls::comp::NO_VALUE;
    let x = w();
    count(F_COMP_YIELD);
    let base = x.text.as_ptr() as usize;
    let pos = (input.as_ptr() as usize).wrapping_sub(base);
    if pos > x.text.len() || pos + input.len() != x.text.len() {
        x.foreign = true;
        if pos > x.text.len() {
            return (Ans::Error, input, 0, 0, 0);
        }
    }
    x.calls += 1;
    if x.raised.is_some() {
        x.after = true;
    }
    if x.calls > x.limit {
        if exec::the_plan().prop == "C10" {
            fail("spin", &format!("more than {} component calls for an input of {} bytes", x.limit, x.text.len()));
        }
        inconclusive("component call limit");
    }
    let mut what = None;
    for e in &x.events {
        if (e.by_call && e.at as u64 == x.calls) || (!e.by_call && e.k == k && e.at as usize == pos) {
            what = Some(e.what);
            break;
        }
    }
    if let Some(Do::Reenter(d)) = what {
        count(F_COMP_REENTER);
        if !exec::reenter(d as usize) {
            w().reenter_bad = true;
        }
    }
    let x = w();
    let a = match what {
        Some(e) => apply(e, k, x.text, pos),
        None => natural(k, x.text, pos),
    };
    match what {
        Some(Do::Error) => count(F_COMP_ERROR),
        Some(Do::Failure(..)) => count(F_COMP_FAILURE),
        Some(Do::Incomplete(_)) => count(F_COMP_INCOMPLETE),
        Some(Do::Panic(_)) => count(F_COMP_PANIC),
        Some(Do::Zero) => count(F_COMP_EMPTY),
        _ => {}
    }
    log_event(mix(k as u64, pos as u64));
    x.log.push((k, pos, a));
    if x.raised.is_none() && matches!(a, Ans::Failure(..) | Ans::Incomplete(_) | Ans::Panic(_)) {
        x.raised = Some(x.log.len() - 1);
    }
    match a {
        Ans::Ok(e) => {
            let serial = if untracked { 0 } else { born() };
            if let (Some(Do::Grudge(id)), false) = (what, untracked) {
                x.grudges.push((serial, id as u64));
            }
            (a, &x.text[e..], pos as u32, e as u32, serial)
        }
        // where a recoverable error claims to have happened, and its code, carry no meaning
        Ans::Error => {
            let h = mix(x.calls ^ x.text.len() as u64, pos as u64);
            let at = match h % 5 { 0 | 1 => pos, 2 => x.text.len(), 3 => pos + 1, _ => 0 };
            (a, &x.text[whole(x.text, at)..], 0, 0, (h >> 8) as u32)
        }
        Ans::Failure(p, _) => (a, &x.text[p..], 0, 0, 0),
        _ => (a, input, 0, 0, 0),
    }
}

fn show_m(m: &M) -> String {
    format!("{m:?}")
}
fn widest(n: &Node) -> usize {
    match n {
        Node::List(l) | Node::Sep(l) => l.len().max(l.iter().map(widest).max().unwrap_or(0)),
        Node::Group(l) => l.iter().map(widest).max().unwrap_or(0),
        Node::Some(b) | Node::Wrap(b) => widest(b),
        _ => 0,
    }
}

pub fn run_case(op: &Op, case: usize) {
    let c = exec::the_plan().cases[case].clone();
    one(op, &c, false);
    if !c.events.is_empty() || op.fault != AllocFault::None {
        let mut again = c.clone();
        again.events.clear();
        one(op, &again, true);
    }
}

fn one(op: &Op, c: &Case, retry: bool) {
    let prop = exec::the_plan().prop.as_str();
    let comp = &COMPOSITIONS[c.comp];
    let len = c.text.len() as u64;
    let limit = 8 * (len + 4) * comp.leaves;
    let budget = 1_000_000 + 20_000 * (len + 4) * comp.leaves;
    begin_op(op.uid, budget, if prop == "C10" { 0 } else { 4 }, if retry { AllocFault::None } else { op.fault });
    let total = c.text.len();
    let p = text_alloc(total);
    let text: &'static str = unsafe {
        std::ptr::copy_nonoverlapping(c.text.as_ptr(), p, total);
        std::str::from_utf8_unchecked(std::slice::from_raw_parts(p, total))
    };
    *w() = empty();
    let x = w();
    x.text = text;
    x.events = c.events.clone();
    x.limit = limit;
    x.active = true;
    let name = (comp.name)();
    let zst = unsafe { calls::comp::ZST };
    let several = exec::the_plan().tasks.len() > 1;
    let what = if retry { "retry without faults" } else { "call" };
    set_phase(1);
    let f = comp.real;
    let r = sut(move || f(text));
    let hit = clear_fault();
    set_phase(2);
    let x = w();
    let bad = |prop_class: &str, class: &str, msg: String| {
        if prop == prop_class {
            let t: String = c.text.chars().take(400).collect();
            let more = if t.len() < c.text.len() { "..." } else { "" };
            fail(class, &format!("operation {} ({what}, {name} on {t:?}{more}): {msg}", op.uid));
        }
    };
    let base = text.as_ptr() as usize;
    let pos_of = |s: &str| -> (i64, usize) { (s.as_ptr() as i64 - base as i64, s.len()) };
    let at = |p: usize| -> (i64, usize) { (p as i64, text.len() - p) };

    // values: none of the tree's destroyed yet, none twice
    let mut serials = vec![];
    let (mut got, mut held, mut panic_id, mut lib_panic) = (None, None, None, false);
    match r {
        Ok(Real::Ok(h, rem)) => {
            let n = h.node_of(&mut serials);
            got = Some(Ok((pos_of(rem), n)));
            held = Some(h);
        }
        Ok(Real::Error(_)) => got = Some(Err((1u8, (0, 0), 0u32))),
        Ok(Real::Failure(i, k)) => got = Some(Err((2, pos_of(i), k))),
        Ok(Real::Incomplete(n)) => got = Some(Err((3, (n as i64, 0), 0))),
        Err(p) => match x.raised.map(|i| x.log[i].2) {
            Some(Ans::Panic(id)) if is_payload(&*p, id) => panic_id = Some(id),
            _ => lib_panic = true,
        },
    }
    log_event(got.is_some() as u64 ^ (serials.len() as u64) << 8 ^ x.calls << 32);
    #[allow(static_mut_refs)]
    let drops = |s: u32| unsafe { DROPS[s as usize] };
    let tree: Vec<u32> = serials.iter().copied().filter(|s| *s != u32::MAX).collect();
    // values of no size are counted; that tells nothing while other tasks make and destroy some
    let left = || unsafe { (calls::comp::ZST.0 - zst.0) as i64 - (calls::comp::ZST.1 - zst.1) as i64 };
    let in_tree = (serials.len() - tree.len()) as i64;
    // A panicking destructor may leave other values undestroyed: the compiler itself does not clean up a value being
    // returned when the destructor of a local panics. None may be destroyed twice even so.
    if !several && (left() < in_tree || left() != in_tree && !x.grudged) {
        bad("C09", "drop", format!("{} component values of no size are left although the returned tree has {in_tree}", left()));
    }
    for (i, s) in tree.iter().enumerate() {
        if drops(*s) != 0 {
            bad("C09", "drop", "a component value was destroyed although it is part of the returned tree".into());
        }
        if tree[..i].contains(s) {
            bad("C09", "drop", "one component value appears twice in the returned tree".into());
        }
    }
    let raised = x.raised.map(|i| (i, x.log[i].2));
    if let Some(h) = held {
        let before = x.log.len();
        set_phase(1);
        let r = sut(move || drop(h));
        set_phase(2);
        let fired = w().log[before..].iter().find_map(|l| if let Ans::Panic(id) = l.2 { Some(id) } else { None });
        w().log.truncate(before);
        match (r, fired) {
            (Ok(_), None) => {}
            (Err(p), Some(id)) if is_payload(&*p, id) => {}
            (Ok(_), Some(_)) => bad("C09", "unwind", "a panic in a component's destructor vanished when the tree was destroyed".into()),
            _ => bad("C09", "unwind", "destroying the tree panicked".into()),
        }
    }
    let x = w();
    for s in &x.born {
        let d = drops(*s);
        if d != 1 && !(d == 0 && x.grudged) {
            bad("C09", "drop", format!("a component value was destroyed {d} times once everything was dropped"));
        }
    }
    if !several && (left() < 0 || left() != 0 && !x.grudged) {
        bad("C09", "drop", format!("of the component values of no size {} are left once everything was dropped", left()));
    }
    if x.reenter_bad && !hit {
        bad("C09", "reenter", "a parse made from inside a component ended differently from the same parse alone".into());
        bad("C02", "reenter", "a parse made from inside a component ended differently from the same parse alone".into());
    }

    if hit && (lib_panic || panic_id.is_some()) {
        // a failed allocation may unwind; the retry is checked
        text_free(p, total);
        end_op();
        set_phase(0);
        return;
    }
    let outcome = match (&got, panic_id, lib_panic) {
        (_, Some(id), _) => format!("panic {id}"),
        (_, _, true) => "a panic with another payload".into(),
        (Some(Ok((r, n))), _, _) => format!("success {n:?}, remainder at {} ({} bytes)", r.0, r.1),
        (Some(Err((1, _, _))), _, _) => "recoverable error".into(),
        (Some(Err((2, p, k))), _, _) => format!("fatal failure at {} code {k}", p.0),
        (Some(Err((_, n, _))), _, _) => format!("incomplete {}", n.0),
        _ => "?".into(),
    };
    match raised {
        Some((_, Ans::Failure(p, k))) => {
            if got != Some(Err((2, at(p), calls::comp::CODES[k as usize % calls::comp::CODES.len()] as u32))) {
                bad("C08", "signal", format!("a component raised a fatal failure at {p}, the outcome is: {outcome}"));
            } else if x.after {
                bad("C08", "signal", "a component was called after a fatal failure".into());
            }
        }
        Some((_, Ans::Incomplete(n))) => {
            if got != Some(Err((3, (n as i64, 0), 0))) {
                bad("C08", "signal", format!("a component asked for {n} more bytes, the outcome is: {outcome}"));
            } else if x.after {
                bad("C08", "signal", "a component was called after a need-more-input signal".into());
            }
        }
        Some((_, Ans::Panic(id))) => {
            if panic_id != Some(id) {
                bad("C09", "unwind", format!("a component panicked with payload {id}, the outcome is: {outcome}"));
            }
        }
        _ if !matches!(prop, "C07" | "C09" | "C10") => {}
        _ => {
            // no signal: the answers decide
            let mut conflict = false;
            let mut map = std::collections::BTreeMap::new();
            for a in &x.log {
                if *map.entry((a.0, a.1)).or_insert(a.2) != a.2 {
                    conflict = true;
                }
            }
            let answer = |k: u8, pos: usize| -> Ans {
                map.get(&(k, pos)).copied().unwrap_or_else(|| scripted(&x.events, k, text, pos))
            };
            let mut world = World { text, answer: &answer, calls: 0, real: true };
            let want = (comp.model)(&mut world, 0);
            let same = match (&want, &got) {
                (M::Ok(p, n), Some(Ok((r, g)))) => *r == at(*p) && n == g,
                (M::Error, Some(Err((1, _, _)))) => true,
                (M::NoProgress, _) => !lib_panic,
                _ => false,
            };
            if !conflict && !same {
                if retry {
                    bad("C09", "retry", format!("the outcome is: {outcome}; fault-free it is: {}", show_m(&want)));
                }
                bad("C07", "backtrack", format!("the outcome is: {outcome}; expected: {}", show_m(&want)));
            }
            if x.foreign {
                bad("C07", "backtrack", "a component was handed text that is not the rest of the input".into());
            }
            if let Some(Ok((_, n))) = &got {
                if let Some(l) = n.grown() {
                    bad("C10", "grow", format!("a list has an element for which no input was consumed: {l:?}"));
                }
            }
            if let Some(Ok((r, n))) = &got {
                let used = r.0.max(0) as usize;
                if widest(n) > used + 1 {
                    bad("C10", "grow", format!("a list of {} elements from {used} consumed bytes", widest(n)));
                }
            }
        }
    }
    text_free(p, total);
    end_op();
    set_phase(0);
}
