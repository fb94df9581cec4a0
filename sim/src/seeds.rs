//! What the workload is drawn from, besides the grammar: texts chosen for the code they reach, and the numbers and
//! words the source mentions. Both only steer the search; no verdict depends on them.
use crate::exec::wait;
use crate::gen::G;
use simrt::*;
use std::collections::BTreeSet;

pub struct Pool {
    pub texts: Vec<(usize, String)>,
    pub ints: Vec<u64>,
    pub words: Vec<String>,
    /// those of the words that the grammar does not know
    pub odd: Vec<String>,
    pub tried: u64,
    pub features: usize,
}
static mut POOL: Option<Pool> = None;
pub fn pool() -> &'static Pool {
    #[allow(static_mut_refs)]
    unsafe {
        POOL.get_or_insert(Pool { texts: vec![], ints: vec![], words: vec![], odd: vec![], tried: 0, features: 0 })
    }
}

fn read_sources(dir: &str, out: &mut Vec<String>) {
    let Ok(d) = std::fs::read_dir(dir) else { return };
    let mut v: Vec<_> = d.filter_map(|e| e.ok()).map(|e| e.path()).collect();
    v.sort();
    for p in v {
        if p.is_dir() {
            read_sources(&p.to_string_lossy(), out);
        } else if p.extension().map_or(false, |e| e == "rs") {
            if let Ok(s) = std::fs::read_to_string(&p) {
                out.push(s.split("#[cfg(test)]").next().unwrap_or("").to_string());
            }
        }
    }
}
/// Numbers and words mentioned by the source: sizes and tokens worth trying.
fn hints() -> (Vec<u64>, Vec<String>) {
    let mut src = vec![];
    read_sources("/repo/src", &mut src);
    let mut ints = BTreeSet::new();
    let mut words = BTreeSet::new();
    for s in &src {
        for line in s.lines() {
            let l = line.trim();
            if l.starts_with("//") || l.starts_with("#[") || l.starts_with("#![") {
                continue;
            }
            let b: Vec<char> = l.chars().collect();
            let mut i = 0;
            let mut line_ints = vec![];
            while i < b.len() {
                let c = b[i];
                if c == '/' && b.get(i + 1) == Some(&'/') {
                    break;
                }
                // a character, not a lifetime
                let quote = c == '\'' && (b.get(i + 1) == Some(&'\\') || b.get(i + 2) == Some(&'\''));
                if c == '"' || quote {
                    let raw = c == '"' && i > 0 && (b[i - 1] == 'r' || b[i - 1] == '#');
                    let mut w = String::new();
                    i += 1;
                    while i < b.len() && (b[i] != c || w.is_empty() && quote) {
                        if b[i] == '\\' && !raw {
                            i += 1;
                            match b.get(i) {
                                Some('n') => w.push('\n'),
                                Some('t') => w.push('\t'),
                                Some('r') => w.push('\r'),
                                Some('0') => w.push('\0'),
                                Some('x') => {
                                    let h: String = b.iter().skip(i + 1).take(2).collect();
                                    if let Some(c) = u32::from_str_radix(&h, 16).ok().and_then(char::from_u32) {
                                        w.push(c);
                                        i += 2;
                                    }
                                }
                                Some('u') => {
                                    let h: String = b.iter().skip(i + 2).take_while(|c| **c != '}').collect();
                                    if let Some(c) = u32::from_str_radix(&h, 16).ok().and_then(char::from_u32) {
                                        w.push(c);
                                    }
                                    i += 2 + h.len();
                                }
                                Some(c) => w.push(*c),
                                None => {}
                            }
                        } else {
                            w.push(b[i]);
                        }
                        i += 1;
                    }
                    if !w.is_empty() && w.len() <= 32 {
                        words.insert(w);
                    }
                } else if c.is_ascii_digit() && (i == 0 || !(b[i - 1].is_alphanumeric() || b[i - 1] == '_')) {
                    let mut t = String::new();
                    while i < b.len() && (b[i].is_alphanumeric() || b[i] == '_') {
                        t.push(b[i]);
                        i += 1;
                    }
                    let t = t.replace('_', "");
                    let t = ["usize", "isize", "u8", "u16", "u32", "u64", "i32", "i64"].iter().fold(t.as_str(), |t, s| t.strip_suffix(s).unwrap_or(t));
                    let v = if let Some(h) = t.strip_prefix("0x") { u64::from_str_radix(h, 16).ok() } else { t.parse::<u64>().ok() };
                    if let Some(v) = v {
                        line_ints.push(v);
                    }
                    continue;
                }
                i += 1;
            }
            if line_ints.len() == 2 && l.contains("<<") && line_ints[1] < 40 {
                line_ints.push(line_ints[0] << line_ints[1]);
            }
            if line_ints.len() == 2 && l.contains(" * ") {
                line_ints.push(line_ints[0].saturating_mul(line_ints[1]));
            }
            if l.contains("u16") {
                line_ints.push(65536);
            }
            if l.contains("u8>") || l.contains("U8") || l.contains("as u8") {
                line_ints.push(256);
            }
            for v in line_ints {
                if (3..=200_000).contains(&v) {
                    ints.insert(v);
                }
            }
        }
    }
    (ints.into_iter().take(200).collect(), words.into_iter().take(600).collect())
}

const CHUNKS: usize = 64;
const REGION: usize = 1 << 20;

struct Job {
    seed: u64,
    gen: u64,
    chunk: u64,
    per: u64,
    region: *mut u32,
}
static mut JOB: Job = Job { seed: 0, gen: 0, chunk: 0, per: 0, region: std::ptr::null_mut() };
static mut SEEN: BTreeSet<u32> = BTreeSet::new();

/// The candidate text number i of a generation.
fn candidate(seed: u64, gen: u64, i: u64) -> (usize, String) {
    let mut r = Rng::new(mix(mix(seed, 0xc0ffee + gen), i));
    let p = pool();
    let mut g = G::new(r.next());
    if gen > 0 && !p.texts.is_empty() && r.below(6) != 0 {
        // newer texts first
        let n = p.texts.len() as u64;
        let k = if r.below(2) == 0 { n - 1 - r.below(n.min(64)) } else { r.below(n) } as usize;
        let (e, s) = &p.texts[k];
        let mut s = s.clone();
        if r.below(5) == 0 {
            let o = &p.texts[r.below(n) as usize].1;
            s = G::splice(&mut r, &s, o);
        }
        for _ in 0..1 + r.below(2) {
            s = g.mutate(&s);
        }
        if s.len() > 8000 {
            s.clear();
        }
        let e = if r.below(12) == 0 { r.below(calls::nentries() as u64) as usize } else { *e };
        return (e, s);
    }
    if r.below(6) == 0 {
        let (n, s) = g.large();
        return (calls::entry_index(n).unwrap(), s);
    }
    let e = if r.below(3) == 0 { 0 } else { r.below(calls::nentries() as u64) as usize };
    let mut s = if e == 0 && r.below(3) == 0 { g.corpus() } else { g.text_for(calls::entry(e).name) };
    if r.below(3) == 0 {
        s = g.mutate(&s);
    }
    (e, s)
}

fn body(_: usize) -> Exit {
    #[allow(static_mut_refs)]
    unsafe {
        let out = JOB.region;
        let mut at = 1usize;
        for k in 0..JOB.per {
            let (e, text) = candidate(JOB.seed, JOB.gen, JOB.chunk * JOB.per + k);
            let n = text.len();
            let buf = text_alloc(n);
            std::ptr::copy_nonoverlapping(text.as_ptr(), buf, n);
            let t: &'static str = std::str::from_utf8_unchecked(std::slice::from_raw_parts(buf, n));
            sh().sites.fill(0);
            begin_op(1, 2_000_000, 0, AllocFault::None);
            let r = sut(|| (calls::entry(e).f)(t));
            let _ = sut(move || drop(r));
            let (steps, _) = end_op();
            text_free(buf, n);
            let mut new = vec![];
            for (s, &c) in sh().sites[..nsites() as usize + 1].iter().enumerate() {
                if c != 0 {
                    let f = (s as u32) << 3 | (7 - c.leading_zeros());
                    if !SEEN.contains(&f) {
                        new.push(f);
                    }
                }
            }
            if !new.is_empty() && steps < 400_000 && (at + 2 + new.len()) * 4 < REGION {
                SEEN.extend(&new);
                *out.add(at) = k as u32;
                *out.add(at + 1) = new.len() as u32;
                for (j, f) in new.iter().enumerate() {
                    *out.add(at + 2 + j) = *f;
                }
                at += 2 + new.len();
                *out = at as u32;
            }
        }
        sh().state = 1;
        sys::exit_now(0)
    }
}

/// Builds the pool for a seed: three generations of candidate texts, each kept when it reaches a code site, or a site
/// about twice as often, that no earlier one does. The result depends on the seed and the code only.
#[allow(static_mut_refs)]
pub fn build(seed: u64, per: u64, gens: u64, workers: usize) {
    unsafe {
        let (ints, words) = hints();
        let odd = words.iter().filter(|w| !crate::gen::known(w)).cloned().collect();
        POOL = Some(Pool { texts: vec![], ints, words, odd, tried: 0, features: 0 });
        let shared = sys::map_shared(CHUNKS * REGION);
        for gen in 0..gens {
            std::ptr::write_bytes(shared, 0, 4 * CHUNKS);
            for c in 0..CHUNKS {
                *(shared.add(c * REGION) as *mut u32) = 1;
            }
            let mut pids = vec![];
            for w in 0..workers {
                let pid = fork();
                if pid == 0 {
                    let s = sys::map_shared(std::mem::size_of::<Shared>()) as *mut Shared;
                    for c in (w..CHUNKS).step_by(workers) {
                        let pid = fork();
                        if pid == 0 {
                            SH = s;
                            sys::raw(37, 30, 0, 0, 0, 0, 0);
                            JOB = Job { seed, gen, chunk: c as u64, per, region: shared.add(c * REGION) as *mut u32 };
                            prepare_heap(&EnvCfg::plain());
                            simrt::run(1, Policy::sequential(), EnvCfg::plain(), body);
                            sys::exit_now(3);
                        }
                        if pid > 0 {
                            wait(pid);
                        }
                    }
                    sys::exit_now(0);
                }
                pids.push(pid);
            }
            for p in pids {
                wait(p);
            }
            let mut add = vec![];
            for c in 0..CHUNKS {
                let r = shared.add(c * REGION) as *const u32;
                let end = *r as usize;
                let mut at = 1;
                while at < end {
                    let (k, n) = (*r.add(at) as u64, *r.add(at + 1) as usize);
                    let mut fresh = false;
                    for j in 0..n {
                        fresh |= SEEN.insert(*r.add(at + 2 + j));
                    }
                    if fresh {
                        add.push(candidate(seed, gen, c as u64 * per + k));
                    }
                    at += 2 + n;
                }
            }
            let p = POOL.as_mut().unwrap();
            p.tried += CHUNKS as u64 * per;
            p.texts.extend(add);
            p.features = SEEN.len();
        }
        sys::raw(11, shared as usize, CHUNKS * REGION, 0, 0, 0, 0); // munmap
    }
}
