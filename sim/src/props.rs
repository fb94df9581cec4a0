//! The runs of every property: workload, schedule and faults, all drawn from one seed.
use crate::exec::{oracle, Ctx};
use crate::gen::{sibling, G};
use crate::plan::*;
use calls::comp::COMPOSITIONS;
use simrt::{AllocFault, EnvCfg, PlanKind, Planned, Rng};

pub const CLAIMED: [&str; 11] = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11"];

struct B<'c> {
    ctx: &'c mut Ctx,
    r: Rng,
    p: Plan,
    uid: u32,
}
impl<'c> B<'c> {
    fn n(&mut self, n: u64) -> u64 {
        self.r.below(n)
    }
    fn p(&mut self, a: u64, b: u64) -> bool {
        self.r.below(b) < a
    }
    fn pick<T: Copy>(&mut self, v: &[T]) -> T {
        v[self.r.below(v.len() as u64) as usize]
    }
    fn entry(&mut self) -> usize {
        match self.n(10) {
            0..=4 => 0,
            5 => self.pick(&[1usize, 2]),
            _ => {
                let m = calls::nentries() as u64 - if self.p(2, 3) { calls::TERMS.len() as u64 } else { 0 };
                self.n(m) as usize
            }
        }
    }
    /// (entry, text)
    fn text(&mut self, entry: usize) -> String {
        let seed = self.r.next();
        let mut g = G::new(seed);
        let name = calls::entry(entry).name;
        let mut s = if entry == 0 && self.p(1, 10) { g.corpus() } else { g.text_for(name) };
        if self.p(1, 4) {
            s = g.mutate(&s);
        }
        if s.len() > 6000 {
            s = g.text_for("EnumDefinition");
        }
        s
    }
    fn doc(&mut self, s: String) -> usize {
        if let Some(i) = self.p.docs.iter().position(|d| *d == s) {
            return i;
        }
        self.p.docs.push(s);
        self.p.docs.len() - 1
    }
    fn op(&mut self, task: usize, kind: Kind, fault: AllocFault) -> u32 {
        self.uid += 1;
        while self.p.tasks.len() <= task {
            self.p.tasks.push(vec![]);
        }
        self.p.tasks[task].push(Op { uid: self.uid, kind, fault });
        self.uid
    }
    fn solo(&mut self, op: &Op) -> (u64, u64) {
        if let Some((entry, doc)) = op.kind.target() {
            let d = self.p.docs[doc].clone();
            let s = oracle(self.ctx, entry, &d, false).0;
            (s.steps.max(1), s.allocs)
        } else {
            (200, 0)
        }
    }
    /// A few texts related in the ways that could confuse shared state: equal, same shape with other names, damaged
    /// copies, prefixes, unrelated.
    fn family(&mut self) -> Vec<(usize, usize)> {
        let pool = &crate::seeds::pool().texts;
        let (e, s) = if !pool.is_empty() && self.p(1, 3) {
            let (e, s) = pool[self.n(pool.len() as u64) as usize].clone();
            (e, s)
        } else if self.p(1, 10) {
            let seed = self.r.next();
            let (n, s) = G::new(seed).large();
            (calls::entry_index(n).unwrap(), s)
        } else {
            let e = self.entry();
            let s = self.text(e);
            (e, s)
        };
        let mut v = vec![];
        let d = self.doc(s.clone());
        v.push((e, d));
        for _ in 0..self.n(4) {
            match self.n(9) {
                8 => {
                    // the same length, other boundaries
                    let mut r = self.r;
                    let (a, b) = crate::gen::pair(&mut r, &s);
                    self.r = r;
                    for t in [a, b] {
                        let d = self.doc(t);
                        v.push((e, d));
                    }
                }
                6 | 7 if !pool.is_empty() => {
                    let (e2, t) = pool[self.n(pool.len() as u64) as usize].clone();
                    let d = self.doc(t);
                    v.push((e2, d));
                }
                0 | 1 => {
                    let k = 1 + self.n(24) as u8;
                    let d = self.doc(sibling(&s, k));
                    v.push((e, d));
                }
                2 => {
                    let seed = self.r.next();
                    let t = G::new(seed).mutate(&s);
                    let d = self.doc(t);
                    v.push((e, d));
                }
                3 => {
                    let e2 = self.entry();
                    v.push((e2, d));
                }
                _ => {
                    let e2 = self.entry();
                    let t = self.text(e2);
                    let d = self.doc(t);
                    v.push((e2, d));
                }
            }
        }
        v
    }
    fn any_of(&mut self, v: &[(usize, usize)]) -> (usize, usize) {
        self.pick(v)
    }
    fn heap(&mut self) {
        self.p.env.heap_mode = self.pick(&[0u8, 0, 0, 1, 2, 3]);
        self.p.env.heap_seed = self.r.next();
        self.p.env.rand_seed = self.r.next();
    }
    fn schedule(&mut self) {
        let seed = self.r.next();
        let n = self.p.tasks.len();
        self.p.policy.seed = seed;
        self.p.policy.random = true;
        let hot = self.pick(&[0u8, 16, 64, 160, 250]);
        self.p.policy.hot_p = hot;
        self.p.policy.op_p = self.pick(&[0u8, 40, 128]);
        match self.n(6) {
            0 | 1 => self.p.policy.mean_gap = self.pick(&[2u64, 8, 40, 200, 1500]),
            2 | 3 => {
                // a few preemptions at chosen steps
                let ops: Vec<Op> = self.p.tasks.iter().flatten().cloned().collect();
                for _ in 0..1 + self.n(4) {
                    let i = self.n(ops.len() as u64) as usize;
                    let (steps, _) = self.solo(&ops[i]);
                    let step = self.n(steps + 1);
                    let to = if self.p(1, 2) { 255 } else { self.n(n as u64) as u8 };
                    self.p.planned.push(Planned { uid: ops[i].uid, step, kind: PlanKind::Switch, to });
                }
            }
            4 => {
                for _ in 0..1 + self.n(6) {
                    let s = 1 + self.n(simrt::nsites().max(1) as u64) as u32;
                    self.p.policy.sites.push(s);
                }
                self.p.policy.mean_gap = self.pick(&[0u64, 300, 3000]);
            }
            _ => {
                self.p.policy.alloc_p = self.pick(&[30u8, 128, 220]);
                self.p.policy.mean_gap = self.pick(&[0u64, 100, 1000]);
            }
        }
    }
    fn finish(mut self) -> Plan {
        self.p.planned.sort_by_key(|p| (p.uid, p.step));
        self.p.planned.dedup_by_key(|p| (p.uid, p.step, p.kind as u8));
        self.p
    }
    fn alloc_fault(&mut self, allocs: u64) -> AllocFault {
        if allocs == 0 {
            return AllocFault::Nth(1);
        }
        let n = 1 + self.n(allocs);
        match self.n(8) {
            0..=4 => AllocFault::Nth(n),
            5 | 6 => AllocFault::From(n),
            _ => AllocFault::MinSize(self.pick(&[64u64, 128, 256, 512, 1024])),
        }
    }

    // -------------------------------------------------------------------------------------------- components
    fn comp_case(&mut self, kinds: &[u8], max_events: u64) -> usize {
        let comp = self.n(COMPOSITIONS.len() as u64) as usize;
        let c = &COMPOSITIONS[comp];
        let mut r = self.r;
        let room = match r.below(20_000) {
            0 => 140_000,
            1..=60 => 6_000,
            _ => 1_000,
        };
        let room = if self.p.prop < "C07".to_string() { 400 } else { room };
        unsafe { calls::comp::ROOM = room };
        let mut text = String::new();
        (c.text)(&mut |n| r.below(n), &mut text);
        let mut cut = text.len().min(4 * room as usize);
        while !text.is_char_boundary(cut) {
            cut -= 1;
        }
        text.truncate(cut);
        self.r = r;
        let place = |b: &mut B, text: &str| {
            let mut i = b.n(text.len() as u64 + 1) as usize;
            while !text.is_char_boundary(i) {
                i -= 1;
            }
            i
        };
        // disturb the text
        match self.n(8) {
            0 if !text.is_empty() => {
                let i = place(self, &text);
                if i < text.len() {
                    text.remove(i);
                }
            }
            1 => {
                let i = place(self, &text);
                let c = self.pick(&['a', 'b', 'c', 'd', ',', ';', '(', ')', '[', ']', '<', '>', '?', ' ', '1', ':', '=', '{', '}', '!', '"', '/', '*', '\n', '_', 'é']);
                text.insert(i, c);
            }
            2 => {
                let extra: String = (0..1 + self.n(4)).map(|_| self.pick(&['a', 'b', ',', ';', 'c', ' '])).collect();
                text.push_str(&extra);
            }
            3 if self.p(1, 3) => {
                let i = place(self, &text);
                text.truncate(i);
            }
            4 if self.p(1, 3) => {
                let i = place(self, &text);
                let s = self.pick(&["/* c */", "// c\n", "\t", "\r\n", "/*", "é", "\"a\"", "\u{1f600}", "  ", ",,", "??"]);
                text.insert_str(i, s);
            }
            _ => {}
        }
        // now and then one very long piece: a quoted one, which components take, or a comment
        let ints: Vec<u64> = crate::seeds::pool().ints.iter().copied().filter(|n| *n > 60).collect();
        if self.p.prop >= "C07".to_string() && self.p(1, if ints.iter().any(|n| *n > 1000) { 60 } else { 1500 }) {
            let n = if !ints.is_empty() && self.p(2, 3) { ints[self.n(ints.len() as u64) as usize] } else { self.pick(&[300u64, 5_000, 66_000]) };
            let n = (n + self.n(9)).saturating_sub(4) as usize;
            let i = place(self, &text);
            let long = if self.p(2, 3) { format!("a\"{}\"", "b".repeat(n)) } else { format!("/*{}*/", "b".repeat(n)) };
            text.insert_str(i, &long);
        }
        let mut events: Vec<Event> = vec![];
        let ne = self.n(max_events + 1);
        let mut calls_total = 0;
        for _ in 0..ne {
            // the places the components are asked at, given the events so far
            let places = std::cell::RefCell::new(vec![]);
            {
                let ev = events.clone();
                let t = text.clone();
                let answer = |k: u8, pos: usize| {
                    let a = crate::compcase::scripted(&ev, k, &t, pos);
                    let mut p = places.borrow_mut();
                    if p.len() < 20000 {
                        p.push((k, pos));
                    }
                    a
                };
                let mut w = calls::comp::World { text: &text, answer: &answer, calls: 0, real: false };
                (c.model)(&mut w, 0);
                calls_total = w.calls;
            }
            let places = places.into_inner();
            let kind = self.pick(kinds);
            let what = match kind {
                0 => Do::Error,
                1 => Do::Failure(self.n(6) as u8, self.n(52) as u8),
                2 => Do::Incomplete(self.pick(&[0u16, 1, 2, 3, 8, 501, u16::MAX])),
                3 => Do::Panic(self.n(1000) as u16),
                4 => Do::Zero,
                5 => Do::Take(if self.p(1, 8) { 255 } else { 1 + self.n(3) as u8 }),
                7 => Do::Grudge(self.n(1000) as u16),
                _ => {
                    let s = match self.n(3) {
                        0 => self.text(0),
                        1 => "interface A { attribute long x; };".to_string(),
                        _ => "enum E { \"a\", }; } x".to_string(),
                    };
                    let d = self.doc(s);
                    Do::Reenter(d as u16)
                }
            };
            let e = if self.p(1, 6) {
                Event { k: 0, at: 1 + self.n(calls_total + 2) as u32, by_call: true, what }
            } else if places.is_empty() || self.p(1, 12) {
                Event { k: self.n(4) as u8, at: self.n(text.len() as u64 + 1) as u32, by_call: false, what }
            } else {
                let (k, pos) = places[self.n(places.len() as u64) as usize];
                Event { k, at: pos as u32, by_call: false, what }
            };
            events.push(e);
        }
        self.p.cases.push(Case { comp, text, events });
        self.p.cases.len() - 1
    }
    fn comp_plan(&mut self, kinds: &[u8], max_events: u64) {
        // now and then a few components over and over, on one thread
        let again = self.p(1, 40);
        let nt = if !again && self.p(1, 8) { 2 + self.n(2) as usize } else { 1 };
        let total = if again { 1 + self.n(3) } else { 4 + self.n(20) };
        if again {
            let ints = &crate::seeds::pool().ints;
            let n = if !ints.is_empty() && self.p(1, 2) { ints[self.n(ints.len() as u64) as usize] } else { self.pick(&[20u64, 40, 70, 130, 260, 520]) };
            self.p.repeat = (n.min(1100) + 2) as u32;
        }
        for i in 0..total {
            let case = self.comp_case(kinds, max_events);
            let t = i as usize % nt;
            let fault = if self.p.prop == "C09" && self.p(1, 12) { AllocFault::Nth(1 + self.n(6)) } else { AllocFault::None };
            self.op(t, Kind::Comp { case }, fault);
            if self.p(1, 16) {
                self.op(t, Kind::Respawn, AllocFault::None);
            }
        }
        if nt > 1 {
            self.p.policy.random = true;
            self.p.policy.seed = self.r.next();
            self.p.policy.comp_p = self.pick(&[20u8, 80, 200]);
            self.p.policy.mean_gap = self.pick(&[0u64, 50, 1000]);
            self.p.policy.hot_p = self.pick(&[0u8, 64, 200]);
        }
        self.heap();
    }

    // -------------------------------------------------------------------------------------------- the properties
    fn c01(&mut self) {
        let few = crate::seeds::pool().ints.iter().any(|n| *n > 2 && *n <= 64);
        let nt = if self.p(1, if few { 6 } else { 24 }) { self.crowd() } else { 2 + self.n(4) as usize };
        let fam = self.family();
        let same = self.p(1, 4);
        for t in 0..nt {
            for _ in 0..1 + self.n(3) {
                let (entry, doc) = if same { fam[0] } else { self.any_of(&fam) };
                let buf = self.pick(&[0u8, 0, 1]);
                self.op(t, Kind::Parse { entry, doc, buf, hold: 0 }, AllocFault::None);
            }
        }
        if self.p(1, 6) {
            // one long-lived thread against a busy one
            for _ in 0..6 + self.n(10) {
                let (entry, doc) = self.any_of(&fam);
                self.op(0, Kind::Parse { entry, doc, buf: 0, hold: 0 }, AllocFault::None);
            }
        }
        if self.p(1, 8) {
            let case = self.comp_case(&[0, 5, 6], 2);
            self.op(1, Kind::Comp { case }, AllocFault::None);
        }
        self.heap();
        self.schedule();
        if self.p(1, 10) {
            let ops: Vec<Op> = self.p.tasks.iter().flatten().cloned().collect();
            let i = self.n(ops.len() as u64) as usize;
            let (steps, _) = self.solo(&ops[i]);
            let step = self.n(steps);
            self.p.planned.push(Planned { uid: ops[i].uid, step, kind: PlanKind::StallLong, to: 255 });
        }
    }
    fn disturbance(&mut self, t: usize, fam: &[(usize, usize)]) {
        let (entry, doc) = self.any_of(fam);
        match self.n(10) {
            0 | 1 => {
                let op = Op { uid: 0, kind: Kind::Parse { entry, doc, buf: 0, hold: 0 }, fault: AllocFault::None };
                let (_, allocs) = self.solo(&op);
                let f = self.alloc_fault(allocs);
                let buf = self.pick(&[0u8, 1]);
                self.op(t, Kind::Parse { entry, doc, buf, hold: 0 }, f);
            }
            2 => {
                let case = self.comp_case(&[3, 1, 2, 0, 3, 6], 3);
                self.op(t, Kind::Comp { case }, AllocFault::None);
            }
            3 => {
                self.op(t, Kind::Respawn, AllocFault::None);
            }
            4 => {
                // leftover text: the top-level function panics
                let s = self.text(0) + self.pick(&[" }", " x", ";", "\""]);
                let doc = self.doc(s);
                self.op(t, Kind::Parse { entry: 0, doc, buf: 0, hold: 0 }, AllocFault::None);
            }
            5 => {
                let seed = self.r.next();
                let s = self.p.docs[doc].clone();
                let m = G::new(seed).mutate(&s);
                let d = self.doc(m);
                let buf = self.pick(&[0u8, 1, 2]);
                self.op(t, Kind::Parse { entry, doc: d, buf, hold: 0 }, AllocFault::None);
            }
            6 => {
                // cut short at some character: the start of a comment, string or number is left open
                let s = self.p.docs[doc].clone();
                let k = self.n(s.chars().count() as u64 + 1) as usize;
                let m: String = s.chars().take(k).collect();
                let d = self.doc(m);
                self.op(t, Kind::Parse { entry, doc: d, buf: 1, hold: 0 }, AllocFault::None);
            }
            _ => {
                let buf = self.pick(&[0u8, 1, 2]);
                let hold = if self.p(1, 4) { 1 + self.n(3) as u8 } else { 0 };
                self.op(t, Kind::Parse { entry, doc, buf, hold }, AllocFault::None);
            }
        }
    }
    fn c02(&mut self, tier: Tier, index: u64) {
        let fam = self.family();
        if index % tier.marathon_every == 0 {
            return self.marathon(tier);
        }
        if self.p(1, 24) {
            return self.wrap(&fam);
        }
        let nt = if self.p(1, 3) { 2 } else { 1 };
        let m = if self.p(1, 6) { 60 } else { 14 };
        let len = 2 + self.n(m);
        for i in 0..len {
            let t = i as usize % nt;
            if self.p(1, 2) {
                self.disturbance(t, &fam);
            } else {
                let (entry, doc) = self.any_of(&fam);
                let buf = self.pick(&[0u8, 1, 1, 2]);
                self.op(t, Kind::Parse { entry, doc, buf, hold: 0 }, AllocFault::None);
            }
        }
        for t in 0..nt {
            for _ in 0..2 {
                let (entry, doc) = self.any_of(&fam);
                self.op(t, Kind::Parse { entry, doc, buf: 1, hold: 0 }, AllocFault::None);
            }
        }
        if nt > 1 {
            self.p.policy.random = true;
            self.p.policy.seed = self.r.next();
            self.p.policy.op_p = 160;
            if self.p(1, 2) {
                // abandoned half-way
                let ops: Vec<Op> = self.p.tasks[1].clone();
                let i = self.n(ops.len() as u64) as usize;
                let (steps, _) = self.solo(&ops[i]);
                let step = 1 + self.n(steps);
                self.p.planned.push(Planned { uid: ops[i].uid, step, kind: PlanKind::StallForever, to: 255 });
            }
        }
        self.heap();
        if self.p(1, 8) {
            self.p.repeat = 2 + self.n(60) as u32;
            self.p.fresh = self.p(1, 2);
        }
        // as often as a number in the source suggests
        let ints = &crate::seeds::pool().ints;
        if nt == 1 && !ints.is_empty() && self.p(1, 12) {
            let k = ints[self.n(ints.len() as u64) as usize];
            let ops: Vec<Op> = self.p.tasks[0].clone();
            let total: u64 = ops.iter().map(|o| self.solo(o).0 + 600).sum();
            if k * total < 60_000_000 {
                self.p.repeat = (k + self.n(5)).saturating_sub(2).max(1) as u32;
            }
        }
    }
    /// something, then a chosen number of other parses, then something that may meet what is left of the first
    fn wrap(&mut self, fam: &[(usize, usize)]) {
        let mut fam = fam.to_vec();
        if self.p(1, 2) {
            return self.rounds(&fam);
        }
        // the same length, other boundaries
        for (e, d) in fam.clone() {
            let s = self.p.docs[d].clone();
            let mut r = self.r;
            let t = crate::gen::shift(&mut r, &s);
            self.r = r;
            let d = self.doc(t);
            fam.push((e, d));
        }
        let ints = &crate::seeds::pool().ints;
        let mut n = match self.n(6) {
            0 | 1 => 256,
            2 => 65536,
            3 => self.pick(&[8u64, 16, 32, 64, 100, 128, 512, 1000, 1024, 4096]),
            _ if !ints.is_empty() => ints[self.n(ints.len() as u64) as usize].min(70_000),
            _ => 256,
        };
        n = (n + 2).saturating_sub(self.n(6));
        let (fe, fd) = match self.n(5) {
            0 | 1 => (0, self.doc(String::new())),
            2 => (0, self.doc("A includes B;".into())),
            3 => (calls::entry_index("Identifier").unwrap(), self.doc("a ".into())),
            _ => self.any_of(&fam),
        };
        let op = Op { uid: 0, kind: Kind::Many { entry: fe, doc: fd, times: 1 }, fault: AllocFault::None };
        let per = self.solo(&op).0 + 600;
        if per * n > 400_000_000 {
            n = 256;
        }
        for _ in 0..1 + self.n(2) {
            let (entry, doc) = self.any_of(&fam);
            let buf = self.pick(&[0u8, 2]);
            self.op(0, Kind::Parse { entry, doc, buf, hold: 0 }, AllocFault::None);
        }
        self.op(0, Kind::Many { entry: fe, doc: fd, times: n as u32 }, AllocFault::None);
        for _ in 0..1 + self.n(3) {
            let (entry, doc) = self.any_of(&fam);
            let buf = self.pick(&[0u8, 2]);
            self.op(0, Kind::Parse { entry, doc, buf, hold: 0 }, AllocFault::None);
        }
        self.heap();
    }
    /// one text, about as many others as a counter has values, a text of the same length with other boundaries
    fn rounds(&mut self, fam: &[(usize, usize)]) {
        let (e, d) = self.any_of(fam);
        let e = if self.p(1, 2) { 0 } else { e };
        let s = if e == 0 && self.p(1, 2) { "typedef long A; enum E { \"a\" };".to_string() } else { self.p.docs[d].clone() };
        if s.len() > 2000 {
            return self.wrap(fam);
        }
        let mut r = self.r;
        let (a, b) = crate::gen::pair(&mut r, &s);
        self.r = r;
        let (a, b) = (self.doc(a), self.doc(b));
        let (fe, fd) = match self.n(4) {
            0 | 1 => (0, self.doc(String::new())),
            2 => (0, self.doc(" ".into())),
            _ => (calls::entry_index("Identifier").unwrap(), self.doc("a".into())),
        };
        let n = self.pick(&[256u64, 65536, 65536, 32768, 16, 64, 128, 512, 1000, 1024, 4096]);
        for k in n - 3..=n + 1 {
            self.op(0, Kind::Parse { entry: e, doc: a, buf: 0, hold: 0 }, AllocFault::None);
            self.op(0, Kind::Many { entry: fe, doc: fd, times: k as u32 }, AllocFault::None);
            self.op(0, Kind::Parse { entry: e, doc: b, buf: 0, hold: 0 }, AllocFault::None);
        }
        self.heap();
    }
    /// very many parses in one process
    fn marathon(&mut self, tier: Tier) {
        let k = 1 + self.n(4);
        let steps_cap = tier.marathon_steps;
        let mut per_round = 0;
        for _ in 0..k {
            let e = if self.p(2, 3) { 0 } else { self.entry() };
            let s = match self.n(6) {
                0 => "typedef long Azz0000;".to_string(),
                1 => "enum Ezz0000 { \"azz0000\" };".to_string(),
                2 => "interface Izz0000 { undefined f(long xzz0000); }".to_string(), // rejected
                3 => "typedef long A; junk zz0000".to_string(),                     // panics
                _ => {
                    let mut s = self.text(e);
                    for _ in 0..6 {
                        if s.len() < 120 {
                            break;
                        }
                        s = self.text(e);
                    }
                    s
                }
            };
            let doc = self.doc(s.clone());
            let st = oracle(self.ctx, e, &s, false).0;
            if st.out.tag >= 5 || st.steps > 60_000 {
                continue;
            }
            per_round += st.steps + 600;
            let buf = self.pick(&[0u8, 1, 1]);
            self.op(0, Kind::Parse { entry: e, doc, buf, hold: 0 }, AllocFault::None);
        }
        if self.p.tasks.is_empty() {
            let doc = self.doc("typedef long Azz0000;".into());
            self.op(0, Kind::Parse { entry: 0, doc, buf: 1, hold: 0 }, AllocFault::None);
            per_round = 3000;
        }
        if self.p(1, 3) {
            let case = self.comp_case(&[3, 1, 0, 6], 2);
            self.op(0, Kind::Comp { case }, AllocFault::None);
            per_round += 4000;
        }
        self.p.fresh = self.p(2, 3);
        self.p.env.heap_mode = self.pick(&[0u8, 1, 3]);
        self.p.repeat = (steps_cap / per_round.max(1)).clamp(200, 1_400_000) as u32;
    }
    /// how many threads a crowd has
    fn crowd(&mut self) -> usize {
        let ints: Vec<u64> = crate::seeds::pool().ints.iter().copied().filter(|n| *n > 2 && *n <= 64).collect();
        let n = if !ints.is_empty() && self.p(2, 3) { ints[self.n(ints.len() as u64) as usize] } else { self.pick(&[8u64, 8, 16, 32, 64]) };
        (n + 1 + self.n(3)) as usize
    }
    /// many threads that stall one after the other inside their parses, and one that does not
    fn c03_crowd(&mut self) {
        let nt = self.crowd();
        let fam = self.family();
        let one = self.p(1, 2);
        for t in 0..nt {
            let (entry, doc) = if one { fam[0] } else { self.any_of(&fam) };
            let uid = self.op(t, Kind::Parse { entry, doc, buf: 0, hold: 0 }, AllocFault::None);
            let op = self.p.tasks[t][0].clone();
            let (steps, _) = self.solo(&op);
            if t + 1 < nt && !self.p(1, 60) {
                let step = 1 + self.n(steps);
                self.p.planned.push(Planned { uid, step, kind: PlanKind::StallForever, to: 255 });
            }
        }
        for _ in 0..3 {
            let (entry, doc) = self.any_of(&fam);
            self.op(nt - 1, Kind::Parse { entry, doc, buf: 0, hold: 0 }, AllocFault::None);
        }
        self.heap();
    }
    fn c03(&mut self) {
        if self.p(1, 16) {
            return self.c03_crowd();
        }
        let nt = 2 + self.n(4) as usize;
        let fam = self.family();
        for t in 0..nt {
            for _ in 0..1 + self.n(3) {
                let (entry, doc) = self.any_of(&fam);
                let mut f = AllocFault::None;
                if self.p(1, 8) {
                    let op = Op { uid: 0, kind: Kind::Parse { entry, doc, buf: 0, hold: 0 }, fault: f };
                    let (_, allocs) = self.solo(&op);
                    f = self.alloc_fault(allocs);
                }
                self.op(t, Kind::Parse { entry, doc, buf: 0, hold: 0 }, f);
                if self.p(1, 10) {
                    let case = self.comp_case(&[3, 3, 1, 6], 2);
                    self.op(t, Kind::Comp { case }, AllocFault::None);
                }
            }
        }
        self.heap();
        self.schedule();
        if self.p(1, 2) {
            self.p.policy.stall_p = self.pick(&[10u8, 60, 160]);
        } else {
            for _ in 0..1 + self.n(nt as u64 - 1) {
                let t = self.n(nt as u64) as usize;
                let ops = self.p.tasks[t].clone();
                let op = ops[self.n(ops.len() as u64) as usize].clone();
                let (steps, _) = self.solo(&op);
                let step = 1 + self.n(steps);
                let kind = if self.p(1, 8) { PlanKind::StallLong } else { PlanKind::StallForever };
                self.p.planned.push(Planned { uid: op.uid, step, kind, to: 255 });
            }
        }
    }
    /// trees compared and read, their texts replaced by others of the same length in the same place, and so on
    fn replaced(&mut self) {
        let mut e = self.entry();
        let mut s = self.text(e);
        for _ in 0..8 {
            if s.len() < 60 && oracle(self.ctx, e, &s, false).0.out.tag == 0 {
                break;
            }
            (e, s) = match self.n(4) {
                0 => (calls::entry_index("Identifier").unwrap(), "Abcd".to_string()),
                1 => (0, "typedef long Abcd;".to_string()),
                _ => {
                    let e = self.entry();
                    (e, self.text(e))
                }
            };
        }
        let mut docs = vec![self.doc(s.clone())];
        for _ in 0..1 + self.n(3) {
            let k = 1 + self.n(24) as u8;
            docs.push(self.doc(sibling(&s, k)));
        }
        let nt = if self.p(1, 4) { 2 } else { 1 };
        for t in 0..nt {
            for _ in 0..3 + self.n(6) {
                let doc = if self.p(1, 2) { docs[0] } else { self.pick(&docs) };
                let hold = 1 + (self.n(3) + 1) as u8 / 2;
                self.op(t, Kind::Drop { slot: hold as usize - 1 }, AllocFault::None);
                self.op(t, Kind::Parse { entry: e, doc, buf: 0, hold }, AllocFault::None);
                for _ in 0..1 + self.n(2) {
                    if self.p(2, 3) {
                        let (a, b) = if self.p(3, 4) { (0, 1) } else { (self.n(3) as usize, self.n(3) as usize) };
                        self.op(t, Kind::Cmp { a, b }, AllocFault::None);
                    } else {
                        let (slot, how) = (self.n(3) as usize, self.n(3) as u8);
                        self.op(t, Kind::Read { slot, how }, AllocFault::None);
                    }
                }
            }
        }
        self.heap();
        if self.p(2, 3) {
            self.p.env.heap_mode = 0;
        }
        if nt > 1 {
            self.schedule();
        }
    }
    /// many threads look at the same trees at the same time
    fn readers(&mut self) {
        let nt = 3 + self.n(6) as usize;
        let fam = self.family();
        for i in 0..2 {
            let (entry, doc) = self.any_of(&fam);
            self.op(0, Kind::Parse { entry, doc, buf: 0, hold: 1 + i }, AllocFault::None);
        }
        let alike = self.p(1, 2);
        let kind = self.n(4);
        for t in 0..nt {
            for _ in 0..2 + self.n(3) {
                let k = if alike { kind } else { self.n(4) };
                let slot = if self.p(2, 3) { 0 } else { 1 };
                if k == 3 {
                    let b = self.n(2) as usize;
                    self.op(t, Kind::Cmp { a: slot, b }, AllocFault::None);
                } else {
                    self.op(t, Kind::Read { slot, how: k as u8 }, AllocFault::None);
                }
            }
        }
        self.heap();
        self.schedule();
        self.p.policy.hot_p = self.pick(&[64u8, 160, 250]);
        self.p.policy.comp_p = self.pick(&[20u8, 80, 200]);
    }
    fn c04(&mut self) {
        if self.p(1, 12) {
            return self.replaced();
        }
        if self.p(1, 8) {
            return self.readers();
        }
        let nt = 1 + self.n(4) as usize;
        let fam = self.family();
        let nslots = 2 + self.n(4);
        for i in 0..nslots.min(3) {
            let (entry, doc) = self.any_of(&fam);
            let t = self.n(nt as u64) as usize;
            self.op(t, Kind::Parse { entry, doc, buf: 0, hold: 1 + i as u8 }, AllocFault::None);
        }
        for t in 0..nt {
            for _ in 0..3 + self.n(8) {
                match self.n(12) {
                    0..=2 => {
                        let (entry, doc) = self.any_of(&fam);
                        let hold = 1 + self.n(nslots) as u8;
                        self.op(t, Kind::Parse { entry, doc, buf: 0, hold }, AllocFault::None);
                    }
                    3 | 4 => self.disturbance(t, &fam),
                    5..=8 => {
                        let slot = self.n(nslots) as usize;
                        let how = self.n(3) as u8;
                        self.op(t, Kind::Read { slot, how }, AllocFault::None);
                    }
                    9 => {
                        let (a, b) = (self.n(nslots) as usize, self.n(nslots) as usize);
                        self.op(t, Kind::Cmp { a, b }, AllocFault::None);
                    }
                    _ => {
                        let slot = self.n(nslots) as usize;
                        self.op(t, Kind::Drop { slot }, AllocFault::None);
                    }
                }
            }
        }
        // in the end everything still held is looked at once more
        for slot in 0..nslots as usize {
            for how in 0..3 {
                self.op(nt - 1, Kind::Read { slot, how }, AllocFault::None);
            }
        }
        self.heap();
        if nt > 1 {
            self.schedule();
            self.p.policy.comp_p = self.pick(&[0u8, 0, 20, 80]);
            if self.p(1, 4) {
                let ops: Vec<Op> = self.p.tasks[0].clone();
                let i = self.n(ops.len() as u64) as usize;
                let (steps, _) = self.solo(&ops[i]);
                let step = 1 + self.n(steps);
                self.p.planned.push(Planned { uid: ops[i].uid, step, kind: PlanKind::StallForever, to: 255 });
            }
        }
    }
    fn c05(&mut self) {
        let fam = self.family();
        if self.p(1, 3) && fam.iter().all(|f| self.p.docs[f.1].len() < 900) {
            self.p.grow = 1 + self.n(5) as u8;
            for _ in 0..1 + self.n(3) {
                let (entry, doc) = self.any_of(&fam);
                let hold = self.pick(&[0u8, 0, 1]);
                self.op(0, Kind::Parse { entry, doc, buf: 0, hold }, AllocFault::None);
            }
            self.p.repeat = 10;
            self.p.restart = self.p(1, 8);
            self.heap();
            return;
        }
        let nt = if self.p(1, 4) { 2 } else { 1 };
        for i in 0..1 + self.n(5) {
            let t = i as usize % nt;
            if self.p(2, 3) {
                self.disturbance(t, &fam);
            } else {
                let (entry, doc) = self.any_of(&fam);
                let hold = self.pick(&[0u8, 0, 1, 2]);
                self.op(t, Kind::Parse { entry, doc, buf: 0, hold }, AllocFault::None);
            }
        }
        if self.p.tasks.len() > 1 && self.p.tasks[0].is_empty() {
            self.p.tasks.swap(0, 1);
        }
        if self.p.tasks.iter().any(|t| t.is_empty()) {
            self.p.tasks.retain(|t| !t.is_empty());
        }
        self.p.repeat = 512;
        self.p.fresh = self.p(3, 4);
        self.p.restart = self.p.tasks.len() > 1 || self.p(1, 4);
        self.heap();
        if self.p.env.heap_mode == 2 {
            self.p.env.heap_mode = 0;
        }
        if self.p.tasks.len() > 1 {
            self.schedule();
            self.p.planned.clear();
        }
    }
    fn c06(&mut self) {
        let fam = self.family();
        for _ in 0..1 + self.n(2) {
            let (entry, doc) = self.any_of(&fam);
            let op = Op { uid: 0, kind: Kind::Parse { entry, doc, buf: 0, hold: 0 }, fault: AllocFault::None };
            let (_, allocs) = self.solo(&op);
            if allocs == 0 {
                continue;
            }
            let buf = self.pick(&[0u8, 1]);
            let many = allocs.min(24);
            let start = self.n(allocs);
            for i in 0..many {
                let f = match self.n(10) {
                    0..=6 => AllocFault::Nth(1 + (start + i) % allocs),
                    7 | 8 => AllocFault::From(1 + (start + i) % allocs),
                    _ => AllocFault::MinSize(self.pick(&[17u64, 33, 65, 129, 257, 513, 1025, 4097])),
                };
                self.op(0, Kind::Parse { entry, doc, buf, hold: 0 }, f);
                if self.p(1, 2) || i + 1 == many {
                    self.op(0, Kind::Parse { entry, doc, buf, hold: 0 }, AllocFault::None);
                }
            }
        }
        if self.p(1, 4) {
            let (entry, doc) = self.any_of(&fam);
            for _ in 0..3 {
                self.op(1, Kind::Parse { entry, doc, buf: 0, hold: 0 }, AllocFault::None);
            }
            if self.p.tasks[0].is_empty() {
                self.p.tasks.swap(0, 1);
                self.p.tasks.truncate(1);
            } else {
                self.p.policy.random = true;
                self.p.policy.seed = self.r.next();
                self.p.policy.mean_gap = self.pick(&[30u64, 400]);
                self.p.policy.op_p = 100;
            }
        }
        if self.p.tasks.is_empty() {
            let (entry, doc) = fam[0];
            self.op(0, Kind::Parse { entry, doc, buf: 0, hold: 0 }, AllocFault::From(1));
        }
        self.heap();
    }
    fn c11(&mut self) {
        let nt = 1 + self.n(3) as usize;
        let fam = self.family();
        for t in 0..nt {
            for _ in 0..1 + self.n(4) {
                let (entry, doc) = self.any_of(&fam);
                let buf = self.pick(&[0u8, 1]);
                self.op(t, Kind::Parse { entry, doc, buf, hold: 0 }, AllocFault::None);
            }
            if self.p(1, 4) {
                self.op(t, Kind::Respawn, AllocFault::None);
            }
        }
        for _ in 0..2 + self.n(3) {
            let e = EnvCfg {
                rand_seed: self.r.next(),
                clock_base_ns: self.pick(&[0u64, 1, 946_684_799_000_000_000, 2_147_483_648_000_000_000, 4_000_000_000_000_000_000, 1_700_000_000_123_456_789]),
                clock_jump_ns: self.pick(&[0i64, -1, 1_000_000_007, -3_600_000_000_000, 86_400_000_000_000]),
                env_hostile: self.p(1, 2),
                io_errno: self.pick(&[0i32, 5, 9, 28, 32]),
                heap_mode: self.pick(&[0u8, 1, 2, 3]),
                heap_seed: self.r.next(),
                heap_shift: self.pick(&[0u32, 1, 7, 255, 256, 4096, 65_536, 1_000_003]),
                stack_shift: self.n(4000) as u32,
                pid: self.pick(&[1u32, 2, 7, 999, 32768, 4_000_000]),
                text_shift: if self.p(1, 3) { 1 << 20 | self.n(1 << 20) as u32 } else { self.pick(&[0u32, 1, 2, 3, 5, 8, 17, 63, 4090]) },
                thread: self.pick(&[0u8, 0, 0, 1, 2, 3]),
                ids: self.pick(&[0u8, 0, 0, 0, 1, 2, 5]),
                args: self.pick(&[0u8, 0, 1, 2, 3, 4]),
            };
            self.p.envs.push(e);
        }
    }
}

#[derive(Clone, Copy)]
pub struct Tier {
    pub marathon_every: u64,
    pub marathon_steps: u64,
}

pub fn make(ctx: &mut Ctx, prop: &str, seed: u64, index: u64, tier: Tier) -> Plan {
    let tag: u64 = prop.bytes().fold(0, |a, b| a * 131 + b as u64);
    let s = simrt::mix(simrt::mix(seed, tag), index);
    let mut b = B { ctx, r: Rng::new(s), p: Plan::new(prop, s), uid: 0 };
    match prop {
        "C01" => b.c01(),
        "C02" => b.c02(tier, index),
        "C03" => b.c03(),
        "C04" => b.c04(),
        "C05" => b.c05(),
        "C06" => b.c06(),
        "C07" => b.comp_plan(&[0, 0, 0, 0, 5, 6], 4),
        "C08" => b.comp_plan(&[1, 2, 1, 2, 0, 5, 4], 4),
        "C09" => b.comp_plan(&[3, 3, 3, 7, 7, 0, 1, 2, 6, 5], 4),
        "C10" => b.comp_plan(&[4, 4, 4, 0, 5, 3], 5),
        "C11" => b.c11(),
        _ => panic!("unknown property"),
    }
    b.finish()
}
