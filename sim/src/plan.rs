//! A run, written down: everything that decides an execution, as text.
use simrt::{AllocFault, EnvCfg, PlanKind, Planned};

#[derive(Clone, Debug, PartialEq)]
pub enum Kind {
    /// `buf` 0: a fresh text buffer; k: the task's k-th long-lived buffer, overwritten in place.
    /// `hold` 0: the result is dropped at once; k: kept in slot k-1.
    Parse { entry: usize, doc: usize, buf: u8, hold: u8 },
    Read { slot: usize, how: u8 },
    Cmp { a: usize, b: usize },
    Drop { slot: usize },
    Respawn,
    Comp { case: usize },
    /// The same parse very often, always in the same buffer.
    Many { entry: usize, doc: usize, times: u32 },
}
impl Kind {
    pub fn target(&self) -> Option<(usize, usize)> {
        match *self {
            Kind::Parse { entry, doc, .. } | Kind::Many { entry, doc, .. } => Some((entry, doc)),
            _ => None,
        }
    }
}
#[derive(Clone, Debug)]
pub struct Op {
    pub uid: u32,
    pub kind: Kind,
    pub fault: AllocFault,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Do {
    Error,
    Failure(u8, u8), // where (0 here, 1 start of the text, 2 its end), code
    Incomplete(u16),
    Panic(u16),
    Zero,         // succeed without consuming
    Take(u8),     // succeed, consuming this many characters more
    Grudge(u16),  // succeed as usual; the value's destructor panics, unless the thread is panicking already
    Reenter(u16), // parse doc n through its entry inside the component, then behave as usual
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Event {
    pub k: u8,
    pub at: u32, // position, or number of the call
    pub by_call: bool,
    pub what: Do,
}
#[derive(Clone, Debug)]
pub struct Case {
    pub comp: usize,
    pub text: String,
    pub events: Vec<Event>,
}
#[derive(Clone, Debug)]
pub struct PolicySpec {
    pub seed: u64,
    pub random: bool,
    pub mean_gap: u64,
    pub hot_p: u8,
    pub alloc_p: u8,
    pub op_p: u8,
    pub comp_p: u8,
    pub stall_p: u8,
    pub sites: Vec<u32>,
}
#[derive(Clone)]
pub struct Plan {
    pub prop: String,
    pub seed: u64,
    pub docs: Vec<String>,
    pub cases: Vec<Case>,
    pub tasks: Vec<Vec<Op>>,
    pub policy: PolicySpec,
    pub planned: Vec<Planned>,
    pub env: EnvCfg,
    /// further environments the same operations are run in (each in its own process)
    pub envs: Vec<EnvCfg>,
    /// the operations of every task are repeated this often
    pub repeat: u32,
    /// threads are ended and started again between repetitions
    pub restart: bool,
    /// replace the marker in names by a new one in every repetition
    pub fresh: bool,
    /// C05: not 0: the texts are made four and sixteen times as long in the last repetitions, in this way
    pub grow: u8,
}

impl Plan {
    pub fn new(prop: &str, seed: u64) -> Plan {
        Plan {
            prop: prop.into(), seed, docs: vec![], cases: vec![], tasks: vec![],
            policy: PolicySpec { seed: 0, random: false, mean_gap: 0, hot_p: 0, alloc_p: 0, op_p: 0, comp_p: 0, stall_p: 0, sites: vec![] },
            planned: vec![], env: EnvCfg::plain(), envs: vec![], repeat: 1, restart: false, fresh: false, grow: 0,
        }
    }
    pub fn nops(&self) -> usize {
        self.tasks.iter().map(|t| t.len()).sum()
    }
}

pub fn esc(s: &str) -> String {
    let mut o = String::new();
    for b in s.bytes() {
        match b {
            b'%' | 0..=32 | 127..=255 => o.push_str(&format!("%{b:02x}")),
            _ => o.push(b as char),
        }
    }
    if o.is_empty() {
        o.push_str("%-");
    }
    o
}
pub fn unesc(s: &str) -> Option<String> {
    if s == "%-" {
        return Some(String::new());
    }
    let b = s.as_bytes();
    let mut o = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'%' {
            o.push(u8::from_str_radix(s.get(i + 1..i + 3)?, 16).ok()?);
            i += 3;
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    String::from_utf8(o).ok()
}
fn fault_s(f: AllocFault) -> String {
    match f {
        AllocFault::None => "-".into(),
        AllocFault::Nth(n) => format!("nth:{n}"),
        AllocFault::From(n) => format!("from:{n}"),
        AllocFault::MinSize(n) => format!("min:{n}"),
    }
}
fn fault_p(s: &str) -> Option<AllocFault> {
    if s == "-" {
        return Some(AllocFault::None);
    }
    let (a, b) = s.split_once(':')?;
    let n = b.parse().ok()?;
    Some(match a {
        "nth" => AllocFault::Nth(n),
        "from" => AllocFault::From(n),
        "min" => AllocFault::MinSize(n),
        _ => return None,
    })
}
fn env_s(e: &EnvCfg) -> String {
    format!("{} {} {} {} {} {} {} {} {} {} {} {} {} {}", e.rand_seed, e.clock_base_ns, e.clock_jump_ns, e.env_hostile as u8,
        e.io_errno, e.heap_mode, e.heap_seed, e.heap_shift, e.stack_shift, e.pid, e.text_shift, e.thread, e.ids, e.args)
}
fn env_p(f: &[&str]) -> Option<EnvCfg> {
    Some(EnvCfg {
        rand_seed: f.get(0)?.parse().ok()?, clock_base_ns: f.get(1)?.parse().ok()?, clock_jump_ns: f.get(2)?.parse().ok()?,
        env_hostile: *f.get(3)? == "1", io_errno: f.get(4)?.parse().ok()?, heap_mode: f.get(5)?.parse().ok()?,
        heap_seed: f.get(6)?.parse().ok()?, heap_shift: f.get(7)?.parse().ok()?, stack_shift: f.get(8)?.parse().ok()?,
        pid: f.get(9)?.parse().ok()?, text_shift: f.get(10)?.parse().ok()?,
        thread: f.get(11)?.parse().ok()?, ids: f.get(12)?.parse().ok()?, args: f.get(13)?.parse().ok()?,
    })
}

impl Plan {
    pub fn to_text(&self) -> String {
        let mut o = String::new();
        o.push_str(&format!("property {}\nseed {}\n", self.prop, self.seed));
        o.push_str(&format!("repeat {} {} {} {}\n", self.repeat, self.restart as u8, self.fresh as u8, self.grow));
        let p = &self.policy;
        o.push_str(&format!("policy {} {} {} {} {} {} {} {}", p.seed, p.random as u8, p.mean_gap, p.hot_p, p.alloc_p, p.op_p, p.comp_p, p.stall_p));
        for s in &p.sites {
            o.push_str(&format!(" {s}"));
        }
        o.push('\n');
        o.push_str(&format!("env {}\n", env_s(&self.env)));
        for e in &self.envs {
            o.push_str(&format!("variant {}\n", env_s(e)));
        }
        for d in &self.docs {
            o.push_str(&format!("doc {}\n", esc(d)));
        }
        for c in &self.cases {
            o.push_str(&format!("case {} {}\n", esc(&(calls::comp::COMPOSITIONS[c.comp].name)()), esc(&c.text)));
            for e in &c.events {
                let w = match e.what {
                    Do::Error => "error".into(),
                    Do::Failure(a, b) => format!("failure {a} {b}"),
                    Do::Incomplete(n) => format!("incomplete {n}"),
                    Do::Panic(n) => format!("panic {n}"),
                    Do::Zero => "zero".into(),
                    Do::Take(n) => format!("take {n}"),
                    Do::Grudge(n) => format!("grudge {n}"),
                    Do::Reenter(n) => format!("reenter {n}"),
                };
                o.push_str(&format!("event {} {} {} {}\n", e.k, e.at, if e.by_call { "call" } else { "pos" }, w));
            }
        }
        for (i, t) in self.tasks.iter().enumerate() {
            o.push_str(&format!("task {i}\n"));
            for op in t {
                let k = match &op.kind {
                    Kind::Parse { entry, doc, buf, hold } => {
                        format!("parse {} {} {} {}", esc(calls::entry(*entry).name), doc, buf, hold)
                    }
                    Kind::Read { slot, how } => format!("read {slot} {how}"),
                    Kind::Cmp { a, b } => format!("cmp {a} {b}"),
                    Kind::Drop { slot } => format!("drop {slot}"),
                    Kind::Respawn => "respawn".into(),
                    Kind::Comp { case } => format!("comp {case}"),
                    Kind::Many { entry, doc, times } => format!("many {} {} {}", esc(calls::entry(*entry).name), doc, times),
                };
                o.push_str(&format!("op {} {} {}\n", op.uid, fault_s(op.fault), k));
            }
        }
        for p in &self.planned {
            let k = match p.kind {
                PlanKind::Switch => "switch",
                PlanKind::Forced => "forced",
                PlanKind::StallForever => "stall",
                PlanKind::StallLong => "stall-long",
            };
            o.push_str(&format!("at {} {} {} {}\n", p.uid, p.step, k, p.to));
        }
        o
    }
    /// A run of very many parses.
    pub fn long(&self) -> bool {
        self.repeat > 1000 || self.tasks.iter().flatten().any(|o| matches!(o.kind, Kind::Many { times, .. } if times > 1000))
    }
    pub fn from_text(s: &str) -> Option<Plan> {
        let mut p = Plan::new("", 0);
        for l in s.lines() {
            let f: Vec<&str> = l.split(' ').collect();
            match f[0] {
                "property" => p.prop = f.get(1)?.to_string(),
                "seed" => p.seed = f.get(1)?.parse().ok()?,
                "repeat" => {
                    p.repeat = f.get(1)?.parse().ok()?;
                    p.restart = *f.get(2)? == "1";
                    p.fresh = *f.get(3)? == "1";
                    p.grow = f.get(4)?.parse().ok()?;
                }
                "policy" => {
                    p.policy = PolicySpec {
                        seed: f.get(1)?.parse().ok()?, random: *f.get(2)? == "1", mean_gap: f.get(3)?.parse().ok()?,
                        hot_p: f.get(4)?.parse().ok()?, alloc_p: f.get(5)?.parse().ok()?, op_p: f.get(6)?.parse().ok()?,
                        comp_p: f.get(7)?.parse().ok()?, stall_p: f.get(8)?.parse().ok()?, sites: f[9..].iter().filter_map(|x| x.parse().ok()).collect(),
                    }
                }
                "env" => p.env = env_p(&f[1..])?,
                "variant" => p.envs.push(env_p(&f[1..])?),
                "doc" => p.docs.push(unesc(f.get(1)?)?),
                "case" => {
                    let name = unesc(f.get(1)?)?;
                    let comp = calls::comp::COMPOSITIONS.iter().position(|c| (c.name)() == name)?;
                    p.cases.push(Case { comp, text: unesc(f.get(2)?)?, events: vec![] });
                }
                "event" => {
                    let n = |i: usize| -> Option<u64> { f.get(i)?.parse().ok() };
                    let what = match *f.get(4)? {
                        "error" => Do::Error,
                        "failure" => Do::Failure(n(5)? as u8, n(6)? as u8),
                        "incomplete" => Do::Incomplete(n(5)? as u16),
                        "panic" => Do::Panic(n(5)? as u16),
                        "zero" => Do::Zero,
                        "take" => Do::Take(n(5)? as u8),
                        "grudge" => Do::Grudge(n(5)? as u16),
                        "reenter" => Do::Reenter(n(5)? as u16),
                        _ => return None,
                    };
                    let e = Event { k: n(1)? as u8, at: n(2)? as u32, by_call: *f.get(3)? == "call", what };
                    p.cases.last_mut()?.events.push(e);
                }
                "task" => p.tasks.push(vec![]),
                "op" => {
                    let n = |i: usize| -> Option<usize> { f.get(i)?.parse().ok() };
                    let kind = match *f.get(3)? {
                        "parse" => {
                            let name = unesc(f.get(4)?)?;
                            Kind::Parse { entry: calls::entry_index(&name)?, doc: n(5)?, buf: n(6)? as u8, hold: n(7)? as u8 }
                        }
                        "read" => Kind::Read { slot: n(4)?, how: n(5)? as u8 },
                        "cmp" => Kind::Cmp { a: n(4)?, b: n(5)? },
                        "drop" => Kind::Drop { slot: n(4)? },
                        "respawn" => Kind::Respawn,
                        "comp" => Kind::Comp { case: n(4)? },
                        "many" => Kind::Many { entry: calls::entry_index(&unesc(f.get(4)?)?)?, doc: n(5)?, times: n(6)? as u32 },
                        _ => return None,
                    };
                    p.tasks.last_mut()?.push(Op { uid: n(1)? as u32, fault: fault_p(f.get(2)?)?, kind });
                }
                "at" => {
                    let kind = match *f.get(3)? {
                        "switch" => PlanKind::Switch,
                        "forced" => PlanKind::Forced,
                        "stall" => PlanKind::StallForever,
                        "stall-long" => PlanKind::StallLong,
                        _ => return None,
                    };
                    p.planned.push(Planned { uid: f.get(1)?.parse().ok()?, step: f.get(2)?.parse().ok()?, kind, to: f.get(4)?.parse().ok()? });
                }
                _ => {} // comments and the expected violation
            }
        }
        Some(p)
    }
}
