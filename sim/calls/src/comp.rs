//! Scripted components inside the library's generic constructs, and the model of those constructs.
//!
//! `Leaf<K>` is a caller's own component: it asks the simulator (through `HOOK`) what to do at every call and tells it
//! (through `DROP`) about every value destroyed. Each construct type also has a `model`, written from the property
//! statements alone, which says what the construct must do given the answers the components gave.
use std::default::Default;
use weedle::common::*;
use weedle::types::MayBeNull;
use weedle::{Err, ErrorKind, IResult, Parse};

/// What a component does when called.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Ans {
    Ok(usize),                // succeeds, consuming up to this absolute position
    Error,                    // recoverable
    Failure(usize, u8),       // unrecoverable, with this position and code
    Incomplete(usize),        // needs this many more bytes, less one (0: unknown)
    Panic(u64),
}

pub static mut HOOK: fn(u8, &'static str) -> (Ans, &'static str, u32, u32, u32) = |_, _| unreachable!();
pub static mut BORN: fn(u8) -> u32 = |_| 0;
/// Says whether the destructor is to panic, and with what.
pub static mut DROP: fn(u32) -> Option<u64> = |_| None;

/// A panic payload of a component's own type.
pub struct CompPanic(pub u64);
pub const WORDS: [&str; 4] = ["component gave up", "", "not\nparsed", "weedle"];
/// Panics with a payload whose type and contents depend on `id` alone.
fn give_up(id: u64) -> ! {
    match id % 6 {
        0 => std::panic::panic_any(CompPanic(id)),
        1 => std::panic::panic_any(WORDS[(id / 6) as usize % 4]),
        2 => std::panic::panic_any(format!("component {id} gave up")),
        3 => std::panic::panic_any(id),
        4 => std::panic::panic_any(()),
        _ => std::panic::panic_any(Box::new(std::fmt::Error) as Box<dyn std::error::Error + Send + Sync>),
    }
}
/// Whether this is exactly the payload `give_up(id)` raised.
pub fn is_payload(p: &(dyn std::any::Any + Send), id: u64) -> bool {
    match id % 6 {
        0 => p.downcast_ref::<CompPanic>().is_some_and(|c| c.0 == id),
        1 => p.downcast_ref::<&'static str>().is_some_and(|c| *c == WORDS[(id / 6) as usize % 4]),
        2 => p.downcast_ref::<String>().is_some_and(|c| *c == format!("component {id} gave up")),
        3 => p.downcast_ref::<u64>().is_some_and(|c| *c == id),
        4 => p.is::<()>(),
        _ => p.is::<Box<dyn std::error::Error + Send + Sync>>(),
    }
}

#[derive(Debug)]
pub struct Leaf<const K: u8> {
    pub start: u32,
    pub end: u32,
    pub serial: u32,
}
impl<const K: u8> Drop for Leaf<K> {
    fn drop(&mut self) {
        if let Some(id) = unsafe { DROP(self.serial) } {
            give_up(id)
        }
    }
}
impl<const K: u8> Clone for Leaf<K> {
    fn clone(&self) -> Self {
        Leaf { start: self.start, end: self.end, serial: unsafe { BORN(K) } }
    }
}
impl<const K: u8> Default for Leaf<K> {
    fn default() -> Self {
        Leaf { start: u32::MAX, end: u32::MAX, serial: unsafe { BORN(K) } }
    }
}
impl<const K: u8> PartialEq for Leaf<K> {
    fn eq(&self, o: &Self) -> bool {
        (self.start, self.end) == (o.start, o.end)
    }
}
impl<const K: u8> Eq for Leaf<K> {}
impl<const K: u8> PartialOrd for Leaf<K> {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl<const K: u8> Ord for Leaf<K> {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        (self.start, self.end).cmp(&(o.start, o.end))
    }
}
impl<const K: u8> std::hash::Hash for Leaf<K> {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        (self.start, self.end).hash(h)
    }
}

/// A component whose values take no room: they can only be counted.
#[derive(Debug)]
pub struct Zst(());
/// Values made and destroyed so far.
pub static mut ZST: (u64, u64) = (0, 0);
impl Drop for Zst {
    fn drop(&mut self) {
        unsafe { ZST.1 += 1 }
    }
}
impl Zst {
    fn new() -> Zst {
        unsafe { ZST.0 += 1 }
        Zst(())
    }
}
impl Default for Zst {
    fn default() -> Self {
        Zst::new()
    }
}
/// A component with large values that have to lie at particular addresses.
#[derive(Debug)]
#[repr(align(64))]
pub struct Wide(Leaf<2>, [u8; 400]);

pub const CODES: [ErrorKind; 52] = [
    ErrorKind::Tag, ErrorKind::Verify, ErrorKind::Digit, ErrorKind::Many0, ErrorKind::SeparatedList, ErrorKind::Alt,
    ErrorKind::Eof, ErrorKind::Complete, ErrorKind::Many1, ErrorKind::SeparatedNonEmptyList, ErrorKind::TakeUntil,
    ErrorKind::TakeWhile1, ErrorKind::Char, ErrorKind::OneOf, ErrorKind::Not, ErrorKind::Permutation,
    ErrorKind::NonEmpty, ErrorKind::Space, ErrorKind::Switch, ErrorKind::CrLf, ErrorKind::MapOpt, ErrorKind::ManyTill,
    ErrorKind::TooLarge, ErrorKind::NoneOf, ErrorKind::MapRes, ErrorKind::IsNot, ErrorKind::IsA, ErrorKind::Count,
    ErrorKind::LengthValue, ErrorKind::TagClosure, ErrorKind::Alpha, ErrorKind::HexDigit, ErrorKind::OctDigit,
    ErrorKind::AlphaNumeric, ErrorKind::MultiSpace, ErrorKind::LengthValueFn, ErrorKind::TagBits,
    ErrorKind::RegexpMatch, ErrorKind::RegexpMatches, ErrorKind::RegexpFind, ErrorKind::RegexpCapture,
    ErrorKind::RegexpCaptures, ErrorKind::Fix, ErrorKind::Escaped, ErrorKind::EscapedTransform, ErrorKind::ManyMN,
    ErrorKind::TakeTill1, ErrorKind::TakeWhileMN, ErrorKind::ParseTo, ErrorKind::Many0Count, ErrorKind::Many1Count,
    ErrorKind::Float,
];

impl<const K: u8> Parse<'static> for Leaf<K> {
    fn parse(input: &'static str) -> IResult<&'static str, Self> {
        ask(K, input, |start, end, serial| Leaf { start, end, serial })
    }
}
impl Parse<'static> for Zst {
    fn parse(input: &'static str) -> IResult<&'static str, Self> {
        ask(3 | NO_VALUE, input, |_, _, _| Zst::new())
    }
}
impl Parse<'static> for Wide {
    fn parse(input: &'static str) -> IResult<&'static str, Self> {
        Leaf::parse(input).map(|(r, l)| (r, Wide(l, [0x5c; 400])))
    }
}
/// Tells the simulator that the component's values are not tracked one by one.
pub const NO_VALUE: u8 = 128;
fn ask<T>(k: u8, input: &'static str, make: impl Fn(u32, u32, u32) -> T) -> IResult<&'static str, T> {
        let (a, at, start, end, serial) = unsafe { HOOK(k, input) };
        match a {
            Ans::Ok(_) => Ok((at, make(start, end, serial))),
            Ans::Error => Err(Err::Error((at, CODES[serial as usize % CODES.len()]))),
            Ans::Failure(_, c) => Err(Err::Failure((at, CODES[c as usize % CODES.len()]))),
            // the payload type is not re-exported by the library; it is nom's
            Ans::Incomplete(n) => Err(Err::Incomplete(if n == 0 { nom::Needed::Unknown } else { nom::Needed::Size(n - 1) })),
            Ans::Panic(id) => give_up(id),
        }
}

#[derive(Clone, PartialEq, Debug)]
pub enum Node {
    Leaf(u8, u32, u32),
    /// a value of no size
    Nothing,
    Tok(&'static str),
    Name(String),
    None,
    Some(Box<Node>),
    List(Vec<Node>),
    /// a separated list
    Sep(Vec<Node>),
    Group(Vec<Node>),
    /// in brackets
    Wrap(Box<Node>),
}
impl Node {
    /// Certainly made from no text at all.
    fn empty(&self) -> bool {
        match self {
            Node::Leaf(_, s, e) => s == e,
            Node::Tok(_) | Node::Name(_) | Node::Wrap(_) | Node::Nothing => false,
            Node::None => true,
            Node::Some(n) => n.empty(),
            Node::List(l) | Node::Sep(l) | Node::Group(l) => l.iter().all(|n| n.empty()),
        }
    }
    /// The position of some component value in it.
    fn leaf(&self) -> Option<u32> {
        match self {
            Node::Leaf(_, _, e) => Some(*e),
            Node::Tok(_) | Node::Name(_) | Node::None | Node::Nothing => None,
            Node::Some(n) | Node::Wrap(n) => n.leaf(),
            Node::List(l) | Node::Sep(l) | Node::Group(l) => l.iter().filter_map(|n| n.leaf()).max(),
        }
    }
    /// A list in it that grew without consuming anything.
    pub fn grown(&self) -> Option<&Node> {
        match self {
            Node::Leaf(..) | Node::Tok(_) | Node::Name(_) | Node::None | Node::Nothing => None,
            Node::Some(n) | Node::Wrap(n) => n.grown(),
            Node::List(l) => {
                if l.iter().any(|n| n.empty()) {
                    return Some(self);
                }
                l.iter().find_map(|n| n.grown())
            }
            Node::Sep(l) => {
                if l.first().is_some_and(|n| n.empty()) {
                    return Some(self);
                }
                for i in 1..l.len() {
                    // nothing, not even a separator, between the end of the one before and this one
                    if l[i].empty() && l[i].leaf().is_some() && l[i].leaf() == l[i - 1].leaf() {
                        return Some(self);
                    }
                }
                l.iter().find_map(|n| n.grown())
            }
            Node::Group(l) => l.iter().find_map(|n| n.grown()),
        }
    }
}

#[derive(Clone, PartialEq, Debug)]
pub enum M {
    Ok(usize, Node),
    Error,
    Failure(usize, u8),
    Incomplete(usize),
    Panic(u64),
    /// a repeated construct met a component that succeeds without consuming: only termination is stated
    NoProgress,
}

/// The answers of the components, for the model.
pub struct World<'w> {
    pub text: &'w str,
    /// tokens and names are read by the library itself; otherwise (only to make up texts) by an approximation of it
    pub real: bool,
    pub answer: &'w dyn Fn(u8, usize) -> Ans,
    pub calls: u64,
}

pub trait Comp: Parse<'static> + 'static {
    fn model(w: &mut World, pos: usize) -> M;
    /// the value as a tree of nodes; appends the serials of the component values in it
    fn node(&self, serials: &mut Vec<u32>) -> Node;
    fn name() -> String;
    /// a text the construct accepts when its components behave; `r(n)` draws below n
    fn text(r: &mut dyn FnMut(u64) -> u64, out: &mut String);
    const LEAVES: u64;
}
/// How much more text is to be made up, about; and numbers and words from the source of the library, as hints.
pub static mut ROOM: i64 = 1500;
pub static mut NUMBERS: Vec<u64> = vec![];
pub static mut FRAGMENTS: Vec<String> = vec![];
#[allow(static_mut_refs)]
fn many(r: &mut dyn FnMut(u64) -> u64) -> u64 {
    unsafe {
        let room = ROOM.max(2) as u64;
        if r(60) == 0 && !NUMBERS.is_empty() {
            return (NUMBERS[r(NUMBERS.len() as u64) as usize] + r(3)).saturating_sub(1).min(room);
        }
        if r(150) == 0 || room > 3000 && r(2) == 0 {
            return (room / 6 + r(room)).min(room);
        }
        let n = match r(40) {
            0..=7 => 0,
            8..=15 => 1,
            16..=23 => 2,
            24..=36 => 3 + r(4),
            37..=38 => 7 + r(12),
            _ => 16 + r(60),
        };
        n.min(room)
    }
}
const ODD: [&str; 20] = [
    "\u{e9}", "\u{1f600}", "// x\n", "/* y */", "/*", "//", "(", "]", "}", "<", ",", ";", "?", "\0", "\r\n", "\u{feff}", "interface", "_", "-Infinity",
    "\u{2028} \u{a0}",
];
#[allow(static_mut_refs)]
fn fragment(r: &mut dyn FnMut(u64) -> u64) -> &'static str {
    unsafe {
        if !FRAGMENTS.is_empty() && r(2) == 0 {
            &FRAGMENTS[r(FRAGMENTS.len() as u64) as usize]
        } else {
            ODD[r(20) as usize]
        }
    }
}
fn trivia(r: &mut dyn FnMut(u64) -> u64, out: &mut String) {
    unsafe { ROOM -= 1 }
    if r(5) == 0 {
        out.push_str([" ", "\n", "\t", "\r\n", "/* z */", "// z\n", "  ", "/**/ /***/"][r(8) as usize])
    }
}
fn sp(r: &mut dyn FnMut(u64) -> u64, out: &mut String) {
    if r(6) == 0 {
        out.push(' ')
    }
}

impl<const K: u8> Comp for Leaf<K> {
    fn model(w: &mut World, pos: usize) -> M {
        w.calls += 1;
        match (w.answer)(K, pos) {
            Ans::Ok(e) => M::Ok(e, Node::Leaf(K, pos as u32, e as u32)),
            Ans::Error => M::Error,
            Ans::Failure(p, c) => M::Failure(p, c),
            Ans::Incomplete(n) => M::Incomplete(n),
            Ans::Panic(p) => M::Panic(p),
        }
    }
    fn node(&self, s: &mut Vec<u32>) -> Node {
        s.push(self.serial);
        Node::Leaf(K, self.start, self.end)
    }
    fn name() -> String {
        ((b'A' + K) as char).to_string()
    }
    fn text(r: &mut dyn FnMut(u64) -> u64, out: &mut String) {
        out.push((b'a' + K) as char);
        for _ in 0..r(3) {
            out.push((b'0' + r(10) as u8) as char);
        }
        unsafe { ROOM -= 2 }
        if r(12) == 0 {
            out.push('"');
            out.push_str(fragment(r));
            out.push('"');
        }
        sp(r, out)
    }
    const LEAVES: u64 = 1;
}

impl Comp for Zst {
    fn model(w: &mut World, pos: usize) -> M {
        match Leaf::<3>::model(w, pos) {
            M::Ok(p, _) => M::Ok(p, Node::Nothing),
            o => o,
        }
    }
    fn node(&self, s: &mut Vec<u32>) -> Node {
        s.push(u32::MAX);
        Node::Nothing
    }
    fn name() -> String {
        "Zst".into()
    }
    fn text(r: &mut dyn FnMut(u64) -> u64, out: &mut String) {
        Leaf::<3>::text(r, out)
    }
    const LEAVES: u64 = 1;
}
impl Comp for Wide {
    fn model(w: &mut World, pos: usize) -> M {
        Leaf::<2>::model(w, pos)
    }
    fn node(&self, s: &mut Vec<u32>) -> Node {
        assert!(self as *const Wide as usize % 64 == 0 && self.1.iter().all(|b| *b == 0x5c), "a component's value was damaged");
        self.0.node(s)
    }
    fn name() -> String {
        "Wide".into()
    }
    fn text(r: &mut dyn FnMut(u64) -> u64, out: &mut String) {
        Leaf::<2>::text(r, out)
    }
    const LEAVES: u64 = 1;
}

/// Blanks and comments.
pub fn skip(t: &str, mut p: usize) -> usize {
    loop {
        if p < t.len() && matches!(t.as_bytes()[p], b' ' | b'\t' | b'\n' | b'\r') {
            p += 1;
        } else if t.is_char_boundary(p) && t[p..].starts_with("//") && t[p..].contains('\n') {
            p += t[p..].find('\n').unwrap() + 1;
        } else if t.is_char_boundary(p) && t[p..].starts_with("/*") && t[p + 2..].contains("*/") {
            p += t[p + 2..].find("*/").unwrap() + 4;
        } else {
            return p;
        }
    }
}
/// What the library's own parser makes of the text from `pos` on.
fn read<T: Parse<'static>>(w: &World, pos: usize, f: impl Fn(&T) -> Node) -> M {
    let t: &'static str = unsafe { &*(&w.text[pos..] as *const str) };
    match T::parse(t) {
        Ok((rest, v)) => M::Ok(w.text.len() - rest.len(), f(&v)),
        Err(_) => M::Error,
    }
}
macro_rules! tok {
    ($($t:ident $c:literal)*) => { $(
        impl Comp for weedle::term::$t {
            fn model(w: &mut World, pos: usize) -> M {
                if w.real {
                    return read::<Self>(w, pos, |_| Node::Tok($c));
                }
                let p = skip(w.text, pos);
                if w.text[p..].starts_with($c) {
                    M::Ok(skip(w.text, p + $c.len()), Node::Tok($c))
                } else {
                    M::Error
                }
            }
            fn node(&self, _: &mut Vec<u32>) -> Node {
                Node::Tok($c)
            }
            fn name() -> String {
                format!("'{}'", $c)
            }
            fn text(r: &mut dyn FnMut(u64) -> u64, out: &mut String) {
                trivia(r, out);
                out.push_str($c);
                trivia(r, out)
            }
                const LEAVES: u64 = 1;
        } )* };
}
tok! { Comma "," SemiColon ";" Colon ":" Assign "=" }

impl Comp for Identifier<'static> {
    fn model(w: &mut World, pos: usize) -> M {
        if w.real {
            return read::<Self>(w, pos, |v| Node::Name(v.0.to_string()));
        }
        let b = w.text.as_bytes();
        let mut p = skip(w.text, pos);
        if p < b.len() && b[p] == b'_' {
            p += 1;
        }
        let s = p;
        while p < b.len() && b[p].is_ascii_alphabetic() {
            p += 1;
        }
        if p == s {
            return M::Error;
        }
        while p < b.len() && (b[p].is_ascii_alphanumeric() || b[p] == b'_' || b[p] == b'-') {
            p += 1;
        }
        M::Ok(skip(w.text, p), Node::Name(w.text[s..p].to_string()))
    }
    fn node(&self, _: &mut Vec<u32>) -> Node {
        Node::Name(self.0.to_string())
    }
    fn name() -> String {
        "name".into()
    }
    fn text(r: &mut dyn FnMut(u64) -> u64, out: &mut String) {
        out.push_str(["x", "name", "_a", "b-c", "Zz9"][r(5) as usize]);
        out.push(' ')
    }
    const LEAVES: u64 = 1;
}

impl<T: Comp> Comp for Option<T> {
    fn model(w: &mut World, pos: usize) -> M {
        match T::model(w, pos) {
            M::Ok(p, n) => M::Ok(p, Node::Some(Box::new(n))),
            M::Error => M::Ok(pos, Node::None),
            o => o,
        }
    }
    fn node(&self, s: &mut Vec<u32>) -> Node {
        match self {
            Some(t) => Node::Some(Box::new(t.node(s))),
            None => Node::None,
        }
    }
    fn name() -> String {
        format!("Option<{}>", T::name())
    }
    fn text(r: &mut dyn FnMut(u64) -> u64, out: &mut String) {
        if r(3) > 0 {
            T::text(r, out)
        }
    }
    const LEAVES: u64 = T::LEAVES;
}
impl<T: Comp> Comp for Box<T> {
    fn model(w: &mut World, pos: usize) -> M {
        T::model(w, pos)
    }
    fn node(&self, s: &mut Vec<u32>) -> Node {
        (**self).node(s)
    }
    fn name() -> String {
        format!("Box<{}>", T::name())
    }
    fn text(r: &mut dyn FnMut(u64) -> u64, out: &mut String) {
        T::text(r, out)
    }
    const LEAVES: u64 = T::LEAVES;
}
impl<T: Comp> Comp for Vec<T> {
    fn model(w: &mut World, mut pos: usize) -> M {
        let mut l = vec![];
        loop {
            match T::model(w, pos) {
                M::Ok(p, _) if p == pos => return M::NoProgress,
                M::Ok(p, n) => {
                    pos = p;
                    l.push(n)
                }
                M::Error => return M::Ok(pos, Node::List(l)),
                o => return o,
            }
        }
    }
    fn node(&self, s: &mut Vec<u32>) -> Node {
        Node::List(self.iter().map(|x| x.node(s)).collect())
    }
    fn name() -> String {
        format!("Vec<{}>", T::name())
    }
    fn text(r: &mut dyn FnMut(u64) -> u64, out: &mut String) {
        for _ in 0..many(r) {
            T::text(r, out)
        }
    }
    const LEAVES: u64 = T::LEAVES;
}
macro_rules! seq {
    ($w:ident $pos:ident; $($t:ty),*) => {{
        let mut v = vec![];
        let mut p = $pos;
        $( match <$t>::model($w, p) {
            M::Ok(e, n) => { p = e; v.push(n) }
            o => return o,
        } )*
        M::Ok(p, Node::Group(v))
    }};
}
impl<T: Comp, U: Comp> Comp for (T, U) {
    fn model(w: &mut World, pos: usize) -> M {
        seq!(w pos; T, U)
    }
    fn node(&self, s: &mut Vec<u32>) -> Node {
        Node::Group(vec![self.0.node(s), self.1.node(s)])
    }
    fn name() -> String {
        format!("({}, {})", T::name(), U::name())
    }
    fn text(r: &mut dyn FnMut(u64) -> u64, out: &mut String) {
        T::text(r, out);
        U::text(r, out)
    }
    const LEAVES: u64 = T::LEAVES + U::LEAVES;
}
impl<T: Comp, U: Comp, V: Comp> Comp for (T, U, V) {
    fn model(w: &mut World, pos: usize) -> M {
        seq!(w pos; T, U, V)
    }
    fn node(&self, s: &mut Vec<u32>) -> Node {
        Node::Group(vec![self.0.node(s), self.1.node(s), self.2.node(s)])
    }
    fn name() -> String {
        format!("({}, {}, {})", T::name(), U::name(), V::name())
    }
    fn text(r: &mut dyn FnMut(u64) -> u64, out: &mut String) {
        T::text(r, out);
        U::text(r, out);
        V::text(r, out)
    }
    const LEAVES: u64 = T::LEAVES + U::LEAVES + V::LEAVES;
}
fn token(w: &World, pos: usize, c: u8) -> Option<usize> {
    if w.real {
        use weedle::term::*;
        let n = |_| Node::None;
        let m = match c {
            b'(' => read::<OpenParen>(w, pos, |_| n(())),
            b')' => read::<CloseParen>(w, pos, |_| n(())),
            b'[' => read::<OpenBracket>(w, pos, |_| n(())),
            b']' => read::<CloseBracket>(w, pos, |_| n(())),
            b'{' => read::<OpenBrace>(w, pos, |_| n(())),
            b'}' => read::<CloseBrace>(w, pos, |_| n(())),
            b'<' => read::<LessThan>(w, pos, |_| n(())),
            b'>' => read::<GreaterThan>(w, pos, |_| n(())),
            _ => read::<QMark>(w, pos, |_| n(())),
        };
        return if let M::Ok(p, _) = m { Some(p) } else { None };
    }
    let p = skip(w.text, pos);
    if w.text.as_bytes().get(p) == Some(&c) {
        Some(skip(w.text, p + 1))
    } else {
        None
    }
}
macro_rules! wrapped {
    ($($t:ident $a:literal $b:literal $n:literal)*) => { $(
        impl<T: Comp> Comp for $t<T> {
            fn model(w: &mut World, pos: usize) -> M {
                let Some(p) = token(w, pos, $a) else { return M::Error };
                match T::model(w, p) {
                    M::Ok(p, n) => match token(w, p, $b) {
                        Some(p) => M::Ok(p, Node::Wrap(Box::new(n))),
                        None => M::Error,
                    },
                    o => o,
                }
            }
            fn node(&self, s: &mut Vec<u32>) -> Node {
                Node::Wrap(Box::new(self.body.node(s)))
            }
            fn name() -> String {
                format!("{}<{}>", $n, T::name())
            }
            fn text(r: &mut dyn FnMut(u64) -> u64, out: &mut String) {
                out.push($a as char);
                trivia(r, out);
                T::text(r, out);
                out.push($b as char);
                trivia(r, out)
            }
                const LEAVES: u64 = T::LEAVES;
        } )* };
}
wrapped! { Parenthesized b'(' b')' "Parenthesized" Bracketed b'[' b']' "Bracketed" Braced b'{' b'}' "Braced" Generics b'<' b'>' "Generics" }

impl<T: Comp> Comp for MayBeNull<T> {
    fn model(w: &mut World, pos: usize) -> M {
        match T::model(w, pos) {
            M::Ok(p, n) => match token(w, p, b'?') {
                Some(q) => M::Ok(q, Node::Group(vec![n, Node::Tok("?")])),
                None => M::Ok(p, Node::Group(vec![n, Node::None])),
            },
            o => o,
        }
    }
    fn node(&self, s: &mut Vec<u32>) -> Node {
        Node::Group(vec![self.type_.node(s), if self.q_mark.is_some() { Node::Tok("?") } else { Node::None }])
    }
    fn name() -> String {
        format!("MayBeNull<{}>", T::name())
    }
    fn text(r: &mut dyn FnMut(u64) -> u64, out: &mut String) {
        T::text(r, out);
        if r(2) == 0 {
            out.push('?')
        }
    }
    const LEAVES: u64 = T::LEAVES;
}

/// `element (separator element)*`: a separator that is not followed by an element is not kept.
fn list<T: Comp, S: Comp>(w: &mut World, pos: usize, empty_ok: bool) -> Result<(usize, Vec<Node>), M> {
    let mut l = vec![];
    let mut at = match T::model(w, pos) {
        M::Ok(p, _) if p == pos => return Err(M::NoProgress),
        M::Ok(p, n) => {
            l.push(n);
            p
        }
        M::Error if empty_ok => return Ok((pos, l)),
        o => return Err(o),
    };
    loop {
        let sep = match S::model(w, at) {
            M::Ok(p, _) if p == at => return Err(M::NoProgress),
            M::Ok(p, _) => p,
            M::Error => return Ok((at, l)),
            o => return Err(o),
        };
        match T::model(w, sep) {
            M::Ok(p, _) if p == sep => return Err(M::NoProgress),
            M::Ok(p, n) => {
                l.push(n);
                at = p;
            }
            M::Error => return Ok((at, l)),
            o => return Err(o),
        }
    }
}
impl<T: Comp, S: Comp + Default> Comp for Punctuated<T, S> {
    fn model(w: &mut World, pos: usize) -> M {
        match list::<T, S>(w, pos, true) {
            Ok((p, l)) => M::Ok(p, Node::Sep(l)),
            Err(o) => o,
        }
    }
    fn node(&self, s: &mut Vec<u32>) -> Node {
        let n = Node::Sep(self.list.iter().map(|x| x.node(s)).collect());
        self.separator.node(s);
        n
    }
    fn name() -> String {
        format!("Punctuated<{}, {}>", T::name(), S::name())
    }
    fn text(r: &mut dyn FnMut(u64) -> u64, out: &mut String) {
        let n = many(r);
        for i in 0..n {
            if i > 0 {
                S::text(r, out)
            }
            T::text(r, out)
        }
        if n > 0 && r(3) == 0 {
            S::text(r, out)
        }
    }
    const LEAVES: u64 = T::LEAVES + S::LEAVES;
}
impl<T: Comp, S: Comp + Default> Comp for PunctuatedNonEmpty<T, S> {
    fn model(w: &mut World, pos: usize) -> M {
        match list::<T, S>(w, pos, false) {
            // one separator after the last element belongs to the list
            Ok((p, l)) => match S::model(w, p) {
                M::Ok(q, _) => M::Ok(q, Node::Sep(l)),
                M::Error => M::Ok(p, Node::Sep(l)),
                o => o,
            },
            Err(o) => o,
        }
    }
    fn node(&self, s: &mut Vec<u32>) -> Node {
        let n = Node::Sep(self.list.iter().map(|x| x.node(s)).collect());
        self.separator.node(s);
        n
    }
    fn name() -> String {
        format!("PunctuatedNonEmpty<{}, {}>", T::name(), S::name())
    }
    fn text(r: &mut dyn FnMut(u64) -> u64, out: &mut String) {
        let n = many(r).max(1);
        for i in 0..n {
            if i > 0 {
                S::text(r, out)
            }
            T::text(r, out)
        }
        for _ in 0..r(3) {
            S::text(r, out)
        }
    }
    const LEAVES: u64 = T::LEAVES + 2 * S::LEAVES;
}

/// Outcome of the real construct.
pub enum Real {
    Ok(Box<dyn Held>, &'static str),
    Error(&'static str),
    Failure(&'static str, u32),
    Incomplete(usize),
}
pub trait Held {
    fn node_of(&self, s: &mut Vec<u32>) -> Node;
}
impl<T: Comp> Held for T {
    fn node_of(&self, s: &mut Vec<u32>) -> Node {
        self.node(s)
    }
}
pub struct Composition {
    pub real: fn(&'static str) -> Real,
    pub model: fn(&mut World, usize) -> M,
    pub name: fn() -> String,
    pub text: fn(&mut dyn FnMut(u64) -> u64, &mut String),
    pub leaves: u64,
}
fn real<T: Comp>(s: &'static str) -> Real {
    match T::parse(s) {
        Ok((r, v)) => Real::Ok(Box::new(v), r),
        Err(Err::Error((i, _))) => Real::Error(i),
        Err(Err::Failure((i, k))) => Real::Failure(i, k as u32),
        Err(Err::Incomplete(nom::Needed::Unknown)) => Real::Incomplete(0),
        Err(Err::Incomplete(nom::Needed::Size(n))) => Real::Incomplete(n.wrapping_add(1)),
    }
}
macro_rules! table {
    ($($t:ty;)*) => {
        pub static COMPOSITIONS: &[Composition] = &[ $( Composition {
            real: real::<$t>, model: <$t as Comp>::model, name: <$t as Comp>::name, text: <$t as Comp>::text, leaves: <$t as Comp>::LEAVES,
        }, )* ];
    };
}
type A = Leaf<0>;
type B = Leaf<1>;
type C = Leaf<2>;
type D = Leaf<3>;
use weedle::term::{Assign, Colon, Comma, SemiColon};
table! {
    A;
    Option<A>; Box<A>; Vec<A>; (A, B); (A, B, C);
    Parenthesized<A>; Bracketed<A>; Braced<A>; Generics<A>; MayBeNull<A>;
    Punctuated<A, Comma>; Punctuated<A, B>; PunctuatedNonEmpty<A, Comma>; PunctuatedNonEmpty<A, B>;
    Option<(A, B)>; Option<(A, B, C)>; Vec<(A, B)>; Vec<(A, B, C)>; Option<Vec<A>>; Vec<Option<A>>; Vec<Vec<A>>;
    (Option<A>, B); (A, Option<B>); (Option<(A, B)>, A); (Vec<A>, B); (A, Vec<B>); (Vec<A>, A);
    (Option<(A, B)>, Option<(A, C)>, Option<A>);
    (Vec<(A, B)>, A); (Vec<A>, Vec<B>, Vec<C>); ((A, B), (C, D)); ((A, B, C), D); (A, (B, (C, D)));
    Box<Option<Box<A>>>; Option<Box<(A, B)>>; Box<Vec<Box<A>>>; Vec<Box<(A, Option<B>)>>;
    Parenthesized<Option<A>>; Parenthesized<Vec<A>>; Braced<Vec<(A, SemiColon)>>; Bracketed<Punctuated<A, Comma>>;
    Generics<(A, Comma, B)>; Parenthesized<PunctuatedNonEmpty<A, Comma>>; Parenthesized<Parenthesized<A>>;
    Option<Parenthesized<A>>; Vec<Parenthesized<A>>; Vec<Bracketed<(A, B)>>; (Option<Bracketed<A>>, A);
    Option<Braced<Option<Generics<A>>>>; Vec<Generics<Vec<A>>>;
    MayBeNull<(A, B)>; MayBeNull<Parenthesized<A>>; MayBeNull<MayBeNull<A>>; Option<MayBeNull<A>>; Vec<MayBeNull<A>>;
    Punctuated<(A, B), Comma>; Punctuated<Option<A>, Comma>; Punctuated<Vec<A>, Comma>; Punctuated<Parenthesized<A>, B>;
    PunctuatedNonEmpty<(A, B), Comma>; PunctuatedNonEmpty<Box<A>, SemiColon>; PunctuatedNonEmpty<MayBeNull<A>, Comma>;
    Punctuated<Punctuated<A, Comma>, SemiColon>; PunctuatedNonEmpty<PunctuatedNonEmpty<A, Comma>, SemiColon>;
    Punctuated<PunctuatedNonEmpty<A, Comma>, SemiColon>; PunctuatedNonEmpty<Punctuated<A, Comma>, SemiColon>;
    Option<PunctuatedNonEmpty<A, Comma>>; Vec<PunctuatedNonEmpty<A, B>>; (PunctuatedNonEmpty<A, Comma>, Comma, B);
    (Punctuated<A, Comma>, Comma, B); (Punctuated<A, Comma>, Option<Comma>); (PunctuatedNonEmpty<A, Comma>, Option<Comma>);
    Punctuated<A, (B, C)>; PunctuatedNonEmpty<A, (B, C)>; Punctuated<A, Option<B>>; PunctuatedNonEmpty<A, Option<B>>;
    Punctuated<A, Vec<B>>; Punctuated<A, A>; PunctuatedNonEmpty<A, A>;
    (Identifier<'static>, A); Option<(Identifier<'static>, Colon, A)>; Vec<(Identifier<'static>, Assign, A)>;
    Punctuated<(Identifier<'static>, Option<(Assign, A)>), Comma>;
    Braced<Vec<(Option<Bracketed<Punctuated<A, Comma>>>, B, SemiColon)>>;
    Option<Bracketed<PunctuatedNonEmpty<(A, Option<Parenthesized<Punctuated<B, Comma>>>), Comma>>>;
    (Option<Bracketed<Vec<A>>>, (B, Option<(Colon, C)>), Braced<Vec<(D, Option<A>, SemiColon)>>);
    Vec<(Option<Bracketed<A>>, Parenthesized<Punctuated<(B, Option<C>), Comma>>, SemiColon)>;
    Parenthesized<Punctuated<Generics<Box<Option<A>>>, Comma>>;
    Vec<Option<(A, B)>>; Vec<(Option<A>, Option<B>)>; Option<Option<A>>; Option<Option<(A, B)>>;
    (Option<Vec<(A, B)>>, Vec<(A, C)>, Vec<A>);
    Box<(Vec<Option<Box<(A, B)>>>, C)>;
    Vec<(A, Option<(B, Vec<(C, Option<D>)>)>)>;
    Vec<Zst>; Option<Zst>; Box<Zst>; (Zst, A); (A, Zst, Zst); Punctuated<Zst, Comma>; PunctuatedNonEmpty<Zst, Comma>;
    Punctuated<A, Zst>; PunctuatedNonEmpty<A, Zst>; Vec<(A, Zst)>; Vec<Option<Zst>>; Parenthesized<Vec<Zst>>; MayBeNull<Zst>;
    Vec<Wide>; Box<Wide>; Option<Box<Wide>>; (Wide, A, Wide); Punctuated<Wide, Comma>; PunctuatedNonEmpty<Wide, B>; Vec<(A, Box<Wide>)>;
    Bracketed<Vec<Box<(Wide, Zst)>>>; Box<Box<Box<A>>>; Vec<Vec<Vec<A>>>; Option<Option<Option<(A, B)>>>;
    (Vec<Vec<(A, B)>>, Vec<A>, Option<(A, B)>); Punctuated<Punctuated<Punctuated<A, B>, Comma>, SemiColon>;
    Braced<Braced<Braced<Option<A>>>>; Generics<Parenthesized<Bracketed<Braced<Vec<A>>>>>; ((A, B, C), (A, B, C), (A, B, C));
    Vec<(Punctuated<A, Comma>, SemiColon)>; Vec<(PunctuatedNonEmpty<A, Comma>, SemiColon)>; (Vec<MayBeNull<A>>, MayBeNull<B>);
    PunctuatedNonEmpty<Vec<A>, B>; PunctuatedNonEmpty<(A, Option<B>), B>; (PunctuatedNonEmpty<A, B>, B); (PunctuatedNonEmpty<A, B>, Option<B>, Vec<B>);
}
