//! Observation layer: instrumented sources, location trackers and errors.

use crate::explore::burn;
use parse_proof_of_concept::error::{At, Error, Simple, Void};
use parse_proof_of_concept::location::Tracker;
use std::cell::{Cell, RefCell};
use std::fmt::Debug;
use std::ops::Range;
use std::rc::Rc;

/// Positions that are inconsistent with the tape are mapped above this value.
pub const BAD: usize = 1_000_000;

/// Order-sensitive location tracker: counts tokens and hashes them.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Default)]
pub struct Trk {
    pub n: u32,
    pub h: u64,
}
impl Trk {
    pub fn step(&mut self, code: u64) {
        self.n += 1;
        self.h = self.h.wrapping_mul(1_000_003).wrapping_add(code + 17);
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct TLoc {
    pub idx: usize,
    pub t: Trk,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct TSpan {
    pub from: TLoc,
    pub to: TLoc,
}
/// Tokens that have a numeric code.
pub trait Code {
    fn code(&self) -> u64;
}
impl Code for char {
    fn code(&self) -> u64 {
        *self as u64
    }
}
impl Code for &'static char {
    fn code(&self) -> u64 {
        **self as u64
    }
}
impl<I: Code> Tracker<I> for Trk {
    type Location = TLoc;
    type Span = TSpan;
    fn advance(&mut self, token: &I) {
        burn();
        self.step(token.code());
    }
    fn location(&self, index: usize) -> TLoc {
        TLoc {
            idx: index,
            t: *self,
        }
    }
    fn spanning_to(&self, from_index: usize, to: &Self, to_index: usize) -> TSpan {
        TSpan {
            from: TLoc {
                idx: from_index,
                t: *self,
            },
            to: TLoc {
                idx: to_index,
                t: *to,
            },
        }
    }
}

thread_local! {
    /// Tracker state expected at every position of the tape under test (shifted by TAPE_OFF).
    static TAPE: RefCell<Vec<Trk>> = const { RefCell::new(vec![]) };
}
pub fn trackers(start: Trk, tape: &[char]) -> Vec<Trk> {
    let mut v = vec![start];
    let mut t = start;
    for c in tape {
        t.step(c.code());
        v.push(t);
    }
    v
}
pub fn set_tape(start: Trk, tape: &[char]) {
    TAPE.with(|t| {
        let mut t = t.borrow_mut();
        t.clear();
        let mut s = start;
        t.push(s);
        for c in tape {
            s.step(c.code());
            t.push(s);
        }
    });
}

/// Converts a location type to a token position (BAD if inconsistent with the tape).
pub trait ToP: Clone {
    fn p(&self) -> usize;
}
pub trait ToS: Clone {
    fn s(&self) -> (usize, usize);
}
impl ToP for usize {
    fn p(&self) -> usize {
        *self
    }
}
impl ToS for Range<usize> {
    fn s(&self) -> (usize, usize) {
        (self.start, self.end)
    }
}
impl ToP for TLoc {
    fn p(&self) -> usize {
        TAPE.with(|t| {
            if t.borrow().get(self.idx) == Some(&self.t) {
                self.idx
            } else {
                BAD + self.idx
            }
        })
    }
}
impl ToS for TSpan {
    fn s(&self) -> (usize, usize) {
        (self.from.p(), self.to.p())
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum A {
    No,
    L(usize),
    S(usize, usize),
}
impl A {
    pub fn shift(self, d: usize) -> A {
        match self {
            A::No => A::No,
            A::L(p) => A::L(p + d),
            A::S(a, b) => A::S(a + d, b + d),
        }
    }
}

/// Errors in model terms.
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum MErr {
    /// expected (sorted, deduplicated), found, where
    EF(Vec<Option<char>>, Option<char>, A),
    UL(char, (usize, usize), A),
    UR(char, (usize, usize), A),
    UT(char, (usize, usize), char, (usize, usize)),
    Cu(String, A),
    Void,
}
impl MErr {
    pub fn shift(self, d: usize) -> MErr {
        let s = |x: (usize, usize)| (x.0 + d, x.1 + d);
        match self {
            MErr::EF(e, f, a) => MErr::EF(e, f, a.shift(d)),
            MErr::UL(c, x, a) => MErr::UL(c, s(x), a.shift(d)),
            MErr::UR(c, x, a) => MErr::UR(c, s(x), a.shift(d)),
            MErr::UT(c, x, e, y) => MErr::UT(c, s(x), e, s(y)),
            MErr::Cu(m, a) => MErr::Cu(m, a.shift(d)),
            MErr::Void => MErr::Void,
        }
    }
    pub fn is_ef(&self) -> bool {
        matches!(self, MErr::EF(..))
    }
    pub fn at(&self) -> A {
        match self {
            MErr::EF(_, _, a) | MErr::UL(_, _, a) | MErr::UR(_, _, a) | MErr::Cu(_, a) => *a,
            MErr::UT(_, _, _, s) => A::S(s.0, s.1),
            MErr::Void => A::No,
        }
    }
}
pub fn ef(mut exp: Vec<Option<char>>, found: Option<char>, at: A) -> MErr {
    exp.sort();
    exp.dedup();
    MErr::EF(exp, found, at)
}

/// Error types the harness instantiates the library with.
pub trait Er:
    Error<'static, char, LocationTracker = <Self as Er>::Trk> + Clone + Debug + PartialEq + 'static
{
    type Trk: Tracker<char, Location = Self::Loc, Span = Self::Sp> + Default + Copy + 'static;
    type Loc: ToP + PartialEq + Debug + Clone + 'static;
    type Sp: ToS + PartialEq + Debug + Clone + 'static;
    const VOID: bool;
    const NAME: &'static str;
    fn m(&self) -> MErr;
    fn start(t: Trk) -> <Self as Er>::Trk;
}

fn conv<L, F>(e: &Simple<char, L>, at: F) -> MErr
where
    L: Tracker<char>,
    L::Span: ToS,
    F: Fn(&At<L::Location, L::Span>) -> A,
{
    match e {
        Simple::ExpectedFound(x, f, a) => ef(x.iter().cloned().collect(), *f, at(a)),
        Simple::UnmatchedLeftDelimiter(c, s, a) => MErr::UL(*c, s.s(), at(a)),
        Simple::UnmatchedRightDelimiter(c, s, a) => MErr::UR(*c, s.s(), at(a)),
        Simple::UnmatchedDelimiterType(c, s, d, t) => MErr::UT(*c, s.s(), *d, t.s()),
        Simple::Custom(m, a) => MErr::Cu(m.clone(), at(a)),
    }
}
pub fn at_of<L: ToP, S: ToS>(a: &At<L, S>) -> A {
    match a {
        At::None => A::No,
        At::Location(l) => A::L(l.p()),
        At::Span(s) => {
            let s = s.s();
            A::S(s.0, s.1)
        }
    }
}

/// Plain errors with index locations.
pub type ES = Simple<char>;
/// Errors with the order-sensitive tracker.
pub type ET = Simple<char, Trk>;
/// Errors that record nothing.
pub type EV = Void<char>;

impl Er for ES {
    type Trk = parse_proof_of_concept::location::Simple;
    type Loc = usize;
    type Sp = Range<usize>;
    const VOID: bool = false;
    const NAME: &'static str = "simple";
    fn m(&self) -> MErr {
        conv(self, at_of)
    }
    fn start(_: Trk) -> Self::Trk {
        Default::default()
    }
}
impl Er for ET {
    type Trk = Trk;
    type Loc = TLoc;
    type Sp = TSpan;
    const VOID: bool = false;
    const NAME: &'static str = "tracked";
    fn m(&self) -> MErr {
        conv(self, at_of)
    }
    fn start(t: Trk) -> Self::Trk {
        t
    }
}
impl Er for EV {
    type Trk = parse_proof_of_concept::location::Simple;
    type Loc = usize;
    type Sp = Range<usize>;
    const VOID: bool = true;
    const NAME: &'static str = "void";
    fn m(&self) -> MErr {
        MErr::Void
    }
    fn start(_: Trk) -> Self::Trk {
        Default::default()
    }
}

/// What the source iterator saw.
#[derive(Default, Debug)]
pub struct SrcLog {
    /// Number of calls to next().
    pub polls: Cell<usize>,
    /// Number of calls after None was returned.
    pub after_end: Cell<usize>,
}
pub struct Src {
    tape: Rc<[char]>,
    i: usize,
    ended: bool,
    pub log: Rc<SrcLog>,
}
impl Src {
    pub fn new(tape: &Rc<[char]>) -> (Self, Rc<SrcLog>) {
        let log = Rc::new(SrcLog::default());
        (
            Src {
                tape: tape.clone(),
                i: 0,
                ended: false,
                log: log.clone(),
            },
            log,
        )
    }
}
impl Iterator for Src {
    type Item = char;
    fn next(&mut self) -> Option<char> {
        burn();
        self.log.polls.set(self.log.polls.get() + 1);
        if self.ended {
            self.log.after_end.set(self.log.after_end.get() + 1);
            // A source may resume after None; the library must not look.
            return if self.log.after_end.get() % 2 == 1 {
                Some('#')
            } else {
                None
            };
        }
        let r = self.tape.get(self.i).copied();
        self.i += 1;
        if r.is_none() {
            self.ended = true;
        }
        r
    }
    /// Nothing promised, or the exact number.
    fn size_hint(&self) -> (usize, Option<usize>) {
        match self.tape.len() % 2 {
            0 => (0, None),
            _ => {
                let n = self.tape.len().saturating_sub(self.i);
                (n, Some(n))
            }
        }
    }
}

thread_local! {
    static LIVE: Cell<isize> = const { Cell::new(0) };
}
/// Token that counts its live instances; `.0` is its position in the source.
#[derive(Debug)]
pub struct Tk(pub u32);
impl Tk {
    pub fn new(i: u32) -> Tk {
        LIVE.with(|l| l.set(l.get() + 1));
        Tk(i)
    }
    pub fn live() -> isize {
        LIVE.with(|l| l.get())
    }
    pub fn reset() {
        LIVE.with(|l| l.set(0))
    }
}
impl Clone for Tk {
    fn clone(&self) -> Self {
        Tk::new(self.0)
    }
}
impl Drop for Tk {
    fn drop(&mut self) {
        LIVE.with(|l| l.set(l.get() - 1));
    }
}
impl PartialEq for Tk {
    fn eq(&self, o: &Tk) -> bool {
        self.0 == o.0
    }
}
impl Eq for Tk {}
impl std::hash::Hash for Tk {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        self.0.hash(h)
    }
}
impl Code for Tk {
    fn code(&self) -> u64 {
        self.0 as u64
    }
}
