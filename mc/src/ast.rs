//! Grammar and strategy terms: the common language of the model and the real parsers.

use crate::explore::Ch;
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::rc::Rc;

/// Universal output type.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum V {
    U,
    C(char),
    S(String),
    O(Option<Box<V>>),
    P(Box<V>, Box<V>),
    L(Vec<V>),
    K(u32),
    T(u32, Box<V>),
    Sp(Box<V>, usize, usize),
    /// mock id, position, length
    M(u8, usize, usize),
}
impl V {
    pub fn shift(self, d: usize) -> V {
        match self {
            V::O(x) => V::O(x.map(|x| Box::new(x.shift(d)))),
            V::P(a, b) => V::P(Box::new(a.shift(d)), Box::new(b.shift(d))),
            V::L(x) => V::L(x.into_iter().map(|x| x.shift(d)).collect()),
            V::T(k, x) => V::T(k, Box::new(x.shift(d))),
            V::Sp(x, a, b) => V::Sp(Box::new(x.shift(d)), a + d, b + d),
            V::M(i, p, l) => V::M(i, p + d, l),
            x => x,
        }
    }
}

/// Behaviours of a fallible map.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum TM {
    Ok,
    Err1,
    Err2,
    Rec1,
    Rec2,
    /// Rejects when the child consumed at least two tokens.
    ErrLong,
    /// Recovers when the child consumed nothing.
    RecEmpty,
}
pub const TMS: [TM; 7] = [
    TM::Ok,
    TM::Err1,
    TM::Err2,
    TM::Rec1,
    TM::Rec2,
    TM::ErrLong,
    TM::RecEmpty,
];
/// (ok, number of errors)
pub fn tm_apply(tm: TM, span: (usize, usize)) -> (bool, usize) {
    let len = span.1.saturating_sub(span.0);
    match tm {
        TM::Ok => (true, 0),
        TM::Err1 => (false, 1),
        TM::Err2 => (false, 2),
        TM::Rec1 => (true, 1),
        TM::Rec2 => (true, 2),
        TM::ErrLong => {
            if len >= 2 {
                (false, 1)
            } else {
                (true, 0)
            }
        }
        TM::RecEmpty => (true, if len == 0 { 1 } else { 0 }),
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Rep {
    pub item: Box<G>,
    pub sep: Option<Box<G>>,
    pub min: usize,
    pub max: Option<usize>,
    pub lead: bool,
    pub trail: bool,
}

#[derive(Clone, Debug, PartialEq)]
pub enum G {
    Empty,
    NoneP,
    End,
    Just(char),
    Filter(&'static str),
    FilterMap(&'static str),
    Seq(&'static str),
    OneOf(&'static str),
    NoneOf(&'static str),
    Mock(u8),
    To(Box<G>),
    Ignored(Box<G>),
    Some(Box<G>),
    Map(Box<G>),
    MapSpan(Box<G>),
    MapErr(Box<G>),
    MapErrSpan(Box<G>),
    TryMap(Box<G>, TM),
    Then(Box<G>, Box<G>),
    ThenIgnore(Box<G>, Box<G>),
    IgnoreThen(Box<G>, Box<G>),
    /// left, middle, right
    Delim(Box<G>, Box<G>, Box<G>),
    /// padding, middle
    Padded(Box<G>, Box<G>),
    Chain(Vec<G>),
    Or(Box<G>, Box<G>),
    OrNot(Box<G>),
    Alters(Vec<G>),
    Rep(Rep),
    Rec(Box<G>, std::sync::Arc<Strat>),
    Boxed(Box<G>),
    WithErr(Box<G>),
    /// Reference to a recursive definition.
    X(usize),
}

pub fn bx(g: G) -> Box<G> {
    Box::new(g)
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Sc {
    /// nested_delimiters over types(.0)
    Nest(usize),
    /// Custom scanner: pushes an error per token, stops at 'b' or when it has seen .0 tokens.
    Stop(usize),
    /// Custom scanner that stops when it has seen .0 tokens and does not say what to do at the end.
    Bare(usize),
}
pub const FEW: [&[(char, char)]; 8] = [
    &[('(', ')')],
    &[('(', ')'), ('[', ']')],
    &[('(', ')'), ('|', '|'), ('[', ']')],
    &[('a', 'b')],
    &[('(', ')'), ('[', ']'), ('{', '}')],
    &[('(', ')'), ('[', ']'), ('{', '}'), ('<', '>')],
    &[('|', '|'), ('/', '/'), ('(', ')')],
    &[('[', ']'), ('(', ')')],
];

/// Numbers of delimiter kinds of the larger tables.
pub const MANY: [usize; 8] = [5, 8, 9, 17, 33, 65, 257, 1030];

/// Table `t` of delimiter kinds. The larger ones have distinct tokens throughout, in every other
/// one each fourth kind has equal tokens.
pub fn types(t: usize) -> &'static [(char, char)] {
    static LARGE: std::sync::OnceLock<Vec<Vec<(char, char)>>> = std::sync::OnceLock::new();
    if t < FEW.len() {
        return FEW[t];
    }
    &LARGE.get_or_init(|| {
        (0..2 * MANY.len())
            .map(|k| {
                (0..MANY[k / 2] as u32)
                    .map(|i| {
                        let l = char::from_u32(0x4e00 + 2 * i).unwrap();
                        let r = char::from_u32(0x4e01 + 2 * i).unwrap();
                        (l, if k % 2 == 1 && i % 4 == 3 { l } else { r })
                    })
                    .collect()
            })
            .collect()
    })[t - FEW.len()]
}

#[derive(Clone, Debug, PartialEq)]
pub enum St {
    Nothing,
    Restart,
    SeekFailed,
    Skip,
    SkipIf(&'static str),
    Find(&'static str),
    Scan(Sc),
    Maybe(Vec<St>),
    WhileNot(&'static str, Vec<St>),
    Retry(bool, bool),
    TryParse(Box<G>, bool, bool),
    PushErr(u32),
    PushHere(u32),
    PushUpTo(u32),
    PushTok(u32),
    /// 0: clear, 1: keep the first only, 2: push a marker with the current length, 3: reverse
    Upd(u32),
    UpdHere(u32),
    UpdUpTo(u32),
    UpdTok(u32),
    Clone,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Fin {
    Return(u32),
    ReturnWith(u32),
    ReturnSpan(u32),
    OrFail,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Strat {
    pub steps: Vec<St>,
    pub fin: Fin,
    /// Build the first step with the free function rather than from attempt_to().
    pub short: bool,
}

/// Answers of a mock parser.
#[derive(Clone, Debug, PartialEq)]
pub enum Ans {
    /// consumed tokens
    S(usize),
    R(usize, ErrK),
    /// failure index offset, errors
    F(usize, ErrK),
}
/// Error lists a mock may report.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum ErrK {
    None,
    /// One expected-found error at the failure index (token found there).
    Ef,
    /// One expected-found error located one token after the start of the mock.
    EfElse,
    /// One expected-found error without location.
    EfNo,
    /// One expected-found error with an empty expected set.
    EfEmpty,
    Cu,
    /// Two errors, the first expected-found at the failure index.
    EfCu,
    /// Two errors: custom, then expected-found at the failure index.
    CuEf,
    EfEf,
}

/// What mocks may answer.
#[derive(Clone, Debug)]
pub struct MockSpec {
    pub lens: Vec<usize>,
    pub fails: Vec<usize>,
    pub errs: Vec<ErrK>,
    pub rec_lens: Vec<usize>,
    pub rec_errs: Vec<ErrK>,
    pub rec_fail_errs: Vec<ErrK>,
}
impl Default for MockSpec {
    fn default() -> Self {
        MockSpec {
            lens: vec![0, 1, 2],
            fails: vec![0, 1],
            errs: vec![ErrK::Ef, ErrK::Cu],
            rec_lens: vec![0, 1],
            rec_errs: vec![ErrK::Cu],
            rec_fail_errs: vec![],
        }
    }
}

/// The environment of one case: answers of mock parsers, chosen lazily and memoised.
pub struct Env<'c> {
    pub ch: &'c Ch,
    pub len: Cell<usize>,
    pub specs: RefCell<Vec<Rc<MockSpec>>>,
    memo: RefCell<HashMap<(u8, usize, bool), Ans>>,
    /// Calls to mapping functions, by function.
    pub calls: RefCell<HashMap<u32, u32>>,
    pub asked: Cell<u32>,
    pub tape: Vec<char>,
    pub start: crate::obs::Trk,
}
impl<'c> Env<'c> {
    pub fn new(ch: &'c Ch, tape: &[char], specs: Vec<Rc<MockSpec>>) -> Rc<Self> {
        Rc::new(Env {
            ch,
            tape: tape.to_vec(),
            start: Default::default(),
            len: Cell::new(tape.len()),
            specs: RefCell::new(specs),
            memo: Default::default(),
            calls: Default::default(),
            asked: Cell::new(0),
        })
    }
    /// The answers given so far.
    pub fn dump(&self) -> String {
        let m = self.memo.borrow();
        let mut v: Vec<_> = m.iter().collect();
        v.sort_by_key(|x| *x.0);
        v.iter()
            .map(|(k, a)| format!("m{}@{}{}={a:?}", k.0, k.1, if k.2 { "r" } else { "" }))
            .collect::<Vec<_>>()
            .join(" ")
    }
    pub fn called(&self, k: u32) {
        *self.calls.borrow_mut().entry(k).or_default() += 1;
    }
    /// The answer of mock `id` at `pos`. Keeps the contract of `Parser::parse_internal`: a plain
    /// success does not depend on whether recovery is enabled, a failure may become a recovery or
    /// a different failure when it is.
    pub fn answer(&self, id: u8, pos: usize, rec: bool) -> Ans {
        self.asked.set(self.asked.get() + 1);
        if let Some(a) = self.memo.borrow().get(&(id, pos, rec)) {
            return a.clone();
        }
        let other = self.memo.borrow().get(&(id, pos, !rec)).cloned();
        let specs = self.specs.borrow();
        let spec = &specs[(id as usize).min(specs.len() - 1)];
        let rem = self.len.get().saturating_sub(pos);
        let mut opts: Vec<Ans> = vec![];
        let fails = |errs: &[ErrK], opts: &mut Vec<Ans>| {
            for f in &spec.fails {
                if *f <= rem {
                    for e in errs {
                        opts.push(Ans::F(*f, *e));
                    }
                }
            }
        };
        match (&other, rec) {
            (Some(Ans::S(l)), _) => opts.push(Ans::S(*l)),
            (Some(_), false) => fails(&spec.errs, &mut opts),
            (o, true) => {
                if o.is_none() {
                    for l in &spec.lens {
                        if *l <= rem {
                            opts.push(Ans::S(*l));
                        }
                    }
                }
                match o {
                    Some(Ans::F(i, e)) => {
                        opts.push(Ans::F(*i, *e));
                        fails(&spec.rec_fail_errs, &mut opts);
                    }
                    _ => {
                        fails(&spec.errs, &mut opts);
                        fails(&spec.rec_fail_errs, &mut opts);
                    }
                }
                for l in &spec.rec_lens {
                    if *l <= rem {
                        for e in &spec.rec_errs {
                            opts.push(Ans::R(*l, *e));
                        }
                    }
                }
            }
            (None, false) => {
                for l in &spec.lens {
                    if *l <= rem {
                        opts.push(Ans::S(*l));
                    }
                }
                fails(&spec.errs, &mut opts);
            }
        }
        if opts.is_empty() {
            opts.push(Ans::F(0, spec.errs[0]));
        }
        let a = opts[self.ch.pick(opts.len())].clone();
        self.memo.borrow_mut().insert((id, pos, rec), a.clone());
        a
    }
}

thread_local! {
    /// Environment of the case being run by this thread (mock parsers are 'static values).
    static ENV: Cell<*const Env<'static>> = const { Cell::new(std::ptr::null()) };
}
/// Installs `env` for the duration of `f`.
pub fn with_env<T>(env: &Rc<Env>, f: impl FnOnce() -> T) -> T {
    struct Reset(*const Env<'static>);
    impl Drop for Reset {
        fn drop(&mut self) {
            ENV.with(|e| e.set(self.0));
        }
    }
    let p = Rc::as_ptr(env) as *const Env<'static>;
    let _r = Reset(ENV.with(|e| e.replace(p)));
    f()
}
pub fn env<T>(f: impl FnOnce(&Env) -> T) -> Option<T> {
    ENV.with(|e| {
        let p = e.get();
        if p.is_null() {
            None
        } else {
            // SAFETY: set by with_env, which outlives every use on this thread.
            Some(f(unsafe { &*p }))
        }
    })
}

/// All strings over `alphabet` of length 0..=n (shortest first).
pub fn strings(alphabet: &str, n: usize) -> Vec<Vec<char>> {
    let a: Vec<char> = alphabet.chars().collect();
    let mut all = vec![vec![]];
    let mut last = vec![vec![]];
    for _ in 0..n {
        let mut next = vec![];
        for s in &last {
            for c in &a {
                let mut t = s.clone();
                t.push(*c);
                next.push(t);
            }
        }
        all.extend(next.iter().cloned());
        last = next;
    }
    all
}
pub fn text(s: &[char]) -> String {
    s.iter().collect()
}
