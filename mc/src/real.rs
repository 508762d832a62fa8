//! Builds real parsers from grammar terms and runs them on instrumented streams.

use crate::ast::*;
use crate::explore::{burn, guarded};
use crate::model::{err_tag, mock_errs, R};
use crate::obs::*;
use parse_proof_of_concept::combinator::{self, TryMapResult};
use parse_proof_of_concept::error::At;
use parse_proof_of_concept::location::Tracker;
use parse_proof_of_concept::parser::{self, Parser};
use parse_proof_of_concept::primitive as prim;
use parse_proof_of_concept::recovery::{self, IncompleteStrategy};
use parse_proof_of_concept::recursive::Recursive;
use parse_proof_of_concept::scanner::{nested_delimiters, Scanner};
use parse_proof_of_concept::stream::Stream;
use std::marker::PhantomData;
use std::rc::Rc;

pub type B<E> = combinator::Boxed<'static, char, V, E>;
pub type SB<E> = recovery::Boxed<'static, char, B<E>>;
pub type Stm<E> = Stream<'static, char, <E as Er>::Trk>;

fn has(set: &'static str) -> impl Fn(&char) -> bool + Clone + 'static {
    move |c: &char| {
        burn();
        set.contains(*c)
    }
}

/// Tracker state at a tape position, computed by the harness itself.
fn tracker_at<E: Er>(tape: &[char], start: Trk, p: usize) -> E::Trk {
    let mut t = E::start(start);
    for c in &tape[..p.min(tape.len())] {
        t.advance(c);
    }
    t
}
pub fn mk_err<E: Er>(m: &MErr, tape: &[char], start: Trk) -> E {
    let tr = |p: usize| tracker_at::<E>(tape, start, p);
    let loc = |p: usize| tr(p).location(p);
    let span = |a: usize, b: usize| tr(a).spanning_to(a, &tr(b), b);
    let at = |a: &A| match a {
        A::No => At::None,
        A::L(p) => At::Location(loc(*p)),
        A::S(a, b) => At::Span(span(*a, *b)),
    };
    match m {
        MErr::EF(x, f, a) => E::expected_found(x.iter().cloned(), *f, at(a)),
        MErr::UL(c, s, a) => E::unmatched_left_delimiter(*c, span(s.0, s.1), at(a)),
        MErr::UR(c, s, a) => E::unmatched_right_delimiter(*c, span(s.0, s.1), at(a)),
        MErr::UT(c, s, d, t) => {
            E::unmatched_delimiter_type(*c, span(s.0, s.1), *d, span(t.0, t.1))
        }
        MErr::Cu(m, a) => E::custom(m, at(a)),
        MErr::Void => E::custom("void", At::None),
    }
}

/// A parser whose behaviour is chosen by the explorer, within the documented parser contract.
pub struct Mock<E> {
    id: u8,
    ph: PhantomData<E>,
}
impl<E: Er> Parser<'static, char> for Mock<E> {
    type Output = V;
    type Error = E;
    fn parse_internal(&self, stream: &mut Stm<E>, rec: bool) -> parser::Result<V, E> {
        burn();
        let pos = stream.index();
        let (ans, tape, start) =
            env(|e| (e.answer(self.id, pos, rec), e.tape.clone(), e.start)).expect("no env");
        let errs = |idx: usize, k| -> Vec<E> {
            mock_errs(self.id, pos, idx, k, &tape)
                .iter()
                .map(|m| mk_err::<E>(m, &tape, start))
                .collect()
        };
        match ans {
            Ans::S(l) => {
                for _ in 0..l {
                    stream.advance();
                }
                parser::Result::Success(V::M(self.id, pos, l))
            }
            Ans::R(l, k) => {
                for _ in 0..l {
                    stream.advance();
                }
                parser::Result::Recovered(
                    V::T(99, Box::new(V::M(self.id, pos, l))),
                    errs(pos + l, k),
                )
            }
            Ans::F(i, k) => {
                let s = stream.save();
                stream.advance_to(pos + i);
                stream.token();
                stream.restore(&s);
                parser::Result::Failed(pos + i, errs(pos + i, k))
            }
        }
    }
}

/// Custom scanner of `Sc::Stop`.
struct StopScanner {
    k: usize,
    seen: usize,
}
impl<E: Er> Scanner<'static, char, E> for StopScanner {
    fn scan(&mut self, token: char, span: E::Sp, errors: &mut Vec<E>) -> bool {
        burn();
        self.seen += 1;
        errors.push(E::custom(
            format!("scan{token}{}", self.seen),
            At::Span(span),
        ));
        token == 'b' || self.seen >= self.k
    }
    fn eof(&mut self, location: E::Loc, errors: &mut Vec<E>) {
        burn();
        for k in 0..(self.seen + 1) % 3 {
            errors.push(E::custom(
                format!("scan-eof{}/{k}", self.seen),
                At::Location(location.clone()),
            ));
        }
    }
}

/// Custom scanner of `Sc::Bare`.
struct BareScanner {
    k: usize,
    seen: usize,
}
impl<E: Er> Scanner<'static, char, E> for BareScanner {
    fn scan(&mut self, token: char, _: E::Sp, errors: &mut Vec<E>) -> bool {
        burn();
        self.seen += 1;
        if self.seen == 2 {
            errors.push(E::custom(format!("bare{token}"), At::None));
        }
        self.seen >= self.k
    }
}

fn own<E: Er>(a: At<&E::Loc, &E::Sp>) -> At<E::Loc, E::Sp> {
    match a {
        At::None => At::None,
        At::Location(l) => At::Location(l.clone()),
        At::Span(s) => At::Span(s.clone()),
    }
}

pub fn build<E: Er>(g: &G, defs: &[Def<E>]) -> B<E> {
    let b = |g: &G| build::<E>(g, defs);
    let called = |k: u32| {
        burn();
        env(|e| e.called(k));
    };
    match g {
        G::Empty => prim::empty::<char, E>().map(|_| V::U).boxed(),
        G::NoneP => prim::none::<char, V, E>()
            .map(|o| V::O(o.map(Box::new)))
            .boxed(),
        G::End => prim::end::<char, E>().map(|_| V::U).boxed(),
        G::Just(c) => prim::just::<char, E>(*c).map(V::C).boxed(),
        G::Filter(s) => prim::filter::<char, _, E>(has(s)).map(V::C).boxed(),
        G::FilterMap(s) => {
            let s = *s;
            prim::filter_map::<char, _, u32, E>(move |c: &char| {
                burn();
                if s.contains(*c) {
                    Some(*c as u32)
                } else {
                    None
                }
            })
            .map(V::K)
            .boxed()
        }
        G::Seq(s) => prim::seq::<char, &'static str, E>(*s)
            .map(|s: &'static str| V::S(s.to_string()))
            .boxed(),
        G::OneOf(s) => prim::one_of::<char, &'static str, E>(*s).map(V::C).boxed(),
        G::NoneOf(s) => prim::none_of::<char, &'static str, E>(*s).map(V::C).boxed(),
        G::Mock(id) => Mock::<E> {
            id: *id,
            ph: PhantomData,
        }
        .boxed(),
        G::To(c) => b(c).to(V::K(42)).boxed(),
        G::Ignored(c) => b(c).ignored::<()>().map(|_: ()| V::U).boxed(),
        G::Some(c) => b(c).some().map(|o| V::O(o.map(Box::new))).boxed(),
        G::Map(c) => b(c)
            .map(move |v| {
                called(1);
                V::T(1, Box::new(v))
            })
            .boxed(),
        G::MapSpan(c) => b(c)
            .map_with_span(move |v, s| {
                called(2);
                let s = ToS::s(&s);
                V::Sp(Box::new(v), s.0, s.1)
            })
            .boxed(),
        G::MapErr(c) => b(c)
            .map_err::<E, _>(move |e: E| {
                called(3);
                E::custom(format!("m:{}", err_tag(&e.m())), own::<E>(e.location()))
            })
            .boxed(),
        G::MapErrSpan(c) => b(c)
            .map_err_with_span::<E, _>(move |e: E, s| {
                called(4);
                E::custom(format!("ms:{}", err_tag(&e.m())), At::Span(s))
            })
            .boxed(),
        G::TryMap(c, tm) => {
            let tm = *tm;
            b(c).try_map(move |v, s: E::Sp| {
                called(5);
                let sp = s.s();
                let (ok, n) = tm_apply(tm, sp);
                let v = V::T(2, Box::new(V::Sp(Box::new(v), sp.0, sp.1)));
                let es: Vec<E> = (0..n)
                    .map(|k| E::custom(format!("tm{k}"), At::Span(s.clone())))
                    .collect();
                if !ok {
                    TryMapResult::Err(es)
                } else if n > 0 {
                    TryMapResult::Recovered(v, es)
                } else {
                    TryMapResult::Ok(v)
                }
            })
            .boxed()
        }
        G::Then(x, y) => b(x)
            .then(b(y))
            .map(|(x, y)| V::P(Box::new(x), Box::new(y)))
            .boxed(),
        G::ThenIgnore(x, y) => b(x).then_ignore(b(y)).boxed(),
        G::IgnoreThen(x, y) => b(x).ignore_then(b(y)).boxed(),
        G::Delim(l, m, r) => b(m).delimited_by(b(l), b(r)).boxed(),
        G::Padded(p, m) => b(m).padded_by(b(p)).boxed(),
        G::Chain(gs) => {
            let mut it = gs.iter();
            let x = b(it.next().unwrap());
            let mut c = x.chain(b(it.next().unwrap()));
            for g in it {
                c = c.and(b(g));
            }
            c.map(V::L).boxed()
        }
        G::Or(x, y) => b(x).or(b(y)).boxed(),
        G::OrNot(x) => b(x).or_not().map(|o| V::O(o.map(Box::new))).boxed(),
        G::Alters(gs) => {
            let mut it = gs.iter();
            let x = b(it.next().unwrap());
            let mut c = x.alters(b(it.next().unwrap()));
            for g in it {
                c = c.and(b(g));
            }
            c.boxed()
        }
        G::Rep(r) => match &r.sep {
            None => {
                let mut p = b(&r.item).repeated();
                if r.max == Some(r.min) {
                    p = p.exactly(r.min);
                } else {
                    if r.min > 0 {
                        p = p.at_least(r.min);
                    }
                    if let Some(m) = r.max {
                        p = p.at_most(m);
                    }
                }
                p.map(V::L).boxed()
            }
            Some(s) => {
                let mut p = if r.lead && r.trail {
                    // Also exercise the with_separator() spelling.
                    b(&r.item).repeated().with_separator(b(s))
                } else {
                    b(&r.item).separated_by(b(s))
                };
                if let Some(m) = r.max {
                    p = p.at_most(m);
                }
                if r.min > 0 {
                    p = p.at_least(r.min);
                }
                if r.lead {
                    p = p.allow_leading();
                }
                if r.trail {
                    p = p.allow_trailing();
                }
                p.map(V::L).boxed()
            }
        },
        G::Rec(c, s) => {
            let c = b(c);
            let st = build_steps::<E>(&s.steps, s.short, defs);
            match s.fin {
                Fin::Return(k) => {
                    if s.short && s.steps.is_empty() {
                        c.to_recover(recovery::just_return(V::K(k))).boxed()
                    } else {
                        c.to_recover(st.and_return(V::K(k))).boxed()
                    }
                }
                Fin::ReturnWith(k) => {
                    let f = move || {
                        burn();
                        V::K(k)
                    };
                    if s.short && s.steps.is_empty() {
                        c.to_recover(recovery::just_return_with(f)).boxed()
                    } else {
                        c.to_recover(st.and_return_with(f)).boxed()
                    }
                }
                Fin::ReturnSpan(k) => {
                    let f = move |s: E::Sp| {
                        burn();
                        let s = s.s();
                        V::Sp(Box::new(V::K(k)), s.0, s.1)
                    };
                    if s.short && s.steps.is_empty() {
                        c.to_recover(recovery::just_return_with_span(f)).boxed()
                    } else {
                        c.to_recover(st.and_return_with_span(f)).boxed()
                    }
                }
                Fin::OrFail => c.to_recover(st.or_fail()).boxed(),
            }
        }
        G::Boxed(c) => b(c).boxed().boxed(),
        G::WithErr(c) => b(c).with_error::<E>().clone().boxed(),
        G::X(k) => defs[*k].make(),
    }
}

pub fn build_steps<E: Er>(
    steps: &[St],
    short: bool,
    defs: &[Def<E>],
) -> SB<E> {
    if short && !steps.is_empty() {
        let first = short_step::<E>(&steps[0], defs);
        return more_steps(first, &steps[1..], defs);
    }
    let s: SB<E> = recovery::attempt_to::<char, B<E>>().boxed();
    more_steps(s, steps, defs)
}
fn more_steps<E: Er>(
    mut s: SB<E>,
    steps: &[St],
    defs: &[Def<E>],
) -> SB<E> {
    for st in steps {
        s = add_step::<E>(s, st, defs);
    }
    s
}

fn nest_factory<E: Er>(
    t: usize,
) -> impl Fn() -> parse_proof_of_concept::scanner::NestedDelimiters<'static, char, E::Sp> + Clone {
    nested_delimiters::<char, E::Sp>(crate::ast::types(t))
}

fn upd<E: Er>(k: u32, es: &mut Vec<E>, t: &str, at: At<E::Loc, E::Sp>) {
    burn();
    match k {
        0 => es.clear(),
        1 => es.truncate(1),
        3 => es.reverse(),
        _ => {
            let n = es.len();
            es.push(E::custom(format!("upd{k}.{n}{t}"), at));
        }
    }
}

thread_local! {
    /// How a retry that is exact as well as silent is written.
    pub static SPELLING: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
}

macro_rules! step_body {
    ($pre:expr, $E:ty, $st:expr, $defs:expr, $nothing:expr, $restart:expr, $m:ident) => {{
        type EE<E> = E;
        let _ = PhantomData::<EE<$E>>;
        match $st {
            St::Nothing => $nothing,
            St::Clone => $nothing,
            St::Restart => $restart,
            St::SeekFailed => $m!($pre, seek_to_failed).boxed(),
            St::Skip => $m!($pre, skip).boxed(),
            St::SkipIf(set) => $m!($pre, skip_if, has(set)).boxed(),
            St::Find(set) => $m!($pre, find, has(set)).boxed(),
            St::Scan(Sc::Nest(t)) => $m!($pre, scan, nest_factory::<$E>(*t)).boxed(),
            St::Scan(Sc::Stop(k)) => {
                let k = *k;
                $m!($pre, scan, move || StopScanner { k, seen: 0 }).boxed()
            }
            St::Scan(Sc::Bare(k)) => {
                let k = *k;
                $m!($pre, scan, move || BareScanner { k, seen: 0 }).boxed()
            }
            St::Maybe(inner) => {
                $m!($pre, maybe, build_steps::<$E>(inner, false, $defs)).boxed()
            }
            St::WhileNot(set, inner) => $m!(
                $pre,
                while_not,
                has(set),
                build_steps::<$E>(inner, inner.len() % 2 == 1, $defs)
            )
            .boxed(),
            St::Retry(x, s) => {
                let r = $m!($pre, retry);
                match (x, s) {
                    (false, false) => r.boxed(),
                    (true, false) => r.exactly().boxed(),
                    (false, true) => r.silently().boxed(),
                    (true, true) => match SPELLING.get() {
                        0 => r.exactly_and_silently().boxed(),
                        1 => r.exactly().silently().boxed(),
                        2 => r.silently().exactly().boxed(),
                        _ => r.silently().exactly().silently().boxed(),
                    },
                }
            }
            St::TryParse(g, x, s) => {
                let r = $m!($pre, try_to_parse, build::<$E>(g, $defs));
                match (x, s) {
                    (false, false) => r.boxed(),
                    (true, false) => r.exactly().boxed(),
                    (false, true) => r.silently().boxed(),
                    (true, true) => match SPELLING.get() {
                        0 => r.exactly_and_silently().boxed(),
                        1 => r.exactly().silently().boxed(),
                        2 => r.silently().exactly().boxed(),
                        _ => r.silently().exactly().silently().boxed(),
                    },
                }
            }
            St::PushErr(k) => {
                let k = *k;
                $m!($pre, push_error, move || {
                    burn();
                    <$E>::custom(format!("push{k}"), At::None)
                })
                .boxed()
            }
            St::PushHere(k) => {
                let k = *k;
                $m!($pre, push_error_here, move |l: <$E as Er>::Loc| {
                    burn();
                    <$E>::custom(format!("here{k}"), At::Location(l))
                })
                .boxed()
            }
            St::PushUpTo(k) => {
                let k = *k;
                $m!($pre, push_error_up_to_here, move |s: <$E as Er>::Sp| {
                    burn();
                    <$E>::custom(format!("upto{k}"), At::Span(s))
                })
                .boxed()
            }
            St::PushTok(k) => {
                let k = *k;
                $m!($pre, push_error_for_token, move |t: Option<&char>,
                                                      s: <$E as Er>::Sp| {
                    burn();
                    <$E>::custom(format!("tok{k}{:?}", t.copied()), At::Span(s))
                })
                .boxed()
            }
            St::Upd(k) => {
                let k = *k;
                $m!($pre, update_errors, move |es: &mut Vec<$E>| upd::<$E>(
                    k,
                    es,
                    "",
                    At::None
                ))
                .boxed()
            }
            St::UpdHere(k) => {
                let k = *k;
                $m!(
                    $pre,
                    update_errors_here,
                    move |es: &mut Vec<$E>, l: <$E as Er>::Loc| upd::<$E>(
                        k,
                        es,
                        "",
                        At::Location(l)
                    )
                )
                .boxed()
            }
            St::UpdUpTo(k) => {
                let k = *k;
                $m!(
                    $pre,
                    update_errors_up_to_here,
                    move |es: &mut Vec<$E>, s: <$E as Er>::Sp| upd::<$E>(k, es, "", At::Span(s))
                )
                .boxed()
            }
            St::UpdTok(k) => {
                let k = *k;
                $m!(
                    $pre,
                    update_errors_for_token,
                    move |es: &mut Vec<$E>, t: Option<&char>, s: <$E as Er>::Sp| upd::<$E>(
                        k,
                        es,
                        &format!("{:?}", t.copied()),
                        At::Span(s)
                    )
                )
                .boxed()
            }
        }
    }};
}
macro_rules! via_method {
    ($pre:expr, $name:ident $(, $a:expr)*) => { $pre.$name($($a),*) };
}
macro_rules! via_function {
    ($pre:expr, $name:ident $(, $a:expr)*) => { recovery::$name::<char, B<E> $(, via_function!(@u $a))*>($($a),*) };
    (@u $a:expr) => { _ };
}

fn add_step<E: Er>(s: SB<E>, st: &St, defs: &[Def<E>]) -> SB<E> {
    step_body!(
        s,
        E,
        st,
        defs,
        if *st == St::Clone {
            s.clone()
        } else {
            s.do_nothing()
        },
        s.restart().boxed(),
        via_method
    )
}
fn short_step<E: Er>(st: &St, defs: &[Def<E>]) -> SB<E> {
    // scan() has an extra generic parameter (the scanner) and restart() has no free function.
    match st {
        St::Scan(Sc::Nest(t)) => {
            let t = *t;
            recovery::scan::<char, B<E>, _, _>(nest_factory::<E>(t).clone()).boxed()
        }
        St::Scan(Sc::Stop(k)) => {
            let k = *k;
            recovery::scan::<char, B<E>, _, _>(move || StopScanner { k, seen: 0 }).boxed()
        }
        St::Scan(Sc::Bare(k)) => {
            let k = *k;
            recovery::scan::<char, B<E>, _, _>(move || BareScanner { k, seen: 0 }).boxed()
        }
        _ => short_step2::<E>(st, defs),
    }
}
fn short_step2<E: Er>(st: &St, defs: &[Def<E>]) -> SB<E> {
    macro_rules! f {
        ($pre:expr, scan $(, $a:expr)*) => { recovery::attempt_to::<char, B<E>>() };
        ($pre:expr, $name:ident $(, $a:expr)*) => { via_function!($pre, $name $(, $a)*) };
    }
    step_body!(
        (),
        E,
        st,
        defs,
        recovery::attempt_to::<char, B<E>>().do_nothing().boxed(),
        recovery::attempt_to::<char, B<E>>().restart().boxed(),
        f
    )
}

/// The recursive definitions, by declare-then-define.
pub enum Def<E: Er> {
    Rec(Recursive<'static, char, V, E>),
    Flat(B<E>),
}
impl<E: Er> Def<E> {
    /// Every reference to a recursive parser is a clone of its own.
    pub fn make(&self) -> B<E> {
        match self {
            Def::Rec(r) => r.clone().boxed(),
            Def::Flat(b) => b.clone(),
        }
    }
}
pub fn build_defs<E: Er>(defs: &[G]) -> Vec<Def<E>> {
    let recs: Vec<Recursive<'static, char, V, E>> =
        defs.iter().map(|_| Recursive::declare()).collect();
    let refs: Vec<Def<E>> = recs.iter().map(|r| Def::Rec(r.clone())).collect();
    for (r, d) in recs.into_iter().zip(defs) {
        let p = build::<E>(d, &refs);
        let mut r = r;
        r.define(p);
    }
    refs
}

/// Bottom of an unfolding: must never be reached.
struct Bottom<E>(PhantomData<E>);
impl<E: Er> Parser<'static, char> for Bottom<E> {
    type Output = V;
    type Error = E;
    fn parse_internal(&self, _: &mut Stm<E>, _: bool) -> parser::Result<V, E> {
        panic!("unfolding too shallow")
    }
}
/// The definitions unfolded `n` levels deep, without any recursive parser.
pub fn unfold_defs<E: Er>(defs: &[G], n: usize) -> Vec<Def<E>> {
    let mut level: Vec<Def<E>> = defs
        .iter()
        .map(|_| Def::Flat(Bottom::<E>(PhantomData).boxed()))
        .collect();
    for _ in 0..n {
        level = defs.iter().map(|d| Def::Flat(build::<E>(d, &level))).collect();
    }
    level
}

/// State of the stream before the parser under test runs.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Pre {
    Fresh,
    /// Advanced past one token.
    Adv,
    /// Save point at 0 held during the parse, then advanced past one token.
    Held,
    /// Looked ahead to the end of input and came back, nothing held.
    Ahead,
    /// Advanced by one, looked two further tokens ahead and came back.
    AdvAhead,
    /// Advanced past all leading `LATE` tokens of the tape.
    Late,
    /// The same, with a save point at 0 held during the parse.
    LateHeld,
}
/// Filler token in front of the input proper of a late start.
pub const LATE: char = 'z';
pub const PRES: [Pre; 5] = [Pre::Fresh, Pre::Adv, Pre::Held, Pre::Ahead, Pre::AdvAhead];

/// Everything observed in one run of a real parser.
#[derive(Clone, Debug)]
pub struct Obs {
    pub r: R,
    /// Start position.
    pub start: usize,
    /// Position after the run as reported by the stream.
    pub pos: usize,
    /// Position according to the location after the run.
    pub loc: usize,
    /// Tokens that can be read from there.
    pub rest: Vec<char>,
    /// Problem found when re-reading from the held save point.
    pub held: Option<String>,
    /// Polls of the source during the parse / polls after end.
    pub polls: usize,
    pub after_end: usize,
    /// Polls that had happened before the parse.
    pub pre_polls: usize,
}

pub fn to_r<E: Er>(r: parser::Result<V, E>, pos: usize) -> R {
    match r {
        parser::Result::Success(v) => R::S(v, pos),
        parser::Result::Recovered(v, es) => R::R(v, pos, es.iter().map(|e| e.m()).collect()),
        parser::Result::Failed(i, es) => R::F(i, es.iter().map(|e| e.m()).collect()),
    }
}

/// Start position of a pre-state on a tape.
pub fn start_of(pre: Pre, tape: &[char]) -> usize {
    match pre {
        Pre::Fresh | Pre::Ahead => 0,
        Pre::Late | Pre::LateHeld => tape.iter().take_while(|c| **c == LATE).count(),
        _ => 1.min(tape.len()),
    }
}

pub fn run<E: Er>(
    p: &B<E>,
    tape: &Rc<[char]>,
    start_loc: Trk,
    pre: Pre,
    rec: bool,
) -> Result<Obs, String> {
    guarded(|| {
        let (src, log) = Src::new(tape);
        let mut st: Stm<E> = Stream::new_with_location(src, E::start(start_loc));
        let mut held = None;
        match pre {
            Pre::Fresh => (),
            Pre::Adv => {
                st.advance();
            }
            Pre::Held => {
                held = Some(st.save());
                st.advance();
            }
            Pre::Ahead => {
                let s = st.save();
                while st.advance() {}
                st.restore(&s);
            }
            Pre::Late => {
                for _ in 0..start_of(pre, tape) {
                    st.advance();
                }
            }
            Pre::LateHeld => {
                held = Some(st.save());
                for _ in 0..start_of(pre, tape) {
                    st.advance();
                }
            }
            Pre::AdvAhead => {
                st.advance();
                let s = st.save();
                st.advance();
                st.advance();
                st.restore(&s);
            }
        }
        let start = st.index();
        let pre_polls = log.polls.get();
        let r = p.parse_internal(&mut st, rec);
        let polls = log.polls.get();
        let after_end = log.after_end.get();
        let pos = st.index();
        let loc = st.location().p();
        let mut rest = vec![];
        let limit = tape.len() + 4;
        while let Some(c) = st.token() {
            rest.push(*c);
            if !st.advance() || rest.len() > limit {
                break;
            }
        }
        let mut problem = None;
        if let Some(h) = held {
            st.restore(&h);
            let mut all = vec![];
            while let Some(c) = st.token() {
                all.push(*c);
                if !st.advance() || all.len() > limit {
                    break;
                }
            }
            if all[..] != tape[..] {
                problem = Some(format!(
                    "save point held across the parse re-reads {:?}",
                    text(&all)
                ));
            }
        }
        Obs {
            r: to_r(r, pos),
            start,
            pos,
            loc,
            rest,
            held: problem,
            polls,
            after_end,
            pre_polls,
        }
    })
}
