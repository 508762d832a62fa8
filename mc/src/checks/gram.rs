//! Exhaustive enumeration of grammars and inputs, judged against the model and against
//! model-independent laws.

use crate::ast::*;
use crate::explore::*;
use crate::model::*;
use crate::obs::*;
use crate::real::*;
use std::rc::Rc;

/// Constructors used by a grammar family.
#[derive(Clone)]
pub struct Shape {
    pub leaves: Vec<G>,
    pub un: Vec<fn(Box<G>) -> G>,
    pub bin: Vec<fn(Box<G>, Box<G>) -> G>,
    pub tri: Vec<fn(Box<G>, Box<G>, Box<G>) -> G>,
    /// Depth limit of all but one child of binary/ternary nodes.
    pub side: usize,
}

pub fn strat(steps: Vec<St>, fin: Fin) -> std::sync::Arc<Strat> {
    std::sync::Arc::new(Strat {
        steps,
        fin,
        short: true,
    })
}
pub fn rep(item: Box<G>, sep: Option<Box<G>>, min: usize, max: Option<usize>, l: bool, t: bool) -> G {
    G::Rep(Rep {
        item,
        sep,
        min,
        max,
        lead: l,
        trail: t,
    })
}
fn recw(c: Box<G>, steps: Vec<St>, fin: Fin) -> G {
    G::Rec(c, strat(steps, fin))
}

pub mod u {
    use super::*;
    pub fn star(g: Box<G>) -> G {
        rep(g, None, 0, None, false, false)
    }
    pub fn plus(g: Box<G>) -> G {
        rep(g, None, 1, None, false, false)
    }
    pub fn two(g: Box<G>) -> G {
        rep(g, None, 2, Some(2), false, false)
    }
    pub fn upto2(g: Box<G>) -> G {
        rep(g, None, 0, Some(2), false, false)
    }
    pub fn r_return(g: Box<G>) -> G {
        recw(g, vec![], Fin::Return(7))
    }
    pub fn r_skip_ret(g: Box<G>) -> G {
        recw(g, vec![St::Skip], Fin::ReturnSpan(7))
    }
    pub fn r_find_ret(g: Box<G>) -> G {
        recw(g, vec![St::Find("b")], Fin::ReturnWith(8))
    }
    pub fn r_skip_retry(g: Box<G>) -> G {
        recw(g, vec![St::Skip, St::Retry(false, false)], Fin::OrFail)
    }
    pub fn r_while(g: Box<G>) -> G {
        recw(
            g,
            vec![St::WhileNot("c", vec![St::Retry(false, true)])],
            Fin::OrFail,
        )
    }
    pub fn r_seek(g: Box<G>) -> G {
        recw(g, vec![St::SeekFailed, St::Skip], Fin::ReturnSpan(9))
    }
    pub fn r_push_fail(g: Box<G>) -> G {
        recw(
            g,
            vec![St::Skip, St::PushHere(1), St::Skip, St::PushUpTo(2)],
            Fin::OrFail,
        )
    }
    pub fn r_maybe(g: Box<G>) -> G {
        recw(
            g,
            vec![St::Maybe(vec![St::Skip, St::Retry(true, false)])],
            Fin::Return(6),
        )
    }
    /// Recovers silently: no error remains.
    pub fn r_clear(g: Box<G>) -> G {
        recw(g, vec![St::Upd(0), St::Skip], Fin::ReturnSpan(4))
    }
    pub fn r_try(g: Box<G>) -> G {
        recw(
            g,
            vec![St::TryParse(bx(G::Seq("ba")), false, false), St::SeekFailed],
            Fin::Return(5),
        )
    }
    pub fn tm_err(g: Box<G>) -> G {
        G::TryMap(g, TM::Err2)
    }
    pub fn tm_rec(g: Box<G>) -> G {
        G::TryMap(g, TM::Rec1)
    }
    pub fn tm_long(g: Box<G>) -> G {
        G::TryMap(g, TM::ErrLong)
    }
    pub fn tm_ok(g: Box<G>) -> G {
        G::TryMap(g, TM::Ok)
    }
}
pub mod b {
    use super::*;
    pub fn chain(x: Box<G>, y: Box<G>) -> G {
        G::Chain(vec![*x, *y])
    }
    pub fn alters(x: Box<G>, y: Box<G>) -> G {
        G::Alters(vec![*x, *y])
    }
    pub fn sep(x: Box<G>, y: Box<G>) -> G {
        rep(x, Some(y), 0, None, false, false)
    }
    pub fn sep1lt(x: Box<G>, y: Box<G>) -> G {
        rep(x, Some(y), 1, None, true, true)
    }
    pub fn sep2(x: Box<G>, y: Box<G>) -> G {
        rep(x, Some(y), 2, Some(3), false, true)
    }
    pub fn padded(x: Box<G>, y: Box<G>) -> G {
        G::Padded(x, y)
    }
    pub fn chain3(x: Box<G>, y: Box<G>) -> G {
        G::Chain(vec![(*x).clone(), *y, *x])
    }
    pub fn alters3(x: Box<G>, y: Box<G>) -> G {
        G::Alters(vec![G::Then(x.clone(), bx(G::Just('c'))), *y, *x])
    }
}

impl Shape {
    /// Every constructor of the library.
    pub fn full() -> Shape {
        Shape {
            leaves: vec![
                G::Just('a'),
                G::Just('b'),
                G::Seq("ab"),
                G::End,
                G::Empty,
                G::NoneOf("a"),
            ],
            un: vec![
                G::MapSpan,
                G::MapErr,
                u::tm_err,
                u::tm_rec,
                G::OrNot,
                u::star,
                u::plus,
                u::two,
                u::r_return,
                u::r_skip_ret,
                u::r_skip_retry,
                u::r_seek,
                u::r_push_fail,
                u::r_while,
                u::r_clear,
            ],
            bin: vec![G::Then, G::Or, b::sep, b::sep1lt, b::alters3],
            tri: vec![],
            side: 1,
        }
    }
    /// Fewer constructors, for greater depth.
    pub fn deep() -> Shape {
        Shape {
            leaves: vec![G::Just('a'), G::Just('b')],
            un: vec![
                u::tm_rec,
                G::OrNot,
                u::star,
                u::plus,
                u::r_return,
                u::r_skip_retry,
            ],
            bin: vec![G::Then, G::Or],
            tri: vec![],
            side: 1,
        }
    }
    /// The remaining constructors, shallow.
    pub fn rest() -> Shape {
        Shape {
            leaves: vec![
                G::Just('a'),
                G::Seq("ab"),
                G::OneOf("ab"),
                G::Filter("b"),
                G::FilterMap("a"),
                G::NoneP,
                G::Rec(bx(G::Just('a')), strat(vec![St::Skip], Fin::Return(3))),
                G::Rec(
                    bx(G::Seq("ab")),
                    strat(vec![St::Skip, St::Retry(true, false)], Fin::OrFail),
                ),
            ],
            un: vec![
                G::To,
                G::Ignored,
                G::Some,
                G::Map,
                G::MapErrSpan,
                u::tm_long,
                u::tm_ok,
                u::upto2,
                u::r_find_ret,
                u::r_maybe,
                u::r_try,
                G::Boxed,
                G::WithErr,
            ],
            bin: vec![
                G::ThenIgnore,
                G::IgnoreThen,
                b::padded,
                b::chain,
                b::chain3,
                b::alters,
                b::sep2,
            ],
            tri: vec![G::Delim],
            side: 0,
        }
    }
    pub fn gen(&self, ch: &Ch, d: usize) -> G {
        let (l, un, bi, tr) = (
            self.leaves.len(),
            self.un.len(),
            self.bin.len(),
            self.tri.len(),
        );
        if d == 0 {
            return self.leaves[ch.pick(l)].clone();
        }
        let side = self.side.min(d - 1);
        // When the side is shallower, either child may be the deep one.
        let orders = if side < d - 1 { 2 } else { 1 };
        let k = ch.pick(l + un + bi * orders + tr);
        if k < l {
            return self.leaves[k].clone();
        }
        let k = k - l;
        if k < un {
            return self.un[k](bx(self.gen(ch, d - 1)));
        }
        let k = k - un;
        if k < bi * orders {
            let (x, y) = if k < bi {
                (d - 1, side)
            } else {
                (side, d - 1)
            };
            let a = self.gen(ch, x);
            let b = self.gen(ch, y);
            return self.bin[k % bi](bx(a), bx(b));
        }
        let k = k - bi * orders;
        let a = self.gen(ch, 0);
        let b = self.gen(ch, d - 1);
        let c = self.gen(ch, 0);
        self.tri[k](bx(a), bx(b), bx(c))
    }
}

/// One judged configuration: runs without and with recovery.
pub struct Both<'a> {
    pub g: &'a G,
    pub tape: &'a [char],
    pub pre: Pre,
    pub start: usize,
    pub m: [R; 2],
    pub look: [usize; 2],
    pub o: [Obs; 2],
}

pub struct Family {
    pub name: &'static str,
    pub shape: Shape,
    pub depth: usize,
    pub inputs: Vec<Rc<[char]>>,
    pub pres: Vec<Pre>,
}

pub fn rc_inputs(alpha: &str, n: usize) -> Vec<Vec<char>> {
    strings(alpha, n)
}

/// Start positions of parsers that start late.
pub const LATES: [usize; 21] = [
    2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 31, 33, 63, 65, 129, 255, 257, 1030,
];
pub fn late_tape(k: usize, input: &[char]) -> Vec<char> {
    let mut v = vec![LATE; k];
    v.extend(input);
    v
}
pub fn late_tapes(inputs: &[Vec<char>]) -> Vec<Vec<char>> {
    LATES.iter().flat_map(|k| inputs.iter().map(|i| late_tape(*k, i))).collect()
}

pub struct FamSpec {
    pub name: &'static str,
    pub shape: Shape,
    pub depth: usize,
    pub inputs: Vec<Vec<char>>,
    pub pres: Vec<Pre>,
    /// Also with the error type that records nothing.
    pub void: bool,
}

pub fn families(thorough: bool) -> Vec<FamSpec> {
    let mut v = vec![
        FamSpec {
            void: thorough,
            name: "full-depth2",
            shape: Shape::full(),
            depth: 2,
            inputs: strings("ab", if thorough { 5 } else { 4 }),
            pres: vec![Pre::Fresh, Pre::Held],
        },
        FamSpec {
            void: false,
            name: "rest-depth2",
            shape: Shape {
                side: if thorough { 1 } else { 0 },
                ..Shape::rest()
            },
            depth: 2,
            inputs: strings("ab", if thorough { 3 } else { 4 }),
            pres: vec![Pre::Fresh, Pre::AdvAhead],
        },
        FamSpec {
            void: true,
            name: "deep-depth3",
            shape: Shape::deep(),
            depth: 3,
            inputs: strings("ab", 4),
            pres: vec![Pre::Fresh, Pre::Ahead],
        },
        FamSpec {
            void: true,
            name: "full-depth1",
            shape: {
                let mut s = Shape::full();
                s.leaves.extend([G::OneOf("bc"), G::Filter("c"), G::Seq("aba")]);
                s
            },
            depth: 1,
            inputs: strings("abc", 5),
            pres: PRES.to_vec(),
        },
        FamSpec {
            void: false,
            name: "late-starts",
            shape: Shape::full(),
            depth: 1,
            inputs: late_tapes(&strings("ab", if thorough { 4 } else { 3 })),
            pres: vec![Pre::Late, Pre::LateHeld],
        },
    ];
    if thorough {
        v.push(FamSpec {
            void: false,
            name: "deep-depth4",
            shape: Shape::deep(),
            depth: 4,
            inputs: strings("ab", 3),
            pres: vec![Pre::Fresh],
        });
        v.push(FamSpec {
            void: false,
            name: "full-depth3",
            shape: Shape {
                side: 0,
                ..Shape::full()
            },
            depth: 3,
            inputs: strings("ab", 4),
            pres: vec![Pre::Fresh, Pre::AdvAhead],
        });
        v.push(FamSpec {
            void: false,
            name: "rest-depth3",
            shape: Shape::rest(),
            depth: 3,
            inputs: strings("ab", 3),
            pres: vec![Pre::Fresh],
        });
        v.push(FamSpec {
            void: true,
            name: "long-inputs",
            shape: Shape::full(),
            depth: 1,
            inputs: strings("ab", 10),
            pres: vec![Pre::Fresh, Pre::Held],
        });
    }
    v
}

pub type Judge = fn(&Both) -> Result<(), String>;
/// Judges every case of the comparisons in exact.rs by the law of another property instead.
pub static LAW: std::sync::OnceLock<(&'static str, Judge)> = std::sync::OnceLock::new();
#[cfg(feature = "exact")]
fn under_law(id: &'static str, j: Judge, parts: impl FnOnce() -> Vec<Part<'static>>) -> Vec<Part<'static>> {
    LAW.get_or_init(|| (id, j));
    parts()
}

pub fn describe(g: &G, tape: &[char], pre: Pre, rec: bool) -> String {
    format!("parser {g:?} input {:?} pre {pre:?} recovery {rec}", text(tape))
}

/// Runs one grammar on all inputs and pre-states; `judge` sees both recovery settings.
pub fn judge_grammar<E: Er>(
    g: &G,
    inputs: &[Rc<[char]>],
    pres: &[Pre],
    st: &mut Stats,
    judge: &dyn Fn(&Both) -> Result<(), String>,
    id: &str,
) -> Result<(), Viol> {
    judge_grammar_from::<E>(g, inputs, pres, Trk::default(), st, judge, id)
}
/// The same with a start location.
pub fn judge_grammar_from<E: Er>(
    g: &G,
    inputs: &[Rc<[char]>],
    pres: &[Pre],
    start_loc: Trk,
    st: &mut Stats,
    judge: &dyn Fn(&Both) -> Result<(), String>,
    id: &str,
) -> Result<(), Viol> {
    let p = build::<E>(g, &[]);
    for tape in inputs {
        set_tape(start_loc, tape);
        let mut last_start = usize::MAX;
        let mut models: Vec<Option<([R; 2], [usize; 2])>> = vec![None; start_of(Pre::Late, tape).max(1) + 1];
        for &pre in pres {
            let start = start_of(pre, tape);
            if pre != Pre::Fresh && tape.is_empty() {
                continue;
            }
            if last_start != start && models[start].is_none() {
                let mut ms = vec![];
                let mut ls = vec![];
                for rec in [false, true] {
                    let m = Model::new(tape, &[], E::VOID);
                    let f0 = m.fuel.get();
                    match m.ev(g, start, rec) {
                        Ok(r) => ms.push(r),
                        Err(Diverge) => break,
                    }
                    st.transitions += f0 - m.fuel.get();
                    ls.push(m.look.get());
                }
                if ms.len() < 2 {
                    st.count("diverging_skipped");
                    continue;
                }
                let b = ms.pop().unwrap();
                let a = ms.pop().unwrap();
                models[start] = Some(([a, b], [ls[0], ls[1]]));
            }
            last_start = start;
            let Some((m, look)) = models[start].clone() else {
                continue;
            };
            let mut os = vec![];
            for rec in [false, true] {
                st.states += 1;
                st.compared += 1;
                let d = || describe(g, tape, pre, rec);
                match run::<E>(&p, tape, start_loc, pre, rec) {
                    Ok(o) => os.push(o),
                    Err(e) => {
                        return Err(Viol::new(format!("{id}:{}", d()), format!("{}: {e}", d())))
                    }
                }
            }
            let o1 = os.pop().unwrap();
            let o0 = os.pop().unwrap();
            st.outcome(&(o0.r.kind(), o1.r.kind(), o1.pos, o1.r.errs().len()));
            match &o1.r {
                R::S(..) => st.count("succeeded"),
                R::R(..) => st.count("recovered"),
                R::F(..) => st.count("failed"),
            }
            let both = Both {
                g,
                tape,
                pre,
                start,
                m,
                look,
                o: [o0, o1],
            };
            st.sample(|| {
                format!(
                    "{} -> {:?}",
                    describe(g, tape, pre, true),
                    both.o[1].r
                )
            });
            if let Err(e) = judge(&both) {
                return Err(Viol::new(
                    format!("{id}:{}", describe(g, tape, pre, true)),
                    format!(
                        "{e}\n  parser {g:?}\n  input {:?} pre-state {pre:?}\n  without recovery: {:?} at {} (model {:?})\n  with recovery: {:?} at {} (model {:?})",
                        text(tape), both.o[0].r, both.o[0].pos, both.m[0], both.o[1].r, both.o[1].pos, both.m[1]
                    ),
                ));
            }
        }
    }
    Ok(())
}

pub fn fam_parts(id: &'static str, fams: Vec<FamSpec>, judge: Judge, void_too: bool) -> Vec<Part<'static>> {
    fams.into_iter()
        .map(|f| {
            // Rc is not Sync: materialise inputs per run from plain vectors.
            part(f.name, if void_too && f.void { 2 } else { 1 }, move |cfg, ch, st| {
                let g = f.shape.gen(ch, f.depth);
                let inputs: Vec<Rc<[char]>> = f.inputs.iter().map(|v| Rc::from(&v[..])).collect();
                if cfg == 0 {
                    judge_grammar::<ES>(&g, &inputs, &f.pres, st, &judge, id)
                } else {
                    judge_grammar::<EV>(&g, &inputs, &f.pres, st, &judge, id)
                }
            })
        })
        .collect()
}

//---------------------------------------------------------------------------------------------

fn clears(g: &G) -> bool {
    format!("{g:?}").contains("Upd")
}

/// C04: whatever fails leaves the input where it was.
fn judge_c04(b: &Both) -> Result<(), String> {
    for o in &b.o {
        if let R::F(i, es) = &o.r {
            if o.pos != b.start {
                return Err(format!("failed parse moved the input from {} to {}", b.start, o.pos));
            }
            if o.loc != b.start {
                return Err(format!("location after failed parse is {} not {}", o.loc, b.start));
            }
            if o.rest[..] != b.tape[b.start..] {
                return Err(format!("after a failed parse the input reads {:?}", text(&o.rest)));
            }
            if *i < b.start {
                return Err(format!("failure index {i} before the start {}", b.start));
            }
            if *i > b.tape.len() {
                return Err(format!("failure index {i} beyond the input"));
            }
            if es.is_empty() && !clears(b.g) {
                return Err("failure without any error".into());
            }
        }
        if let Some(h) = &o.held {
            if matches!(o.r, R::F(..)) {
                return Err(h.clone());
            }
        }
    }
    Ok(())
}
#[cfg(feature = "exact")]
fn named(id: &str, parts: Vec<Part<'static>>) -> Vec<Part<'static>> {
    parts
        .into_iter()
        .map(|mut p| {
            p.name = Box::leak(format!("{id}/{}", p.name).into_boxed_str());
            p
        })
        .collect()
}
/// Everything exact.rs enumerates over mocks and concrete parsers.
#[cfg(feature = "exact")]
fn combinators(t: bool) -> Vec<Part<'static>> {
    use super::exact::*;
    let mut v = named("C07", c07(t));
    v.extend(named("C08", c08(t)));
    v.extend(named("C09", c09(t)));
    v.extend(named("C10", c10(t)));
    v.extend(named("C12", c12(t)));
    v.extend(named("C16", c16(t)));
    v.extend(nested_mocks(t));
    // Not about parsers.
    v.retain(|p| p.name != "C16/result-accessors");
    v
}
#[cfg(not(feature = "exact"))]
fn combinators(_: bool) -> Vec<Part<'static>> {
    vec![]
}
#[cfg(not(feature = "exact"))]
fn under_law(_: &'static str, _: Judge, parts: impl FnOnce() -> Vec<Part<'static>>) -> Vec<Part<'static>> {
    parts()
}
pub fn c04(t: bool) -> Vec<Part<'static>> {
    let mut v = fam_parts("C04", families(t), judge_c04, true);
    v.extend(under_law("C04", judge_c04, || combinators(t)));
    v
}

/// C05: recovery is conservative.
fn judge_c05(b: &Both) -> Result<(), String> {
    let (n, r) = (&b.o[0], &b.o[1]);
    if let R::R(..) = n.r {
        return Err("recovered result with recovery disabled".into());
    }
    match (&n.r, &r.r) {
        (R::S(v, p), R::S(w, q)) => {
            if v != w || p != q || n.rest != r.rest {
                return Err("recovery changed the result of a valid parse".into());
            }
        }
        (R::S(..), _) => return Err("valid input no longer succeeds with recovery enabled".into()),
        (R::F(..), R::S(..)) => {
            return Err("invalid input succeeds plainly with recovery enabled".into())
        }
        _ => (),
    }
    // What the documented meaning recovers from (or only accepts with recovery) is not valid.
    for k in 0..2 {
        if let (R::S(..), R::R(..)) = (&b.o[k].r, &b.m[1]) {
            return Err("input that has to be recovered from is passed off as valid".into());
        }
    }
    Ok(())
}
/// The convenience entry points against the inner parsing function.
fn entry_case<E: Er>(
    g: &G,
    tape: &Rc<[char]>,
    start_loc: Trk,
    default_loc: bool,
    st: &mut Stats,
) -> Result<(), Viol> {
    use parse_proof_of_concept::parser::Parser as _;
    set_tape(start_loc, tape);
    for rec in [false, true] {
        if Model::new(tape, &[], E::VOID).ev(g, 0, rec).is_err() {
            st.count("diverging_skipped");
            return Ok(());
        }
    }
    let p = build::<E>(g, &[]);
    let d = |w: &str| format!("{w} of {}", describe(g, tape, Pre::Fresh, true));
    // A panic here is C19's business, and shows there.
    let Ok(o) = run::<E>(&p, tape, start_loc, Pre::Fresh, true) else {
        st.count("left_to_other_property");
        return Ok(());
    };
    let o = o.r;
    let first = o.errs().first().cloned();
    let short: Result<V, Option<MErr>> = match &o {
        R::S(v, _) => Ok(v.clone()),
        _ => Err(first),
    };
    // Without an error to give, a fallback error is made up.
    let unknown = matches!(&short, Err(None));
    let judge = |w: &str, got: Result<Result<V, Option<MErr>>, String>| match got {
        Ok(x) if x == short || (unknown && x.is_err()) => Ok(()),
        x => Err(Viol::new(
            format!("C05:{}", d(w)),
            format!("{} gives {x:?}\n  but parsing gives {o:?}", d(w)),
        )),
    };
    let full = |w: &str, got: Result<R, String>| {
        let same = match (&got, &o) {
            (Ok(R::S(a, _)), R::S(b, _)) => a == b,
            (Ok(R::R(a, _, e)), R::R(b, _, f)) => a == b && e == f,
            (Ok(R::F(i, e)), R::F(j, f)) => i == j && e == f,
            _ => false,
        };
        if same {
            return Ok(());
        }
        Err(Viol::new(
            format!("C05:{}", d(w)),
            format!("{} gives {got:?}\n  but parsing gives {o:?}", d(w)),
        ))
    };
    let t = tape.to_vec();
    let loc = || E::start(start_loc);
    st.states += 1;
    st.transitions += 4;
    st.compared += 4;
    if default_loc {
        let (a, b) = (t.clone(), t.clone());
        judge("parse", guarded(|| p.parse(a).map_err(|e| Some(e.m()))))?;
        full("parse_with_recovery", guarded(|| to_r::<E>(p.parse_with_recovery(b), 0)))?;
        st.transitions += 2;
        st.compared += 2;
    }
    let (a, b) = (t.clone(), t.clone());
    judge(
        "parse_with_location",
        guarded(|| p.parse_with_location(a, loc()).map_err(|e| Some(e.m()))),
    )?;
    full(
        "parse_with_recovery_and_location",
        guarded(|| to_r::<E>(p.parse_with_recovery_and_location(b, loc()), 0)),
    )?;
    st.outcome(&(o.kind(), o.errs().len(), unknown));
    st.sample(|| format!("{} -> {short:?}", d("parse")));
    Ok(())
}
fn entry_points(t: bool) -> Vec<Part<'static>> {
    let mut v = vec![];
    #[cfg(feature = "exact")]
    v.push(part("entry-points-strategies", 3, move |cfg, ch, st| {
        let steps = super::exact::concrete_steps();
        let mut v = vec![ch.of(&steps)];
        if ch.flag() {
            v.push(ch.of(&steps));
        }
        let fin = ch.of(&super::exact::FINS);
        let g = recw(bx(ch.of(&super::exact::children())), v, fin);
        let g = match ch.pick(3) {
            0 => g,
            1 => G::Then(bx(g), bx(G::OrNot(bx(G::Just('a'))))),
            _ => u::two(bx(g)),
        };
        for tape in ["", "a", "b", "ba", "cab", "aab", "acb", "abab"] {
            let tape: Rc<[char]> = tape.chars().collect::<Vec<_>>().into();
            match cfg {
                0 => entry_case::<ES>(&g, &tape, Trk::default(), true, st)?,
                1 => entry_case::<ES>(&g, &tape, Trk { n: 1000, h: 77 }, false, st)?,
                _ => entry_case::<EV>(&g, &tape, Trk::default(), true, st)?,
            }
        }
        Ok(())
    }));
    for (name, depth, n) in [("entry-points-depth1", 1, 5), ("entry-points-depth2", 2, 3)] {
        v.push(part(name, 3, move |cfg, ch, st| {
            let mut shape = Shape::full();
            shape.side = if t { 1 } else { 0 };
            shape.leaves.push(G::NoneP);
            let g = shape.gen(ch, depth);
            for tape in &strings("ab", n) {
                let tape: Rc<[char]> = Rc::from(&tape[..]);
                match cfg {
                    0 => entry_case::<ES>(&g, &tape, Trk::default(), true, st)?,
                    1 => entry_case::<ES>(&g, &tape, Trk { n: 1000, h: 77 }, false, st)?,
                    _ => entry_case::<EV>(&g, &tape, Trk::default(), true, st)?,
                }
            }
            Ok(())
        }));
    }
    v
}
pub fn c05(t: bool) -> Vec<Part<'static>> {
    let mut v = fam_parts("C05", families(t), judge_c05, true);
    v.extend(entry_points(t));
    v.extend(under_law("C05", judge_c05, || combinators(t)));
    v
}

/// C11: errors of accepted results.
fn judge_c11(b: &Both) -> Result<(), String> {
    for k in 0..2 {
        let (o, m) = (&b.o[k].r, &b.m[k]);
        match (o, m) {
            (R::F(..), _) | (_, R::F(..)) => (),
            (R::S(..), R::R(..)) => return Err("recovered parts reported as a plain success".into()),
            (R::R(..), R::S(..)) => return Err("plain success reported as recovered".into()),
            _ => {
                if o.errs() != m.errs() {
                    return Err("errors of the recovered result differ".into());
                }
            }
        }
        if let R::S(v, _) = o {
            if marked(v) {
                return Err("plain success contains a recovered part".into());
            }
        }
    }
    Ok(())
}
/// Whether a value contains output that only recovery produces.
fn marked(v: &V) -> bool {
    match v {
        V::O(x) => x.as_ref().is_some_and(|x| marked(x)),
        V::P(a, b) => marked(a) || marked(b),
        V::L(x) => x.iter().any(marked),
        V::T(_, x) | V::Sp(x, _, _) => marked(x),
        V::K(k) => *k < 40,
        _ => false,
    }
}
pub fn c11(t: bool) -> Vec<Part<'static>> {
    let mut v = fam_parts("C11", families(t), judge_c11, true);
    v.extend(under_law("C11", judge_c11, || combinators(t)));
    v
}

pub fn c19(t: bool) -> Vec<Part<'static>> {
    let mut v = fam_parts("C19", families(t), |_| Ok(()), true);
    v.extend(no_panics("C19", combinators(t)));
    #[cfg(all(feature = "misc", feature = "stream"))]
    {
        use super::{misc, stream};
        let mut w = named("C01", stream::c01(t));
        let mut u = named("C03", stream::c03(t));
        u.retain(|p| ["C03/retained-tokens", "C03/retained-after-many-saves", "C03/streaming"].contains(&&*p.name));
        w.extend(u);
        w.extend(named("C13", misc::c13(t)));
        w.extend(named("C14", misc::c14(t)));
        w.extend(named("C15", misc::c15(t)));
        w.extend(named("C18", misc::c18(t)));
        // Misuse, which panics by design.
        w.retain(|p| p.name != "C15/construction");
        if !t {
            // C01 explores these on every change.
            w.retain(|p| p.name != "C01/all-operations");
        }
        v.extend(no_panics("C19", w));
    }
    v
}

/// The `k`th of many distinct characters.
pub fn nth_char(k: usize) -> char {
    let k = k as u32;
    char::from_u32(if k < 0xd000 { 'Ā' as u32 + k } else { 0x10000 + k }).unwrap()
}
