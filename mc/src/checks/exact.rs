//! Full comparison of one construct with the reference semantics, with child parsers whose
//! behaviour the explorer enumerates.

use crate::ast::*;
use crate::checks::gram::*;
use crate::explore::*;
use crate::model::*;
use crate::obs::*;
use crate::real::*;
use std::rc::Rc;

pub struct Case<'a> {
    pub id: &'static str,
    pub g: &'a G,
    pub defs: &'a [G],
    pub tape: &'a [char],
    pub specs: Vec<Rc<MockSpec>>,
    pub pres: &'a [Pre],
    /// Also compare how often mapping functions are called.
    pub calls: bool,
    pub start_loc: Trk,
}
impl<'a> Case<'a> {
    pub fn new(id: &'static str, g: &'a G, tape: &'a [char]) -> Self {
        Case {
            id,
            g,
            defs: &[],
            tape,
            specs: vec![],
            pres: &[Pre::Fresh],
            calls: false,
            start_loc: Trk::default(),
        }
    }
}

pub fn exact<E: Er>(c: &Case, ch: &Ch, st: &mut Stats) -> Result<(), Viol> {
    let tape: Rc<[char]> = Rc::from(c.tape);
    let pre = ch.of(c.pres);
    set_tape(c.start_loc, c.tape);
    let mut env = Env::new(ch, c.tape, c.specs.clone());
    Rc::get_mut(&mut env).unwrap().start = c.start_loc;
    let e2 = env.clone();
    with_env(&e2, || {
        let defs = build_defs::<E>(c.defs);
        let p = build::<E>(c.g, &defs);
        let start = start_of(pre, c.tape);
        let law = LAW.get();
        let id = law.map_or(c.id, |l| l.0);
        let mut seen = vec![];
        for rec in [false, true] {
            let m = Model::new(c.tape, c.defs, E::VOID);
            let f0 = m.fuel.get();
            let want = match m.ev(c.g, start, rec) {
                Ok(r) => r,
                Err(Diverge) => {
                    st.count("diverging_skipped");
                    return Ok(());
                }
            };
            st.transitions += f0 - m.fuel.get();
            st.states += 1;
            st.compared += 1;
            env.calls.borrow_mut().clear();
            let d = || {
                format!(
                    "{} errors {} mocks {}",
                    describe(c.g, c.tape, pre, rec),
                    E::NAME,
                    env.dump()
                )
            };
            let key = |what: &str| format!("{id}:{what}:{}", describe(c.g, c.tape, pre, rec));
            let o = run::<E>(&p, &tape, c.start_loc, pre, rec)
                .map_err(|e| Viol::new(key("panic"), format!("{}: {e}", d())))?;
            st.outcome(&(want.kind(), want.end(start), want.errs().len()));
            st.count(match &want {
                R::S(..) => "succeeded",
                R::R(..) => "recovered",
                R::F(..) => "failed",
            });
            if let Some((_, judge)) = law {
                st.sample(|| format!("{} -> {:?}", d(), o.r));
                seen.push((want, m.look.get(), o));
                if rec {
                    let (m1, l1, o1) = seen.pop().unwrap();
                    let (m0, l0, o0) = seen.pop().unwrap();
                    let b = Both {
                        g: c.g,
                        tape: c.tape,
                        pre,
                        start,
                        m: [m0, m1],
                        look: [l0, l1],
                        o: [o0, o1],
                    };
                    judge(&b).map_err(|e| {
                        Viol::new(
                            key(&e),
                            format!(
                                "{e}\n  {}\n  without recovery: {:?} at {} (model {:?})\n  with recovery: {:?} at {} (model {:?})",
                                d(), b.o[0].r, b.o[0].pos, b.m[0], b.o[1].r, b.o[1].pos, b.m[1]
                            ),
                        )
                    })?;
                }
                continue;
            }
            let bad = |what: &str| {
                Err(Viol::new(
                    key(what),
                    format!(
                        "{what}\n  {}\n  real:  {:?}, input at {}\n  model: {:?}, input at {}",
                        d(),
                        o.r,
                        o.pos,
                        want,
                        want.end(start)
                    ),
                ))
            };
            if o.r != want {
                return bad("result differs");
            }
            if o.pos != want.end(start) {
                return bad("input position differs");
            }
            if o.rest[..] != c.tape[want.end(start)..] {
                return bad("remaining input differs");
            }
            if c.calls {
                for k in 1..6u32 {
                    let n = env.calls.borrow().get(&k).copied().unwrap_or(0);
                    if n != m.calls.borrow()[k as usize] {
                        return bad(&format!(
                            "mapping function {k} called {n} times instead of {}",
                            m.calls.borrow()[k as usize]
                        ));
                    }
                }
            }
            st.sample(|| format!("{} -> {:?}", d(), o.r));
        }
        Ok(())
    })
}

fn mk(id: u8) -> G {
    G::Mock(id)
}
fn bm(id: u8) -> Box<G> {
    bx(G::Mock(id))
}

/// Every `k`-th of them.
fn some(gs: &[G], k: usize) -> Vec<G> {
    gs.iter().step_by(k).cloned().collect()
}

fn chars(s: &str) -> Vec<char> {
    s.chars().collect()
}
fn leak_str(s: String) -> &'static str {
    Box::leak(s.into_boxed_str())
}
/// Sizes around the powers of two and the round numbers at which implementations tend to change
/// their ways.
pub const BIG: [usize; 18] = [12, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 256, 257, 512, 1030];
/// Beyond any fixed capacity and any 16-bit count.
pub const HUGE: [usize; 3] = [2050, 4100, 66_000];
pub fn by_err(cfg: usize, c: &Case, ch: &Ch, st: &mut Stats) -> Result<(), Viol> {
    match cfg % 3 {
        0 => exact::<ES>(c, ch, st),
        1 => exact::<ET>(c, ch, st),
        _ => exact::<EV>(c, ch, st),
    }
}

/// Grammars in `gs` on every input, mocks answering by `specs`; one configuration per grammar and
/// error type.
pub fn mock_part(
    id: &'static str,
    name: &'static str,
    gs: Vec<G>,
    tapes: Vec<Vec<char>>,
    specs: Vec<MockSpec>,
    pres: Vec<Pre>,
    calls: bool,
    nerr: usize,
) -> Part<'static> {
    let n = gs.len();
    part(name, n * nerr, move |cfg, ch, st| {
        let g = &gs[cfg % n];
        let tape = &tapes[ch.pick(tapes.len())];
        let mut c = Case::new(id, g, tape);
        c.specs = specs.iter().map(|s| Rc::new(s.clone())).collect();
        c.pres = &pres;
        c.calls = calls;
        by_err(cfg / n, &c, ch, st)
    })
}

/// Grammars without mocks on every input.
pub fn plain_part(
    id: &'static str,
    name: &'static str,
    gs: Vec<G>,
    tapes: Vec<Vec<char>>,
    pres: Vec<Pre>,
    nerr: usize,
) -> Part<'static> {
    mock_part(id, name, gs, tapes, vec![], pres, false, nerr)
}

/// Grammars in `gs` started late in the input.
#[allow(clippy::too_many_arguments)]
fn late_part(
    id: &'static str,
    name: &'static str,
    gs: Vec<G>,
    inputs: Vec<Vec<char>>,
    specs: Vec<MockSpec>,
    calls: bool,
    nerr: usize,
) -> Part<'static> {
    mock_part(id, name, gs, late_tapes(&inputs), specs, vec![Pre::Late, Pre::LateHeld], calls, nerr)
}

fn spec(
    lens: &[usize],
    fails: &[usize],
    errs: &[ErrK],
    rec_lens: &[usize],
    rec_errs: &[ErrK],
) -> MockSpec {
    MockSpec {
        lens: lens.to_vec(),
        fails: fails.to_vec(),
        errs: errs.to_vec(),
        rec_lens: rec_lens.to_vec(),
        rec_errs: rec_errs.to_vec(),
        rec_fail_errs: vec![],
    }
}

//---------------------------------------------------------------------------------------------

pub fn c06(t: bool) -> Vec<Part<'static>> {
    let mut prims = vec![
        G::Empty,
        G::NoneP,
        G::End,
        G::Just('a'),
        G::Just('c'),
        G::Just('é'),
    ];
    for s in ["", "a", "b", "ab", "ba", "bc", "abc", "cab", "aa"] {
        prims.push(G::OneOf(s));
        prims.push(G::NoneOf(s));
        prims.push(G::Filter(s));
        prims.push(G::FilterMap(s));
    }
    for s in ["", "a", "c", "ab", "ba", "aa", "aaa", "abc", "aba", "aab", "abab", "ababa", "aaaaa", "abcabca"] {
        prims.push(G::Seq(s));
    }
    let long = {
        // Long sequences against all single deviations and all truncations.
        let mut v = vec![];
        for n in 0..=14usize {
            let base: Vec<char> = "abcabcaabbccab".chars().take(n).collect();
            v.push(base.clone());
            for k in 0..n {
                let mut b = base.clone();
                b[k] = 'x';
                v.push(b);
            }
        }
        v
    };
    vec![
        plain_part(
            "C06",
            "primitives-all-inputs",
            prims.clone(),
            strings("abcé", if t { 7 } else { 5 }),
            PRES.to_vec(),
            3,
        ),
        plain_part(
            "C06",
            "long-sequences",
            vec![
                G::Seq("abcabcaabbccab"),
                G::Seq("abcabcaa"),
                G::Seq("bcabcaabbccab"),
                G::OneOf("0123456789abcdefghijklmnopqrstuvwxyz"),
                G::NoneOf("0123456789bcdefghijklmnopqrstuvwxyz"),
            ],
            long,
            PRES.to_vec(),
            3,
        ),
        {
            // Sequences and sets of many tokens, with the deviating token at every place.
            let all: Vec<(usize, &'static str, &'static str)> = BIG
                .iter()
                .chain(&HUGE)
                .map(|n| {
                    let seq = leak_str((0..*n).map(|k| "abcab".as_bytes()[(k * k / 3 + k) % 5] as char).collect());
                    let set = leak_str((0..*n).map(nth_char).collect());
                    (*n, seq, set)
                })
                .collect();
            part("very-long-sequences-and-sets", BIG.len() + HUGE.len(), move |cfg, ch, st| {
                let (n, seq, set) = all[cfg];
                let at = if n > 300 {
                    ch.of(&[0, 1, 254, 255, 256, 257, n / 2, n - 2, n - 1, n])
                } else {
                    ch.pick(n + 1)
                };
                let err = ch.pick(3);
                let (g, tape): (G, Vec<char>) = match ch.pick(5) {
                    0 => {
                        // One token differs (none if past the end).
                        let mut v: Vec<char> = seq.chars().collect();
                        if at < n {
                            v[at] = 'x';
                        }
                        v.push('a');
                        (G::Seq(seq), v)
                    }
                    1 => (G::Seq(seq), seq.chars().take(at).collect()),
                    k => {
                        let c = set.chars().nth(at).unwrap_or('x');
                        let g = match k {
                            2 => G::OneOf(set),
                            3 => G::NoneOf(set),
                            _ => G::Filter(set),
                        };
                        (g, vec![c, 'y'])
                    }
                };
                let mut c = Case::new("C06", &g, &tape);
                c.pres = &[Pre::Fresh, Pre::Held];
                by_err(err, &c, ch, st)
            })
        },
        late_part("C06", "primitives-started-late", prims.clone(), strings("abcé", if t { 4 } else { 3 }), vec![], false, if t { 3 } else { 1 }),
        crate::checks::coarse::primitives("C06", false, if t { 5 } else { 4 }, 3),
    ]
}

pub fn c07(t: bool) -> Vec<Part<'static>> {
    use ErrK::{Cu, CuEf, Ef, EfCu, EfEf, EfElse, EfEmpty, EfNo};
    let gs = vec![
        G::Then(bm(0), bm(1)),
        G::ThenIgnore(bm(0), bm(1)),
        G::IgnoreThen(bm(0), bm(1)),
        G::Chain(vec![mk(0), mk(1)]),
        G::Padded(bm(1), bm(0)),
        G::Delim(bm(1), bm(0), bm(2)),
        G::Chain(vec![mk(0), mk(1), mk(2)]),
        G::Then(bx(G::Then(bm(0), bm(1))), bm(2)),
        G::Then(bm(0), bx(G::Then(bm(1), bm(2)))),
        G::ThenIgnore(bx(G::IgnoreThen(bm(0), bm(1))), bm(2)),
    ];
    let full = spec(&[0, 1, 2], &[0, 1, 2], &[Ef, Cu, EfCu], &[0, 1, 2], &[Cu, EfCu, ErrK::None]);
    let small = spec(&[0, 2], &[1], &[Ef], &[1], &[Cu]);
    let small7 = small.clone();
    let mid = spec(&[0, 1, 3], &[0, 2], &[Ef, CuEf], &[0, 2], &[Cu]);
    let full2 = spec(&[0, 1, 3], &[0, 1, 2], &[Ef, CuEf], &[0, 2], &[Cu, EfCu]);
    vec![
        mock_part("C07", "sequences-of-mocks", gs.clone(), vec![chars("abcdef"), chars("ab"), chars("")], vec![full],
            vec![Pre::Fresh, Pre::Held], false, 3),
        mock_part(
            "C07",
            "longer-chains",
            vec![
                G::Chain((0..4).map(mk).collect()),
                G::Chain((0..5).map(mk).collect()),
                G::Delim(bm(0), bx(G::Padded(bm(1), bm(2))), bm(3)),
            ],
            vec![chars("abcdefghijklmnop"), chars("abc")],
            vec![if t { full2 } else { mid }],
            vec![Pre::AdvAhead],
            false,
            if t { 2 } else { 3 },
        ),
        mock_part(
            "C07",
            "long-chains",
            (6..if t { 14 } else { 11 })
                .map(|n| G::Chain((0..n).map(mk).collect()))
                .collect(),
            vec![chars("abcdefghijklmnopqrstuvwxyz"), chars("abcde")],
            vec![small],
            vec![Pre::Held],
            false,
            1,
        ),
        plain_part(
            "C07",
            "concrete-sequences",
            concrete_seqs(),
            strings("ab", if t { 14 } else { 10 }),
            PRES.to_vec(),
            2,
        ),
        late_part(
            "C07",
            "sequences-started-late",
            gs,
            vec![chars("abcdef"), chars("")],
            vec![small7],
            false,
            1,
        ),
        late_part("C07", "concrete-sequences-started-late", concrete_seqs(), strings("ab", if t { 6 } else { 4 }), vec![], false, 1),
        part("very-long-chains", BIG.len(), move |cfg, ch, st| {
            // Many parts in a row; one or two of them behave differently.
            let n = BIG[cfg];
            let places = [0, 1, 7, n / 2, n - 2, n - 1];
            let (p, q) = (ch.of(&places), ch.of(&places));
            let (kp, kq) = (ch.pick(6), ch.pick(6));
            if p == q && kp != kq {
                return Ok(());
            }
            let special = |k: usize, w: u32| match k {
                0 => G::Just('a'),
                1 => G::Rec(bx(G::Just('x')), strat(vec![St::Skip], Fin::Return(w))),
                2 => G::Seq("ax"),
                3 => G::TryMap(bx(G::Just('a')), TM::Rec2),
                4 => G::OrNot(bx(G::Just('x'))),
                _ => G::Seq("aa"),
            };
            let gs: Vec<G> = (0..n)
                .map(|k| if k == p { special(kp, 1) } else if k == q { special(kq, 2) } else { G::Just('a') })
                .collect();
            let g = G::Chain(gs);
            let len = ch.of(&[n + 2, n, n - 1, n / 2]);
            let tape = vec!['a'; len];
            let mut c = Case::new("C07", &g, &tape);
            c.pres = &[Pre::Held];
            exact::<ET>(&c, ch, st)
        }),
    ]
}

/// Sequences of concrete parts.
fn concrete_seqs() -> Vec<G> {
    let a = || bx(G::Just('a'));
    let b = || bx(G::Just('b'));
    let o = || bx(G::OrNot(bx(G::Just('a'))));
    let ab = || bx(G::Seq("ab"));
    vec![
        G::Then(ab(), ab()),
        G::Then(o(), ab()),
        G::Padded(o(), b()),
        G::Padded(a(), o()),
        G::Delim(a(), ab(), b()),
        G::Delim(ab(), o(), ab()),
        G::Chain(vec![*o(), *ab(), *o(), G::End]),
        G::ThenIgnore(bx(u::star(a())), bx(G::End)),
        G::IgnoreThen(bx(u::star(a())), ab()),
        G::Chain("abbaabab".chars().map(G::Just).collect()),
    ]
}

pub fn c08(t: bool) -> Vec<Part<'static>> {
    use ErrK::{Cu, CuEf, Ef, EfCu, EfEf, EfElse, EfEmpty, EfNo};
    let m3 = spec(&[0, 1, 2], &[0, 1, 2], &[Ef, EfCu], &[0, 1, 2], &[Cu, EfCu, ErrK::None]);
    let m4 = spec(&[0, 1, 2], &[0, 1, 2], &[Ef], &[0, 1, 2], &[Cu]);
    let m5 = spec(&[1], &[0, 1, 2], &[Ef], &[0, 1], &[Cu]);
    let m45 = spec(&[0, 2], &[0, 1, 3], &[Ef, CuEf], &[0, 1], &[Cu]);
    let m45b = m45.clone();
    let m5t = spec(&[0, 1, 2], &[0, 1, 3], &[Ef, CuEf, Cu], &[0, 1], &[Cu]);
    let m6 = spec(&[1], &[0, 1, 2], &[Ef], &[1], &[Cu]);
    let alts = |n: u8| G::Alters((0..n).map(mk).collect());
    let alts3 = |k: u8| G::Alters((k..k + 3).map(mk).collect());
    let mut ps = vec![
        mock_part(
            "C08",
            "choices-of-mocks",
            vec![
                G::Or(bm(0), bm(1)),
                alts(2),
                alts(3),
                G::OrNot(bm(0)),
                G::Or(bx(G::Or(bm(0), bm(1))), bm(2)),
                G::Or(bm(0), bx(G::Or(bm(1), bm(2)))),
                G::OrNot(bx(G::Or(bm(0), bm(1)))),
                G::Or(bx(G::OrNot(bm(0))), bm(1)),
            ],
            vec![chars("abcd"), chars("a")],
            vec![m3],
            vec![Pre::Fresh, Pre::Held],
            false,
            3,
        ),
        mock_part(
            "C08",
            "four-alternatives",
            vec![alts(4), G::Or(bx(alts(2)), bx(alts3(1))), G::Then(bx(G::OrNot(bm(0))), bx(alts3(1))), G::OrNot(bx(alts(4)))],
            vec![chars("abcd"), chars("")],
            vec![m4.clone()],
            vec![Pre::Fresh, Pre::Adv],
            false,
            3,
        ),
        mock_part(
            "C08",
            "five-alternatives",
            vec![alts(5)],
            vec![chars("abcd")],
            vec![if t { m5t } else { m45 }],
            vec![Pre::AdvAhead],
            false,
            2,
        ),
        mock_part(
            "C08",
            "six-or-more-alternatives",
            if t { vec![alts(6), alts(7), alts(8), alts(9)] } else { vec![alts(6), alts(7)] },
            vec![chars("abcd")],
            vec![if t { m5 } else { m6 }],
            vec![Pre::Fresh],
            false,
            1,
        ),
    ];
    // Many alternatives with patterned progress: alternative k fails at (k*a+b)%m; those in a
    // residue class recover; possibly one matches.
    ps.push(part("many-alternatives", 13, move |cfg, ch, st| {
        let n = [7usize, 9, 16, 21, 22, 33, 48, 70, 100, 129, 257, 520, 1030][cfg];
        let m = 1 + ch.pick(5);
        let a = ch.pick(m);
        let b = ch.pick(m);
        let q = 1 + ch.pick(4);
        let r = ch.pick(q + 1);
        let hit = [n, 0, n / 2, n - 1][ch.pick(4)];
        let tape: Vec<char> = "abcdefgh".chars().collect();
        let gs: Vec<G> = (0..n)
            .map(|k| {
                if k == hit {
                    return G::To(bx(G::Seq("abc")));
                }
                // Fails after matching `d` tokens.
                let d = (k * a + b) % m;
                let lit: &'static str = ["x", "ax", "abx", "abcx", "abcdx"][d];
                let g = G::Seq(lit);
                if k % q == r {
                    G::Rec(bx(g), strat(vec![St::Skip], Fin::Return(k as u32)))
                } else {
                    g
                }
            })
            .collect();
        let g = G::Alters(gs);
        let mut c = Case::new("C08", &g, &tape);
        c.pres = &[Pre::Fresh];
        exact::<ES>(&c, ch, st)
    }));
    ps.push(far_choices("C08"));
    let concrete =
        {
            let a = || bx(G::Just('a'));
            let ab = || bx(G::Seq("ab"));
            let rab = || bx(u::r_skip_ret(ab()));
            vec![
                G::Or(ab(), a()),
                G::Or(a(), ab()),
                G::Then(bx(G::Or(a(), ab())), bx(G::End)),
                G::Then(bx(G::Or(ab(), a())), bx(G::End)),
                G::Or(rab(), a()),
                G::Or(a(), rab()),
                G::OrNot(rab()),
                G::Alters(vec![G::Seq("aab"), G::Seq("aba"), *rab(), *a()]),
                G::Alters(vec![*rab(), u::r_return(a()), G::Seq("bb")]),
                u::star(bx(G::Or(ab(), bx(G::Just('b'))))),
                G::Then(bx(G::OrNot(ab())), bx(G::OrNot(a()))),
                G::Or(bx(G::Then(a(), rab())), bx(G::Then(ab(), bx(u::r_return(a()))))),
            ]
        };
    ps.push(late_part("C08", "choices-started-late", vec![G::Or(bm(0), bm(1)), alts(3), G::OrNot(bm(0))], vec![chars("abcd")], vec![m45b], false, 1));
    ps.push(late_part("C08", "concrete-choices-started-late", concrete.clone(), strings("ab", if t { 6 } else { 4 }), vec![], false, 1));
    ps.push(plain_part(
        "C08",
        "concrete-choices",
        concrete,
        strings("ab", if t { 13 } else { 9 }),
        PRES.to_vec(),
        2,
    ));
    ps
}

/// Alternatives that get far before they fail or recover.
fn far_choices(id: &'static str) -> Part<'static> {
    const FAR: [usize; 20] = [
        0, 1, 2, 31, 32, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 1029, 4097, 65_535, 65_537,
    ];
    part("far-failures", 6, move |cfg, ch, st| {
        let (p, q) = (ch.of(&FAR), ch.of(&FAR));
        // The progress of the third alternative relates to that of the others.
        let r = match ch.pick(4) {
            0 => 0,
            1 => p,
            2 => q + 1,
            _ => p + 256,
        };
        let recs = ch.pick(8);
        let alt = |k: usize, n: usize| {
            // `n` tokens, then one that is never there.
            let run = bx(rep(bx(G::Just('a')), None, n, Some(n), false, false));
            let g = G::Then(bx(G::Ignored(run)), bx(G::Just(['x', 'y', 'z'][k])));
            let g = if n == 0 { G::Just(['x', 'y', 'z'][k]) } else { g };
            if recs >> k & 1 == 1 {
                G::Rec(bx(g), strat(vec![St::Skip], Fin::Return(k as u32)))
            } else {
                g
            }
        };
        let (a, b, c) = (alt(0, p), alt(1, q), alt(2, r));
        let g = match cfg {
            0 => G::Or(bx(a), bx(b)),
            1 => G::Alters(vec![a, b]),
            2 => G::Alters(vec![a, b, c]),
            3 => G::Or(bx(G::Or(bx(a), bx(b))), bx(c)),
            4 => G::OrNot(bx(G::Or(bx(a), bx(G::Or(bx(b), bx(c)))))),
            _ => G::Alters(vec![G::Alters(vec![a, b]), c, G::NoneOf("a")]),
        };
        if matches!(cfg, 0 | 1) && (r != 0 || recs > 3) || p.max(q) > 5000 && (cfg > 2 || r != 0) {
            return Ok(());
        }
        let tape = vec!['a'; p.max(q).max(r) + 2];
        let mut c = Case::new(id, &g, &tape);
        c.pres = &[Pre::Fresh];
        exact::<ES>(&c, ch, st)
    })
}

pub fn c09(t: bool) -> Vec<Part<'static>> {
    use ErrK::{Cu, CuEf, Ef, EfCu, EfEf, EfElse, EfEmpty, EfNo};
    // min, max
    let mut bounds = vec![];
    for min in 0..=3usize {
        bounds.push((min, None));
        for max in min.max(1)..=4 {
            bounds.push((min, Some(max)));
        }
    }
    let mut with_mocks = vec![];
    for &(min, max) in &bounds {
        with_mocks.push(rep(bm(0), None, min, max, false, false));
        for lead in [false, true] {
            for trail in [false, true] {
                with_mocks.push(rep(bm(0), Some(bm(1)), min, max, lead, trail));
            }
        }
    }
    let item = spec(&[1, 2], &[0, 1], &[Ef], &[0, 1], &[Cu]);
    let sep = spec(&[0, 1], &[0], &[Ef], &[1], &[CuEf]);
    let item_b = spec(&[0, 1, 2], &[0, 1], &[Ef], &[0, 1], &[Cu, ErrK::None]);
    let sep_b = spec(&[0, 1], &[1], &[Ef], &[0, 1], &[Cu, ErrK::None]);
    let bounded: Vec<G> = with_mocks
        .iter()
        .filter(|g| matches!(g, G::Rep(r) if r.max.is_some_and(|m| m <= 3)))
        .cloned()
        .collect();
    let mut concrete = vec![];
    for (min, max) in bounds.iter().copied().chain([(0, Some(0)), (4, None), (4, Some(4)), (5, Some(6)), (2, Some(7)), (0, Some(usize::MAX)), (usize::MAX, None), (usize::MAX, Some(usize::MAX)), (1 << 40, None), (1, Some(1 << 62))]) {
        for it in [G::Just('a'), G::Seq("ab"), G::Seq("aa")] {
            concrete.push(rep(bx(it.clone()), None, min, max, false, false));
            for sp in [G::Just('b'), G::Seq("ba"), G::Seq("bb")] {
                for lead in [false, true] {
                    for trail in [false, true] {
                        if max == Some(0) && lead {
                            continue;
                        }
                        concrete.push(rep(bx(it.clone()), Some(bx(sp.clone())), min, max, lead, trail));
                    }
                }
            }
        }
    }
    // Recovering items and separators.
    let ri = |k: u32| G::Rec(bx(G::Just('a')), strat(vec![St::Skip], Fin::Return(k)));
    let rs = || G::Rec(bx(G::Just('b')), strat(vec![St::SkipIf("c")], Fin::ReturnSpan(5)));
    let mut recs = vec![];
    for &(min, max) in &bounds {
        recs.push(rep(bx(ri(1)), None, min, max, false, false));
        for lead in [false, true] {
            for trail in [false, true] {
                recs.push(rep(bx(ri(1)), Some(bx(rs())), min, max, lead, trail));
                recs.push(rep(bx(G::Just('a')), Some(bx(rs())), min, max, lead, trail));
                recs.push(rep(bx(G::TryMap(bx(G::OneOf("ab")), TM::Rec1)), Some(bx(G::Just('c'))), min, max, lead, trail));
            }
        }
    }
    vec![
        mock_part("C09", "items-and-separators-of-mocks", with_mocks,
            vec![chars(if t { "abcdefghijk" } else { "abcdefg" })], vec![item, sep], vec![Pre::Fresh], false, 1),
        mock_part("C09", "bounded-repetitions-of-mocks", bounded.clone(),
            vec![chars("ab"), chars(if t { "abcdefghi" } else { "abcde" })], vec![item_b, sep_b], vec![Pre::Held], false, if t { 3 } else { 2 }),
        plain_part("C09", "concrete-lists", concrete.clone(), strings("ab", if t { 12 } else { 9 }), vec![Pre::Fresh, Pre::AdvAhead], 1),
        plain_part("C09", "recovering-lists", recs.clone(), strings("abc", if t { 7 } else { 6 }), vec![Pre::Fresh, Pre::Held], 2),
        late_part("C09", "lists-started-late", some(&concrete, if t { 1 } else { 4 }), strings("ab", 4), vec![], false, 1),
        late_part("C09", "recovering-lists-started-late", some(&recs, if t { 1 } else { 3 }), strings("abc", 3), vec![], false, 1),
        late_part("C09", "repetitions-started-late", some(&bounded, if t { 1 } else { 5 }), vec![chars("abcde")], vec![spec(&[1], &[0, 1], &[Ef], &[1], &[Cu]), spec(&[1], &[0], &[Ef], &[1], &[CuEf])], false, 1),
        part("long-lists", 2, move |cfg, ch, st| {
            // Counts around every bound up to 40.
            let n = ch.pick(42);
            let min = ch.of(&[0usize, 1, 2, 7, 8, 15, 16, 17, 31, 33, 40]);
            let max = match ch.pick(4) {
                0 => None,
                1 => Some(min.max(1)),
                2 => Some(min + 1),
                _ => Some(min + 9),
            };
            let (lead, trail) = (ch.flag(), ch.flag());
            let tail = ch.of(&["", "b", "a", "c", "ba", "bc"]);
            let mut tape = vec![];
            if cfg == 1 && ch.flag() {
                tape.push('b');
            }
            for k in 0..n {
                if k > 0 && cfg == 1 {
                    tape.push('b');
                }
                tape.push('a');
            }
            tape.extend(tail.chars());
            let item = match ch.pick(3) {
                0 => G::Just('a'),
                1 => G::Rec(bx(G::Just('a')), strat(vec![St::Skip], Fin::Return(1))),
                _ => G::TryMap(bx(G::Just('a')), TM::Rec1),
            };
            let g = if cfg == 0 {
                rep(bx(item), None, min, max, false, false)
            } else {
                rep(bx(item), Some(bx(G::Just('b'))), min, max, lead, trail)
            };
            exact::<ES>(&Case::new("C09", &g, &tape), ch, st)
        }),
        part("very-long-lists", 2, move |cfg, ch, st| {
            let n = ch.of(&[63usize, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1000]);
            let (min, max) = ch.of(&[
                (0usize, None),
                (64, None),
                (128, Some(128)),
                (100, Some(300)),
                (0, Some(100)),
                (256, None),
                (255, Some(256)),
                (1000, None),
                (0, Some(512)),
            ]);
            let (lead, trail) = if cfg == 1 { (ch.flag(), ch.flag()) } else { (false, false) };
            let tail = ch.of(&["", "b", "c"]);
            // One item in the list may have to be recovered.
            let odd = ch.of(&[n, 0, n / 2, n - 1, 255]);
            let mut tape = vec![];
            for k in 0..n {
                if k > 0 && cfg == 1 {
                    tape.push('b');
                }
                tape.push(if k == odd { 'x' } else { 'a' });
            }
            tape.extend(tail.chars());
            let item = match ch.pick(3) {
                0 => G::Just('a'),
                1 => G::Rec(bx(G::Just('a')), strat(vec![St::Skip], Fin::Return(1))),
                _ => G::OneOf("ax"),
            };
            let sep = (cfg == 1).then(|| bx(G::Just('b')));
            let g = rep(bx(item), sep, min, max, lead, trail);
            exact::<ES>(&Case::new("C09", &g, &tape), ch, st)
        }),
        builder_orders(t),
        part("huge-lists", HUGE.len() * 2, move |cfg, ch, st| {
            let size = HUGE[cfg / 2];
            let n = ch.of(&[size, size - 1, 0]);
            let (min, max) = ch.of(&[(0, None), (size, None), (0, Some(size)), (size, Some(size)), (65_537, None), (1, Some(65_536))]);
            let sep = cfg % 2 == 1;
            let (lead, trail) = if sep { (ch.flag(), ch.flag()) } else { (false, false) };
            let mut tape = vec![];
            for k in 0..n {
                if k > 0 && sep {
                    tape.push('b');
                }
                tape.push('a');
            }
            tape.extend(ch.of(&["", "b", "c"]).chars());
            let item = match ch.pick(2) {
                0 => G::Just('a'),
                _ => G::TryMap(bx(G::Just('a')), TM::Rec1),
            };
            let g = rep(bx(item), sep.then(|| bx(G::Just('b'))), min, max, lead, trail);
            let mut c = Case::new("C09", &g, &tape);
            c.pres = &[Pre::Fresh];
            exact::<ES>(&c, ch, st)
        }),
    ]
}

/// Lists configured by their builder methods in every order.
fn builder_orders(t: bool) -> Part<'static> {
    use parse_proof_of_concept::parser::Parser;
    part("builder-orders", 3, move |cfg, ch, st| {
        // (method, sets the minimum, sets the maximum, sets the separator)
        let menu: [(&str, Option<usize>, Option<usize>, bool); 9] = [
            ("at_least(1)", Some(1), None, false),
            ("at_least(3)", Some(3), None, false),
            ("at_most(2)", None, Some(2), false),
            ("at_most(4)", None, Some(4), false),
            ("exactly(2)", Some(2), Some(2), false),
            ("exactly(3)", Some(3), Some(3), false),
            ("with_separator", None, None, true),
            ("allow_leading", None, None, false),
            ("allow_trailing", None, None, false),
        ];
        let (mut min, mut max, mut sep, mut lead, mut trail) = (None, None, cfg == 1, false, false);
        let item = || build::<ES>(&if cfg == 2 { u::r_skip_ret(bx(G::Just('a'))) } else { G::Just('a') }, &[]);
        let comma = || build::<ES>(&G::Just('b'), &[]);
        let mut p = if cfg == 1 { item().separated_by(comma()) } else { item().repeated() };
        let mut names = vec![];
        for _ in 0..ch.pick(if t { 6 } else { 5 }) {
            let k = ch.pick(menu.len());
            let (n, mi, ma, se) = menu[k];
            // Each bound and the separator are set at most once.
            if mi.is_some() && min.is_some() || ma.is_some() && max.is_some() || se && sep {
                return Ok(());
            }
            (min, max, sep) = (min.or(mi), max.or(ma), sep || se);
            names.push(n);
            p = match k {
                0 => p.at_least(1),
                1 => p.at_least(3),
                2 => p.at_most(2),
                3 => p.at_most(4),
                4 => p.exactly(2),
                5 => p.exactly(3),
                6 => p.with_separator(comma()),
                7 => {
                    lead = true;
                    p.allow_leading()
                }
                _ => {
                    trail = true;
                    p.allow_trailing()
                }
            };
        }
        if max.is_some_and(|m| min.unwrap_or(0) > m) || !sep && (lead || trail) {
            return Ok(());
        }
        let p = p.map(V::L).boxed();
        let g = rep(
            bx(if cfg == 2 { u::r_skip_ret(bx(G::Just('a'))) } else { G::Just('a') }),
            sep.then(|| bx(G::Just('b'))),
            min.unwrap_or(0),
            max,
            lead,
            trail,
        );
        for tape in ["", "a", "b", "aa", "ab", "aba", "aaa", "bab", "abab", "aaaa", "ababa", "babab", "abba", "aaaaaa", "abababab", "bb", "xbab"] {
            let tape: Rc<[char]> = tape.chars().collect::<Vec<_>>().into();
            for rec in [false, true] {
                let m = Model::new(&tape, &[], false);
                let Ok(want) = m.ev(&g, 0, rec) else { continue };
                st.states += 1;
                st.transitions += names.len() as u64 + 1;
                st.compared += 1;
                st.outcome(&(want.kind(), names.len()));
                let got = run::<ES>(&p, &tape, Trk::default(), Pre::Fresh, rec);
                if !got.as_ref().is_ok_and(|o| o.r == want) {
                    let d = format!("{:?} list with {names:?} on {:?} recovery {rec}", ["repeated", "separated", "recovering"][cfg], text(&tape));
                    return Err(Viol::new(format!("C09:builder:{d}"), format!("{d}\n  gives {got:?}\n  instead of {want:?}")));
                }
            }
        }
        st.sample(|| format!("list with {names:?}: {min:?}..{max:?}"));
        Ok(())
    })
}

pub fn c10(t: bool) -> Vec<Part<'static>> {
    use ErrK::{Cu, CuEf, Ef, EfCu, EfEf, EfElse, EfEmpty, EfNo};
    let failing = |fails: &[usize], errs: &[ErrK], recf: &[ErrK]| MockSpec {
        lens: vec![],
        fails: fails.to_vec(),
        errs: errs.to_vec(),
        rec_lens: vec![],
        rec_errs: vec![],
        rec_fail_errs: recf.to_vec(),
    };
    let all = [Ef, EfElse, EfNo, EfEmpty, Cu, EfCu, CuEf, EfEf];
    let m2 = failing(&[0, 1, 2], &all, &[Cu, EfCu]);
    let m3 = failing(&[0, 1, 2], &all, &[Cu]);
    let m4 = failing(&[0, 1], &[Ef, EfElse, Cu, EfEf], &[]);
    let m5 = failing(&[0, 1, 2], &[Ef, CuEf], &[]);
    let m4b = m4.clone();
    let alts = |n: u8| G::Alters((0..n).map(mk).collect());
    let mut ps = vec![
        mock_part(
            "C10",
            "two-failing-alternatives",
            vec![
                G::Or(bm(0), bm(1)),
                alts(2),
                G::Or(bx(G::MapErr(bm(0))), bm(1)),
                G::Then(bx(G::OrNot(bx(G::Just('a')))), bx(G::Or(bm(0), bm(1)))),
            ],
            vec![chars("abcd"), chars("a"), chars("")],
            vec![m2],
            vec![Pre::Fresh, Pre::Held],
            false,
            3,
        ),
        mock_part(
            "C10",
            "three-failing-alternatives",
            vec![
                alts(3),
                G::Or(bx(G::Or(bm(0), bm(1))), bm(2)),
                G::Or(bm(0), bx(G::Or(bm(1), bm(2)))),
            ],
            vec![chars("abcd")],
            vec![m3],
            vec![Pre::Adv],
            false,
            if t { 3 } else { 1 },
        ),
        mock_part(
            "C10",
            "four-failing-alternatives",
            vec![alts(4), G::Or(bx(G::Or(bm(0), bm(1))), bx(G::Or(bm(2), bm(3))))],
            vec![chars("ab")],
            vec![m4.clone()],
            vec![Pre::Fresh],
            false,
            2,
        ),
        mock_part(
            "C10",
            "five-or-more-failing-alternatives",
            if t { vec![alts(5), alts(6), alts(7), alts(8)] } else { vec![alts(5), alts(6)] },
            vec![chars("abc")],
            vec![m5],
            vec![Pre::Fresh],
            false,
            1,
        ),
        part("many-failing-alternatives", 11, move |cfg, ch, st| {
            let n = [8usize, 12, 21, 24, 40, 64, 100, 130, 257, 520, 1030][cfg];
            let m = 1 + ch.pick(5);
            let (a, b) = (ch.pick(m), ch.pick(m));
            let (q, r) = (1 + ch.pick(4), ch.pick(3));
            let two = ch.flag();
            let tape: Vec<char> = "abcdefgh".chars().collect();
            let gs: Vec<G> = (0..n)
                .map(|k| {
                    let d = (k * a + b) % m;
                    let pre: &'static str = ["", "a", "ab", "abc", "abcd"][d];
                    let one = char::from_u32('Ā' as u32 + k as u32).unwrap();
                    let g = G::Then(bx(G::Seq(pre)), bx(G::Just(one)));
                    if k % q == r {
                        if two {
                            G::Rec(bx(g), strat(vec![St::PushErr(k as u32)], Fin::OrFail))
                        } else {
                            G::MapErr(bx(g))
                        }
                    } else {
                        g
                    }
                })
                .collect();
            let g = G::Alters(gs);
            exact::<ES>(&Case::new("C10", &g, &tape), ch, st)
        }),
    ];
    ps.push(far_choices("C10"));
    ps.push(late_part("C10", "failing-alternatives-started-late", vec![G::Or(bm(0), bm(1)), alts(2), G::Or(bm(0), bx(G::Or(bm(1), bm(2))))], vec![chars("abc")], vec![m4b], false, 1));
    // Real primitives in all pairs and triples: what they report must merge at the same place.
    let prims = || {
        vec![
            G::Just('a'),
            G::Just('b'),
            G::End,
            G::Seq("ab"),
            G::Seq("ba"),
            G::OneOf("bc"),
            G::NoneOf("ab"),
            G::NoneOf("abc"),
            G::Filter("c"),
            G::FilterMap("b"),
            G::Then(bx(G::Just('a')), bx(G::End)),
            G::Then(bx(G::OrNot(bx(G::Just('a')))), bx(G::Just('c'))),
            u::tm_err(bx(G::Just('a'))),
            u::plus(bx(G::Seq("aa"))),
            u::r_push_fail(bx(G::Just('c'))),
        ]
    };
    ps.push(part("primitive-combinations", 3, move |cfg, ch, st| {
        let ps = prims();
        let n = if cfg == 0 { 2 } else { 3 };
        let gs: Vec<G> = (0..n).map(|_| ch.of(&ps)).collect();
        let g = match cfg {
            0 => G::Or(bx(gs[0].clone()), bx(gs[1].clone())),
            1 => G::Alters(gs),
            _ => G::Or(bx(gs[0].clone()), bx(G::Or(bx(gs[1].clone()), bx(gs[2].clone())))),
        };
        for tape in strings("abc", 3) {
            let mut c = Case::new("C10", &g, &tape);
            c.pres = &[Pre::Fresh];
            exact::<ES>(&c, ch, st)?;
            if cfg == 0 {
                exact::<ET>(&c, ch, st)?;
                for k in LATES {
                    let tape = late_tape(k, &tape);
                    let mut c = Case::new("C10", &g, &tape);
                    c.pres = &[Pre::Late];
                    exact::<ES>(&c, ch, st)?;
                }
            }
        }
        Ok(())
    }));
    ps
}

pub fn c16(t: bool) -> Vec<Part<'static>> {
    use ErrK::{Cu, CuEf, Ef, EfCu, EfEf, EfElse, EfEmpty, EfNo};
    let full = spec(
        &[0, 1, 2, 3],
        &[0, 1, 2],
        &[Ef, Cu, EfCu, EfEf, CuEf],
        &[0, 1, 2],
        &[Ef, Cu, EfCu, CuEf, ErrK::None],
    );
    let mut one: Vec<G> = vec![
        G::To(bm(0)),
        G::Ignored(bm(0)),
        G::Some(bm(0)),
        G::Map(bm(0)),
        G::MapSpan(bm(0)),
        G::MapErr(bm(0)),
        G::MapErrSpan(bm(0)),
    ];
    for tm in TMS {
        one.push(G::TryMap(bm(0), tm));
    }
    let ctor = move |k: usize, g: Box<G>| -> G {
        match k {
            0 => G::To(g),
            1 => G::Ignored(g),
            2 => G::Some(g),
            3 => G::Map(g),
            4 => G::MapSpan(g),
            5 => G::MapErr(g),
            6 => G::MapErrSpan(g),
            k => G::TryMap(g, TMS[k - 7]),
        }
    };
    let spec2 = spec(&[0, 2], &[1], &[Ef, EfCu], &[1, 2], &[Cu, EfEf]);
    let depth = if t { 4 } else { 3 };
    vec![
        mock_part(
            "C16",
            "mappings-of-mocks",
            one.clone(),
            vec![chars("abcd"), chars("a"), chars("")],
            vec![full],
            PRES.to_vec(),
            true,
            3,
        ),
        late_part("C16", "mappings-started-late", one.clone(), vec![chars("abcd"), chars("")], vec![spec(&[0, 1, 3], &[0, 2], &[Ef, CuEf], &[0, 2], &[EfCu])], true, 1),
        part("stacked-mappings", 3, move |cfg, ch, st| {
            let mut g = mk(0);
            let n = 1 + ch.pick(depth);
            for _ in 0..n {
                g = ctor(ch.pick(14), bx(g));
            }
            // The mapped part at the start or after another part.
            let g = match ch.pick(3) {
                0 => g,
                1 => G::Then(bx(G::Just('a')), bx(g)),
                _ => G::Then(bx(g), bm(1)),
            };
            let tape = ['a', 'b', 'c', 'd'];
            let mut c = Case::new("C16", &g, &tape);
            c.specs = vec![
                Rc::new(spec2.clone()),
                Rc::new(spec(&[1], &[0], &[Cu], &[0], &[Cu])),
            ];
            c.pres = if n == depth { &[Pre::Fresh] } else { &[Pre::Fresh, Pre::Held] };
            c.calls = true;
            by_err(cfg, &c, ch, st)
        }),
        part("many-errors", 13, move |cfg, ch, st| {
            // Children that recover from or fail with many errors.
            let n = [3usize, 4, 5, 7, 8, 9, 16, 17, 33, 64, 128, 300, 1030][cfg];
            let steps: Vec<St> = (0..n).map(|k| if k % 3 == 1 { St::PushHere(k as u32) } else { St::PushErr(k as u32) }).collect();
            let mut g = G::Rec(
                bx(G::Seq("ab")),
                strat(steps, ch.of(&[Fin::Return(1), Fin::OrFail, Fin::ReturnSpan(2)])),
            );
            for _ in 0..1 + ch.pick(2) {
                g = ctor(ch.pick(14), bx(g));
            }
            let g = if ch.flag() { G::Then(bx(G::OrNot(bx(G::Just('c')))), bx(g)) } else { g };
            let tape = ch.of(&[&['a', 'b'][..], &['a', 'c'], &['c', 'a'], &[]]);
            let mut c = Case::new("C16", &g, tape);
            c.calls = true;
            by_err(ch.pick(2), &c, ch, st)
        }),
        accessors(),
    ]
}

/// Result accessors, conversions and maps on every result with up to three errors.
fn accessors() -> Part<'static> {
    use parse_proof_of_concept::error::{At, Error};
    use parse_proof_of_concept::parser::Result as PR;
    part("result-accessors", 1, move |_, ch, st| {
        let err = |k: usize| -> ES { ES::custom(format!("e{k}"), At::Location(k)) };
        let mk = |ch: &Ch, base: usize, allow_empty: bool| -> PR<u32, ES> {
            let n = |ch: &Ch| {
                if allow_empty { ch.pick(4) } else { 1 + ch.pick(3) }
            };
            match ch.pick(3) {
                0 => PR::Success(base as u32),
                1 => {
                    let n = n(ch);
                    PR::Recovered(base as u32, (0..n).map(|k| err(base * 10 + k)).collect())
                }
                _ => {
                    let i = ch.pick(3);
                    let n = n(ch);
                    PR::Failed(i, (0..n).map(|k| err(base * 10 + k)).collect())
                }
            }
        };
        let r = mk(ch, 1, true);
        let op = ch.pick(6);
        st.states += 1;
        st.compared += 1;
        st.transitions += 1;
        let errs: Vec<ES> = match &r {
            PR::Success(_) => vec![],
            PR::Recovered(_, e) | PR::Failed(_, e) => e.clone(),
        };
        let tree = match &r {
            PR::Success(v) | PR::Recovered(v, _) => Some(*v),
            _ => None,
        };
        let bad = |what: &str, got: String, want: String| {
            Err(Viol::new(
                format!("C16:accessor:{what}:{r:?}"),
                format!("{what} of {r:?} is {got}, expected {want}"),
            ))
        };
        st.outcome(&format!("{op}{r:?}"));
        let res = guarded(|| -> Result<(), Viol> {
            match op {
                0 => {
                    let want = matches!(r, PR::Success(_));
                    if r.is_ok() != want {
                        return bad("is_ok", r.is_ok().to_string(), want.to_string());
                    }
                    if r.tree().copied() != tree {
                        return bad("tree", format!("{:?}", r.tree()), format!("{tree:?}"));
                    }
                    if r.clone() != r {
                        return bad("clone", "different".into(), "equal".into());
                    }
                }
                1 => {
                    let mut it = r.errors();
                    let mut got: Vec<ES> = vec![];
                    while let Some(e) = it.next() {
                        got.push(e.clone());
                        if got.len() > 10 {
                            break;
                        }
                    }
                    if got != errs {
                        return bad("errors", format!("{got:?}"), format!("{errs:?}"));
                    }
                    // Stays exhausted.
                    if it.next().is_some() || it.next().is_some() {
                        return bad("errors", "resumes".into(), "stays exhausted".into());
                    }
                    if r.errors().count() != errs.len() {
                        return bad("errors count", r.errors().count().to_string(), errs.len().to_string());
                    }
                }
                2 => {
                    let mut calls = 0;
                    let got = r.clone().map(|v| {
                        calls += 1;
                        v + 1000
                    });
                    let want = match r.clone() {
                        PR::Success(v) => PR::Success(v + 1000),
                        PR::Recovered(v, e) => PR::Recovered(v + 1000, e),
                        PR::Failed(i, e) => PR::Failed(i, e),
                    };
                    if got != want || calls != tree.is_some() as u32 {
                        return bad("map", format!("{got:?} with {calls} calls"), format!("{want:?}"));
                    }
                }
                3 => {
                    let mut calls = 0;
                    let f = |e: &ES| ES::custom(format!("{e:?}"), At::None);
                    let got = r.clone().map_err(|e| {
                        calls += 1;
                        f(&e)
                    });
                    let me: Vec<ES> = errs.iter().map(f).collect();
                    let want = match r.clone() {
                        PR::Success(v) => PR::Success(v),
                        PR::Recovered(v, _) => PR::Recovered(v, me),
                        PR::Failed(i, _) => PR::Failed(i, me),
                    };
                    if got != want || calls != errs.len() {
                        return bad("map_err", format!("{got:?} with {calls} calls"), format!("{want:?}"));
                    }
                }
                4 => {
                    let second = mk(ch, 2, false);
                    let mut calls = 0;
                    let got = r.clone().try_map(|v| {
                        calls += 1;
                        assert_eq!(Some(v), tree);
                        second.clone()
                    });
                    let cat = |a: &[ES], b: Vec<ES>| {
                        let mut v = a.to_vec();
                        v.extend(b);
                        v
                    };
                    let want = match (r.clone(), second.clone()) {
                        (PR::Failed(i, e), _) => PR::Failed(i, e),
                        (PR::Success(_), s) => s,
                        (PR::Recovered(_, e), PR::Success(x)) => PR::Recovered(x, e),
                        (PR::Recovered(_, e), PR::Recovered(x, f)) => PR::Recovered(x, cat(&e, f)),
                        (PR::Recovered(_, e), PR::Failed(i, f)) => PR::Failed(i, cat(&e, f)),
                    };
                    if got != want || calls != tree.is_some() as u32 {
                        return bad(
                            &format!("try_map to {second:?}"),
                            format!("{got:?} with {calls} calls"),
                            format!("{want:?}"),
                        );
                    }
                }
                _ => {
                    let got: std::result::Result<u32, ES> = r.clone().into();
                    match &r {
                        PR::Success(v) => {
                            if got != Ok(*v) {
                                return bad("conversion", format!("{got:?}"), format!("Ok({v})"));
                            }
                        }
                        _ => {
                            // Without errors (outside the library's contract) any error will do.
                            let ok = match (&got, errs.first()) {
                                (Err(e), Some(f)) => e == f,
                                (Err(_), None) => true,
                                _ => false,
                            };
                            if !ok {
                                return bad("conversion", format!("{got:?}"), format!("{:?}", errs.first()));
                            }
                        }
                    }
                }
            }
            Ok(())
        });
        match res {
            Ok(r) => r,
            Err(e) => Err(Viol::new(
                format!("C16:accessor:panic:{r:?}"),
                format!("operation {op} on {r:?}: {e}"),
            )),
        }
    })
}

//---------------------------------------------------------------------------------------------

fn all_steps() -> Vec<St> {
    let mut v = vec![
        St::Nothing,
        St::Restart,
        St::SeekFailed,
        St::Skip,
        St::SkipIf("a"),
        St::SkipIf("bc"),
        St::Find("b"),
        St::Find("d"),
        St::Scan(Sc::Stop(2)),
        St::Scan(Sc::Bare(3)),
        St::Scan(Sc::Nest(3)),
        St::Maybe(vec![St::Skip]),
        St::Maybe(vec![St::Skip, St::Retry(false, false)]),
        St::WhileNot("b", vec![]),
        St::WhileNot("d", vec![St::Retry(false, true)]),
        St::WhileNot("c", vec![St::PushHere(9)]),
        St::PushErr(1),
        St::PushHere(2),
        St::PushUpTo(3),
        St::PushTok(4),
        St::Upd(0),
        St::Upd(2),
        St::UpdHere(2),
        St::UpdUpTo(2),
        St::UpdTok(2),
        St::Upd(3),
        St::UpdTok(1),
        St::Clone,
    ];
    for x in [false, true] {
        for s in [false, true] {
            v.push(St::Retry(x, s));
            v.push(St::TryParse(bx(G::Mock(1)), x, s));
        }
    }
    v
}
pub const FINS: [Fin; 4] = [
    Fin::OrFail,
    Fin::Return(1),
    Fin::ReturnWith(2),
    Fin::ReturnSpan(3),
];

pub fn c12(t: bool) -> Vec<Part<'static>> {
    use ErrK::{Cu, CuEf, Ef, EfCu, EfEf, EfElse, EfEmpty, EfNo};
    let nsteps = all_steps().len();
    let base = spec(&[1], &[0, 1], &[Ef, EfCu], &[1], &[Cu]);
    let alt = spec(&[1], &[1], &[Cu], &[0], &[Ef]);
    let all_base = spec(&[0, 1, 2], &[0, 1, 2, 3], &[Ef, EfCu, CuEf, EfNo], &[0, 1, 2], &[Cu, EfEf]);
    let full_base = spec(&[0, 1, 2], &[0, 1, 2], &[Ef, EfCu], &[0, 1], &[Cu, ErrK::None]);
    let full_alt = spec(&[0, 2], &[0, 1], &[Cu], &[1], &[EfCu]);
    let (full_base2, full_alt2) = (full_base.clone(), full_alt.clone());
    let mut ps = vec![
        // Every pair of steps with every completion over freely behaving parsers.
        part("pairs-of-steps-over-mocks", nsteps, move |cfg, ch, st| {
            let steps = all_steps();
            let mut v = vec![steps[cfg].clone()];
            if ch.flag() {
                v.push(ch.of(&steps));
            }
            let fin = ch.of(&FINS);
            let short = ch.flag();
            let g = G::Rec(bm(0), std::sync::Arc::new(Strat { steps: v, fin, short }));
            let tape: &[char] = [&['a', 'b', 'c', 'd'][..], &['a'], &[]][ch.pick(3)];
            let mut c = Case::new("C12", &g, tape);
            c.specs = vec![Rc::new(full_base.clone()), Rc::new(full_alt.clone())];
            c.pres = &[Pre::Fresh, Pre::Adv];
            exact::<ET>(&c, ch, st)
        }),
        // Every way of writing an exact and silent retry, after another step or alone.
        part("flag-spellings", 4, move |cfg, ch, st| {
            let retry = if ch.flag() { St::Retry(true, true) } else { St::TryParse(bm(1), true, true) };
            let mut steps = vec![retry];
            match ch.pick(3) {
                0 => (),
                1 => steps.insert(0, St::Skip),
                _ => steps.push(St::PushTok(1)),
            }
            let g = G::Rec(bm(0), std::sync::Arc::new(Strat { steps, fin: ch.of(&FINS), short: ch.flag() }));
            let tape: &[char] = [&['a', 'b', 'c', 'd'][..], &['a'], &[]][ch.pick(3)];
            let mut c = Case::new("C12", &g, tape);
            c.specs = vec![Rc::new(full_base2.clone()), Rc::new(full_alt2.clone())];
            SPELLING.set(cfg);
            let r = exact::<ET>(&c, ch, st);
            SPELLING.set(0);
            r
        }),
        part("completions-alone", FINS.len(), move |cfg, ch, st| {
            let g = G::Rec(bm(0), std::sync::Arc::new(Strat { steps: vec![], fin: FINS[cfg].clone(), short: ch.flag() }));
            let g = if ch.flag() { G::Then(bx(G::OrNot(bx(G::Just('a')))), bx(g)) } else { g };
            let tape: &[char] = [&['a', 'b', 'c', 'd'][..], &['a'], &[]][ch.pick(3)];
            let mut c = Case::new("C12", &g, tape);
            c.specs = vec![Rc::new(all_base.clone())];
            c.pres = &PRES;
            by_err(ch.pick(3), &c, ch, st)
        }),
        // Every pair over concrete parsers that start late in the input.
        part("strategies-started-late", nsteps, move |cfg, ch, st| {
            let steps = concrete_steps();
            let mut v = vec![steps[cfg].clone()];
            if ch.flag() {
                v.push(ch.of(&steps));
            }
            let fin = ch.of(&[Fin::OrFail, Fin::ReturnSpan(3)]);
            let child = ch.of(&children());
            let g = G::Rec(bx(child), std::sync::Arc::new(Strat { steps: v, fin, short: cfg % 2 == 0 }));
            let k = ch.of(&LATES);
            for tape in ["", "b", "cab", "aab", "abcab"] {
                let tape = late_tape(k, &chars(tape));
                let mut c = Case::new("C12", &g, &tape);
                c.pres = if k % 2 == 0 { &[Pre::Late] } else { &[Pre::LateHeld] };
                exact::<ES>(&c, ch, st)?;
            }
            Ok(())
        }),
        // Every triple over concrete parsers and inputs.
        part("triples-of-steps", nsteps, move |cfg, ch, st| {
            let steps = concrete_steps();
            let v = vec![
                steps[cfg % steps.len()].clone(),
                ch.of(&steps),
                ch.of(&steps),
            ];
            let fin = ch.of(&[Fin::OrFail, Fin::ReturnSpan(3)]);
            let child = ch.of(&children());
            let g = G::Rec(bx(child), std::sync::Arc::new(Strat { steps: v, fin, short: cfg % 2 == 0 }));
            let p = build::<ES>(&g, &[]);
            for tape in ["", "b", "ba", "ab", "cab", "aab", "bcb", "abcab", "ccc"] {
                let tape: Vec<char> = tape.chars().collect();
                let _ = &p;
                exact::<ES>(&Case::new("C12", &g, &tape), ch, st)?;
            }
            Ok(())
        }),
        // Nested strategies: inner sub-strategies of up to two steps inside loops and branches.
        part("nested-strategies", 2, move |cfg, ch, st| {
            let steps = concrete_steps();
            let mut inner = vec![ch.of(&steps)];
            if ch.flag() {
                inner.push(ch.of(&steps));
            }
            let outer = match ch.pick(4) {
                0 => St::Maybe(inner),
                1 => St::WhileNot("b", inner),
                2 => St::WhileNot("d", inner),
                _ => St::Maybe(vec![St::WhileNot("c", inner), St::Skip]),
            };
            let mut v = vec![];
            if ch.flag() {
                v.push(St::Skip);
            }
            v.push(outer);
            if ch.flag() {
                v.push(ch.of(&[St::SeekFailed, St::Retry(false, false), St::PushUpTo(8), St::Restart]));
            }
            let fin = ch.of(&[Fin::OrFail, Fin::ReturnSpan(3)]);
            let child = ch.of(&children());
            let g = G::Rec(bx(child), std::sync::Arc::new(Strat { steps: v, fin, short: cfg == 0 }));
            for tape in ["", "c", "ba", "cab", "acb", "ccabc", "bbab"] {
                let tape: Vec<char> = tape.chars().collect();
                exact::<ES>(&Case::new("C12", &g, &tape), ch, st)?;
            }
            Ok(())
        }),
        // Recovering parts inside other parsers.
        part("strategies-in-context", 8, move |cfg, ch, st| {
            let steps = concrete_steps();
            let mut v = vec![ch.of(&steps)];
            if ch.flag() {
                v.push(ch.of(&steps));
            }
            let fin = ch.of(&[Fin::OrFail, Fin::ReturnSpan(3)]);
            let child = ch.of(&[G::Seq("ab"), G::Then(bx(G::Just('a')), bx(u::r_return(bx(G::Just('b')))))]);
            let g = bx(G::Rec(bx(child), std::sync::Arc::new(Strat { steps: v, fin, short: true })));
            let j = |c: char| bx(G::Just(c));
            let g = match cfg {
                0 => G::Then(j('a'), g),
                1 => G::Then(g, j('b')),
                2 => G::Or(g, j('b')),
                3 => G::Or(bx(G::Seq("ac")), g),
                4 => G::OrNot(g),
                5 => u::two(g),
                6 => rep(g, Some(j('c')), 1, None, true, true),
                _ => G::Rec(bx(G::Then(j('a'), g)), strat(vec![St::PushUpTo(7), St::Skip], Fin::ReturnSpan(5))),
            };
            for tape in ["", "a", "b", "aab", "acb", "bab", "cabcab", "aacb", "abab", "cca"] {
                let tape: Vec<char> = tape.chars().collect();
                let mut c = Case::new("C12", &g, &tape);
                c.pres = &[Pre::Fresh];
                exact::<ES>(&c, ch, st)?;
            }
            Ok(())
        }),
        // Long skips with everything held, so that buffers grow and are trimmed on the way.
        part("long-recoveries", 9, move |cfg, ch, st| {
            // (tokens skipped, tokens after)
            let (n, m) = match ch.pick(20 * 4 + HUGE.len()) {
                k @ 0..80 => (
                    [0usize, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 33, 65, 70, 100, 129, 257, 300][k / 4],
                    [0usize, 1, 5, 20][k % 4],
                ),
                k => (HUGE[k - 80], 5),
            };
            let mut tape = vec!['a'; ch.of(&[0usize, 1, 4])];
            tape.extend(vec!['c'; n]);
            tape.push('b');
            tape.extend(vec!['a'; m]);
            let child = ch.of(&[G::Seq("ab"), G::Seq("aaaaab"), G::Just('b'), u::two(bx(G::Just('a')))]);
            let steps = match cfg {
                0 => vec![St::Find("b")],
                1 => vec![St::WhileNot("d", vec![St::Retry(false, true)])],
                2 => vec![St::Find("b"), St::Restart, St::Skip, St::PushUpTo(1)],
                3 => vec![St::Find("b"), St::Skip, St::Retry(false, false), St::SeekFailed],
                4 => vec![St::Maybe(vec![St::Find("b"), St::PushHere(1)]), St::PushHere(2)],
                5 => vec![St::Scan(Sc::Stop(100)), St::PushTok(2)],
                6 => vec![
                    St::Find("b"),
                    St::TryParse(bx(G::Seq("baaaaaac")), false, false),
                    St::Restart,
                    St::SeekFailed,
                    St::PushTok(1),
                ],
                7 => vec![St::WhileNot("b", vec![St::PushTok(1)]), St::PushUpTo(4)],
                _ => vec![St::SeekFailed, St::Find("b"), St::Maybe(vec![St::Restart, St::Skip]), St::UpdUpTo(2)],
            };
            let fin = ch.of(&FINS);
            let g = G::Rec(bx(child), std::sync::Arc::new(Strat { steps, fin, short: true }));
            let g = match ch.pick(3) {
                0 => g,
                1 => G::Then(bx(g), bx(u::star(bx(G::Just('a'))))),
                _ => G::Then(bx(G::OrNot(bx(G::Just('a')))), bx(g)),
            };
            let mut c = Case::new("C12", &g, &tape);
            c.pres = &[Pre::Fresh, Pre::Held];
            exact::<ET>(&c, ch, st)
        }),
    ];
    if t {
        ps.push(part("quadruples-of-steps", nsteps, move |cfg, ch, st| {
            let steps = concrete_steps();
            let v = vec![
                steps[cfg % steps.len()].clone(),
                ch.of(&steps),
                ch.of(&steps),
                ch.of(&steps),
            ];
            let fin = ch.of(&[Fin::OrFail, Fin::ReturnSpan(3)]);
            let child = ch.of(&[G::Seq("ab"), u::r_skip_ret(bx(G::Just('a')))]);
            let g = G::Rec(bx(child), std::sync::Arc::new(Strat { steps: v, fin, short: cfg % 2 == 0 }));
            for tape in ["cab", "abcab"] {
                let tape: Vec<char> = tape.chars().collect();
                exact::<ES>(&Case::new("C12", &g, &tape), ch, st)?;
            }
            Ok(())
        }));
        ps.push(part("triples-of-steps-over-mocks", nsteps, move |cfg, ch, st| {
            let steps = all_steps();
            let v = vec![steps[cfg].clone(), ch.of(&steps), ch.of(&steps)];
            let fin = ch.of(&FINS[2..]);
            let g = G::Rec(bm(0), std::sync::Arc::new(Strat { steps: v, fin, short: true }));
            let tape = ['a', 'b', 'c'];
            let mut c = Case::new("C12", &g, &tape);
            c.specs = vec![Rc::new(base.clone()), Rc::new(alt.clone())];
            exact::<ES>(&c, ch, st)
        }));
    }
    ps
}

pub fn children() -> Vec<G> {
    vec![
        G::Seq("ab"),
        u::r_skip_ret(bx(G::Just('a'))),
        G::Then(bx(G::Just('a')), bx(u::r_return(bx(G::Just('b'))))),
        u::two(bx(G::Just('a'))),
    ]
}
pub fn concrete_steps() -> Vec<St> {
    all_steps()
        .into_iter()
        .map(|s| match s {
            St::TryParse(_, x, y) => St::TryParse(
                bx(G::Then(bx(G::Just('b')), bx(u::r_skip_ret(bx(G::Just('c')))))),
                x,
                y,
            ),
            s => s,
        })
        .collect()
}

/// Every small nesting of every combinator over freely behaving parsers; judged by laws only.
pub fn nested_mocks(t: bool) -> Vec<Part<'static>> {
    use ErrK::*;
    let ms = spec(&[0, 1], &[0, 1], &[Ef], &[0, 1], &[Cu, ErrK::None]);
    vec![part("nested-combinators-over-mocks", 2, move |cfg, ch, st| {
        let mut s = if cfg == 0 { Shape::full() } else { Shape::rest() };
        s.leaves = vec![G::Mock(0), G::Mock(1)];
        s.side = 0;
        let g = s.gen(ch, 2);
        let tape = if t { &['a', 'b', 'c'][..] } else { &['a', 'b'][..] };
        let mut c = Case::new("", &g, tape);
        c.specs = vec![Rc::new(ms.clone())];
        exact::<ES>(&c, ch, st)
    })]
}
