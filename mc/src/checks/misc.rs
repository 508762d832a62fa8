//! Delimiter scanning (C13), streaming (C14), recursion (C15), wrapping and containers (C17),
//! error values (C18).

use crate::ast::*;
use crate::checks::gram::*;
use crate::explore::*;
use crate::model::*;
use crate::obs::*;
use crate::real::*;
use parse_proof_of_concept::combinator::TryMapResult;
use parse_proof_of_concept::container::Container;
use parse_proof_of_concept::error::{At, Error, Fallback, Simple, Void};
use parse_proof_of_concept::location::{self, RichLocation, RichOffset, RichSpan, Tracker};
use parse_proof_of_concept::parser::{self, Parser};
use parse_proof_of_concept::primitive as prim;
use parse_proof_of_concept::recovery::{self, IncompleteStrategy};
use parse_proof_of_concept::recursive::{recursive, Recursive};
use parse_proof_of_concept::scanner::{nested_delimiters, NestedDelimiters, Scanner};
use parse_proof_of_concept::stream::Stream;
use std::collections::BTreeSet;
use std::fmt::Debug;
use std::rc::Rc;

//---------------------------------------------------------------------------------------------
// C13

/// End of a properly nested group starting at `pos` (position of its closing token), by
/// recursive descent over distinct left/right delimiters; None if not properly nested.
fn proper(types: &[(char, char)], tape: &[char], pos: usize) -> Option<usize> {
    let (_, right) = types.iter().find(|(l, _)| tape.get(pos) == Some(l))?;
    let mut p = pos + 1;
    loop {
        let c = *tape.get(p)?;
        if c == *right {
            return Some(p);
        }
        if types.iter().any(|(l, _)| *l == c) {
            p = proper(types, tape, p)? + 1;
        } else if types.iter().any(|(_, r)| *r == c) {
            return None;
        } else {
            p += 1;
        }
    }
}

/// Scans `tape` from `start` through a recovery strategy and compares with the definition.
fn scan_case<E: Er>(
    t: usize,
    tape: &[char],
    pre: Pre,
    start_loc: Trk,
    st: &mut Stats,
) -> Result<(), Viol> {
    let types = crate::ast::types(t);
    // The parser fails at once; its error list is emptied first.
    let g = G::Rec(
        bx(G::Just('~')),
        std::sync::Arc::new(Strat {
            steps: vec![St::Upd(0), St::Scan(Sc::Nest(t))],
            fin: Fin::ReturnSpan(1),
            short: false,
        }),
    );
    set_tape(start_loc, tape);
    let rtape: Rc<[char]> = Rc::from(tape);
    let start = start_of(pre, tape);
    let p = build::<E>(&g, &[]);
    let d = || format!("types {types:?} input {:?} from {start}", text(tape));
    let bad = |m: String| Err(Viol::new(format!("C13:{}:{}", E::NAME, d()), format!("{m}\n  {}", d())));
    let o = match run::<E>(&p, &rtape, start_loc, pre, true) {
        Ok(o) => o,
        Err(e) => return bad(e),
    };
    // Reference: stack machine over positions.
    let mut stack = vec![];
    let mut errs = vec![];
    let mut pos = start;
    loop {
        st.transitions += 1;
        match tape.get(pos) {
            None => {
                while let Some((_, c, p)) = stack.pop() {
                    errs.push(MErr::UL(c, (p, p + 1), A::L(pos)));
                }
                break;
            }
            Some(c) => {
                nest_token(types, &mut stack, *c, pos, &mut errs);
                if stack.is_empty() {
                    break;
                }
                pos += 1;
            }
        }
    }
    if E::VOID {
        errs = errs.iter().map(|_| MErr::Void).collect();
    }
    st.states += 1;
    st.compared += 1;
    st.outcome(&(pos, errs.len()));
    st.maxi("max_errors", errs.len() as u64);
    let want = R::R(V::Sp(Box::new(V::K(1)), start, pos), pos, errs);
    if o.pos != pos {
        return bad(format!("scan stops at {} instead of {pos}", o.pos));
    }
    if o.r != want {
        return bad(format!("scan gives {:?} instead of {want:?}", o.r));
    }
    if o.rest[..] != tape[pos..] {
        return bad("remaining input differs".into());
    }
    // Independent laws.
    if types.iter().all(|(l, r)| l != r) {
        if let Some(close) = proper(types, tape, start) {
            st.count("properly_nested");
            if o.pos != close || !o.r.errs().is_empty() {
                return bad(format!("properly nested group closes at {close}, scan stops at {} with {:?}", o.pos, o.r.errs()));
            }
        }
    }
    if tape.get(start).is_none_or(|c| types.iter().all(|(l, r)| l != c && r != c))
        && (o.pos != start || !o.r.errs().is_empty())
    {
        return bad("input that does not start with a delimiter is not left alone".into());
    }
    if !E::VOID {
        let mut seen = BTreeSet::new();
        for e in o.r.errs() {
            let ok = match e {
                MErr::UL(c, s, _) => tape.get(s.0) == Some(c) && s.1 == s.0 + 1 && types.iter().any(|(l, _)| l == c) && seen.insert((s.0, 'l')),
                MErr::UR(c, s, _) => tape.get(s.0) == Some(c) && s.1 == s.0 + 1 && types.iter().any(|(_, r)| r == c) && seen.insert((s.0, 'r')),
                MErr::UT(c, s, e, u) => {
                    tape.get(s.0) == Some(c) && tape.get(u.0) == Some(e) && s.1 == s.0 + 1 && u.1 == u.0 + 1
                        && seen.insert((s.0, 'l')) && seen.insert((u.0, 'r'))
                }
                _ => false,
            };
            if !ok {
                return bad(format!("{e:?} misreports or repeats a delimiter"));
            }
        }
    }
    st.sample(|| format!("{} -> {:?}", d(), o.r));
    Ok(())
}

/// The scanner driven directly, cloned half way.
fn scanner_api(id: &'static str, clones: bool, t: bool) -> Part<'static> {
    let n = if t { 7 } else { 6 };
    part(if clones { "cloned-scanners" } else { "scanner-directly" }, FEW.len(), move |ty, ch, st| {
        let types = crate::ast::types(ty);
        let mut alpha: Vec<char> = vec!['x'];
        for (l, r) in types {
            alpha.push(*l);
            if l != r {
                alpha.push(*r);
            }
        }
        let n = if alpha.len() > 7 { n - 1 } else { n };
        let len = ch.pick(n + 1);
        let tape: Vec<char> = (0..len).map(|_| ch.of(&alpha)).collect();
        let cut = if clones { ch.pick(len + 1) } else { len };
        let d = format!("types {types:?} tokens {:?} cloned after {cut}", text(&tape));
        type E = Simple<char>;
        let r = guarded(|| -> Result<(), String> {
            let factory = nested_delimiters::<char, std::ops::Range<usize>>(types);
            let mut main: NestedDelimiters<'static, char, std::ops::Range<usize>> = factory();
            let mut copy = None;
            let mut other = factory.clone()();
            let prior = E::custom("prior", At::None);
            let (mut e1, mut e2): (Vec<E>, Vec<E>) = (vec![prior.clone()], vec![]);
            let mut stack = vec![];
            let mut want = vec![];
            let spans = |i: usize| i * 10..i * 10 + 3;
            for (i, c) in tape.iter().enumerate() {
                if i == cut && clones {
                    copy = Some(main.clone());
                    e2 = e1.clone();
                    // A second scanner of the same factory starts empty and stays independent.
                    let mut e3: Vec<E> = vec![];
                    other.scan('x', spans(90), &mut e3);
                }
                nest_token(types, &mut stack, *c, i, &mut want);
                let done: bool = main.scan(*c, spans(i), &mut e1);
                if !clones && done != stack.is_empty() {
                    return Err(format!("after token {i} the scan says done={done}"));
                }
                if let Some(k) = &mut copy {
                    if k.scan(*c, spans(i), &mut e2) != done {
                        return Err(format!("clone disagrees at token {i}"));
                    }
                }
            }
            let open = stack.len();
            while let Some((_, c, p)) = stack.pop() {
                want.push(MErr::UL(c, (p, p + 1), A::L(777)));
            }
            main.eof(777, &mut e1);
            if let Some(k) = &mut copy {
                k.eof(777, &mut e2);
                if e1 != e2 {
                    return Err(format!("clone reports {e2:?} instead of {e1:?}"));
                }
            }
            if clones {
                return Ok(());
            }
            // Spans were scaled by ten.
            let sc = |s: (usize, usize)| (s.0 * 10, s.0 * 10 + 3);
            let want: Vec<MErr> = want
                .into_iter()
                .map(|e| match e {
                    MErr::UL(c, s, A::S(a, _)) => MErr::UL(c, sc(s), A::S(a * 10, a * 10 + 3)),
                    MErr::UL(c, s, a) => MErr::UL(c, sc(s), a),
                    MErr::UR(c, s, a) => MErr::UR(c, sc(s), a),
                    MErr::UT(c, s, f, u) => MErr::UT(c, sc(s), f, sc(u)),
                    e => e,
                })
                .collect();
            if e1.first() != Some(&prior) {
                return Err("errors that were there before are gone".into());
            }
            let got: Vec<MErr> = e1[1..].iter().map(|e| e.m()).collect();
            if got != want {
                return Err(format!("reported {got:?} instead of {want:?} ({open} open at the end)"));
            }
            Ok(())
        });
        st.states += len as u64 + 1;
        st.transitions += len as u64;
        st.compared += 1;
        st.outcome(&(ty, len, cut));
        st.sample(|| d.clone());
        match r {
            Ok(Ok(())) => Ok(()),
            Ok(Err(e)) | Err(e) => Err(Viol::new(format!("{id}:api:{d}"), format!("{e}\n  {d}"))),
        }
    })
}

pub fn c13(t: bool) -> Vec<Part<'static>> {
    // (types, alphabet, length)
    let fams: Vec<(usize, &'static str, usize)> = vec![
        (0, "()x", if t { 11 } else { 9 }),
        (1, "()[]", if t { 10 } else { 8 }),
        (1, "()[]x", if t { 9 } else { 7 }),
        (2, "()|[]", if t { 9 } else { 7 }),
        (2, "()|x", if t { 10 } else { 8 }),
        (3, "abc", if t { 10 } else { 8 }),
        (4, "()[]{}", if t { 8 } else { 6 }),
        (5, "()[]{}<>x", if t { 7 } else { 5 }),
        (6, "|/()x", if t { 9 } else { 7 }),
        (7, "][)(x", if t { 8 } else { 7 }),
    ];
    let f2 = fams.clone();
    let f3 = fams.clone();
    vec![
        part("all-token-strings", fams.len() * 3, move |cfg, ch, st| {
            let (ty, alpha, n) = fams[cfg / 3];
            let a: Vec<char> = alpha.chars().collect();
            let n = if cfg % 3 == 0 { n } else { n.min(6) };
            let len = ch.pick(n + 1);
            let tape: Vec<char> = (0..len).map(|_| ch.of(&a)).collect();
            let start = Trk { n: 50, h: 9 };
            match cfg % 3 {
                0 => scan_case::<ES>(ty, &tape, Pre::Fresh, start, st),
                1 => scan_case::<ET>(ty, &tape, ch.of(&[Pre::Fresh, Pre::Adv, Pre::AdvAhead]), start, st),
                _ => scan_case::<EV>(ty, &tape, Pre::Held, start, st),
            }
        }),
        scanner_api("C13", false, t),
        part("scans-started-late", f3.len(), move |cfg, ch, st| {
            let (ty, alpha, n) = f3[cfg];
            let a: Vec<char> = alpha.chars().collect();
            let len = ch.pick(n.min(if t { 6 } else { 4 }) + 1);
            let input: Vec<char> = (0..len).map(|_| ch.of(&a)).collect();
            let tape = late_tape(ch.of(&LATES), &input);
            scan_case::<ES>(ty, &tape, ch.of(&[Pre::Late, Pre::LateHeld]), Trk::default(), st)
        }),
        part("deep-nesting", 6, move |ty, ch, st| {
            // depth opens following a pattern, then their closes with up to two deviations
            let ty = [1, 4, 5, 2, FEW.len() + 2, FEW.len() + 8][ty];
            let types = crate::ast::types(ty);
            let depth = match ch.pick(if t { 94 } else { 50 }) {
                // The larger ones around the usual sizes.
                k @ 0..10 => [63, 64, 65, 100, 127, 129, 200, 257, 1030, 66_000][k],
                k => k - 9,
            };
            let stride = ch.pick(types.len().min(4));
            let pad = ch.flag();
            let kinds: Vec<usize> = (0..depth).map(|i| (i * stride + i / 3) % types.len()).collect();
            let mut tape = vec![];
            for k in &kinds {
                tape.push(types[*k].0);
                if pad {
                    tape.push('x');
                }
            }
            let opens = tape.len();
            for k in kinds.iter().rev() {
                tape.push(types[*k].1);
            }
            let at = opens + if depth > 50 { ch.of(&[0, 1, depth / 2, depth - 2, depth - 1]) } else { ch.pick(depth) };
            match ch.pick(5) {
                0 => (),
                1 => {
                    tape.remove(at);
                }
                2 => tape[at] = types[(kinds[0] + 1) % types.len()].1,
                3 => tape.insert(at, types[0].1),
                _ => tape.truncate(at),
            }
            tape.push('x');
            tape.push(types[0].1);
            scan_case::<ES>(ty, &tape, Pre::Fresh, Trk::default(), st)
        }),
        // Many kinds of delimiters: a chain of two or three groups of chosen kinds, nested or next
        // to each other, with one token dropped, exchanged or inserted.
        part("many-kinds", 2 * MANY.len(), move |cfg, ch, st| {
            let ty = FEW.len() + cfg;
            let types = crate::ast::types(ty);
            let n = types.len();
            let mut kinds: Vec<usize> = [0, 1, 3, 4, 7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256, 511, 512, n / 2, n - 2, n - 1]
                .into_iter()
                .filter(|k| *k < n)
                .collect();
            kinds.sort();
            kinds.dedup();
            let (a, b) = (ch.of(&kinds), ch.of(&kinds));
            let [a, b] = [a, b].map(|k| types[k]);
            let mut tape = match ch.pick(5) {
                0 => vec![a.0, b.0, b.1, a.1],
                1 => vec![a.0, 'x', a.1, b.0, b.1],
                2 => vec![a.0, b.0, 'x', a.1, b.1, a.1],
                3 => vec![a.0, b.0, a.0, a.1, b.1, b.1],
                // Every kind open at once, the first of them closed.
                _ => types.iter().map(|t| t.0).chain([b.1, a.1, types[0].1]).collect(),
            };
            if ch.flag() {
                let at = if tape.len() > 6 { ch.of(&[0, 1, n - 1, n, n + 1]) } else { ch.pick(tape.len()) };
                match ch.pick(3) {
                    0 => {
                        tape.remove(at);
                    }
                    1 => tape[at] = types[0].1,
                    _ => tape.insert(at, types[n - 1].1),
                }
            }
            tape.push('x');
            scan_case::<ES>(ty, &tape, Pre::Fresh, Trk::default(), st)
        }),
        crate::checks::coarse::delimiters(if t { 7 } else { 6 }),
        part("after-find", f2.len(), move |cfg, ch, st| {
            // The documented idiom: find the opening delimiter, scan, skip, return.
            let (ty, alpha, n) = f2[cfg];
            let a: Vec<char> = alpha.chars().collect();
            let len = ch.pick(n.min(6) + 1);
            let tape: Vec<char> = (0..len).map(|_| ch.of(&a)).collect();
            idiom(ty, &tape, st)
        }),
    ]
}

fn idiom(ty: usize, tape: &[char], st: &mut Stats) -> Result<(), Viol> {
    type E = Simple<char>;
    let types = crate::ast::types(ty);
    let open = types[0].0;
    let d = format!("types {types:?} input {:?}", text(tape));
    let r = guarded(|| {
        let p = prim::just::<char, E>('~').ignored::<()>().map(|_: ()| 0usize..0).to_recover(
            recovery::update_errors(|es: &mut Vec<E>| es.clear())
                .find(move |c: &char| *c == open)
                .scan(nested_delimiters::<char, std::ops::Range<usize>>(types))
                .skip()
                .and_return_with_span(|s: std::ops::Range<usize>| s),
        );
        let src: Vec<char> = tape.to_vec();
        p.parse_with_recovery(src)
    });
    st.states += 1;
    st.compared += 1;
    let bad = |m: String| Err(Viol::new(format!("C13:idiom:{d}"), format!("{m}\n  {d}")));
    // Reference.
    let mut pos = tape.iter().position(|c| *c == open).unwrap_or(tape.len());
    let mut stack = vec![];
    let mut errs = vec![];
    while pos < tape.len() {
        st.transitions += 1;
        nest_token(types, &mut stack, tape[pos], pos, &mut errs);
        if stack.is_empty() {
            break;
        }
        pos += 1;
    }
    while let Some((_, c, p)) = stack.pop() {
        errs.push(MErr::UL(c, (p, p + 1), A::L(pos)));
    }
    let end = (pos + 1).min(tape.len());
    st.outcome(&(end, errs.len()));
    match r {
        Err(e) => bad(e),
        Ok(parser::Result::Recovered(s, es)) => {
            let got: Vec<MErr> = es.iter().map(|e| e.m()).collect();
            if s != (0..end) || got != errs {
                return bad(format!("skipped {s:?} with {got:?} instead of 0..{end} with {errs:?}"));
            }
            Ok(())
        }
        Ok(r) => bad(format!("unexpected result {r:?}")),
    }
}

//---------------------------------------------------------------------------------------------
// C14

fn stream_case<E: Er>(g: &G, tape: &Rc<[char]>, start_loc: Trk, use_default: bool, st: &mut Stats) -> Result<(), Viol> {
    let d = || format!("stream of {g:?} over {:?}", text(tape));
    let bad = |m: String| Err(Viol::new(format!("C14:{}:{}", E::NAME, d()), format!("{m}\n  {}", d())));
    let p = build::<E>(g, &[]);
    let start_loc = if use_default { Trk::default() } else { start_loc };
    let trks = trackers(start_loc, tape);
    // Reference: parse what is left afresh each time.
    let mut want: Vec<(R, usize)> = vec![];
    let mut pos = 0;
    let mut stuck = 0;
    let cap = tape.len() + 3;
    while pos < tape.len() && want.len() < cap && stuck < 2 {
        let rest: Rc<[char]> = Rc::from(&tape[pos..]);
        // Outside the assumptions if the parser loops on this input.
        let m = Model::new(&rest, &[], E::VOID);
        if m.ev(g, 0, true).is_err() {
            st.count("diverging_skipped");
            return Ok(());
        }
        set_tape(trks[pos], &rest);
        let o = match run::<E>(&p, &rest, trks[pos], Pre::Fresh, true) {
            Ok(o) => o,
            Err(_) => {
                // Judged by C19.
                st.count("left_to_other_property");
                return Ok(());
            }
        };
        let end = pos + o.pos;
        if o.pos == 0 {
            stuck += 1;
        }
        want.push((o.r.shift(pos), end));
        pos = end;
    }
    let ended = pos >= tape.len();
    set_tape(start_loc, tape);
    let open = || {
        let (src, log) = Src::new(tape);
        (src, log)
    };
    let collect = |k: usize, tail: bool| {
        guarded(|| {
            let (src, _log) = open();
            let mut it = if use_default { p.stream(src) } else { p.stream_with_location(src, E::start(start_loc)) };
            let mut items = vec![];
            for _ in 0..k {
                match it.next() {
                    None => {
                        items.push(None);
                        break;
                    }
                    Some(r) => items.push(Some(to_r(r, 0))),
                }
            }
            let mut again = 0;
            let mut left = vec![];
            if tail {
                let mut t = it.tail();
                for _ in 0..tape.len() + 2 {
                    match t.next() {
                        Some(c) => left.push(c),
                        None => break,
                    }
                }
                again += t.next().is_some() as usize;
                again += t.next().is_some() as usize;
            } else if ended {
                again += it.next().is_some() as usize;
            }
            (items, left, again)
        })
    };
    st.states += 1;
    st.transitions += want.len() as u64;
    st.compared += 1;
    st.outcome(&(want.len(), ended, pos));
    st.maxi("max_items", want.len() as u64);
    let (items, _, again) = match collect(want.len() + ended as usize, false) {
        Ok(x) => x,
        Err(e) => return bad(e),
    };
    for (i, (w, end)) in want.iter().enumerate() {
        // The item alone does not tell where it ended; the next items do.
        let got = items.get(i).cloned().flatten();
        let got = got.map(|r| match r {
            R::S(v, _) => R::S(v, *end),
            R::R(v, _, e) => R::R(v, *end, e),
            r => r,
        });
        if got.as_ref() != Some(w) {
            return bad(format!("item {i} is {got:?} instead of {w:?}"));
        }
    }
    if ended && (items.len() != want.len() + 1 || items.last() != Some(&None)) {
        return bad(format!("stream does not stop after {} items: {items:?}", want.len()));
    }
    if again > 0 {
        return bad("stream resumes after its end".into());
    }
    let moments: Vec<usize> = (0..=want.len()).filter(|k| want.len() < 40 || *k < 6 || k % 32 < 2 || k + 3 > want.len()).collect();
    for k in moments {
        let from = if k == 0 { 0 } else { want[k - 1].1 };
        st.transitions += 1;
        let (_, left, again) = match collect(k, true) {
            Ok(x) => x,
            Err(e) => return bad(format!("tail after {k} items: {e}")),
        };
        if left[..] != tape[from..] {
            return bad(format!("tail after {k} items is {:?} instead of {:?}", text(&left), text(&tape[from..])));
        }
        if again > 0 {
            return bad("tail resumes after its end".into());
        }
    }
    if ended {
        let (_, left, _) = match collect(want.len() + 1, true) {
            Ok(x) => x,
            Err(e) => return bad(format!("tail after the end: {e}")),
        };
        if !left.is_empty() {
            return bad("tail after the end is not empty".into());
        }
    }
    st.sample(|| format!("{} -> {} items", d(), want.len()));
    Ok(())
}

fn stream_part(name: &'static str, shape: Shape, depth: usize, inputs: Vec<Vec<char>>, both: bool) -> Part<'static> {
    part(name, if both { 3 } else { 1 }, move |cfg, ch, st| {
        let g = shape.gen(ch, depth);
        for i in &inputs {
            let tape: Rc<[char]> = Rc::from(&i[..]);
            let start = Trk { n: 31, h: 5 };
            match cfg {
                0 => stream_case::<ET>(&g, &tape, start, false, st)?,
                1 => stream_case::<ES>(&g, &tape, start, true, st)?,
                _ => stream_case::<EV>(&g, &tape, start, true, st)?,
            }
        }
        Ok(())
    })
}

/// Records of irregular length on long inputs.
fn stream_long(t: bool) -> Part<'static> {
    let sep = G::NoneOf("b");
    let gs: Vec<G> = vec![
        G::Then(bx(u::star(bx(G::Just('a')))), bx(G::Just('b'))),
        G::ThenIgnore(bx(rep(bx(G::OneOf("ac")), Some(bx(sep)), 0, None, false, true)), bx(G::Just('b'))),
        G::Alters(vec![G::Seq("aab"), G::Seq("ab"), G::Just('a'), G::Just('c'), G::Just('b')]),
        G::MapSpan(bx(G::Rec(bx(G::Seq("ab")), strat(vec![St::Find("b"), St::Skip, St::PushUpTo(1)], Fin::ReturnSpan(1))))),
        G::Rec(bx(G::Seq("ac")), strat(vec![St::WhileNot("b", vec![St::Retry(false, false)]), St::Skip], Fin::Return(1))),
        G::TryMap(bx(G::Then(bx(G::OneOf("abc")), bx(G::OrNot(bx(G::Just('c')))))), TM::ErrLong),
        G::TryMap(bx(G::OneOf("abc")), TM::Rec1),
    ];
    part("long-streams", gs.len() * 2, move |cfg, ch, st| {
        let pats = ["ab", "aab", "c", "b", "acb", "aaaaaab", "cc", "aaaab"];
        let k = ch.pick(pats.len());
        let l = ch.pick(pats.len());
        let reps = ch.of(if t { &[12usize, 40, 70, 140][..] } else { &[6, 50] });
        let cut = ch.pick(9);
        let mut tape = vec![];
        for i in 0..reps {
            tape.extend(pats[k].chars());
            if i % 2 == 0 {
                tape.extend(pats[l].chars());
            }
        }
        tape.truncate(tape.len().saturating_sub(cut));
        let tape: Rc<[char]> = Rc::from(&tape[..]);
        if cfg % 2 == 0 {
            stream_case::<ET>(&gs[cfg / 2], &tape, Trk { n: 1, h: 2 }, false, st)
        } else {
            stream_case::<ES>(&gs[cfg / 2], &tape, Trk::default(), true, st)
        }
    })
}

/// Two streams of one parser, advanced in every order.
fn stream_interleaved(t: bool) -> Part<'static> {
    let cap = if t { 4 } else { 3 };
    part("interleaved-streams", 3, move |cfg, ch, st| {
        let shape = [Shape::full(), Shape::rest(), Shape::deep()][cfg].clone();
        let g = shape.gen(ch, 1);
        let inputs = strings("ab", 3);
        let p = build::<ES>(&g, &[]);
        let alone = |tape: &[char]| -> Option<Vec<Option<R>>> {
            let rc: Rc<[char]> = Rc::from(tape);
            if (0..=tape.len()).any(|k| Model::new(&tape[k..], &[], false).ev(&g, 0, true).is_err()) {
                return None;
            }
            set_tape(Trk::default(), &rc);
            guarded(|| {
                let mut it = p.stream(Src::new(&rc).0);
                (0..cap).map(|_| it.next().map(|r| to_r(r, 0))).collect()
            })
            .ok()
        };
        let all: Vec<(Rc<[char]>, Vec<Option<R>>)> =
            inputs.iter().filter_map(|i| Some((Rc::from(&i[..]), alone(i)?))).collect();
        if all.len() < inputs.len() {
            st.count("inputs_left_out");
        }
        for (i, (a, wa)) in all.iter().enumerate() {
            for (b, wb) in [&all[i], &all[all.len() - 1 - i], &all[(i * 5 + 2) % all.len()]] {
                // All orders of `cap` steps on either side.
                for order in 0u32..1 << (2 * cap) {
                    if order.count_ones() as usize != cap {
                        continue;
                    }
                    let r = guarded(|| {
                        let mut x = p.stream(Src::new(a).0);
                        let mut y = p.stream(Src::new(b).0);
                        let (mut ga, mut gb) = (vec![], vec![]);
                        for k in 0..2 * cap {
                            if order >> k & 1 == 0 {
                                ga.push(x.next().map(|r| to_r(r, 0)));
                            } else {
                                gb.push(y.next().map(|r| to_r(r, 0)));
                            }
                        }
                        (ga, gb)
                    });
                    st.states += 1;
                    st.transitions += 2 * cap as u64;
                    st.compared += 1;
                    match &r {
                        Ok((ga, gb)) if ga == wa && gb == wb => (),
                        r => {
                            let d = format!("streams of {g:?} over {:?} and {:?} in order {order:b}", text(a), text(b));
                            return Err(Viol::new(format!("C14:two:{d}"), format!("{d}\n  give {r:?}\n  instead of {wa:?} and {wb:?}")));
                        }
                    }
                }
                st.outcome(&(wa.len(), wb.len(), i));
            }
        }
        st.sample(|| format!("two streams of {g:?}"));
        Ok(())
    })
}

/// Streams of very many items: what they give and where their tails start.
fn stream_huge(t: bool) -> Part<'static> {
    type E = Simple<char>;
    type B = parse_proof_of_concept::combinator::Boxed<'static, char, (usize, std::ops::Range<usize>), E>;
    let any = || prim::filter::<char, _, E>(|_: &char| true);
    let make = move |k: usize| -> B {
        match k {
            0 => any().map_with_span(|_, s| (1, s)).boxed(),
            1 => any().then(any()).map_with_span(|_, s| (2, s)).boxed(),
            2 => any().repeated().exactly(5).map_with_span(|_, s| (5, s)).boxed(),
            3 => prim::just::<char, E>('z').or(any()).map_with_span(|_, s| (1, s)).boxed(),
            _ => any().then_ignore(any()).then(prim::just('z').or_not()).map_with_span(|_, s| (2, s)).boxed(),
        }
    };
    let sizes = if t { vec![1000usize, 4100, 10_000, 66_000, 140_000] } else { vec![1000, 4100, 66_000] };
    part("huge-streams", 5 * sizes.len(), move |cfg, ch, st| {
        let n = sizes[cfg / 5];
        let p = make(cfg % 5);
        let step = [1, 2, 5, 1, 2][cfg % 5];
        let tape: Vec<char> = (0..n).map(|k| if k % 7 == 3 { 'b' } else { 'a' }).collect();
        let all = n / step;
        let k = ch.of(&[0, 1, 127, 256, 1023, 1024, 4096, 32_768, all / 2, all - 1, all, all + 1]);
        let tail = ch.flag();
        let d = format!("parser {} over {n} tokens, {k} items", cfg % 5);
        let r = guarded(|| {
            let mut it = p.stream(tape.clone());
            for i in 0..k.min(all) {
                match it.next() {
                    Some(parser::Result::Success(v)) if v == (step, i * step..(i + 1) * step) => (),
                    r => return Err(format!("item {i} is {r:?}")),
                }
            }
            let mut from = k.min(all) * step;
            if k > all {
                // Either the end, or what does not make up a last item.
                let last = it.next();
                if from == n && last.is_some() {
                    return Err(format!("an item after the end: {last:?}"));
                }
                if from < n && !matches!(last, Some(parser::Result::Failed(..))) {
                    return Err(format!("the incomplete last item is {last:?}"));
                }
                from = n;
            }
            if tail {
                let left: Vec<char> = it.tail().take(n + 2).collect();
                let want = &tape[from..];
                if k <= all && left[..] != *want {
                    return Err(format!("tail of {} instead of {} tokens", left.len(), want.len()));
                }
            }
            Ok(())
        });
        st.states += 1;
        st.transitions += k as u64;
        st.compared += 1;
        st.outcome(&(k, tail));
        st.sample(|| d.clone());
        match r.and_then(|r| r) {
            Ok(()) => Ok(()),
            Err(e) => Err(Viol::new(format!("C14:huge:{d}:{tail}"), format!("{e}\n  {d}, tail {tail}"))),
        }
    })
}

pub fn c14(t: bool) -> Vec<Part<'static>> {
    let mut full = Shape::full();
    full.side = 0;
    vec![
        stream_part("full-depth1", Shape::full(), 1, strings("abc", if t { 6 } else { 5 }), true),
        stream_part("rest-depth1", Shape::rest(), 1, strings("abc", if t { 6 } else { 5 }), true),
        stream_part("full-depth2", full, 2, strings("ab", if t { 6 } else { 4 }), t),
        stream_part("deep-depth2", Shape::deep(), 2, strings("ab", if t { 8 } else { 6 }), true),
        stream_long(t),
        stream_huge(t),
        stream_interleaved(t),
        crate::checks::coarse::primitives("C14", true, if t { 6 } else { 5 }, 2),
    ]
}

//---------------------------------------------------------------------------------------------
// C15

fn rec_case<E: Er>(defs: &[G], tape: &Rc<[char]>, pre: Pre, st: &mut Stats) -> Result<(), Viol> {
    let d = || format!("definitions {defs:?} input {:?} {pre:?}", text(tape));
    let bad = |m: String| Err(Viol::new(format!("C15:{}:{}", E::NAME, d()), format!("{m}\n  {}", d())));
    set_tape(Trk::default(), tape);
    let start = start_of(pre, tape);
    let mut need = [0usize; 2];
    for rec in [false, true] {
        let m = Model::new(tape, defs, E::VOID);
        let f0 = m.fuel.get();
        if m.ev(&G::X(0), start, rec).is_err() {
            st.count("diverging_skipped");
            return Ok(());
        }
        st.transitions += f0 - m.fuel.get();
        need[rec as usize] = m.deepest.get() + 1;
    }
    let n = need[0].max(need[1]);
    let real = build_defs::<E>(defs);
    let mut flat = unfold_defs::<E>(defs, n);
    for rec in [false, true] {
        st.states += 1;
        st.compared += 1;
        let mut b = run::<E>(&flat[0].make(), tape, Trk::default(), pre, rec);
        if b.as_ref().is_err_and(|e| e.contains("unfolding too shallow")) {
            // Deeper than the reference needs: judged by other properties.
            flat = unfold_defs::<E>(defs, 3 * n + 20);
            b = run::<E>(&flat[0].make(), tape, Trk::default(), pre, rec);
        }
        let b = match b {
            Ok(b) => b,
            Err(_) => {
                st.count("left_to_other_property");
                continue;
            }
        };
        let a = match run::<E>(&real[0].make(), tape, Trk::default(), pre, rec) {
            Ok(a) => a,
            Err(e) => return bad(format!("recursive parser: {e}; unfolded: {:?}", b.r)),
        };
        st.outcome(&(a.r.kind(), a.pos, a.r.errs().len(), n));
        st.maxi("max_unfolding", n as u64);
        match &a.r {
            R::S(..) => st.count("succeeded"),
            R::R(..) => st.count("recovered"),
            R::F(..) => st.count("failed"),
        }
        if a.r != b.r || a.pos != b.pos || a.rest != b.rest || a.loc != b.loc {
            return bad(format!(
                "recovery {rec}: recursive {:?} at {}, unfolded {n} times {:?} at {}",
                a.r, a.pos, b.r, b.pos
            ));
        }
        if a.polls != b.polls {
            return bad(format!("recursive parser pulls {} tokens, its unfolding {}", a.polls, b.polls));
        }
        st.sample(|| format!("{} recovery {rec} -> {:?}", d(), a.r));
    }
    // A parser used once must still be the same parser.
    Ok(())
}

fn x0() -> Box<G> {
    bx(G::X(0))
}
fn x1() -> Box<G> {
    bx(G::X(1))
}
fn j(c: char) -> Box<G> {
    bx(G::Just(c))
}

/// Recursive grammars of known shapes.
fn templates() -> Vec<Vec<G>> {
    use St::*;
    let rc = |g: G, steps: Vec<St>, fin: Fin| G::Rec(bx(g), strat(steps, fin));
    vec![
        // (X)* or a
        vec![G::Or(bx(G::Delim(j('('), bx(u::star(x0())), j(')'))), j('a'))],
        vec![G::Or(bx(G::Map(bx(G::Then(j('a'), x0())))), j('b'))],
        vec![G::Then(j('a'), bx(G::OrNot(x0())))],
        vec![G::MapSpan(bx(G::Then(j('a'), bx(G::OrNot(x0())))))],
        vec![G::Alters(vec![G::Delim(j('('), x0(), j(')')), G::Then(j('a'), x0()), *j('a')])],
        // Separated list in brackets
        vec![G::Or(
            bx(G::Delim(j('('), bx(rep(x0(), Some(j('a')), 0, None, false, true)), j(')'))),
            j('b'),
        )],
        // Mutual
        vec![G::Or(bx(G::Then(j('a'), x1())), j('b')), G::Or(bx(G::Then(j('b'), x0())), j('a'))],
        vec![G::Then(x1(), bx(G::OrNot(x0()))), G::Or(bx(G::Delim(j('('), x0(), j(')'))), j('a'))],
        // Recovery at any depth
        vec![G::Or(
            bx(rc(
                G::Delim(j('('), bx(u::star(x0())), j(')')),
                vec![Scan(Sc::Nest(1)), Skip, PushUpTo(1)],
                Fin::ReturnSpan(3),
            )),
            j('a'),
        )],
        vec![G::Delim(j('('), bx(rc(G::Or(x0(), j('a')), vec![Skip, Retry(false, false)], Fin::OrFail)), j(')'))],
        vec![G::Or(bx(G::Then(j('a'), bx(rc(G::X(0), vec![Skip], Fin::Return(4))))), j('b'))],
        vec![G::Then(j('a'), bx(rc(G::X(0), vec![TryParse(x0(), false, false)], Fin::Return(4))))],
        vec![G::Then(j('a'), bx(G::Rep(Rep { item: x0(), sep: None, min: 1, max: Some(2), lead: false, trail: false })))],
        vec![G::TryMap(bx(G::Then(j('a'), bx(G::OrNot(x0())))), TM::ErrLong)],
        vec![G::TryMap(bx(G::Then(j('a'), bx(G::Or(x0(), j('b'))))), TM::Rec1)],
        vec![G::MapErr(bx(G::Or(bx(G::Then(j('a'), x0())), j('b'))))],
        vec![G::Or(bx(G::Boxed(bx(G::Then(j('a'), bx(G::WithErr(x0())))))), bx(G::End))],
        // Left recursion after a consumed token, twice in one definition
        vec![G::Or(bx(G::Chain(vec![*j('('), G::X(0), G::X(0), *j(')')])), j('a'))],
        vec![
            G::Or(bx(G::Delim(j('('), x1(), j(')'))), j('a')),
            G::Rep(Rep { item: x0(), sep: Some(j('b')), min: 0, max: None, lead: true, trail: true }),
        ],
        vec![
            rc(G::Delim(j('('), x1(), j(')')), vec![Find(")"), Skip], Fin::Return(5)),
            G::Or(bx(G::Then(j('a'), x0())), j('b')),
        ],
    ]
}

/// Shape of definitions: leaves include references.
fn rec_shape(two: bool) -> Shape {
    fn r1(g: Box<G>) -> G {
        G::Rec(g, strat(vec![St::Skip, St::Retry(false, false)], Fin::Return(3)))
    }
    fn after_a(g: Box<G>) -> G {
        G::Then(bx(G::Just('a')), g)
    }
    fn paren(g: Box<G>) -> G {
        G::Delim(bx(G::Just('a')), g, bx(G::Just('b')))
    }
    let mut leaves = vec![G::Just('a'), G::Just('b'), G::X(0)];
    if two {
        leaves.push(G::X(1));
    }
    Shape {
        leaves,
        un: vec![after_a, paren, u::star, G::OrNot, G::MapSpan, u::tm_rec, r1],
        bin: vec![G::Or, G::Then],
        tri: vec![],
        side: 0,
    }
}

fn recursive_api() -> Part<'static> {
    part("construction", 12, |k, ch, st| {
        type E = Simple<char>;
        let depth = ch.of(&[0usize, 1, 2, 3, 5, 8, 13, 50, 63, 64, 65, 100, 127, 128, 129, 200, 257, 500, 1025, 2500]);
        // Failing parses are tried again with recovery at every level.
        let variant = ch.pick(if depth > 300 { 1 } else { 3 });
        let mut tape: Vec<char> = std::iter::repeat_n('(', depth).collect();
        match variant {
            0 => {
                tape.push('a');
                tape.extend(std::iter::repeat_n(')', depth));
            }
            1 => {
                tape.push('a');
                tape.extend(std::iter::repeat_n(')', depth / 2));
            }
            _ => tape.extend(std::iter::repeat_n(')', depth)),
        }
        let d = format!("construction {k} input {:?}", text(&tape));
        st.states += 1;
        st.transitions += depth as u64;
        st.compared += 1;
        let body = |x: Recursive<'static, char, usize, E>| {
            let x = x.boxed();
            x.delimited_by(prim::just::<char, E>('('), prim::just::<char, E>(')'))
                .map(|n| n + 1)
                .or(prim::just::<char, E>('a').map(|_| 0usize))
        };
        let want: Result<usize, usize> = match variant {
            0 => Ok(depth),
            1 if depth / 2 == depth => Ok(depth),
            1 => Err(depth + 1 + depth / 2),
            _ => Err(depth),
        };
        let bad = |m: String| Err(Viol::new(format!("C15:api:{d}"), format!("{m}\n  {d}")));
        let judge = |p: &dyn Fn(Vec<char>) -> parser::Result<usize, E>| -> Result<(), String> {
            for round in 0..2 {
                let got = match p(tape.clone()) {
                    parser::Result::Success(n) => Ok(n),
                    parser::Result::Recovered(n, _) => return Err(format!("recovered {n}")),
                    parser::Result::Failed(i, _) => Err(i),
                };
                if got != want {
                    return Err(format!("round {round}: {got:?} instead of {want:?}"));
                }
            }
            Ok(())
        };
        st.outcome(&(k, depth, variant));
        let r = match k {
            0 => guarded(|| {
                let p = recursive(|x: &Recursive<'static, char, usize, E>| body(x.clone()));
                judge(&|t| p.parse_with_recovery(t))
            }),
            1 => guarded(|| {
                let mut x = Recursive::<'static, char, usize, E>::declare();
                x.define(body(x.clone()));
                judge(&|t| x.parse_with_recovery(t))
            }),
            2 => guarded(|| {
                // A clone taken before the definition is the same parser.
                let mut x = Recursive::<'static, char, usize, E>::declare();
                let c = x.clone();
                let cc = c.clone();
                x.define(body(c.clone()));
                judge(&|t| cc.parse_with_recovery(t))?;
                judge(&|t| c.parse_with_recovery(t))
            }),
            3 => guarded(|| {
                // Defined through a clone; the original is dropped.
                let x = Recursive::<'static, char, usize, E>::declare();
                let mut c = x.clone();
                c.define(body(x.clone()));
                drop(x);
                judge(&|t| c.parse_with_recovery(t))
            }),
            4 => guarded(|| {
                // Boxed before it is defined.
                let mut x = Recursive::<'static, char, usize, E>::declare();
                let b = x.clone().boxed();
                x.define(body(x.clone()));
                let b2 = b.clone();
                judge(&|t| b.parse_with_recovery(t))?;
                judge(&|t| b2.parse_with_recovery(t))
            }),
            5 => guarded(|| {
                // Closure that ignores its argument is an ordinary parser.
                let p = recursive(|_: &Recursive<'static, char, usize, E>| prim::just::<char, E>('a').map(|_| 7usize));
                match p.parse_with_recovery(vec!['a']) {
                    parser::Result::Success(7) => Ok(()),
                    r => Err(format!("{r:?}")),
                }
            }),
            6 => guarded(|| {
                // Mutual recursion: nesting alternates between two definitions.
                let mut x = Recursive::<'static, char, usize, E>::declare();
                let mut y = Recursive::<'static, char, usize, E>::declare();
                x.define(body(y.clone()));
                y.define(body(x.clone()));
                judge(&|t| x.parse_with_recovery(t))?;
                judge(&|t| y.parse_with_recovery(t))
            }),
            7 => guarded(|| {
                // Defined in the opposite order.
                let mut x = Recursive::<'static, char, usize, E>::declare();
                let mut y = Recursive::<'static, char, usize, E>::declare();
                y.define(body(x.clone()));
                x.define(body(y.clone()));
                judge(&|t| x.parse_with_recovery(t))
            }),
            8 | 9 | 10 | 11 => {
                // Rejected loudly. The panic is the documented answer.
                let r = guarded(|| {
                    let mut x = Recursive::<'static, char, usize, E>::declare();
                    let mut c = x.clone();
                    match k {
                        8 => {
                            let _ = x.parse_with_recovery(tape.clone());
                        }
                        9 => {
                            let p = body(c.clone());
                            let mut t = vec!['('];
                            t.extend(&tape);
                            let _ = p.parse_with_recovery(t);
                        }
                        10 => {
                            x.define(body(c.clone()));
                            x.define(body(c.clone()));
                        }
                        _ => {
                            x.define(prim::just::<char, E>('a').map(|_| 0usize));
                            c.define(prim::just::<char, E>('b').map(|_| 1usize));
                        }
                    }
                });
                match r {
                    Err(e) if e.starts_with("panic") => Ok(Ok(())),
                    Err(e) => Ok(Err(e)),
                    Ok(()) => Ok(Err(if k < 10 {
                        "use of an undefined recursive parser is not rejected".to_string()
                    } else {
                        "second definition is not rejected".to_string()
                    })),
                }
            }
            _ => unreachable!(),
        };
        st.sample(|| d.clone());
        match r {
            Ok(Ok(())) => Ok(()),
            Ok(Err(e)) | Err(e) => bad(e),
        }
    })
}

pub fn c15(t: bool) -> Vec<Part<'static>> {
    let temps = templates();
    let nt = temps.len();
    let tl = if t { 8 } else { 6 };
    let deep = temps.clone();
    let late_defs = temps.clone();
    vec![
        part("templates-all-inputs", nt * 3, move |cfg, ch, st| {
            let defs = &temps[cfg % nt];
            // Only tokens that occur in the definitions, plus one that does not.
            let txt = format!("{defs:?}");
            let mut alpha: Vec<char> = "()ab".chars().filter(|c| txt.contains(&format!("'{c}'"))).collect();
            alpha.push('x');
            let n = if alpha.len() > 4 { tl - 1 } else { tl };
            let len = ch.pick(n + 1);
            let tape: Vec<char> = (0..len).map(|_| ch.of(&alpha)).collect();
            let tape: Rc<[char]> = Rc::from(&tape[..]);
            let pre = if len > 0 { ch.of(&[Pre::Fresh, Pre::Held]) } else { Pre::Fresh };
            match cfg / nt {
                0 => rec_case::<ES>(defs, &tape, pre, st),
                1 => rec_case::<ET>(defs, &tape, pre, st),
                _ => rec_case::<EV>(defs, &tape, pre, st),
            }
        }),
        part("definitions-started-late", nt, move |cfg, ch, st| {
            let late = late_tape(ch.of(&LATES), &[]);
            let pre = ch.of(&[Pre::Late, Pre::LateHeld]);
            for i in strings("()ab", if t { 4 } else { 3 }) {
                let tape: Rc<[char]> = late.iter().chain(&i).copied().collect();
                rec_case::<ES>(&late_defs[cfg], &tape, pre, st)?;
            }
            Ok(())
        }),
        part("all-definitions", 1, move |_, ch, st| {
            let g = rec_shape(false).gen(ch, if t { 3 } else { 2 });
            let defs = [g];
            if !format!("{defs:?}").contains("X(0)") {
                st.count("not_recursive");
                return Ok(());
            }
            for i in strings("ab", if t { 5 } else { 6 }) {
                let tape: Rc<[char]> = Rc::from(&i[..]);
                rec_case::<ES>(&defs, &tape, Pre::Fresh, st)?;
            }
            Ok(())
        }),
        part("all-mutual-definitions", 1, move |_, ch, st| {
            let sh = rec_shape(true);
            let g = sh.gen(ch, if t { 2 } else { 1 });
            let h = sh.gen(ch, 1);
            let defs = [g, h];
            let s = format!("{:?}", defs[0]);
            if !s.contains("X(") {
                st.count("not_recursive");
                return Ok(());
            }
            for i in strings("ab", 5) {
                let tape: Rc<[char]> = Rc::from(&i[..]);
                rec_case::<ES>(&defs, &tape, Pre::Fresh, st)?;
            }
            Ok(())
        }),
        part("deep-nesting", nt, move |k, ch, st| {
            let n = ch.of(&[10usize, 30, 60, 130]);
            let pats = ["a", "(", "(a", "ab", "((a"];
            let p = ch.pick(pats.len());
            let tail = ch.pick(3);
            let mut tape: Vec<char> = pats[p].chars().cycle().take(n).collect();
            match tail {
                0 => (),
                1 => {
                    tape.push('a');
                    tape.extend(std::iter::repeat_n(')', n));
                }
                _ => tape.push('b'),
            }
            let tape: Rc<[char]> = Rc::from(&tape[..]);
            rec_case::<ES>(&deep[k], &tape, Pre::Fresh, st)
        }),
        recursive_api(),
        very_deep(t),
        many_definitions(),
    ]
}

/// Thousands of levels, where the answer is known in closed form.
fn very_deep(t: bool) -> Part<'static> {
    type E = Simple<char>;
    type P = Recursive<'static, char, usize, E>;
    let just = |c: char| prim::just::<char, E>(c);
    // Brackets around an 'a'; a missing right one can be recovered from.
    let group = move |x: P, l: char, r: char| {
        x.delimited_by(just(l), just(r).to_recover(recovery::attempt_to().do_nothing().and_return(r)))
            .map(|n| n + 1)
            .or(just('a').map(|_| 0usize))
    };
    let sizes: Vec<usize> = if t { vec![600, 1030, 2050, 4100, 10_000] } else { vec![520, 1030, 2050, 4100] };
    part("very-deep-nesting", sizes.len() * 4, move |cfg, ch, st| {
        let n = sizes[cfg / 4];
        let kind = cfg % 4;
        let left = |k: usize| if kind == 1 && k % 2 == 1 { '[' } else { '(' };
        let right = |k: usize| if kind == 1 && k % 2 == 1 { ']' } else { ')' };
        let p: P = match kind {
            0 => recursive(move |x: &P| group(x.clone(), '(', ')')),
            1 => {
                let (mut x, mut y) = (P::declare(), P::declare());
                x.define(group(y.clone(), '(', ')'));
                y.define(group(x.clone(), '[', ']'));
                x
            }
            2 => recursive(move |x: &P| {
                x.clone()
                    .delimited_by(just('('), just(')').to_recover(recovery::attempt_to().do_nothing().and_return(')')))
                    .map(|n| n + 1)
                    .alters(just('a').map(|_| 0usize))
                    .and(just('b').map(|_| 1usize))
            }),
            // As many 'a' as there are.
            _ => recursive(move |x: &P| just('a').ignore_then(x.clone()).or_not().map(|n| n.map_or(0, |n| n + 1))),
        };
        let rec = ch.flag();
        // What fails at every level is tried again at every level, in quadratic time.
        let slow = rec && n > 1100;
        let core = if slow { 'a' } else { ch.of(&['a', 'x']) };
        let closed = if slow { n - ch.of(&[0, 1, 2]) } else { n - ch.of(&[0, 1, 2, n / 2, n]) };
        let mut tape: Vec<char> = vec![];
        let ef = |exp: &[char], found: Option<char>, at: usize, width: usize| E::expected_found(exp.iter().map(|c| Some(*c)), found, At::Span(at..at + width));
        let d = format!("very deep {kind} {n} levels, {core:?} inside, {closed} closed, recovery {rec}");
        let (want, end) = if kind == 3 {
            tape.extend(std::iter::repeat_n('a', n));
            tape.push('x');
            (parser::Result::Success(n), n)
        } else {
            tape.extend((0..n).map(left));
            tape.push(core);
            tape.extend((0..n).rev().take(closed).map(right));
            let eof = tape.len();
            if core == 'x' {
                let mut exp = vec![left(n), 'a'];
                if kind == 2 {
                    exp.push('b');
                }
                (parser::Result::Failed(n, vec![ef(&exp, Some('x'), n, 1)]), 0)
            } else if closed == n {
                (parser::Result::Success(n), eof)
            } else if rec {
                (parser::Result::Recovered(n, (0..n - closed).rev().map(|k| ef(&[right(k)], None, eof, 0)).collect()), eof)
            } else {
                (parser::Result::Failed(eof, vec![ef(&[right(n - closed - 1)], None, eof, 0)]), 0)
            }
        };
        st.states += n as u64;
        st.transitions += tape.len() as u64;
        st.compared += 1;
        let r = guarded(|| {
            let mut s: Stream<'static, char, location::Simple> = Stream::new(tape.clone());
            let r = p.parse_internal(&mut s, rec);
            (r, s.index())
        });
        st.outcome(&(kind, end, core, rec));
        st.sample(|| d.clone());
        match r {
            Ok((r, at)) if r == want && at == end => Ok(()),
            r => {
                let mut got = format!("{r:?}");
                got.truncate(300);
                let mut want = format!("{want:?}");
                want.truncate(300);
                Err(Viol::new(format!("C15:{d}"), format!("{got} instead of {want} at {end}\n  {d}")))
            }
        }
    })
}

/// Parsers that refer to themselves or to each other many times.
fn many_definitions() -> Part<'static> {
    const SIZES: [usize; 13] = [1, 2, 15, 31, 32, 33, 63, 64, 65, 100, 129, 257, 1030];
    let x = |k: usize| bx(G::X(k));
    let j = |c: char| bx(G::Just(c));
    part("many-references-and-definitions", SIZES.len() * 4, move |cfg, ch, st| {
        let n = SIZES[cfg / 4];
        if n > 300 && cfg % 4 == 1 {
            // As deep as there are definitions.
            return Ok(());
        }
        let skip = |g: G| G::Rec(bx(g), strat(vec![St::Skip], Fin::ReturnSpan(4)));
        let tail = G::Alters(vec![G::Just('a'), skip(G::Just('b'))]);
        let defs: Vec<G> = match cfg % 4 {
            0 => {
                // Many kinds of brackets.
                let mut v: Vec<G> = (0..n).map(|k| G::Delim(j(nth_char(k)), x(0), j(')'))).collect();
                v.push(tail);
                vec![G::Alters(v)]
            }
            1 => {
                // A ring of definitions.
                (0..n)
                    .map(|k| G::Or(bx(G::Delim(j('('), x((k + 1) % n), j(')'))), bx(tail.clone())))
                    .collect()
            }
            2 => {
                // One definition that refers to many others, which refer back to it.
                let mut all: Vec<G> = (1..=n).map(G::X).collect();
                all.push(tail);
                let mut v = vec![G::Alters(all)];
                v.extend((0..n).map(|k| G::Delim(j(nth_char(k)), x(0), bx(skip(G::Just(')'))))));
                v
            }
            _ => {
                // Many references in a row, only one level of which is there.
                let mut v = vec![G::Just('(')];
                v.extend((0..n).map(|_| G::OrNot(x(0))));
                v.push(skip(G::Just(')')));
                vec![G::Chain(v)]
            }
        };
        let open = match cfg % 4 {
            0 | 2 => nth_char(ch.of(&[0, n / 2, n - 1])),
            _ => '(',
        };
        let deep = match cfg % 4 {
            1 => ch.of(&[1, 3, n + 1]),
            3 => 1,
            _ => ch.of(&[1, 3, 9]),
        };
        if cfg % 4 == 3 && n > 300 {
            return Ok(());
        }
        let mut tape = vec![open; deep];
        tape.extend(ch.of(&["a", "x", "", "b"]).chars());
        tape.extend(vec![')'; ch.of(&[deep, deep - 1, 0])]);
        let tape: Rc<[char]> = tape.into();
        rec_case::<ES>(&defs, &tape, Pre::Fresh, st)
    })
}

//---------------------------------------------------------------------------------------------
// C17

fn leak<T>(x: T) -> &'static T {
    Box::leak(Box::new(x))
}

/// Runs a parser on all tapes, with and without recovery, and writes down everything.
fn log_runs<I, O: Debug, E, P>(p: &P, tapes: &[Vec<I>], show: &dyn Fn(&I) -> String) -> Result<Vec<String>, String>
where
    I: Clone + Debug + 'static,
    E: Error<'static, I> + Debug,
    E::LocationTracker: Default,
    P: Parser<'static, I, Output = O, Error = E>,
{
    guarded(|| {
        let mut out = vec![];
        // Started at the beginning, one token in, and late.
        let mut started: Vec<(Vec<I>, usize)> = vec![];
        for (n, t) in tapes.iter().enumerate() {
            started.push((t.clone(), 0));
            if !t.is_empty() {
                started.push((t.clone(), 1));
            }
            if t.len() == 1 || t.len() == 3 {
                let k = LATES[n % LATES.len()];
                started.push((t.iter().cycle().take(k * t.len().min(2) + t.len()).cloned().collect(), k * t.len().min(2)));
            }
        }
        for (t, start) in &started {
            for rec in [false, true] {
                let mut st: Stream<'static, I, E::LocationTracker> = Stream::new(t.clone());
                for _ in 0..*start {
                    st.advance();
                }
                let r = match p.parse_internal(&mut st, rec) {
                    parser::Result::Success(o) => format!("S {o:?}"),
                    parser::Result::Recovered(o, es) => format!("R {o:?} {}", norm(&es)),
                    parser::Result::Failed(i, es) => format!("F {i} {}", norm(&es)),
                };
                let at = st.index();
                let next = st.token().map(show);
                out.push(format!("{r} @{at} {next:?}"));
            }
        }
        out
    })
}
/// Errors in a form that does not depend on hash order.
fn norm<E: Debug>(es: &[E]) -> String {
    let mut v = vec![];
    for e in es {
        let s = format!("{e:?}");
        let s = match (s.find("ExpectedFound({"), s.find('}')) {
            (Some(a), Some(b)) => {
                let a = a + "ExpectedFound({".len();
                let mut items: Vec<&str> = s[a..b].split("), ").collect();
                let last = items.pop().map(|x| x.trim_end_matches(')')).unwrap_or("");
                items.push(last);
                items.sort();
                format!("{}{{{}}}{}", &s[..a], items.join("|"), &s[b + 1..])
            }
            _ => s,
        };
        v.push(s);
    }
    v.join(";")
}

fn same_runs(
    id: &str,
    name: &str,
    tapes: usize,
    runs: Vec<(&'static str, Result<Vec<String>, String>)>,
    st: &mut Stats,
) -> Result<(), Viol> {
    let first = match &runs[0].1 {
        Ok(v) => v.clone(),
        Err(e) => return Err(Viol::new(format!("{id}:{name}:base"), format!("{name}: {e}"))),
    };
    st.states += first.len() as u64;
    for (what, r) in &runs[1..] {
        match r {
            Err(e) => return Err(Viol::new(format!("{id}:{name}:{what}"), format!("{name} as {what}: {e}"))),
            Ok(v) => {
                for (i, (a, b)) in first.iter().zip(v).enumerate() {
                    st.transitions += 1;
                    if a != b {
                        return Err(Viol::new(
                            format!("{id}:{name}:{what}"),
                            format!("{name} as {what}, run {i} on {tapes} inputs: {b} instead of {a} for {}", runs[0].0),
                        ));
                    }
                }
                if v.len() != first.len() {
                    return Err(Viol::new(format!("{id}:{name}:{what}"), "different number of runs"));
                }
                st.compared += v.len() as u64;
            }
        }
    }
    for s in &first {
        st.outcome(s);
    }
    st.sample(|| format!("{name}: {} ways, {} runs each, e.g. {:?}", runs.len(), first.len(), first.last()));
    Ok(())
}

fn show_char(c: &char) -> String {
    c.to_string()
}

const SETS: [&str; 12] = ["", "a", "b", "c", "ab", "ba", "aa", "bc", "abc", "cab", "aab", "éa"];

/// One set of tokens in all representations.
fn containers(t: bool) -> Vec<Part<'static>> {
    type E = Simple<char>;
    fn arr<const N: usize>(v: &[char]) -> [char; N] {
        v.try_into().unwrap()
    }
    /// Runs `$f` with the array representation of the right size.
    macro_rules! by_len {
        ($v:expr, $m:ident) => {
            match $v.len() {
                0 => $m!(0),
                1 => $m!(1),
                2 => $m!(2),
                _ => $m!(3),
            }
        };
    }
    let n = if t { 5 } else { 4 };
    let iter = part("container-items", SETS.len(), move |k, ch, st| {
        let s = SETS[k];
        let v: Vec<char> = s.chars().collect();
        let rep = ch.pick(if v.len() == 1 { 9 } else { 8 });
        let r = guarded(|| -> Vec<char> {
            macro_rules! get {
                ($t:ty, $e:expr) => {{
                    let c: $t = $e;
                    let a: Vec<char> = Container::<char>::get_iter(&c).collect();
                    let b: Vec<char> = Container::<char>::get_iter(&c).collect();
                    if a != b {
                        vec!['#']
                    } else {
                        a
                    }
                }};
            }
            match rep {
                0 => get!(String, s.to_string()),
                1 => get!(&str, s),
                2 => get!(&[char], &v),
                3 => get!(Vec<char>, v.clone()),
                4 => get!(&Vec<char>, &v),
                5 => {
                    macro_rules! m {
                        ($n:literal) => { get!([char; $n], arr(&v)) };
                    }
                    by_len!(v, m)
                }
                6 => {
                    macro_rules! m {
                        ($n:literal) => { get!(&[char; $n], &arr(&v)) };
                    }
                    by_len!(v, m)
                }
                7 => Container::<char>::get_iter(&v[..]).collect(),
                _ => get!(char, v[0]),
            }
        });
        st.states += 1;
        st.transitions += v.len() as u64;
        st.compared += 1;
        st.outcome(&r.clone().unwrap_or_default());
        st.sample(|| format!("{s:?} representation {rep} -> {r:?}"));
        if r.as_ref() != Ok(&v) {
            return Err(Viol::new(format!("C17:items:{s}:{rep}"), format!("{s:?} in representation {rep} iterates as {r:?}")));
        }
        Ok(())
    });
    // References to tokens: every representation yields the same references.
    let refs = part("container-references", SETS.len(), move |k, ch, st| {
        let v: &'static Vec<char> = leak(SETS[k].chars().collect());
        let rep = ch.pick(if v.len() == 1 { 7 } else { 6 });
        let r = guarded(|| -> Vec<&'static char> {
            let cl: Vec<&'static char> = v.iter().collect();
            match rep {
                0 => Container::<&'static char>::get_iter(&&v[..]).collect(),
                1 => Container::<&'static char>::get_iter(&v).collect(),
                2 => {
                    macro_rules! m {
                        ($n:literal) => {{
                            let a: &'static [char; $n] = v[..].try_into().unwrap();
                            Container::<&'static char>::get_iter(&a).collect()
                        }};
                    }
                    by_len!(v, m)
                }
                3 => Container::<&'static char>::get_iter(&cl).collect(),
                4 => Container::<&'static char>::get_iter(&&cl[..]).collect(),
                5 => {
                    macro_rules! m {
                        ($n:literal) => {{
                            let a: [&'static char; $n] = cl.clone().try_into().unwrap();
                            Container::<&'static char>::get_iter(&a).collect()
                        }};
                    }
                    by_len!(v, m)
                }
                _ => Container::<&'static char>::get_iter(&&v[0]).collect(),
            }
        });
        st.states += 1;
        st.transitions += v.len() as u64;
        st.compared += 1;
        let got: Option<Vec<char>> = r.as_ref().ok().map(|r| r.iter().map(|c| **c).collect());
        st.outcome(&got);
        st.sample(|| format!("references to {v:?} representation {rep} -> {r:?}"));
        if got.as_ref() != Some(v) {
            return Err(Viol::new(format!("C17:refs:{v:?}:{rep}"), format!("references to {v:?} in representation {rep} iterate as {r:?}")));
        }
        Ok(())
    });
    let parsers = part("container-parsers", SETS.len() * 3, move |cfg, _ch, st| {
        let s = SETS[cfg / 3];
        let v: Vec<char> = s.chars().collect();
        let tapes = strings("abcé", n.min(4));
        let sv: &'static Vec<char> = leak(v.clone());
        let mut runs: Vec<(&'static str, Result<Vec<String>, String>)> = vec![];
        macro_rules! prims {
            ($name:expr, $t:ty, $e:expr) => {{
                let c: $t = $e;
                let r = match cfg % 3 {
                    0 => log_runs(&prim::one_of::<char, $t, E>(c), &tapes, &show_char),
                    1 => log_runs(&prim::none_of::<char, $t, E>(c), &tapes, &show_char),
                    _ => log_runs(
                        &prim::seq::<char, $t, E>(c).map(|c: $t| -> Vec<char> { Container::<char>::get_iter(&c).collect() }),
                        &tapes,
                        &show_char,
                    ),
                };
                runs.push(($name, r));
            }};
        }
        prims!("string slice", &'static str, s);
        prims!("string", String, s.to_string());
        prims!("vector", Vec<char>, v.clone());
        prims!("reference to vector", &'static Vec<char>, sv);
        prims!("slice", &'static [char], &sv[..]);
        {
            macro_rules! m {
                ($n:literal) => { prims!("array", [char; $n], arr(&v)) };
            }
            by_len!(v, m)
        }
        {
            macro_rules! m {
                ($n:literal) => { prims!("reference to array", &'static [char; $n], leak(arr(&v))) };
            }
            by_len!(v, m)
        }
        if v.len() == 1 {
            prims!("single token", char, v[0]);
        }
        let name = format!("{} {s:?}", ["one_of", "none_of", "seq"][cfg % 3]);
        same_runs("C17", &name, tapes.len(), runs, st)?;
        // The same set by reference over a stream of references.
        type ER = Simple<&'static char>;
        let all: &'static [char] = leak(['a', 'b', 'c', 'é']);
        let rtapes: Vec<Vec<&'static char>> = strings("abcé", 3)
            .iter()
            .map(|t| t.iter().map(|c| all.iter().find(|x| *x == c).unwrap()).collect())
            .collect();
        let ctapes: Vec<Vec<char>> = strings("abcé", 3);
        let show_ref = |c: &&'static char| c.to_string();
        let mut runs: Vec<(&'static str, Result<Vec<String>, String>)> = vec![];
        let base = match cfg % 3 {
            0 => log_runs(&prim::one_of::<char, Vec<char>, E>(v.clone()), &ctapes, &show_char),
            1 => log_runs(&prim::none_of::<char, Vec<char>, E>(v.clone()), &ctapes, &show_char),
            _ => log_runs(&prim::seq::<char, Vec<char>, E>(v.clone()), &ctapes, &show_char),
        };
        runs.push(("owned tokens", base));
        macro_rules! rprims {
            ($name:expr, $t:ty, $e:expr) => {{
                let c: $t = $e;
                let r = match cfg % 3 {
                    0 => log_runs(&prim::one_of::<&'static char, $t, ER>(c), &rtapes, &show_ref),
                    1 => log_runs(&prim::none_of::<&'static char, $t, ER>(c), &rtapes, &show_ref),
                    _ => log_runs(
                        &prim::seq::<&'static char, $t, ER>(c).map(|c: $t| -> Vec<char> {
                            Container::<&'static char>::get_iter(&c).map(|c| *c).collect()
                        }),
                        &rtapes,
                        &show_ref,
                    ),
                };
                runs.push(($name, r));
            }};
        }
        let cl: Vec<&'static char> = sv.iter().collect();
        rprims!("references from slice", &'static [char], &sv[..]);
        rprims!("references from vector reference", &'static Vec<char>, sv);
        rprims!("vector of references", Vec<&'static char>, cl.clone());
        {
            macro_rules! m {
                ($n:literal) => { rprims!("references from array", &'static [char; $n], leak(arr(&v))) };
            }
            by_len!(v, m)
        }
        if v.len() == 1 {
            rprims!("single reference", &'static char, &sv[0]);
        }
        same_runs("C17", &format!("{name} by reference"), ctapes.len(), runs, st)
    });
    vec![iter, refs, parsers]
}

type EC = Simple<char>;

/// All ways of wrapping a parser built by `$mk`.
macro_rules! wrapped {
    ($st:expr, $name:expr, $tapes:expr, $mk:expr) => {{
        let tapes: &[Vec<char>] = $tapes;
        let mut runs: Vec<(&'static str, Result<Vec<String>, String>)> = vec![];
        macro_rules! go {
            ($w:expr, $p:expr) => {{
                let p = $p;
                runs.push(($w, log_runs(&p, tapes, &show_char)));
            }};
        }
        go!("built afresh", $mk);
        let p = $mk;
        runs.push(("original before cloning", log_runs(&p, tapes, &show_char)));
        let c = p.clone();
        let cc = c.clone();
        runs.push(("clone", log_runs(&c, tapes, &show_char)));
        runs.push(("clone of clone", log_runs(&cc, tapes, &show_char)));
        drop(c);
        runs.push(("original after a clone was dropped", log_runs(&p, tapes, &show_char)));
        go!("boxed", p.clone().boxed());
        go!("boxed twice", p.clone().boxed().boxed());
        go!("clone of boxed", {
            let b = p.clone().boxed();
            let c = b.clone();
            drop(b);
            c
        });
        go!("with error type", p.clone().with_error::<EC>());
        go!("clone with error type", p.clone().with_error::<EC>().clone());
        go!("boxed with error type", p.clone().with_error::<EC>().boxed());
        go!("recursive without recursion", {
            let mut r = Recursive::declare();
            r.define(p.clone());
            r.clone()
        });
        drop(p);
        runs.push(("clone after the original was dropped", log_runs(&cc, tapes, &show_char)));
        runs.push(("used again", log_runs(&cc, tapes, &show_char)));
        same_runs("C17", $name, tapes.len(), runs, $st)
    }};
}

fn wraps(t: bool) -> Part<'static> {
    part("wrapped-parsers", 40, move |k, _ch, st| {
        let tapes = &strings("abc", if t { 6 } else { 5 })[..];
        let j = |c: char| prim::just::<char, EC>(c);
        let rc = || j('a').to_recover(recovery::skip().and_return('r'));
        match k {
            0 => wrapped!(st, "empty", tapes, prim::empty::<char, EC>()),
            1 => wrapped!(st, "none", tapes, prim::none::<char, u8, EC>()),
            2 => wrapped!(st, "end", tapes, prim::end::<char, EC>()),
            3 => wrapped!(st, "just", tapes, j('a')),
            4 => wrapped!(st, "filter", tapes, prim::filter::<char, _, EC>(|c: &char| *c < 'c')),
            5 => wrapped!(st, "filter_map", tapes, prim::filter_map::<char, _, u32, EC>(|c: &char| (*c > 'a').then_some(*c as u32))),
            6 => wrapped!(st, "seq", tapes, prim::seq::<char, &'static str, EC>("abc")),
            7 => wrapped!(st, "one_of", tapes, prim::one_of::<char, &'static str, EC>("ab")),
            8 => wrapped!(st, "none_of", tapes, prim::none_of::<char, &'static str, EC>("bc")),
            9 => wrapped!(st, "to", tapes, j('a').to(5u8)),
            10 => wrapped!(st, "ignored", tapes, j('a').ignored::<()>()),
            11 => wrapped!(st, "some", tapes, j('a').some()),
            12 => wrapped!(st, "map", tapes, j('a').map(|c| (c, c))),
            13 => wrapped!(st, "map_with_span", tapes, j('a').then(j('b').or_not()).map_with_span(|c, s: std::ops::Range<usize>| (c, s))),
            14 => wrapped!(st, "map_err", tapes, j('a').then(j('b')).map_err::<EC, _>(|e: EC| EC::custom(format!("{:?}", e.m()), At::None))),
            15 => wrapped!(st, "map_err_with_span", tapes, rc().then(j('b')).map_err_with_span::<EC, _>(|_, s: std::ops::Range<usize>| EC::custom("x", At::Span(s)))),
            16 => wrapped!(st, "then", tapes, j('a').then(j('b'))),
            17 => wrapped!(st, "then_ignore", tapes, j('a').then_ignore(j('b'))),
            18 => wrapped!(st, "ignore_then", tapes, j('a').ignore_then(j('b'))),
            19 => wrapped!(st, "delimited_by", tapes, j('b').delimited_by(j('a'), j('c'))),
            20 => wrapped!(st, "padded_by", tapes, j('b').padded_by(j('a'))),
            21 => wrapped!(st, "chain", tapes, j('a').chain(j('b')).and(j('c')).and(rc())),
            22 => wrapped!(st, "or", tapes, j('a').then(j('b')).or(j('a').then(j('c')))),
            23 => wrapped!(st, "or_not", tapes, j('a').or_not()),
            24 => wrapped!(st, "alters", tapes, j('a').then(j('b')).alters(j('a').then(j('c'))).and(j('b').then(j('b')))),
            25 => wrapped!(st, "repeated", tapes, j('a').repeated().at_least(1).at_most(3)),
            26 => wrapped!(st, "separated_by", tapes, j('a').separated_by(j('b')).at_least(1).at_most(3).allow_leading().allow_trailing()),
            27 => wrapped!(st, "separated exactly", tapes, rc().separated_by(j('b')).exactly(2)),
            28 => wrapped!(st, "to_recover", tapes, rc()),
            29 => wrapped!(st, "to_recover retry", tapes, j('a').then(j('b')).to_recover(recovery::skip().retry().or_fail())),
            30 => wrapped!(st, "boxed", tapes, j('a').boxed()),
            31 => wrapped!(st, "with_error", tapes, j('a').with_error::<EC>()),
            32 => wrapped!(st, "with_separator", tapes, j('a').repeated().with_separator(j('b')).allow_trailing()),
            33 => wrapped!(st, "chain of two", tapes, j('a').chain(rc())),
            34 => wrapped!(st, "alters of two", tapes, rc().alters(j('b'))),
            35 => wrapped!(st, "or with recovery", tapes, rc().then(j('b')).or(j('b').then(rc()))),
            36 => wrapped!(st, "recursive", tapes, recursive(|x: &Recursive<'static, char, usize, EC>| j('a').ignore_then(x.clone().boxed()).map(|n| n + 1).or(j('b').map(|_| 0usize)))),
            37 => {
                // The fallible map cannot be cloned, but can be boxed.
                let mk = || rc().try_map(|c, s: std::ops::Range<usize>| {
                    if c == 'a' { TryMapResult::Ok(s) } else { TryMapResult::Recovered(s, vec![EC::custom("tm", At::None)]) }
                });
                let runs = vec![
                    ("built afresh", log_runs(&mk(), tapes, &show_char)),
                    ("boxed", log_runs(&mk().boxed(), tapes, &show_char)),
                    ("clone of boxed", log_runs(&mk().boxed().clone(), tapes, &show_char)),
                    ("with error type", log_runs(&mk().with_error::<EC>(), tapes, &show_char)),
                ];
                same_runs("C17", "try_map", tapes.len(), runs, st)
            }
            38 => {
                // A parser inside composites: sharing must not matter.
                let p = rc().boxed();
                let runs = vec![
                    ("built afresh", log_runs(&rc().then(rc()), tapes, &show_char)),
                    ("shared box", log_runs(&p.clone().then(p.clone()), tapes, &show_char)),
                    ("shared box again", log_runs(&p.clone().then(p), tapes, &show_char)),
                ];
                same_runs("C17", "shared", tapes.len(), runs, st)
            }
            _ => {
                // Extending a clone of a chain or choice leaves the original alone.
                let c = j('a').chain(j('b'));
                let longer = c.clone().and(j('c'));
                let a = j('a').alters(j('b'));
                let more = a.clone().and(j('c'));
                same_runs("C17", "chain extended after cloning", tapes.len(), vec![
                    ("built afresh", log_runs(&j('a').chain(j('b')), tapes, &show_char)),
                    ("original of extended clone", log_runs(&c, tapes, &show_char)),
                ], st)?;
                same_runs("C17", "extended clone of chain", tapes.len(), vec![
                    ("built afresh", log_runs(&j('a').chain(j('b')).and(j('c')), tapes, &show_char)),
                    ("extended clone", log_runs(&longer, tapes, &show_char)),
                ], st)?;
                same_runs("C17", "choice extended after cloning", tapes.len(), vec![
                    ("built afresh", log_runs(&j('a').alters(j('b')), tapes, &show_char)),
                    ("original of extended clone", log_runs(&a, tapes, &show_char)),
                ], st)?;
                same_runs("C17", "extended clone of choice", tapes.len(), vec![
                    ("built afresh", log_runs(&j('a').alters(j('b')).and(j('c')), tapes, &show_char)),
                    ("extended clone", log_runs(&more, tapes, &show_char)),
                ], st)
            }
        }
    })
}

/// Strategies: clones and boxes inside a parser.
#[cfg(feature = "wraps")]
fn strat_wraps(t: bool) -> Part<'static> {
    type P = prim::Just<char, EC>;
    macro_rules! inc {
        // An incomplete strategy, completed in several ways.
        ($st:expr, $name:expr, $tapes:expr, $mk:expr) => {{
            let tapes: &[Vec<char>] = $tapes;
            let p = || prim::just::<char, EC>('b');
            macro_rules! fin {
                ($fname:expr, $s:ident, $f:expr) => {{
                    let mut runs: Vec<(&'static str, Result<Vec<String>, String>)> = vec![];
                    macro_rules! go {
                        ($w:expr, $e:expr) => {{
                            let $s = $e;
                            let f = $f;
                            let q = p().to_recover(f);
                            runs.push(($w, log_runs(&q, tapes, &show_char)));
                            let r = q.clone();
                            drop(q);
                            runs.push(($w, log_runs(&r, tapes, &show_char)));
                            runs.push(($w, log_runs(&r.boxed(), tapes, &show_char)));
                        }};
                    }
                    go!("built afresh", $mk);
                    go!("clone", $mk.clone());
                    go!("boxed", $mk.boxed());
                    go!("clone of boxed", {
                        let b = $mk.boxed();
                        let c = b.clone();
                        drop(b);
                        c
                    });
                    go!("boxed twice", $mk.boxed().boxed());
                    go!("followed by nothing", $mk.do_nothing());
                    let name = format!("strategy {} {}", $name, $fname);
                    same_runs("C17", &name, tapes.len(), runs, $st)?;
                }};
            }
            fin!("and_return", s, s.and_return('r'));
            fin!("and_return_with", s, s.and_return_with(|| 'w'));
            fin!("and_return_with_span", s, s.and_return_with_span(|s: std::ops::Range<usize>| char::from_digit(s.end as u32 % 36, 36).unwrap()));
            fin!("or_fail", s, s.or_fail());
            fin!("retry", s, s.retry().or_fail());
            Ok(())
        }};
    }
    part("wrapped-strategies", 23, move |k, _ch, st| {
        let tapes = &strings("abc", if t { 5 } else { 4 })[..];
        let e = |m: &'static str| EC::custom(m, At::None);
        match k {
            0 => inc!(st, "attempt_to", tapes, recovery::attempt_to::<char, P>()),
            1 => inc!(st, "restart", tapes, recovery::skip::<char, P>().restart()),
            2 => inc!(st, "seek_to_failed", tapes, recovery::seek_to_failed::<char, P>()),
            3 => inc!(st, "skip", tapes, recovery::skip::<char, P>()),
            4 => inc!(st, "skip_if", tapes, recovery::skip_if::<char, P, _>(|c: &char| *c == 'a')),
            5 => inc!(st, "find", tapes, recovery::find::<char, P, _>(|c: &char| *c == 'c')),
            6 => inc!(st, "scan", tapes, recovery::scan::<char, P, _, _>(nested_delimiters::<char, std::ops::Range<usize>>(crate::ast::types(3)))),
            7 => inc!(st, "maybe", tapes, recovery::maybe::<char, P, _>(recovery::skip::<char, P>().retry())),
            8 => inc!(st, "while_not", tapes, recovery::while_not::<char, P, _, _>(|c: &char| *c == 'c', recovery::retry::<char, P>())),
            9 => inc!(st, "retry", tapes, recovery::skip::<char, P>().retry()),
            10 => inc!(st, "retry exactly", tapes, recovery::skip::<char, P>().retry().exactly()),
            11 => inc!(st, "retry silently", tapes, recovery::skip::<char, P>().retry().silently()),
            12 => inc!(st, "try_to_parse", tapes, recovery::try_to_parse::<char, P, _>(prim::seq::<char, &'static str, EC>("ab").to('t'))),
            13 => inc!(st, "try_to_parse silently", tapes, recovery::try_to_parse::<char, P, _>(prim::seq::<char, &'static str, EC>("ab").to('t')).exactly_and_silently()),
            14 => inc!(st, "push_error", tapes, recovery::push_error::<char, P, _>(move || e("p"))),
            15 => inc!(st, "push_error_here", tapes, recovery::push_error_here::<char, P, _>(move |l: usize| EC::custom("h", At::Location(l)))),
            16 => inc!(st, "push_error_up_to_here", tapes, recovery::skip::<char, P>().push_error_up_to_here(move |s: std::ops::Range<usize>| EC::custom("u", At::Span(s)))),
            17 => inc!(st, "push_error_for_token", tapes, recovery::push_error_for_token::<char, P, _>(move |t: Option<&char>, s: std::ops::Range<usize>| EC::custom(format!("{t:?}"), At::Span(s)))),
            18 => inc!(st, "update_errors", tapes, recovery::update_errors::<char, P, _>(move |es: &mut Vec<EC>| es.push(e("q")))),
            19 => inc!(st, "update_errors_here", tapes, recovery::update_errors_here::<char, P, _>(move |es: &mut Vec<EC>, l: usize| es.push(EC::custom("h", At::Location(l))))),
            20 => inc!(st, "update_errors_up_to_here", tapes, recovery::skip::<char, P>().update_errors_up_to_here(move |es: &mut Vec<EC>, s: std::ops::Range<usize>| es.push(EC::custom("u", At::Span(s))))),
            21 => inc!(st, "update_errors_for_token", tapes, recovery::update_errors_for_token::<char, P, _>(move |es: &mut Vec<EC>, t: Option<&char>, s: std::ops::Range<usize>| es.push(EC::custom(format!("{t:?}"), At::Span(s))))),
            _ => inc!(st, "several steps", tapes, recovery::skip::<char, P>()
                .maybe(recovery::skip::<char, P>().retry().silently())
                .push_error(move || e("z"))
                .seek_to_failed()
                .skip_if(|c: &char| *c == 'a')
                .try_to_parse(prim::just::<char, EC>('c'))),
        }
    })
}

/// Generated grammars: wrapping any node changes nothing.
fn wrap_grammars(t: bool) -> Part<'static> {
    part("wrapped-grammars", 1, move |_, ch, st| {
        let mut shape = Shape::full();
        shape.side = 0;
        let g = shape.gen(ch, if t { 2 } else { 1 });
        let rest = if t { None } else { Some(()) };
        let _ = rest;
        let mut inputs: Vec<(Rc<[char]>, Pre)> = strings("ab", 4).iter().map(|v| (Rc::from(&v[..]), Pre::Fresh)).collect();
        inputs.extend(strings("ab", 3).iter().map(|v| (Rc::from(&v[..]), Pre::Held)));
        for (n, k) in LATES.iter().enumerate() {
            inputs.extend(strings("ab", 2).iter().map(|v| (Rc::from(late_tape(*k, v)), [Pre::Late, Pre::LateHeld][n % 2])));
        }
        let plain = build::<ES>(&g, &[]);
        let ways: [(&str, B<ES>); 5] = [
            ("boxed", build::<ES>(&G::Boxed(bx(g.clone())), &[])),
            ("with error type", build::<ES>(&G::WithErr(bx(g.clone())), &[])),
            ("clone", plain.clone()),
            ("with error type, boxed, cloned", plain.clone().with_error::<ES>().clone().boxed()),
            ("recursive", build_defs::<ES>(&[g.clone()])[0].make()),
        ];
        for (tape, pre) in &inputs {
            let (pre, start) = (*pre, start_of(*pre, tape));
            set_tape(Trk::default(), tape);
            if [false, true].iter().any(|r| Model::new(tape, &[], false).ev(&g, start, *r).is_err()) {
                st.count("diverging_skipped");
                continue;
            }
            for rec in [false, true] {
                let Ok(a) = run::<ES>(&plain, tape, Trk::default(), pre, rec) else {
                    st.count("left_to_other_property");
                    continue;
                };
                for (w, p) in &ways {
                    let d = || format!("{} as {w}", describe(&g, tape, pre, rec));
                    st.states += 1;
                    st.transitions += 1;
                    st.compared += 1;
                    let b = run::<ES>(p, tape, Trk::default(), pre, rec);
                    match b {
                        Ok(b) if b.r == a.r && b.pos == a.pos && b.rest == a.rest && b.polls == a.polls => (),
                        b => {
                            return Err(Viol::new(
                                format!("C17:{}", d()),
                                format!("{}\n  gives {b:?}\n  instead of {a:?}", d()),
                            ))
                        }
                    }
                }
                st.outcome(&(a.r.kind(), a.pos));
                st.sample(|| format!("{} -> {:?}", describe(&g, tape, pre, rec), a.r));
            }
        }
        Ok(())
    })
}

/// A parser used again from inside any one of the callbacks of its own run: both runs must give what
/// they give undisturbed.
fn reentrant(t: bool) -> Part<'static> {
    let templates = templates();
    let nt = templates.len();
    part("used-again-from-its-own-callbacks", nt + 2, move |cfg, ch, st| {
        let (defs, inputs): (Vec<G>, Vec<Vec<char>>) = if cfg < nt {
            (templates[cfg].clone(), strings("a()b", if t { 4 } else { 3 }))
        } else {
            let mut shape = if cfg == nt { Shape::full() } else { Shape::deep() };
            shape.side = 0;
            (vec![shape.gen(ch, if t && cfg == nt + 1 { 2 } else { 1 })], strings("ab", 3))
        };
        let p = build_defs::<ES>(&defs)[0].make();
        // What every input gives on its own.
        let mut alone: Vec<(Rc<[char]>, [Obs; 2], [u64; 2])> = vec![];
        for i in &inputs {
            let tape: Rc<[char]> = Rc::from(&i[..]);
            set_tape(Trk::default(), &tape);
            if [false, true].iter().any(|r| Model::new(&tape, &defs, false).ev(&G::X(0), 0, *r).is_err()) {
                st.count("diverging_skipped");
                continue;
            }
            let mut used = [0, 0];
            let mut os = vec![];
            for rec in [false, true] {
                if let Ok(o) = run::<ES>(&p, &tape, Trk::default(), Pre::Fresh, rec) {
                    os.push(o);
                }
                used[rec as usize] = callbacks_made();
            }
            if let Ok(os) = os.try_into() {
                alone.push((tape, os, used));
            } else {
                st.count("left_to_other_property");
            }
        }
        let same = |a: &Obs, b: &Obs| a.r == b.r && a.pos == b.pos && a.rest == b.rest && a.polls == b.polls;
        for (i, (tape, os, used)) in alone.iter().enumerate() {
            // Inside: the same input, the longest, and another one.
            for j in [i, alone.len() - 1, (i * 7 + 3) % alone.len()] {
                let (tape2, os2, _) = &alone[j];
                for rec in [false, true] {
                    for n in 0..used[rec as usize].min(60) {
                        let rec2 = n % 2 == 0;
                        let got = Rc::new(std::cell::RefCell::new(None));
                        let (g2, t2, p2) = (got.clone(), tape2.clone(), p.clone());
                        interrupt_at(n, Box::new(move || {
                            *g2.borrow_mut() = Some(run::<ES>(&p2, &t2, Trk::default(), Pre::Fresh, rec2));
                        }));
                        let r = run::<ES>(&p, tape, Trk::default(), Pre::Fresh, rec);
                        let d = || {
                            format!("{defs:?} on {:?} (recovery {rec}), used again on {:?} (recovery {rec2}) in callback {n}", text(tape), text(tape2))
                        };
                        st.states += 1;
                        st.transitions += 2;
                        st.compared += 2;
                        let bad = |m: String| Err(Viol::new(format!("C17:again:{}", d()), format!("{m}\n  {}", d())));
                        match &r {
                            Ok(o) if same(o, &os[rec as usize]) => (),
                            o => return bad(format!("gives {o:?}\n  instead of {:?}", os[rec as usize])),
                        }
                        let inner = got.borrow_mut().take();
                        match inner {
                            Some(Ok(o)) if same(&o, &os2[rec2 as usize]) => (),
                            o => return bad(format!("the inner run gives {o:?}\n  instead of {:?}", os2[rec2 as usize])),
                        }
                    }
                    st.outcome(&(i, j, os[rec as usize].r.kind(), used[rec as usize]));
                }
            }
        }
        st.sample(|| format!("{defs:?}: {} inputs, every callback", alone.len()));
        Ok(())
    })
}

/// Every character as an item of a string, and as a token of every primitive.
fn every_character() -> Part<'static> {
    type E = Simple<char>;
    part("every-character", 0x110, |k, _ch, st| {
        let cs: Vec<char> = (k as u32 * 0x1000..(k as u32 + 1) * 0x1000).filter_map(char::from_u32).collect();
        let r = guarded(|| -> Result<(), String> {
            let text: String = cs.iter().collect();
            for (name, got) in [
                ("string", Container::<char>::get_iter(&text).collect::<Vec<char>>()),
                ("string slice", Container::<char>::get_iter(&&text[..]).collect()),
            ] {
                if got != cs {
                    return Err(format!("a {name} of all characters gives {} of {} items", got.len(), cs.len()));
                }
            }
            for (i, c) in cs.iter().enumerate() {
                let word: String = [*c, 'q', *c].iter().collect();
                let leaked: Vec<char> = word.chars().collect();
                let other = cs[(i + 1) % cs.len()];
                for tape in [leaked.clone(), vec![*c, 'q', other], vec![*c]] {
                    let run = |p: &dyn Fn() -> parser::Result<usize, E>| format!("{:?}", p());
                    let one = run(&|| prim::seq::<char, String, E>(word.clone()).map(|_| 3).parse_with_recovery(tape.clone()));
                    let two = run(&|| prim::seq::<char, Vec<char>, E>(leaked.clone()).map(|_| 3).parse_with_recovery(tape.clone()));
                    if one != two {
                        return Err(format!("sequence {word:?} as string on {tape:?}: {one} instead of {two}"));
                    }
                    if tape.len() == 1 {
                        let a = prim::one_of::<char, String, E>(c.to_string()).parse_with_recovery(tape.clone());
                        let b = prim::one_of::<char, char, E>(*c).parse_with_recovery(tape.clone());
                        if a != b {
                            return Err(format!("one of {c:?} as string: {a:?} instead of {b:?}"));
                        }
                    }
                }
            }
            Ok(())
        });
        st.states += cs.len() as u64;
        st.transitions += 7 * cs.len() as u64;
        st.compared += 7 * cs.len() as u64;
        st.outcome(&k);
        match r.and_then(|r| r) {
            Ok(()) => Ok(()),
            Err(e) => Err(Viol::new(format!("C17:character:{k}"), e)),
        }
    })
}

/// Containers of `N` items in every representation: what iterators over them give, and how parsers
/// built from them behave.
fn large_container<const N: usize>(pattern: usize, kind: usize, st: &mut Stats) -> Result<(), Viol> {
    type E = Simple<char>;
    type ER = Simple<&'static char>;
    let v: Vec<char> = match pattern {
        0 => (0..N).map(nth_char).collect(),
        1 => (0..N).map(|k| ['a', 'b', 'c'][k % 3]).collect(),
        _ => vec!['é'; N],
    };
    let s: String = v.iter().collect();
    let name = format!("{} of {N} tokens, pattern {pattern}", ["items", "one_of", "none_of", "seq"][kind]);
    if kind == 0 {
        let r = guarded(|| -> Result<(), String> {
            macro_rules! items {
                ($name:expr, $i:ty, $t:ty, $e:expr, $owned:expr) => {{
                    let c: $t = $e;
                    let own = $owned;
                    let it = || Container::<$i>::get_iter(&c);
                    let all: Vec<char> = it().map(own).collect();
                    expect_eq(concat!("items of ", $name), &all, &v)?;
                    expect_eq(concat!("count of ", $name), &it().count(), &N)?;
                    expect_eq(concat!("last of ", $name), &it().last().map(own), &v.last().copied())?;
                    for k in [0, 1, N / 2, N - 1, N] {
                        expect_eq(concat!("nth of ", $name), &it().nth(k).map(own), &v.get(k).copied())?;
                    }
                    let (lo, hi) = it().size_hint();
                    if lo > N || hi.is_some_and(|h| h < N) {
                        return Err(format!("size hint ({lo}, {hi:?}) of {} of {N} items", $name));
                    }
                    // Two at a time, one ahead of the other.
                    let (mut a, mut b) = (it(), it());
                    a.next();
                    for k in 0..N {
                        expect_eq(concat!("second iterator over ", $name), &b.next().map(own), &Some(v[k]))?;
                        expect_eq(concat!("first iterator over ", $name), &a.next().map(own), &v.get(k + 1).copied())?;
                    }
                    expect_eq(concat!("after the end of ", $name), &b.next().map(own), &None)?;
                }};
            }
            let own = |c: char| c;
            let refd = |c: &char| *c;
            let arr: [char; N] = v[..].try_into().unwrap();
            let refs: Vec<&char> = v.iter().collect();
            let rarr: [&char; N] = refs[..].try_into().unwrap();
            items!("a string", char, String, s.clone(), own);
            items!("a string slice", char, &str, &s[..], own);
            items!("a slice", char, &[char], &v[..], own);
            items!("a vector", char, Vec<char>, v.clone(), own);
            items!("a vector reference", char, &Vec<char>, &v, own);
            items!("an array", char, [char; N], arr, own);
            items!("an array reference", char, &[char; N], &arr, own);
            items!("slice references", &char, &[char], &v[..], refd);
            items!("vector references", &char, &Vec<char>, &v, refd);
            items!("array references", &char, &[char; N], &arr, refd);
            items!("a vector of references", &char, Vec<&char>, refs.clone(), refd);
            items!("a slice of references", &char, &[&char], &refs[..], refd);
            items!("an array of references", &char, [&char; N], rarr, refd);
            items!("a reference to an array of references", &char, &[&char; N], &rarr, refd);
            Ok(())
        });
        st.states += 14;
        st.transitions += 14 * 4 * N as u64;
        st.compared += 14;
        st.outcome(&(N, pattern));
        st.sample(|| name.clone());
        return match r.and_then(|r| r) {
            Ok(()) => Ok(()),
            Err(e) => Err(Viol::new(format!("C17:large:{name}"), format!("{e}\n  {name}"))),
        };
    }
    // Tapes with a deviation at every interesting place, and short ones with single members.
    let mut tapes: Vec<Vec<char>> = vec![vec![], v.clone(), [&v[..], &['z']].concat()];
    let mut at: Vec<usize> = vec![0, 1, N / 2, N - 2, N - 1, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256];
    at.retain(|k| *k < N);
    for k in at {
        let mut w = v.clone();
        w[k] = 'z';
        tapes.push(w);
        tapes.push(v[..k].to_vec());
        tapes.push(vec![v[k], 'z']);
    }
    tapes.push(vec!['z']);
    let v: &'static Vec<char> = leak(v);
    let z: &'static char = leak('z');
    let find = |c: &char| -> &'static char { v.iter().find(|x| *x == c).unwrap_or(z) };
    let rtapes: Vec<Vec<&'static char>> = tapes.iter().map(|t| t.iter().map(find).collect()).collect();
    let arr: [char; N] = v[..].try_into().unwrap();
    let sarr: &'static [char; N] = leak(arr);
    let refs: &'static Vec<&'static char> = leak(v.iter().collect());
    let rarr: [&'static char; N] = refs[..].try_into().unwrap();
    let mut runs: Vec<(&'static str, Result<Vec<String>, String>)> = vec![];
    macro_rules! prims {
        ($name:expr, $i:ty, $er:ty, $tapes:expr, $t:ty, $e:expr) => {{
            let c: $t = $e;
            let show = |c: &$i| c.to_string();
            let r = match kind {
                1 => log_runs(&prim::one_of::<$i, $t, $er>(c), $tapes, &show),
                2 => log_runs(&prim::none_of::<$i, $t, $er>(c), $tapes, &show),
                _ => log_runs(
                    &prim::seq::<$i, $t, $er>(c).map(|c: $t| Container::<$i>::get_iter(&c).map(|c| c.to_string()).collect::<String>()),
                    $tapes,
                    &show,
                ),
            };
            runs.push(($name, r));
        }};
    }
    prims!("vector", char, E, &tapes, Vec<char>, v.clone());
    prims!("string slice", char, E, &tapes, &'static str, leak(s.clone()));
    prims!("string", char, E, &tapes, String, s.clone());
    prims!("reference to vector", char, E, &tapes, &'static Vec<char>, v);
    prims!("slice", char, E, &tapes, &'static [char], &v[..]);
    prims!("array", char, E, &tapes, [char; N], arr);
    prims!("reference to array", char, E, &tapes, &'static [char; N], sarr);
    prims!("references from slice", &'static char, ER, &rtapes, &'static [char], &v[..]);
    prims!("references from vector reference", &'static char, ER, &rtapes, &'static Vec<char>, v);
    prims!("references from array", &'static char, ER, &rtapes, &'static [char; N], sarr);
    prims!("vector of references", &'static char, ER, &rtapes, Vec<&'static char>, refs.clone());
    prims!("slice of references", &'static char, ER, &rtapes, &'static [&'static char], &refs[..]);
    prims!("array of references", &'static char, ER, &rtapes, [&'static char; N], rarr);
    st.outcome(&(N, pattern, kind));
    same_runs("C17", &name, tapes.len(), runs, st)
}
fn large_containers() -> Part<'static> {
    part("large-containers", 6 * 12, |cfg, _ch, st| {
        let (p, k) = (cfg / 6 % 3, cfg / 18);
        match cfg % 6 {
            0 => large_container::<5>(p, k, st),
            1 => large_container::<9>(p, k, st),
            2 => large_container::<17>(p, k, st),
            3 => large_container::<33>(p, k, st),
            4 => large_container::<65>(p, k, st),
            _ => large_container::<300>(p, k, st),
        }
    })
}

pub fn c17(t: bool) -> Vec<Part<'static>> {
    let mut v = containers(t);
    v.push(large_containers());
    v.push(every_character());
    v.push(reentrant(t));
    v.push(wraps(t));
    #[cfg(feature = "wraps")]
    v.push(strat_wraps(t));
    v.push(wrap_grammars(t));
    v.push(scanner_api("C17", true, t));
    v
}

//---------------------------------------------------------------------------------------------
// C18

type LA<L, S> = At<L, S>;

/// All permutations of the given words.
fn perms(v: &[String]) -> Vec<Vec<String>> {
    if v.is_empty() {
        return vec![vec![]];
    }
    let mut out = vec![];
    for i in 0..v.len() {
        let mut rest = v.to_vec();
        let x = rest.remove(i);
        for mut p in perms(&rest) {
            p.insert(0, x.clone());
            out.push(p);
        }
    }
    out
}
/// The documented sentence for a list of expected things in the given order.
fn sentence(exp: &[String], found: &str, at: &str) -> String {
    let e = match exp {
        [] => "found unexpected".to_string(),
        [a] => format!("expected {a} but found"),
        [a, b] => format!("expected {a} or {b} but found"),
        [init @ .., last] => format!("expected {}, or {last} but found", init.join(", ")),
    };
    format!("{e} {found}{at}")
}

/// Harness-side location and span types with a visible rendering.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct DLoc(usize);
impl std::fmt::Display for DLoc {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "L{}", self.0)
    }
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct DSpan(usize, usize);
impl std::fmt::Display for DSpan {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "<{}-{}>", self.0, self.1)
    }
}
#[derive(Clone, Copy, Debug, Default, PartialEq)]
pub struct DTrk;
impl Tracker<char> for DTrk {
    type Location = DLoc;
    type Span = DSpan;
    fn advance(&mut self, _: &char) {}
    fn location(&self, i: usize) -> DLoc {
        DLoc(i)
    }
    fn spanning_to(&self, a: usize, _: &Self, b: usize) -> DSpan {
        DSpan(a, b)
    }
}
type ED = Simple<char, DTrk>;
type DA = At<DLoc, DSpan>;

fn ats() -> Vec<DA> {
    vec![At::None, At::Location(DLoc(4)), At::Span(DSpan(2, 3)), At::Span(DSpan(7, 7))]
}
fn show_at(a: &DA) -> String {
    match a {
        At::None => "".into(),
        At::Location(l) => format!(" at {l}"),
        At::Span(s) => format!(" at {s}"),
    }
}
fn at_ref(a: &DA) -> At<&DLoc, &DSpan> {
    match a {
        At::None => At::None,
        At::Location(l) => At::Location(l),
        At::Span(s) => At::Span(s),
    }
}

/// Pool of expected things: four tokens and end of input.
const POOL: [Option<char>; 6] = [Some('a'), Some('b'), Some('é'), None, Some('+'), Some('1')];
fn word(x: &Option<char>) -> String {
    x.map_or("EOF".into(), |c| c.to_string())
}
fn subset(ch: &Ch, n: usize, max: usize) -> Vec<Option<char>> {
    let mut v = vec![];
    for x in &POOL[..n] {
        if v.len() < max && ch.flag() {
            v.push(*x);
        }
    }
    v
}

fn expect_eq<T: PartialEq + Debug>(what: &str, got: &T, want: &T) -> Result<(), String> {
    if got != want {
        Err(format!("{what} is {got:?} instead of {want:?}"))
    } else {
        Ok(())
    }
}

fn c18_ef(t: bool) -> Part<'static> {
    let n = if t { 6 } else { 5 };
    part("expected-found", 1, move |_, ch, st| {
        let exp = subset(ch, n, if t { 6 } else { 5 });
        let dup = ch.flag();
        let found = ch.of(&[Some('a'), Some('z'), None]);
        let at = ch.of(&ats());
        let d = format!("expected {exp:?} found {found:?} at {at:?}");
        let r = guarded(|| -> Result<(), String> {
            let mut list = exp.clone();
            if dup {
                list.extend(exp.clone());
                list.reverse();
            }
            let e = ED::expected_found(list, found, at.clone());
            match &e {
                Simple::ExpectedFound(x, f, a) => {
                    let got: BTreeSet<Option<char>> = x.iter().cloned().collect();
                    expect_eq("expected set", &got, &exp.iter().cloned().collect())?;
                    expect_eq("number expected", &x.len(), &exp.len())?;
                    expect_eq("found", f, &found)?;
                    expect_eq("location", a, &at)?;
                }
                e => return Err(format!("wrong kind: {e:?}")),
            }
            expect_eq("is_expected_found", &e.is_expected_found(), &true)?;
            expect_eq("location()", &e.location(), &at_ref(&at))?;
            let words: Vec<String> = exp.iter().map(word).collect();
            let msg = e.to_string();
            let ok = perms(&words).iter().any(|p| sentence(p, &word(&found), &show_at(&at)) == msg);
            if !ok {
                return Err(format!("message {msg:?} does not state this error"));
            }
            expect_eq("message of clone", &e.clone().to_string().len(), &msg.len())?;
            Ok(())
        });
        finish18(&d, r, st)
    })
}
/// Larger expected sets, of which the message must list every one once.
fn c18_large(t: bool) -> Part<'static> {
    let sizes: Vec<usize> = if t { (6..=140).chain([257, 1030]).collect() } else { (6..=40).chain([63, 64, 65, 100, 128, 129, 257, 1030]).collect() };
    part("large-expected-sets", sizes.len(), move |k, ch, st| {
        let n = sizes[k];
        let eof = ch.flag();
        let first = ch.of(&['0', 'A', 'é', '中']);
        let found = ch.of(&[Some('z'), None]);
        let at = ch.of(&ats());
        let merged = ch.pick(3);
        let mut exp: Vec<Option<char>> = (0..n as u32).map(|i| char::from_u32(first as u32 + 2 * i)).filter(|c| *c != Some(',')).collect();
        if eof {
            exp[n / 2] = None;
        }
        let d = format!("expected {n} from {first} eof {eof} found {found:?} at {at:?} merged {merged}");
        let r = guarded(|| -> Result<(), String> {
            let e = match merged {
                0 => ED::expected_found(exp.clone(), found, at.clone()),
                1 => {
                    let mut e = ED::expected_found(exp[..n / 3].to_vec(), found, at.clone());
                    e.merge_expected_found(&ED::expected_found(exp[n / 4..].to_vec(), Some('!'), At::None));
                    e
                }
                _ => {
                    let mut e = ED::expected_found(exp[..1].to_vec(), found, at.clone());
                    for x in &exp {
                        e.merge_expected_found(&ED::expected_found([*x], None, at.clone()));
                    }
                    e
                }
            };
            match &e {
                Simple::ExpectedFound(x, f, a) => {
                    let got: BTreeSet<Option<char>> = x.iter().cloned().collect();
                    expect_eq("expected set", &got, &exp.iter().cloned().collect())?;
                    expect_eq("found", f, &found)?;
                    expect_eq("location", a, &at)?;
                }
                e => return Err(format!("wrong kind: {e:?}")),
            }
            let msg = e.to_string();
            let tail = format!(" but found {}{}", word(&found), show_at(&at));
            let list = msg.strip_prefix("expected ").and_then(|m| m.strip_suffix(&tail[..]));
            let Some((init, last)) = list.and_then(|l| l.rsplit_once(", or ")) else {
                return Err(format!("message {msg:?} does not state this error"));
            };
            let mut got: Vec<String> = init.split(", ").map(|s| s.to_string()).collect();
            got.push(last.to_string());
            let mut want: Vec<String> = exp.iter().map(word).collect();
            got.sort();
            want.sort();
            expect_eq("list in the message", &got, &want)
        });
        finish18(&d, r, st)
    })
}
fn finish18(d: &str, r: Result<Result<(), String>, String>, st: &mut Stats) -> Result<(), Viol> {
    st.states += 1;
    st.transitions += 1;
    st.compared += 1;
    st.outcome(&d);
    st.sample(|| d.to_string());
    match r {
        Ok(Ok(())) => Ok(()),
        Ok(Err(e)) | Err(e) => Err(Viol::new(format!("C18:{d}"), format!("{e}\n  {d}"))),
    }
}

/// One error of every kind.
fn some_error(k: usize, at: &DA) -> ED {
    match k {
        0 => ED::unmatched_left_delimiter('(', DSpan(1, 2), at.clone()),
        1 => ED::unmatched_right_delimiter(')', DSpan(1, 2), at.clone()),
        2 => ED::unmatched_delimiter_type('(', DSpan(1, 2), ']', DSpan(5, 6)),
        3 => ED::custom("boom", at.clone()),
        4 => ED::simple("plain"),
        _ => ED::expected_found([Some('q')], Some('w'), at.clone()),
    }
}

fn c18_merge(t: bool) -> Part<'static> {
    let n = if t { 5 } else { 4 };
    part("merge", 1, move |_, ch, st| {
        if ch.flag() {
            let (x, y) = (subset(ch, n, n), subset(ch, n, n));
            let (f1, f2) = (ch.of(&[Some('a'), None]), ch.of(&[Some('b'), None]));
            let (a1, a2) = (ch.of(&ats()), ch.of(&ats()[..3]));
            let third = ch.flag();
            let d = format!("merging {y:?}/{f2:?}/{a2:?} into {x:?}/{f1:?}/{a1:?} again {third}");
            let r = guarded(|| -> Result<(), String> {
                let mut e = ED::expected_found(x.clone(), f1, a1.clone());
                let o = ED::expected_found(y.clone(), f2, a2.clone());
                let before = o.clone();
                e.merge_expected_found(&o);
                if third {
                    e.merge_expected_found(&o);
                    let me = e.clone();
                    e.merge_expected_found(&me);
                }
                expect_eq("the other error", &o, &before)?;
                match &e {
                    Simple::ExpectedFound(s, f, a) => {
                        let got: BTreeSet<Option<char>> = s.iter().cloned().collect();
                        let want: BTreeSet<Option<char>> = x.iter().chain(&y).cloned().collect();
                        expect_eq("merged set", &got, &want)?;
                        expect_eq("found", f, &f1)?;
                        expect_eq("location", a, &a1)
                    }
                    e => Err(format!("wrong kind: {e:?}")),
                }
            });
            finish18(&d, r, st)
        } else {
            // Anything else changes nothing.
            let (k, l) = (ch.pick(6), ch.pick(6));
            if k == 5 && l == 5 {
                return Ok(());
            }
            let (a1, a2) = (ch.of(&ats()), ch.of(&ats()));
            let d = format!("merging kind {l} at {a2:?} into kind {k} at {a1:?}");
            let r = guarded(|| -> Result<(), String> {
                let mut e = some_error(k, &a1);
                let o = some_error(l, &a2);
                e.merge_expected_found(&o);
                expect_eq("error", &e, &some_error(k, &a1))?;
                expect_eq("other error", &o, &some_error(l, &a2))
            });
            finish18(&d, r, st)
        }
    })
}

fn c18_kinds() -> Part<'static> {
    part("other-kinds", 6, move |k, ch, st| {
        let at = ch.of(&ats());
        let (l, r) = (ch.of(&['(', '[', 'é']), ch.of(&[')', ']', '日']));
        let (s1, s2) = (ch.of(&[DSpan(0, 1), DSpan(9, 12)]), ch.of(&[DSpan(3, 4), DSpan(5, 5)]));
        let msg = ch.of(&["", "x", "two words", "with {} braces"]);
        let known = !matches!(at, At::None);
        let d = format!("kind {k} {l} {r} {s1} {s2} {msg:?} at {at:?}");
        let res = guarded(|| -> Result<(), String> {
            let (e, want, loc, text): (ED, ED, At<&DLoc, &DSpan>, String) = match k {
                0 => (
                    ED::unmatched_left_delimiter(l, s1.clone(), at.clone()),
                    Simple::UnmatchedLeftDelimiter(l, s1.clone(), at.clone()),
                    at_ref(&at),
                    format!("unmatched left {l} ({s1})"),
                ),
                1 => (
                    ED::unmatched_right_delimiter(r, s2.clone(), at.clone()),
                    Simple::UnmatchedRightDelimiter(r, s2.clone(), at.clone()),
                    at_ref(&at),
                    format!("unmatched right {r} ({s2})"),
                ),
                2 => (
                    ED::unmatched_delimiter_type(l, s1.clone(), r, s2.clone()),
                    Simple::UnmatchedDelimiterType(l, s1.clone(), r, s2.clone()),
                    At::Span(&s2),
                    format!("left {l} ({s1}) does not match right {r} ({s2})"),
                ),
                3 => (
                    ED::custom(msg, at.clone()),
                    Simple::Custom(msg.to_string(), at.clone()),
                    at_ref(&at),
                    format!("{msg}{}", show_at(&at)),
                ),
                4 => (
                    ED::simple(msg),
                    Simple::Custom(msg.to_string(), At::None),
                    At::None,
                    msg.to_string(),
                ),
                _ => (
                    ED::custom(12345, at.clone()),
                    Simple::Custom("12345".to_string(), at.clone()),
                    at_ref(&at),
                    format!("12345{}", show_at(&at)),
                ),
            };
            expect_eq("error", &e, &want)?;
            expect_eq("location()", &e.location(), &loc)?;
            expect_eq("is_expected_found", &e.is_expected_found(), &false)?;
            let got = e.to_string();
            if k < 2 && known {
                // States both the delimiter and where its partner was needed, once each.
                let w = match &at {
                    At::Location(l) => l.to_string(),
                    At::Span(s) => s.to_string(),
                    At::None => unreachable!(),
                };
                if !got.starts_with(&text) {
                    return Err(format!("message {got:?} does not start with {text:?}"));
                }
                let more = &got[text.len()..];
                if more.matches(&w).count() != 1 || !more.starts_with("; ") {
                    return Err(format!("message {got:?} does not state {w} once"));
                }
                let dir = if k == 0 { "before" } else { "after" };
                if !more.ends_with(&format!("{dir} {w}")) {
                    return Err(format!("message {got:?} does not say {dir} {w}"));
                }
                Ok(())
            } else {
                expect_eq("message", &got, &text)
            }
        });
        finish18(&d, res, st)
    })
}

/// Every character as a token: expected, found and as a delimiter.
fn c18_every() -> Part<'static> {
    part("every-character", 0x110, move |k, _ch, st| {
        let r = guarded(|| -> Result<(), String> {
            for c in (k as u32 * 0x1000..(k as u32 + 1) * 0x1000).filter_map(char::from_u32) {
                let at = At::Location(DLoc(4));
                let show = show_at(&at);
                let o = if c == 'q' { 'p' } else { 'q' };
                let e = ED::expected_found([Some(c)], Some(o), at.clone());
                let bad = |m: &str| Err(format!("character {c:?}: message {m:?}"));
                let m = e.to_string();
                if m != sentence(&[c.to_string()], &o.to_string(), &show) {
                    return bad(&m);
                }
                let m = ED::expected_found([None, Some(c)], Some(c), At::None).to_string();
                let (w, eof) = (c.to_string(), "EOF".to_string());
                if m != sentence(&[w.clone(), eof.clone()], &w, "") && m != sentence(&[eof, w.clone()], &w, "") {
                    return bad(&m);
                }
                let m = ED::unmatched_delimiter_type(c, DSpan(0, 1), o, DSpan(2, 3)).to_string();
                if m != format!("left {c} ({}) does not match right {o} ({})", DSpan(0, 1), DSpan(2, 3)) {
                    return bad(&m);
                }
                let m = ED::custom(format!("<{c}>"), at.clone()).to_string();
                if m != format!("<{c}>{show}") {
                    return bad(&m);
                }
                let mut e = e;
                e.merge_expected_found(&ED::expected_found([Some(c), None], None, At::None));
                match &e {
                    Simple::ExpectedFound(x, f, a) => {
                        if x.len() != 2 || !x.contains(&Some(c)) || !x.contains(&None) || *f != Some(o) || *a != at {
                            return Err(format!("character {c:?}: merged into {e:?}"));
                        }
                    }
                    e => return Err(format!("wrong kind: {e:?}")),
                }
            }
            Ok(())
        });
        st.states += 0x1000;
        st.transitions += 5 * 0x1000;
        finish18(&format!("characters from {:x}", k * 0x1000), r, st)
    })
}

fn c18_at() -> Part<'static> {
    part("locations", 1, move |_, ch, st| {
        let k = ch.pick(5);
        let sizes = [1usize, 2, 9, 10, 30, 99, 100, 255, 256, 999, 1000, 65_536, 1 << 40];
        let (row, col, off) = (ch.of(&sizes), ch.of(&sizes), ch.of(&[0usize, 77]));
        let (down, right) = (ch.of(&[0usize, 1, 7]), ch.of(&[0usize, 4]));
        let file = ch.of(&["dir/file.x", "", "a b", "ü: 1:2"]);
        let d = format!("rendering {k} {file:?} +{down}:{right}");
        let r = guarded(|| -> Result<(), String> {
            match k {
                0 => {
                    for a in ats() {
                        expect_eq("is_known", &a.is_known(), &!matches!(a, At::None))?;
                        expect_eq("as_ref", &a.as_ref(), &at_ref(&a))?;
                        expect_eq("rendering", &format!("{a}"), &show_at(&a))?;
                        let alt = match &a {
                            At::None => "<unknown>".to_string(),
                            At::Location(l) => l.to_string(),
                            At::Span(s) => s.to_string(),
                        };
                        expect_eq("alternate rendering", &format!("{a:#}"), &alt)?;
                    }
                    Ok(())
                }
                1 | 2 | 3 => {
                    let o = |r, c| RichOffset { row: r, column: c, offset: off, index: 3 };
                    let (x, y) = (o(row, col), o(row + down, col + right));
                    let f = Rc::new(file.to_string());
                    let l = RichLocation { filename: f.clone(), offset: x.clone() };
                    let s = RichSpan { filename: f, from: x.clone(), to: y.clone() };
                    expect_eq("offset", &x.to_string(), &format!("{row}:{col}"))?;
                    expect_eq("location", &l.to_string(), &format!("{file} {row}:{col}"))?;
                    expect_eq("span", &s.to_string(), &format!("{file} {row}:{col}..{}:{}", row + down, col + right))
                }
                _ => {
                    // Errors that record nothing record nothing.
                    let es: Vec<Void<char>> = vec![
                        Void::expected_found([Some('a')], None, At::Location(3)),
                        Void::custom("x", At::Span(1..2)),
                        Void::unmatched_left_delimiter('(', 0..1, At::None),
                        Void::unmatched_right_delimiter(')', 0..1, At::Location(9)),
                        Void::unmatched_delimiter_type('(', 0..1, ']', 1..2),
                        Void::simple("y"),
                        Void::default(),
                    ];
                    for e in &es {
                        expect_eq("location()", &e.location(), &At::None)?;
                        expect_eq("is_expected_found", &e.is_expected_found(), &false)?;
                        let mut f = e.clone();
                        f.merge_expected_found(&es[0]);
                        expect_eq("error", &f, &es[0])?;
                    }
                    Ok(())
                }
            }
        });
        finish18(&format!("{d} {row}:{col}+{off}"), r, st)
    })
}

/// Errors that parsers produce, rendered with row/column locations.
fn c18_rendered(t: bool) -> Part<'static> {
    type RichL = parse_proof_of_concept::location::Rich<
        &'static str,
        for<'a> fn(&'a &'static str) -> &'a str,
    >;
    fn same<'a>(s: &'a &'static str) -> &'a str {
        s
    }
    fn rich_new(name: &str) -> RichL {
        RichL::new(name, same as for<'a> fn(&'a &'static str) -> &'a str)
    }
    let n = if t { 4 } else { 3 };
    part("rendered-parse-errors", n + 1, move |len, ch, st| {
        const TOK: [&str; 4] = ["a", "b", "\n", "日"];
        let toks: Vec<&'static str> = (0..len).map(|_| ch.of(&TOK)).collect();
        let alts = subset(ch, 4, 4);
        type ER = Simple<&'static str, RichL>;
        let d = format!("{toks:?} expecting one of {alts:?}");
        let words: &'static [&'static str] = &["a", "b", "é", "EOF"];
        let r = guarded(|| -> Result<(), String> {
            // One alternative per expected thing, so the message is a merged one.
            type P = parse_proof_of_concept::combinator::Boxed<'static, &'static str, (), ER>;
            let mut ps: Vec<P> = vec![];
            for a in &alts {
                let k = POOL.iter().position(|x| x == a).unwrap();
                ps.push(match a {
                    None => prim::end::<&'static str, ER>().boxed(),
                    Some(_) => prim::just::<&'static str, ER>(words[k]).map(|_| ()).boxed(),
                });
            }
            let Some(mut p) = ps.pop() else { return Ok(()) };
            while let Some(q) = ps.pop() {
                p = q.or(p).boxed();
            }
            let head = prim::just::<&'static str, ER>("\n").or(prim::just("日")).repeated();
            let p = head.ignore_then(p);
            match p.parse_with_recovery_and_location(toks.clone(), rich_new("f")) {
                parser::Result::Failed(i, es) => {
                    let e = match &es[..] {
                        [e] => e,
                        _ => return Err(format!("{} errors", es.len())),
                    };
                    let before: String = toks[..i].concat();
                    let row = 1 + before.matches('\n').count();
                    let col = 1 + before.rsplit('\n').next().unwrap().chars().count();
                    let found = toks.get(i).copied();
                    let (row2, col2) = match found {
                        None => (row, col),
                        Some("\n") => (row + 1, 1),
                        Some(_) => (row, col + 1),
                    };
                    let at = format!(" at f {row}:{col}..{row2}:{col2}");
                    let w: Vec<String> = alts.iter().map(word).collect();
                    let msg = e.to_string();
                    if !perms(&w).iter().any(|p| sentence(p, found.unwrap_or("EOF"), &at) == msg) {
                        return Err(format!("message {msg:?}, expected something like {:?}", sentence(&w, found.unwrap_or("EOF"), &at)));
                    }
                    Ok(())
                }
                _ => Ok(()),
            }
        });
        finish18(&d, r, st)
    })
}

/// Values and what they record, in words; equal words mean equal values and no others are.
fn all_pairs<T: PartialEq + Clone + Debug>(what: &'static str, vals: Vec<(String, T)>, ch: &Ch, st: &mut Stats) -> Result<(), Viol> {
    let (i, j) = (ch.pick(vals.len()), ch.pick(vals.len()));
    let ((a, x), (b, y)) = (&vals[i], &vals[j]);
    let d = format!("equality of {what} {a} and {b}");
    let r = guarded(|| {
        if (x == y) != (a == b) || (x != y) != (a != b) {
            return Err(format!("{x:?} == {y:?} is {}", x == y));
        }
        if x.clone() != *x {
            return Err(format!("{x:?} differs from its clone"));
        }
        Ok(())
    });
    finish18(&d, r, st)
}
fn c18_equality() -> Part<'static> {
    fn places<L: Clone, S: Clone>(ls: &[(String, L)], ss: &[(String, S)]) -> Vec<(String, At<L, S>)> {
        let mut v = vec![("nowhere".to_string(), At::None)];
        v.extend(ls.iter().map(|(w, l)| (format!("at {w}"), At::Location(l.clone()))));
        v.extend(ss.iter().map(|(w, s)| (format!("over {w}"), At::Span(s.clone()))));
        v
    }
    fn errors<L>(at: &[(String, At<L::Location, L::Span>)], ss: &[(String, L::Span)]) -> Vec<(String, Simple<char, L>)>
    where
        L: Tracker<char> + 'static,
        L::Location: Clone,
        L::Span: Clone,
    {
        let mut v = vec![];
        for (w, a) in at {
            for exp in [vec![], vec![Some('a')], vec![None], vec![Some('b'), Some('a')], vec![Some('a'), Some('b')], vec![Some('a'), Some('a')]] {
                for found in [None, Some('a')] {
                    let set: BTreeSet<_> = exp.iter().collect();
                    v.push((format!("expected {set:?} found {found:?} {w}"), Simple::expected_found(exp.clone(), found, a.clone())));
                }
            }
            for c in ['(', '['] {
                for (q, s) in ss {
                    v.push((format!("left {c} {q} {w}"), Simple::unmatched_left_delimiter(c, s.clone(), a.clone())));
                    v.push((format!("right {c} {q} {w}"), Simple::unmatched_right_delimiter(c, s.clone(), a.clone())));
                }
            }
            for m in ["", "m"] {
                v.push((format!("custom {m:?} {w}"), Simple::custom(m, a.clone())));
            }
        }
        v.push(("custom \"m\" nowhere".into(), Simple::simple("m")));
        for (q1, s1) in ss {
            for (q2, s2) in ss {
                for (l, r) in [('(', ')'), ('(', ']'), ('[', ')')] {
                    v.push((format!("{l} {q1} closed by {r} {q2}"), Simple::unmatched_delimiter_type(l, s1.clone(), r, s2.clone())));
                }
            }
        }
        v
    }
    part("equality", 6, |k, ch, st| {
        let mut offs = vec![];
        for (row, column, offset, index) in [(1, 1, 0, 0), (2, 1, 0, 0), (1, 2, 0, 0), (1, 1, 1, 0), (1, 1, 0, 1), (2, 2, 1, 1)] {
            let o = RichOffset { row, column, offset, index };
            offs.push((format!("{row}/{column}/{offset}/{index}"), o));
        }
        // The same name held twice is still the same name.
        let names: Vec<Rc<String>> = ["f", "g", "f"].iter().map(|n| Rc::new(n.to_string())).collect();
        let mut ls = vec![];
        let mut ss = vec![];
        for n in &names {
            for (w, o) in &offs {
                ls.push((format!("{n}:{w}"), RichLocation { filename: n.clone(), offset: o.clone() }));
            }
            for (w1, o1) in [&offs[0], &offs[4], &offs[5]] {
                for (w2, o2) in &offs {
                    ss.push((format!("{n}:{w1}..{w2}"), RichSpan { filename: n.clone(), from: o1.clone(), to: o2.clone() }));
                }
            }
        }
        let dl = [("4".to_string(), DLoc(4)), ("5".to_string(), DLoc(5))];
        let ds = [("4-4".to_string(), DSpan(4, 4)), ("4-5".to_string(), DSpan(4, 5)), ("3-4".to_string(), DSpan(3, 4))];
        match k {
            0 => all_pairs("locations", ls, ch, st),
            1 => all_pairs("spans", ss, ch, st),
            2 => all_pairs("places", places(&ls, &ss), ch, st),
            3 => all_pairs("errors", errors::<DTrk>(&places(&dl, &ds), &ds[..2]), ch, st),
            4 => {
                type R = location::Rich<char, fn(&char) -> &str>;
                all_pairs("errors with rows", errors::<R>(&places(&ls[4..7], &ss[15..19]), &ss[16..19]), ch, st)
            }
            _ => {
                let es = errors::<DTrk>(&places(&dl[..1], &ds[..1]), &ds[..1]);
                let mut v: Vec<(String, parser::Result<usize, ED>)> = vec![];
                for (i, (w, e)) in es.iter().enumerate().step_by(5) {
                    let (w2, e2) = &es[(i + 3) % es.len()];
                    for n in [0, 1] {
                        v.push((format!("S {n}"), parser::Result::Success(n)));
                        for (w, l) in [
                            ("".to_string(), vec![]),
                            (w.clone(), vec![e.clone()]),
                            (format!("{w}, {w2}"), vec![e.clone(), e2.clone()]),
                            (format!("{w2}, {w}"), vec![e2.clone(), e.clone()]),
                        ] {
                            v.push((format!("R {n} {w}"), parser::Result::Recovered(n, l.clone())));
                            v.push((format!("F {n} {w}"), parser::Result::Failed(n, l)));
                        }
                    }
                }
                all_pairs("results", v, ch, st)
            }
        }
    })
}

pub fn c18(t: bool) -> Vec<Part<'static>> {
    vec![c18_ef(t), c18_large(t), c18_merge(t), c18_kinds(), c18_at(), c18_every(), c18_rendered(t), c18_equality()]
}
