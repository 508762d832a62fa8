//! Tokens whose equality is coarser than identity (they carry a payload that equality ignores, or
//! never equal anything), owned or by reference: what comes out must be the very token that came
//! in, not another one that happens to be equal.

use crate::ast::text;
use crate::explore::*;
use parse_proof_of_concept::combinator::Boxed;
use parse_proof_of_concept::error::{At, Error, Fallback, Simple};
use parse_proof_of_concept::parser::{self, Parser};
use parse_proof_of_concept::primitive as prim;
use parse_proof_of_concept::recovery::{self, IncompleteStrategy};
use parse_proof_of_concept::scanner::nested_delimiters;
use std::fmt::Debug;

/// Kind and identity. Tokens of kind 'N' equal nothing, not even themselves.
#[derive(Clone, Debug)]
pub struct Q(pub char, pub u32);
impl PartialEq for Q {
    fn eq(&self, o: &Q) -> bool {
        self.0 == o.0 && self.0 != 'N'
    }
}
impl Eq for Q {}
impl std::hash::Hash for Q {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        self.0.hash(h)
    }
}
pub trait Tok: Clone + Eq + std::hash::Hash + Debug {
    /// Kind and identity; the identity of a reference is the place it points to.
    fn who(&self) -> (char, usize);
}
impl Tok for Q {
    fn who(&self) -> (char, usize) {
        (self.0, self.1 as usize)
    }
}
impl Tok for &Q {
    fn who(&self) -> (char, usize) {
        (self.0, *self as *const Q as usize)
    }
}

type Who = (char, usize);
type Err1 = (Vec<Option<char>>, Option<Who>, std::ops::Range<usize>);

/// One primitive, by number, expecting (or rejecting) the given tokens.
fn primitive<'i, I: Tok + 'i>(k: usize, v: &[I]) -> Boxed<'i, I, Vec<I>, Simple<I>> {
    let kinds: Vec<char> = v.iter().map(|x| x.who().0).collect();
    match k {
        0 => prim::just::<I, Simple<I>>(v[0].clone()).map(|x| vec![x]).boxed(),
        1 => prim::seq::<I, Vec<I>, Simple<I>>(v.to_vec()).boxed(),
        2 => prim::one_of::<I, Vec<I>, Simple<I>>(v.to_vec()).map(|x| vec![x]).boxed(),
        3 => prim::none_of::<I, Vec<I>, Simple<I>>(v.to_vec()).map(|x| vec![x]).boxed(),
        4 => prim::filter::<I, _, Simple<I>>(move |x: &I| kinds.contains(&x.who().0)).map(|x| vec![x]).boxed(),
        5 => prim::filter_map::<I, _, _, Simple<I>>(move |x: &I| kinds.contains(&x.who().0).then(|| vec![x.clone()])).boxed(),
        _ => prim::end::<I, Simple<I>>().map(|_| vec![]).boxed(),
    }
}
fn same(a: char, b: char) -> bool {
    a == b && a != 'N'
}
/// What it must do at `pos`: the tokens returned and the end, or the error and its index.
fn meaning<I: Tok>(k: usize, v: &[I], tape: &[I], pos: usize) -> Result<(Vec<Who>, usize), (usize, Err1)> {
    let at = |p: usize| tape.get(p).map(|t| t.who());
    let span = |p: usize| p..p + usize::from(p < tape.len());
    let fail = |e: Vec<Option<char>>, p: usize| Err((p, (e, at(p), span(p))));
    let kinds: Vec<char> = v.iter().map(|x| x.who().0).collect();
    let some = |c: &[char]| c.iter().map(|c| Some(*c)).collect();
    match k {
        0 | 2 => match at(pos) {
            Some(t) if kinds.iter().any(|c| same(*c, t.0)) => Ok((vec![t], pos + 1)),
            _ => fail(some(&kinds), pos),
        },
        1 => {
            for (i, c) in kinds.iter().enumerate() {
                if !at(pos + i).is_some_and(|t| same(*c, t.0)) {
                    return fail(some(&[*c]), pos + i);
                }
            }
            Ok((v.iter().map(|x| x.who()).collect(), pos + v.len()))
        }
        3 => match at(pos) {
            Some(t) if !kinds.iter().any(|c| same(*c, t.0)) => Ok((vec![t], pos + 1)),
            _ => fail(vec![], pos),
        },
        4 | 5 => match at(pos) {
            Some(t) if kinds.contains(&t.0) => Ok((vec![t], pos + 1)),
            _ => fail(vec![], pos),
        },
        _ => match at(pos) {
            None => Ok((vec![], pos)),
            _ => fail(vec![None], pos),
        },
    }
}

fn primitive_case<'i, I: Tok + 'i>(id: &'static str, k: usize, v: &[I], tape: &[I], items: bool, st: &mut Stats) -> Result<(), Viol> {
    const NAMES: [&str; 7] = ["just", "seq", "one_of", "none_of", "filter", "filter_map", "end"];
    let kinds = |v: &[I]| v.iter().map(|x| x.who().0).collect::<Vec<_>>();
    let d = format!(
        "{}({:?}) over payload-carrying {} {:?}",
        NAMES[k],
        text(&kinds(v)),
        if std::any::type_name::<I>().starts_with('&') { "references" } else { "tokens" },
        text(&kinds(tape))
    );
    st.states += 1;
    st.compared += 1;
    st.sample(|| d.clone());
    let r = guarded(|| -> Result<usize, String> {
        let p = primitive::<I>(k, v);
        let mut stream = p.stream(tape.to_vec());
        let mut pos = 0;
        loop {
            let got = match stream.next() {
                None if pos >= tape.len() => break,
                None => return Err(format!("the stream ends at {pos} of {}", tape.len())),
                Some(r) => r,
            };
            let want = meaning(k, v, tape, pos);
            let start = pos;
            match (&got, &want) {
                (parser::Result::Success(o), Ok((w, end))) => {
                    let o: Vec<Who> = o.iter().map(|x| x.who()).collect();
                    if o != *w {
                        return Err(format!("yields {o:?} at {pos}, the tokens there are {w:?}"));
                    }
                    pos = *end;
                }
                (parser::Result::Failed(i, es), Err((wi, we))) => {
                    let e = match &es[..] {
                        [Simple::ExpectedFound(x, f, At::Span(s))] => {
                            let mut x: Vec<Option<char>> = x.iter().map(|c| c.as_ref().map(|c| c.who().0)).collect();
                            x.sort();
                            x.dedup();
                            (x, f.as_ref().map(|f| f.who()), s.clone())
                        }
                        _ => return Err(format!("fails with {es:?}")),
                    };
                    let mut we = we.clone();
                    we.0.sort();
                    we.0.dedup();
                    if (*i, &e) != (*wi, &we) {
                        return Err(format!("fails with {i}, {e:?} instead of {wi}, {we:?}"));
                    }
                    break;
                }
                _ => return Err(format!("gives {got:?} at {pos} instead of {want:?}")),
            }
            if !items || pos == start {
                break;
            }
        }
        let tail: Vec<Who> = stream.tail().map(|t| t.who()).collect();
        if tail != tape[pos..].iter().map(|t| t.who()).collect::<Vec<_>>() {
            return Err(format!("leaves {tail:?} after {pos}"));
        }
        Ok(pos)
    });
    match r {
        Ok(Ok(p)) => {
            st.outcome(&(k, p));
            Ok(())
        }
        Ok(Err(e)) | Err(e) => Err(Viol::new(format!("{id}:coarse:{d}"), format!("{e}\n  {d}"))),
    }
}

/// Every primitive over every set of up to `m` kinds and every input of up to `n` tokens.
pub fn primitives(id: &'static str, items: bool, n: usize, m: usize) -> Part<'static> {
    part("payload-carrying-tokens", 7 * 2, move |cfg, ch, st| {
        let k = cfg / 2;
        let kinds = ['a', 'b', 'N'];
        let lv = match k {
            0 => 1,
            6 => 0,
            _ => ch.pick(m + 1),
        };
        let v: Vec<Q> = (0..lv).map(|i| Q(ch.of(&kinds), i as u32)).collect();
        let lt = ch.pick(n + 1);
        let tape: Vec<Q> = (0..lt).map(|i| Q(ch.of(&kinds), 100 + i as u32)).collect();
        if cfg % 2 == 0 {
            primitive_case::<Q>(id, k, &v, &tape, items, st)
        } else {
            let (v, tape): (Vec<&Q>, Vec<&Q>) = (v.iter().collect(), tape.iter().collect());
            primitive_case::<&Q>(id, k, &v, &tape, items, st)
        }
    })
}

#[derive(Clone, Debug, PartialEq)]
enum D {
    L(Who, usize, Option<usize>),
    R(Who, usize),
    T(Who, usize, Who, usize),
}

fn delimiter_case<'i, I: Tok + 'i>(types: &'i [(I, I)], tape: &[I], st: &mut Stats) -> Result<(), Viol> {
    let kinds: Vec<char> = tape.iter().map(|x| x.who().0).collect();
    let d = format!("payload-carrying delimiters in {:?}", text(&kinds));
    st.states += 1;
    st.compared += 1;
    st.sample(|| d.clone());
    let r = guarded(|| -> Result<(), String> {
        type S = std::ops::Range<usize>;
        let p = prim::filter::<I, _, Simple<I>>(|_: &I| false).map(|_| 0..0).to_recover(
            recovery::update_errors(|es: &mut Vec<Simple<I>>| es.clear())
                .scan(nested_delimiters::<I, S>(types))
                .and_return_with_span(|s: S| s),
        );
        let mut stream = p.stream(tape.to_vec());
        // Reference.
        let (mut stack, mut want): (Vec<(usize, Who, usize)>, Vec<D>) = (vec![], vec![]);
        let mut pos = 0;
        loop {
            let Some(t) = tape.get(pos) else {
                while let Some((_, t, p)) = stack.pop() {
                    want.push(D::L(t, p, None));
                }
                break;
            };
            st.transitions += 1;
            let t = t.who();
            let is = |x: &I| same(x.who().0, t.0);
            if stack.last().is_some_and(|(k, _, _)| is(&types[*k].1)) {
                stack.pop();
            } else if let Some(k) = types.iter().position(|(l, _)| is(l)) {
                stack.push((k, t, pos));
            } else if let Some(k) = types.iter().position(|(_, r)| is(r)) {
                if let Some(at) = stack.iter().rposition(|s| s.0 == k) {
                    for (_, l, p) in stack.split_off(at + 1).into_iter().rev() {
                        want.push(D::L(l, p, Some(pos)));
                    }
                    stack.pop();
                } else if let Some((_, l, p)) = stack.pop() {
                    want.push(D::T(l, p, t, pos));
                } else {
                    want.push(D::R(t, pos));
                }
            }
            if stack.is_empty() {
                break;
            }
            pos += 1;
        }
        st.outcome(&(pos, want.len()));
        match stream.next() {
            None if tape.is_empty() => (),
            Some(parser::Result::Recovered(s, es)) if s == (0..pos) => {
                let got: Option<Vec<D>> = es
                    .iter()
                    .map(|e| match e {
                        Simple::UnmatchedLeftDelimiter(t, s, At::Span(b)) => Some(D::L(t.who(), s.start, Some(b.start))),
                        Simple::UnmatchedLeftDelimiter(t, s, At::Location(l)) if *l == tape.len() => Some(D::L(t.who(), s.start, None)),
                        Simple::UnmatchedRightDelimiter(t, s, At::None) => Some(D::R(t.who(), s.start)),
                        Simple::UnmatchedDelimiterType(l, ls, r, rs) => Some(D::T(l.who(), ls.start, r.who(), rs.start)),
                        _ => None,
                    })
                    .collect();
                if got.as_ref() != Some(&want) {
                    return Err(format!("reports {got:?} instead of {want:?}"));
                }
            }
            r => return Err(format!("gives {r:?}, the scan should reach {pos}")),
        }
        let tail: Vec<Who> = stream.tail().map(|t| t.who()).collect();
        if tail != tape[pos..].iter().map(|t| t.who()).collect::<Vec<_>>() {
            return Err(format!("leaves {tail:?} after {pos}"));
        }
        Ok(())
    });
    match r {
        Ok(Ok(())) => Ok(()),
        Ok(Err(e)) | Err(e) => Err(Viol::new(format!("C13:coarse:{d}"), format!("{e}\n  {d}"))),
    }
}

pub fn delimiters(n: usize) -> Part<'static> {
    part("payload-carrying-delimiters", 2, move |cfg, ch, st| {
        let kinds = ['(', ')', '[', ']', '|', 'x'];
        let len = ch.pick(n + 1);
        let tape: Vec<Q> = (0..len).map(|i| Q(ch.of(&kinds), 100 + i as u32)).collect();
        let q = |l, r, i| (Q(l, i), Q(r, i + 1));
        let types = vec![q('(', ')', 0), q('[', ']', 2), q('|', '|', 4)];
        if cfg == 0 {
            delimiter_case::<Q>(&types, &tape, st)
        } else {
            let types: Vec<(&Q, &Q)> = types.iter().map(|(l, r)| (l, r)).collect();
            let tape: Vec<&Q> = tape.iter().collect();
            delimiter_case::<&Q>(&types, &tape, st)
        }
    })
}
