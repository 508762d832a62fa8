//! Reference semantics: a direct interpreter of the documented meaning of every part, over
//! absolute token positions, without buffering, markers, streams or trait machinery.

use crate::ast::*;
use crate::obs::{ef, MErr, A};
use std::cell::{Cell, RefCell};

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum R {
    /// value, position reached
    S(V, usize),
    R(V, usize, Vec<MErr>),
    /// failure index, errors
    F(usize, Vec<MErr>),
}
impl R {
    pub fn kind(&self) -> &'static str {
        match self {
            R::S(..) => "success",
            R::R(..) => "recovered",
            R::F(..) => "failed",
        }
    }
    pub fn errs(&self) -> &[MErr] {
        match self {
            R::S(..) => &[],
            R::R(_, _, e) | R::F(_, e) => e,
        }
    }
    pub fn shift(self, d: usize) -> R {
        match self {
            R::S(v, p) => R::S(v.shift(d), p + d),
            R::R(v, p, e) => R::R(v.shift(d), p + d, e.into_iter().map(|e| e.shift(d)).collect()),
            R::F(i, e) => R::F(i + d, e.into_iter().map(|e| e.shift(d)).collect()),
        }
    }
    /// End position given the start.
    pub fn end(&self, start: usize) -> usize {
        match self {
            R::S(_, p) | R::R(_, p, _) => *p,
            R::F(..) => start,
        }
    }
}

/// The grammar does not terminate on this input (nullable repetition, left recursion, a recovery
/// loop that makes no progress): outside the properties' assumptions.
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct Diverge;
type M<T> = Result<T, Diverge>;

pub struct Model<'a> {
    pub tape: &'a [char],
    pub void: bool,
    pub defs: &'a [G],
    /// Number of polls of the source that are justified so far.
    pub look: Cell<usize>,
    pub fuel: Cell<u64>,
    pub max_depth: usize,
    /// Deepest nesting of recursive references seen.
    pub deepest: Cell<usize>,
    active: RefCell<Vec<(usize, usize, bool)>>,
    /// Justified calls of mapping functions, by function.
    pub calls: RefCell<[u32; 8]>,
}

pub fn err_tag(e: &MErr) -> String {
    match e {
        MErr::EF(x, f, _) => format!("ef{x:?}{f:?}"),
        MErr::UL(c, ..) => format!("ul{c}"),
        MErr::UR(c, ..) => format!("ur{c}"),
        MErr::UT(c, _, d, _) => format!("ut{c}{d}"),
        MErr::Cu(m, _) => format!("cu({m})"),
        MErr::Void => "void".into(),
    }
}

/// Errors of a mock with the given answer kind; `pos` its start, `idx` the failure index/end.
pub fn mock_errs(id: u8, pos: usize, idx: usize, k: ErrK, tape: &[char]) -> Vec<MErr> {
    let exp = |n: u32| vec![Some(char::from_u32('0' as u32 + (id as u32) * 2 + n).unwrap())];
    let span = |i: usize| A::S(i, (i + 1).min(tape.len()).max(i));
    let efat = |n: u32, i: usize| ef(exp(n), tape.get(i).copied(), span(i));
    let cu = |n: u32| MErr::Cu(format!("mock{id}.{n}"), A::S(pos, idx.max(pos)));
    match k {
        ErrK::None => vec![],
        ErrK::Ef => vec![efat(0, idx)],
        ErrK::EfElse => vec![efat(0, (pos + 1).min(tape.len()))],
        ErrK::EfNo => vec![ef(exp(0), None, A::No)],
        ErrK::EfEmpty => vec![ef(vec![], tape.get(idx).copied(), span(idx))],
        ErrK::Cu => vec![cu(0)],
        ErrK::EfCu => vec![efat(0, idx), cu(1)],
        ErrK::CuEf => vec![cu(0), efat(1, idx)],
        ErrK::EfEf => vec![efat(0, idx), efat(1, idx)],
    }
}

struct SState {
    pos: usize,
    failed: usize,
    errs: Vec<MErr>,
}

impl<'a> Model<'a> {
    pub fn new(tape: &'a [char], defs: &'a [G], void: bool) -> Self {
        Model {
            tape,
            void,
            defs,
            look: Cell::new(0),
            fuel: Cell::new(100_000 + 8 * tape.len() as u64),
            max_depth: 400,
            deepest: Cell::new(0),
            active: Default::default(),
            calls: Default::default(),
        }
    }
    fn called(&self, k: usize, n: usize) {
        self.calls.borrow_mut()[k] += n as u32;
    }
    pub fn need(&self, pos: usize) {
        if pos + 1 > self.look.get() {
            self.look.set(pos + 1);
        }
    }
    fn tok(&self, pos: usize) -> Option<char> {
        self.need(pos);
        self.tape.get(pos).copied()
    }
    fn adv(&self, pos: usize) -> usize {
        if self.tok(pos).is_some() {
            pos + 1
        } else {
            pos
        }
    }
    /// Advancing to an index, stopping at end of input.
    fn adv_to(&self, pos: usize, idx: usize) -> usize {
        if idx > pos {
            self.need(idx - 1);
        }
        idx.min(self.tape.len())
    }
    /// Span of the next token.
    fn tspan(&self, pos: usize) -> A {
        A::S(pos, if self.tok(pos).is_some() { pos + 1 } else { pos })
    }
    fn e(&self, e: MErr) -> MErr {
        if self.void {
            MErr::Void
        } else {
            e
        }
    }
    fn es(&self, e: Vec<MErr>) -> Vec<MErr> {
        e.into_iter().map(|e| self.e(e)).collect()
    }
    fn fail_expected(&self, pos: usize, exp: Vec<Option<char>>) -> R {
        let found = self.tok(pos);
        R::F(pos, vec![self.e(ef(exp, found, self.tspan(pos)))])
    }
    fn burn(&self) -> M<()> {
        let f = self.fuel.get();
        if f == 0 {
            return Err(Diverge);
        }
        self.fuel.set(f - 1);
        Ok(())
    }
    pub fn map_err(&self, e: &MErr, k: &str, at: Option<A>) -> MErr {
        self.e(MErr::Cu(
            format!("{k}:{}", err_tag(e)),
            at.unwrap_or_else(|| e.at()),
        ))
    }

    pub fn ev(&self, g: &G, pos: usize, rec: bool) -> M<R> {
        self.burn()?;
        Ok(match g {
            G::Empty => R::S(V::U, pos),
            G::NoneP => R::S(V::O(None), pos),
            G::End => {
                if self.tok(pos).is_none() {
                    R::S(V::U, pos)
                } else {
                    self.fail_expected(pos, vec![None])
                }
            }
            G::Just(c) => {
                if self.tok(pos) == Some(*c) {
                    R::S(V::C(*c), pos + 1)
                } else {
                    self.fail_expected(pos, vec![Some(*c)])
                }
            }
            G::Filter(set) => match self.tok(pos) {
                Some(c) if set.contains(c) => R::S(V::C(c), pos + 1),
                _ => self.fail_expected(pos, vec![]),
            },
            G::FilterMap(set) => match self.tok(pos) {
                Some(c) if set.contains(c) => R::S(V::K(c as u32), pos + 1),
                _ => self.fail_expected(pos, vec![]),
            },
            G::Seq(s) => {
                let mut p = pos;
                for c in s.chars() {
                    if self.tok(p) != Some(c) {
                        return Ok(self.fail_expected(p, vec![Some(c)]));
                    }
                    p += 1;
                }
                R::S(V::S(s.to_string()), p)
            }
            G::OneOf(set) => match self.tok(pos) {
                Some(c) if set.contains(c) => R::S(V::C(c), pos + 1),
                _ => self.fail_expected(pos, set.chars().map(Some).collect()),
            },
            G::NoneOf(set) => match self.tok(pos) {
                Some(c) if !set.contains(c) => R::S(V::C(c), pos + 1),
                _ => self.fail_expected(pos, vec![]),
            },
            G::Mock(id) => {
                let id = *id;
                match env(|e| e.answer(id, pos, rec)).expect("mock without environment") {
                    Ans::S(l) => {
                        if l > 0 {
                            self.need(pos + l - 1);
                        }
                        R::S(V::M(id, pos, l), pos + l)
                    }
                    Ans::R(l, k) => {
                        if l > 0 {
                            self.need(pos + l - 1);
                        }
                        R::R(
                            V::T(99, Box::new(V::M(id, pos, l))),
                            pos + l,
                            self.es(mock_errs(id, pos, pos + l, k, self.tape)),
                        )
                    }
                    Ans::F(i, k) => {
                        self.need(pos + i);
                        R::F(pos + i, self.es(mock_errs(id, pos, pos + i, k, self.tape)))
                    }
                }
            }
            G::To(c) => self.mapv(c, pos, rec, |_, _| V::K(42))?,
            G::Ignored(c) => self.mapv(c, pos, rec, |_, _| V::U)?,
            G::Some(c) => self.mapv(c, pos, rec, |v, _| V::O(Some(Box::new(v))))?,
            G::Map(c) => self.mapv(c, pos, rec, |v, _| {
                self.called(1, 1);
                V::T(1, Box::new(v))
            })?,
            G::MapSpan(c) => self.mapv(c, pos, rec, |v, (a, b)| {
                self.called(2, 1);
                V::Sp(Box::new(v), a, b)
            })?,
            G::MapErr(c) => match self.ev(c, pos, rec).inspect(|r| self.called(3, r.errs().len()))? {
                R::S(v, p) => R::S(v, p),
                R::R(v, p, es) => R::R(
                    v,
                    p,
                    es.iter().map(|e| self.map_err(e, "m", None)).collect(),
                ),
                R::F(i, es) => R::F(i, es.iter().map(|e| self.map_err(e, "m", None)).collect()),
            },
            G::MapErrSpan(c) => match self.ev(c, pos, rec).inspect(|r| self.called(4, r.errs().len()))? {
                R::S(v, p) => R::S(v, p),
                R::R(v, p, es) => R::R(
                    v,
                    p,
                    es.iter()
                        .map(|e| self.map_err(e, "ms", Some(A::S(pos, p))))
                        .collect(),
                ),
                R::F(i, es) => R::F(
                    i,
                    es.iter()
                        .map(|e| self.map_err(e, "ms", Some(A::S(pos, pos))))
                        .collect(),
                ),
            },
            G::TryMap(c, tm) => {
                let (v, p, es0, was_rec) = match self.ev(c, pos, rec)? {
                    R::S(v, p) => (v, p, vec![], false),
                    R::R(v, p, es) => (v, p, es, true),
                    f => return Ok(f),
                };
                self.called(5, 1);
                let (ok, n) = tm_apply(*tm, (pos, p));
                let mut es = es0;
                for k in 0..n {
                    es.push(self.e(MErr::Cu(format!("tm{k}"), A::S(pos, p))));
                }
                let v = V::T(2, Box::new(V::Sp(Box::new(v), pos, p)));
                if !ok || (n > 0 && !rec) {
                    R::F(pos, es)
                } else if n > 0 || was_rec {
                    R::R(v, p, es)
                } else {
                    R::S(v, p)
                }
            }
            G::Then(a, b) => self.seq(&[&**a, &**b], pos, rec, |mut v| {
                let b = v.pop().unwrap();
                V::P(Box::new(v.pop().unwrap()), Box::new(b))
            })?,
            G::ThenIgnore(a, b) => self.seq(&[&**a, &**b], pos, rec, |mut v| v.swap_remove(0))?,
            G::IgnoreThen(a, b) => self.seq(&[&**a, &**b], pos, rec, |mut v| v.swap_remove(1))?,
            G::Delim(l, m, r) => self.seq(&[&**l, &**m, &**r], pos, rec, |mut v| v.swap_remove(1))?,
            G::Padded(p, m) => self.seq(&[&**p, &**m, &**p], pos, rec, |mut v| v.swap_remove(1))?,
            G::Chain(gs) => self.seq(&gs.iter().collect::<Vec<_>>(), pos, rec, V::L)?,
            G::Or(a, b) => self.alt(&[&**a, &**b], pos, rec)?,
            G::Alters(gs) => self.alt(&gs.iter().collect::<Vec<_>>(), pos, rec)?,
            G::OrNot(c) => match self.ev(c, pos, false)? {
                R::S(v, p) => R::S(V::O(Some(Box::new(v))), p),
                _ => R::S(V::O(None), pos),
            },
            G::Rep(r) => self.rep(r, pos, rec)?,
            G::Rec(c, s) => match self.ev(c, pos, rec)? {
                R::F(i, es) if rec => {
                    let mut st = SState {
                        pos,
                        failed: self.adv_to(pos, i),
                        errs: es,
                    };
                    let mut v = self.steps(c, &s.steps, pos, &mut st)?;
                    if v.is_none() {
                        v = match s.fin {
                            Fin::Return(k) | Fin::ReturnWith(k) => Some(V::K(k)),
                            Fin::ReturnSpan(k) => {
                                Some(V::Sp(Box::new(V::K(k)), pos, st.pos))
                            }
                            Fin::OrFail => None,
                        };
                    }
                    match v {
                        Some(v) => R::R(v, st.pos, st.errs),
                        None => R::F(i, st.errs),
                    }
                }
                r => r,
            },
            G::Boxed(c) | G::WithErr(c) => self.ev(c, pos, rec)?,
            G::X(k) => {
                let key = (*k, pos, rec);
                {
                    let mut a = self.active.borrow_mut();
                    if a.contains(&key) || a.len() >= self.max_depth {
                        return Err(Diverge);
                    }
                    a.push(key);
                    self.deepest.set(self.deepest.get().max(a.len()));
                }
                let r = self.ev(&self.defs[*k], pos, rec);
                self.active.borrow_mut().pop();
                r?
            }
        })
    }

    fn mapv(
        &self,
        c: &G,
        pos: usize,
        rec: bool,
        f: impl FnOnce(V, (usize, usize)) -> V,
    ) -> M<R> {
        Ok(match self.ev(c, pos, rec)? {
            R::S(v, p) => R::S(f(v, (pos, p)), p),
            R::R(v, p, es) => R::R(f(v, (pos, p)), p, es),
            r => r,
        })
    }

    fn seq(
        &self,
        gs: &[&G],
        pos: usize,
        rec: bool,
        f: impl FnOnce(Vec<V>) -> V,
    ) -> M<R> {
        let (mut p, mut vs, mut errs, mut any) = (pos, vec![], vec![], false);
        for g in gs {
            match self.ev(g, p, rec)? {
                R::S(v, q) => {
                    vs.push(v);
                    p = q;
                }
                R::R(v, q, es) => {
                    vs.push(v);
                    p = q;
                    errs.extend(es);
                    any = true;
                }
                R::F(i, es) => return Ok(R::F(i, es)),
            }
        }
        let v = f(vs);
        Ok(if any { R::R(v, p, errs) } else { R::S(v, p) })
    }

    fn alt(&self, gs: &[&G], pos: usize, rec: bool) -> M<R> {
        let mut fails = vec![];
        for g in gs {
            match self.ev(g, pos, false)? {
                R::F(i, es) => fails.push((i, es, g)),
                r => return Ok(r),
            }
        }
        fails.sort_by_key(|f| std::cmp::Reverse(f.0));
        if rec {
            for f in &fails {
                match self.ev(f.2, pos, true)? {
                    R::F(..) => (),
                    r => return Ok(r),
                }
            }
        }
        let mut it = fails.into_iter();
        let (i, mut es, _) = it.next().unwrap();
        if es.len() == 1 {
            if let MErr::EF(exp, _, at) = &mut es[0] {
                for (_, es2, _) in it {
                    for e2 in es2 {
                        if let MErr::EF(exp2, _, at2) = e2 {
                            if at2 == *at {
                                exp.extend(exp2);
                            }
                        }
                    }
                }
                exp.sort();
                exp.dedup();
            }
        }
        Ok(R::F(i, es))
    }

    fn rep(&self, r: &Rep, pos: usize, rec: bool) -> M<R> {
        let max = r.max.unwrap_or(usize::MAX);
        let (mut out, mut errs, mut any, mut cur) = (vec![], vec![], false, pos);
        loop {
            let n = out.len();
            if n >= max {
                // Full: only an allowed trailing separator may follow.
                if let (true, Some(sep), true) = (n > 0, &r.sep, r.trail) {
                    if let R::S(_, p) = self.ev(sep, cur, false)? {
                        cur = p;
                    }
                }
                break;
            }
            self.burn()?;
            let needed = n < r.min;
            let rr = rec && needed;
            let before = cur;
            if let Some(sep) = &r.sep {
                if n == 0 {
                    if r.lead {
                        if let R::S(_, p) = self.ev(sep, cur, false)? {
                            cur = p;
                        }
                    }
                } else {
                    match self.ev(sep, cur, rr)? {
                        R::S(_, p) => cur = p,
                        R::R(_, p, es) => {
                            cur = p;
                            errs.extend(es);
                            any = true;
                        }
                        R::F(i, es) => {
                            if needed {
                                return Ok(R::F(i, es));
                            }
                            break;
                        }
                    }
                }
            }
            match self.ev(&r.item, cur, rr)? {
                R::S(v, p) => {
                    out.push(v);
                    cur = p;
                }
                R::R(v, p, es) => {
                    out.push(v);
                    cur = p;
                    errs.extend(es);
                    any = true;
                }
                R::F(i, es) => {
                    if needed {
                        return Ok(R::F(i, es));
                    }
                    if n > 0 && !r.trail {
                        cur = before;
                    }
                    break;
                }
            }
            if cur == before && r.max.is_none() && n > r.min {
                return Err(Diverge);
            }
        }
        let v = V::L(out);
        Ok(if any {
            R::R(v, cur, errs)
        } else {
            R::S(v, cur)
        })
    }

    fn steps(&self, child: &G, steps: &[St], start: usize, s: &mut SState) -> M<Option<V>> {
        for st in steps {
            self.burn()?;
            match st {
                St::Nothing | St::Clone => (),
                St::Restart => s.pos = start,
                St::SeekFailed => s.pos = s.failed,
                St::Skip => s.pos = self.adv(s.pos),
                St::SkipIf(set) => {
                    if self.tok(s.pos).is_some_and(|c| set.contains(c)) {
                        s.pos += 1;
                    }
                }
                St::Find(set) => {
                    while self.tok(s.pos).is_some_and(|c| !set.contains(c)) {
                        s.pos += 1;
                    }
                }
                St::Scan(sc) => self.scan(*sc, s),
                St::Maybe(inner) => {
                    let p = s.pos;
                    if let Some(v) = self.steps(child, inner, start, s)? {
                        return Ok(Some(v));
                    }
                    s.pos = p;
                }
                St::WhileNot(set, inner) => {
                    let mut seen = std::collections::HashSet::new();
                    while self.tok(s.pos).is_some_and(|c| !set.contains(c)) {
                        self.burn()?;
                        // Only position and point of failure can influence the loop; a repeat
                        // of both means it never ends.
                        if !seen.insert((s.pos, s.failed)) {
                            return Err(Diverge);
                        }
                        if let Some(v) = self.steps(child, inner, start, s)? {
                            return Ok(Some(v));
                        }
                        s.pos = self.adv(s.pos);
                    }
                }
                St::Retry(exact, silent) => {
                    if let Some(v) = self.sub(child, *exact, *silent, s)? {
                        return Ok(Some(v));
                    }
                }
                St::TryParse(g, exact, silent) => {
                    if let Some(v) = self.sub(g, *exact, *silent, s)? {
                        return Ok(Some(v));
                    }
                }
                St::PushErr(k) => s.errs.push(self.e(MErr::Cu(format!("push{k}"), A::No))),
                St::PushHere(k) => s
                    .errs
                    .push(self.e(MErr::Cu(format!("here{k}"), A::L(s.pos)))),
                St::PushUpTo(k) => s
                    .errs
                    .push(self.e(MErr::Cu(format!("upto{k}"), A::S(start, s.pos)))),
                St::PushTok(k) => {
                    let t = self.tok(s.pos);
                    s.errs
                        .push(self.e(MErr::Cu(format!("tok{k}{t:?}"), self.tspan(s.pos))))
                }
                St::Upd(k) => self.upd(*k, &mut s.errs, "", A::No),
                St::UpdHere(k) => self.upd(*k, &mut s.errs, "", A::L(s.pos)),
                St::UpdUpTo(k) => self.upd(*k, &mut s.errs, "", A::S(start, s.pos)),
                St::UpdTok(k) => {
                    let t = self.tok(s.pos);
                    self.upd(*k, &mut s.errs, &format!("{t:?}"), self.tspan(s.pos))
                }
            }
        }
        Ok(None)
    }

    fn upd(&self, k: u32, errs: &mut Vec<MErr>, t: &str, at: A) {
        match k {
            0 => errs.clear(),
            1 => errs.truncate(1),
            3 => errs.reverse(),
            _ => {
                let n = errs.len();
                errs.push(self.e(MErr::Cu(format!("upd{k}.{n}{t}"), at)));
            }
        }
    }

    fn sub(&self, g: &G, exact: bool, silent: bool, s: &mut SState) -> M<Option<V>> {
        Ok(match self.ev(g, s.pos, !exact)? {
            R::S(v, p) => {
                s.pos = p;
                Some(v)
            }
            R::R(v, p, es) => {
                s.pos = p;
                if !silent {
                    s.errs.extend(es);
                }
                Some(v)
            }
            R::F(i, es) => {
                if !silent {
                    s.errs.extend(es);
                }
                s.failed = self.adv_to(s.pos, i);
                None
            }
        })
    }

    fn scan(&self, sc: Sc, s: &mut SState) {
        match sc {
            Sc::Bare(k) => {
                let mut seen = 0;
                while let Some(c) = self.tok(s.pos) {
                    seen += 1;
                    if seen == 2 {
                        s.errs.push(self.e(MErr::Cu(format!("bare{c}"), A::No)));
                    }
                    if seen >= k {
                        return;
                    }
                    s.pos += 1;
                }
            }
            Sc::Stop(k) => {
                let mut seen = 0;
                loop {
                    match self.tok(s.pos) {
                        None => {
                            // None, one or two.
                            for k in 0..(seen + 1) % 3 {
                                s.errs.push(
                                    self.e(MErr::Cu(format!("scan-eof{seen}/{k}"), A::L(s.pos))),
                                );
                            }
                            return;
                        }
                        Some(c) => {
                            seen += 1;
                            s.errs.push(
                                self.e(MErr::Cu(format!("scan{c}{seen}"), A::S(s.pos, s.pos + 1))),
                            );
                            if c == 'b' || seen >= k {
                                return;
                            }
                            s.pos += 1;
                        }
                    }
                }
            }
            Sc::Nest(t) => {
                let mut stack = vec![];
                loop {
                    match self.tok(s.pos) {
                        None => {
                            while let Some((_, c, p)) = stack.pop() {
                                s.errs
                                    .push(self.e(MErr::UL(c, (p, p + 1), A::L(s.pos))));
                            }
                            return;
                        }
                        Some(c) => {
                            let mut es = vec![];
                            nest_token(crate::ast::types(t), &mut stack, c, s.pos, &mut es);
                            s.errs.extend(self.es(es));
                            if stack.is_empty() {
                                return;
                            }
                            s.pos += 1;
                        }
                    }
                }
            }
        }
    }
}

/// One step of delimiter matching: `stack` holds (type, token, position).
pub fn nest_token(
    types: &[(char, char)],
    stack: &mut Vec<(usize, char, usize)>,
    c: char,
    pos: usize,
    errs: &mut Vec<MErr>,
) {
    let span = (pos, pos + 1);
    if stack.last().is_some_and(|(t, _, _)| types[*t].1 == c) {
        stack.pop();
    } else if let Some(t) = types.iter().position(|(l, _)| *l == c) {
        stack.push((t, c, pos));
    } else if let Some(t) = types.iter().position(|(_, r)| *r == c) {
        if let Some(at) = stack.iter().rposition(|(u, _, _)| *u == t) {
            // Everything opened after the matching one was left open.
            for (_, l, p) in stack.split_off(at + 1).into_iter().rev() {
                errs.push(MErr::UL(l, (p, p + 1), A::S(span.0, span.1)));
            }
            stack.pop();
        } else if let Some((_, l, p)) = stack.pop() {
            errs.push(MErr::UT(l, (p, p + 1), c, span));
        } else {
            errs.push(MErr::UR(c, span, A::No));
        }
    }
}
