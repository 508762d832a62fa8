//! The token stream: exhaustive operation histories (C01, C02, C03), buffering bounds (C03) and
//! grammar runs that look at locations (C02) or at the source iterator (C03).

use crate::ast::*;
use crate::checks::gram::*;
use crate::explore::*;
use crate::model::*;
use crate::obs::*;
use crate::real::*;
use parse_proof_of_concept::location::{self, Rich, RichLocation, RichOffset, RichSpan, Tracker};
use parse_proof_of_concept::parser::Parser;
use parse_proof_of_concept::stream::{SavedState, Stream};
use std::cell::Cell;
use std::fmt::Debug;
use std::rc::Rc;

pub type Row = [u64; 4];

/// A token type with a location tracker and an independently computed table of locations.
pub trait Kit: 'static {
    type I: Clone + PartialEq + Debug + 'static;
    type L: Tracker<Self::I> + 'static;
    const NAME: &'static str;
    fn tape(n: usize) -> Vec<Self::I>;
    fn start() -> Self::L;
    fn stream(src: GSrc<Self::I>) -> Stream<'static, Self::I, Self::L> {
        Stream::new_with_location(src, Self::start())
    }
    /// Expected locations at positions 0..=n (component 0 is always the index).
    fn table(tape: &[Self::I]) -> Vec<Row>;
    fn loc(l: &<Self::L as Tracker<Self::I>>::Location) -> Row;
    fn span(l: &<Self::L as Tracker<Self::I>>::Span) -> (Row, Row);
}

pub struct KPlain;
impl Kit for KPlain {
    type I = char;
    type L = location::Simple;
    const NAME: &'static str = "index";
    fn tape(n: usize) -> Vec<char> {
        // Distinct characters: the second range starts after the surrogates.
        let c = |i: u32| if i < 0x5000 { 0x4e00 + i } else { 0x10000 + i };
        (0..n as u32).map(|i| char::from_u32(c(i)).unwrap()).collect()
    }
    fn start() -> Self::L {
        Default::default()
    }
    fn stream(src: GSrc<char>) -> Stream<'static, char, Self::L> {
        Stream::new(src)
    }
    fn table(tape: &[char]) -> Vec<Row> {
        (0..=tape.len() as u64).map(|i| [i, 0, 0, 0]).collect()
    }
    fn loc(l: &usize) -> Row {
        [*l as u64, 0, 0, 0]
    }
    fn span(l: &std::ops::Range<usize>) -> (Row, Row) {
        ([l.start as u64, 0, 0, 0], [l.end as u64, 0, 0, 0])
    }
}

pub struct KTrk;
fn trk_start() -> Trk {
    Trk { n: 1000, h: 77 }
}
fn trow(l: &TLoc) -> Row {
    [l.idx as u64, l.t.n as u64, l.t.h, 0]
}
impl Kit for KTrk {
    type I = char;
    type L = Trk;
    const NAME: &'static str = "hash";
    fn tape(n: usize) -> Vec<char> {
        KPlain::tape(n)
    }
    fn start() -> Trk {
        trk_start()
    }
    fn table(tape: &[char]) -> Vec<Row> {
        trackers(trk_start(), tape)
            .iter()
            .enumerate()
            .map(|(i, t)| [i as u64, t.n as u64, t.h, 0])
            .collect()
    }
    fn loc(l: &TLoc) -> Row {
        trow(l)
    }
    fn span(l: &TSpan) -> (Row, Row) {
        (trow(&l.from), trow(&l.to))
    }
}

/// The row/column tracker of the library; the start location is the end of some other text.
pub struct KRich;
pub type RichL = Rich<&'static str, for<'a> fn(&'a &'static str) -> &'a str>;
fn same<'a>(s: &'a &'static str) -> &'a str {
    s
}
pub fn rich_new(name: &str) -> RichL {
    Rich::new(name, same as for<'a> fn(&'a &'static str) -> &'a str)
}
pub const RICH_TOKENS: [&str; 10] = [
    "a", "\n", "é", "x\ny", "", "\r\n", "日本\n\n", "\t", "\r", "𝄞𝄞\né",
];
const RICH_BEFORE: [&str; 3] = ["start\n", "ab", "ü"];
/// Row, column and byte offset after `text`, from the definition.
pub fn rich_row(text: &str, index: u64) -> Row {
    let row = 1 + text.matches('\n').count() as u64;
    let last = match text.rfind('\n') {
        Some(p) => &text[p + 1..],
        None => text,
    };
    [index, row, 1 + last.chars().count() as u64, text.len() as u64]
}
fn off(o: &RichOffset, name: &str) -> Row {
    if name != "file.x" {
        return [u64::MAX; 4];
    }
    [o.index as u64, o.row as u64, o.column as u64, o.offset as u64]
}
impl Kit for KRich {
    type I = &'static str;
    type L = RichL;
    const NAME: &'static str = "row-column";
    fn tape(n: usize) -> Vec<&'static str> {
        (0..n).map(|i| RICH_TOKENS[(i * 7 + i / 10 * 3) % 10]).collect()
    }
    fn start() -> RichL {
        let mut l = rich_new("file.x");
        for t in &RICH_BEFORE {
            l.advance(t);
        }
        l
    }
    fn table(tape: &[&'static str]) -> Vec<Row> {
        let mut text: String = RICH_BEFORE.concat();
        let mut v = vec![rich_row(&text, 0)];
        if tape.len() > 1000 {
            // The same, one character at a time.
            let mut at = v[0];
            for t in tape {
                for c in t.chars() {
                    at[2] += 1;
                    if c == '\n' {
                        (at[1], at[2]) = (at[1] + 1, 1);
                    }
                    at[3] += c.len_utf8() as u64;
                }
                at[0] += 1;
                v.push(at);
            }
            return v;
        }
        for (i, t) in tape.iter().enumerate() {
            text.push_str(t);
            v.push(rich_row(&text, i as u64 + 1));
        }
        v
    }
    fn loc(l: &RichLocation) -> Row {
        off(&l.offset, &l.filename)
    }
    fn span(l: &RichSpan) -> (Row, Row) {
        (off(&l.from, &l.filename), off(&l.to, &l.filename))
    }
}

/// Source that counts polls and keeps answering (wrongly) after its end.
pub struct GSrc<I> {
    tape: Rc<[I]>,
    i: usize,
    log: Rc<SrcLog>,
}
impl<I: Clone> Iterator for GSrc<I> {
    type Item = I;
    fn next(&mut self) -> Option<I> {
        burn();
        self.log.polls.set(self.log.polls.get() + 1);
        if self.i > self.tape.len() {
            self.log.after_end.set(self.log.after_end.get() + 1);
            return self.tape.first().cloned();
        }
        let r = self.tape.get(self.i).cloned();
        self.i += 1;
        r
    }
    /// Nothing promised, or the exact number.
    fn size_hint(&self) -> (usize, Option<usize>) {
        match self.tape.len() % 2 {
            0 => (0, None),
            _ => {
                let n = self.tape.len().saturating_sub(self.i);
                (n, Some(n))
            }
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Op {
    Token,
    Eof,
    Span,
    Loc,
    Adv,
    AdvTo(usize),
    Save,
    SaveAt(usize),
    Attempt(bool),
    Restore(u8),
    TokAt(u8),
    LocAt(u8),
    Back(u8),
    Drop(u8),
}
use Op::*;

/// What is judged.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum What {
    Tokens,
    Locations,
    Polls,
}

struct Cx<K: Kit> {
    what: What,
    tape: Rc<[K::I]>,
    table: Rc<[Row]>,
    slots: Vec<Option<(SavedState, usize)>>,
    log: Rc<SrcLog>,
    pos: usize,
    look: usize,
    ops: Vec<Op>,
    bad: Option<String>,
    /// The real stream left the model behind in a way another property judges.
    desync: bool,
    checks: u64,
}
type Sm<K> = Stream<'static, <K as Kit>::I, <K as Kit>::L>;

impl<K: Kit> Cx<K> {
    fn new(what: What, tape: &Rc<[K::I]>, table: &Rc<[Row]>, nslots: usize) -> (Self, Sm<K>) {
        let log = Rc::new(SrcLog::default());
        let src = GSrc {
            tape: tape.clone(),
            i: 0,
            log: log.clone(),
        };
        let st = K::stream(src);
        (
            Cx {
                what,
                tape: tape.clone(),
                table: table.clone(),
                slots: (0..nslots).map(|_| None).collect(),
                log,
                pos: 0,
                look: 0,
                ops: vec![],
                bad: None,
                desync: false,
                checks: 0,
            },
            st,
        )
    }
    fn fail(&mut self, s: impl FnOnce() -> String) {
        if self.bad.is_none() {
            self.bad = Some(s());
        }
    }
    fn over(&self) -> bool {
        self.bad.is_some() || self.desync
    }
    fn need(&mut self, p: usize) {
        self.look = self.look.max(p + 1);
    }
    fn expect_tok(&mut self, got: Option<&K::I>, p: usize, how: &str) {
        self.checks += 1;
        let want = self.tape.get(p);
        if got != want {
            match self.what {
                What::Tokens => {
                    let (g, w) = (format!("{got:?}"), format!("{want:?}"));
                    self.fail(|| format!("{how} at position {p} gives {g} instead of {w}"))
                }
                _ => self.desync = true,
            }
        }
    }
    fn expect_bool(&mut self, got: bool, want: bool, how: &str) {
        self.checks += 1;
        if got != want {
            match self.what {
                What::Tokens => self.fail(|| format!("{how} returns {got}")),
                _ => self.desync = true,
            }
        }
    }
    fn expect_loc(&mut self, got: Row, p: usize, how: &str) {
        if self.what != What::Locations {
            return;
        }
        self.checks += 1;
        let want = self.table[p];
        if got != want {
            self.fail(|| format!("{how} at position {p} is {got:?} instead of {want:?}"))
        }
    }
    fn expect_span(&mut self, got: (Row, Row), a: usize, b: usize, how: &str) {
        if self.what != What::Locations {
            return;
        }
        self.checks += 1;
        let want = (self.table[a], self.table[b]);
        if got != want {
            self.fail(|| format!("{how} from {a} to {b} is {got:?} instead of {want:?}"))
        }
    }
    /// Checks that hold after every operation.
    fn always(&mut self, st: &mut Sm<K>) {
        if st.index() != self.pos {
            let i = st.index();
            let p = self.pos;
            match self.what {
                What::Tokens => self.fail(|| format!("position is {i} instead of {p}")),
                _ => self.desync = true,
            }
            return;
        }
        match self.what {
            What::Tokens => (),
            What::Locations => {
                let l = K::loc(&st.location());
                self.expect_loc(l, self.pos, "location");
                let l = K::loc(&st.location_tracker().location(self.pos));
                self.expect_loc(l, self.pos, "location of the tracker");
            }
            What::Polls => {
                self.checks += 1;
                let (p, a) = (self.log.polls.get(), self.log.after_end.get());
                let want = self.look.min(self.tape.len() + 1);
                if a > 0 {
                    self.fail(|| "source polled again after its end".into());
                }
                if p > want {
                    self.fail(|| format!("{p} tokens pulled although only {want} were needed"));
                }
            }
        }
    }
    fn apply(&mut self, st: &mut Sm<K>, op: Op, body: &mut dyn FnMut(&mut Self, &mut Sm<K>)) {
        self.ops.push(op);
        let len = self.tape.len();
        match op {
            Token => {
                self.need(self.pos);
                let t = st.token().cloned();
                self.expect_tok(t.as_ref(), self.pos, "token");
            }
            Eof => {
                self.need(self.pos);
                let e = st.eof();
                self.expect_bool(e, self.pos == len, "eof");
            }
            Span => {
                self.need(self.pos);
                let s = K::span(&st.span());
                self.expect_span(s, self.pos, (self.pos + 1).min(len), "token span");
            }
            Loc => {
                let l = K::loc(&st.location());
                self.expect_loc(l, self.pos, "location");
            }
            Adv => {
                self.need(self.pos);
                let r = st.advance();
                self.expect_bool(r, self.pos < len, "advance");
                self.pos = (self.pos + 1).min(len);
            }
            AdvTo(d) => {
                let to = self.pos + d;
                if d > 0 {
                    self.need(to - 1);
                }
                let r = st.advance_to(to);
                self.expect_bool(r, to <= len, "advance_to");
                self.pos = to.min(len);
            }
            Save | SaveAt(_) => {
                let k = self.slots.iter().position(|s| s.is_none()).unwrap_or(0);
                let (s, p) = match op {
                    SaveAt(d) => {
                        let to = self.pos + d;
                        if d > 0 {
                            self.need(to - 1);
                        }
                        (st.save_at(to), to.min(len))
                    }
                    _ => (st.save(), self.pos),
                };
                let i = st.index_at(&s);
                if i != p {
                    match self.what {
                        What::Tokens => {
                            self.fail(|| format!("saved position is {i} instead of {p}"))
                        }
                        _ => self.desync = true,
                    }
                }
                self.slots[k] = Some((s, p));
            }
            Attempt(ok) => {
                let at = self.pos;
                st.attempt(|st| {
                    body(self, st);
                    if ok {
                        Ok(())
                    } else {
                        Err(())
                    }
                });
                if !ok {
                    self.pos = at;
                }
            }
            Restore(k) => {
                let s = self.slots[k as usize].as_ref().unwrap();
                st.restore(&s.0);
                self.pos = s.1;
            }
            TokAt(k) => {
                let (s, p) = self.slots[k as usize].take().unwrap();
                self.need(p);
                let t = st.token_at(&s).cloned();
                self.expect_tok(t.as_ref(), p, "token_at");
                self.slots[k as usize] = Some((s, p));
            }
            LocAt(k) => {
                let (s, p) = self.slots[k as usize].take().unwrap();
                let l = K::loc(&st.location_at(&s));
                self.expect_loc(l, p, "location_at");
                let l = K::loc(&st.location_tracker_at(&s).location(p));
                self.expect_loc(l, p, "location of the tracker at a save point");
                self.slots[k as usize] = Some((s, p));
            }
            Back(k) => {
                let (s, p) = self.slots[k as usize].take().unwrap();
                let l = K::span(&st.spanning_back_to(&s));
                self.expect_span(l, p, self.pos, "spanning_back_to");
                self.slots[k as usize] = Some((s, p));
            }
            Drop(k) => self.slots[k as usize] = None,
        }
        if !self.over() {
            self.always(st);
        }
    }
    fn allowed(&self, op: Op) -> bool {
        match op {
            Restore(k) | TokAt(k) | LocAt(k) | Back(k) | Drop(k) => {
                self.slots[k as usize].is_some()
            }
            _ => true,
        }
    }
    /// Reads up to `n` tokens from the current position.
    fn read(&mut self, st: &mut Sm<K>, n: usize) {
        for _ in 0..n {
            if self.over() {
                return;
            }
            self.need(self.pos);
            let t = st.token().cloned();
            self.expect_tok(t.as_ref(), self.pos, "token");
            let s = K::span(&st.span());
            let len = self.tape.len();
            self.expect_span(s, self.pos, (self.pos + 1).min(len), "token span");
            let r = st.advance();
            self.expect_bool(r, self.pos < len, "advance");
            self.pos = (self.pos + 1).min(len);
            if !self.over() {
                self.always(st);
            }
            if t.is_none() {
                break;
            }
        }
    }
    /// Re-reads everything that must still be readable.
    fn audit(&mut self, st: &mut Sm<K>, n: usize, reverse: bool) {
        let nop = &mut |_: &mut Self, _: &mut Sm<K>| ();
        let mut order: Vec<u8> = (0..self.slots.len() as u8).collect();
        if reverse {
            order.reverse();
        }
        for &k in &order {
            if self.slots[k as usize].is_none() {
                continue;
            }
            for op in [LocAt(k), TokAt(k), Back(k), Restore(k)] {
                if self.over() {
                    return;
                }
                if self.allowed(op) {
                    self.apply(st, op, nop);
                }
            }
            self.read(st, n);
        }
        self.read(st, self.tape.len() + 2);
        // And once more after everything has been read.
        for &k in &order {
            if self.slots[k as usize].is_none() {
                continue;
            }
            for op in [TokAt(k), LocAt(k), Back(k), Restore(k), Span, Token] {
                if self.over() {
                    return;
                }
                if self.allowed(op) {
                    self.apply(st, op, nop);
                }
            }
        }
        self.read(st, n);
    }
    fn explore(
        &mut self,
        st: &mut Sm<K>,
        ch: &Ch,
        menu: &[Op],
        budget: &Cell<usize>,
        nest: usize,
    ) {
        let mut avail: [Op; 48] = [Token; 48];
        loop {
            if self.over() || budget.get() == 0 {
                return;
            }
            let mut n = 0;
            for op in menu {
                if self.allowed(*op) && (nest < 2 || !matches!(op, Attempt(_))) {
                    avail[n] = *op;
                    n += 1;
                }
            }
            let k = ch.pick(n + 1);
            if k == 0 {
                return;
            }
            budget.set(budget.get() - 1);
            self.apply(st, avail[k - 1], &mut |cx, st| {
                cx.explore(st, ch, menu, budget, nest + 1)
            });
        }
    }
    fn finish(self, id: &str, st: &mut Stats, len: usize) -> Result<(), Viol> {
        st.states += self.ops.len() as u64 + 1;
        st.transitions += self.checks;
        st.compared += 1;
        st.outcome(&(self.pos, self.look, self.log.polls.get(), self.ops.len()));
        if self.desync {
            st.count("left_to_other_property");
        }
        let ops = &self.ops;
        st.sample(|| format!("{} tracker, {len} tokens: {ops:?} -> position {}", K::NAME, self.pos));
        match self.bad {
            None => Ok(()),
            Some(b) => Err(Viol::new(
                format!("{id}:{}:{len}:{:?}", K::NAME, self.ops),
                format!("{b}\n  source of {len} tokens, {} tracker\n  operations: {:?}", K::NAME, self.ops),
            )),
        }
    }
}

pub fn full_menu(slots: u8) -> Vec<Op> {
    let mut v = vec![
        Token,
        Eof,
        Span,
        Adv,
        AdvTo(0),
        AdvTo(2),
        AdvTo(5),
        AdvTo(50),
        Save,
        SaveAt(0),
        SaveAt(1),
        SaveAt(3),
        SaveAt(9),
        Attempt(true),
        Attempt(false),
    ];
    for k in 0..slots {
        v.extend([Restore(k), TokAt(k), LocAt(k), Back(k), Drop(k)]);
    }
    v
}
pub fn thin_menu(slots: u8) -> Vec<Op> {
    let mut v = vec![Adv, AdvTo(4), Save, SaveAt(2), Token];
    for k in 0..slots {
        v.extend([Restore(k), Drop(k)]);
    }
    v
}
pub fn walk_menu() -> Vec<Op> {
    // Moves by amounts around the buffer capacities 4, 8, 16, 32.
    vec![Adv, AdvTo(3), AdvTo(7), AdvTo(16), Save, SaveAt(4), SaveAt(12), Restore(0), Restore(1), Drop(0)]
}

pub fn long_menu() -> Vec<Op> {
    vec![Adv, AdvTo(15), AdvTo(33), AdvTo(64), AdvTo(127), AdvTo(257), Save, SaveAt(40), SaveAt(130), Restore(0), Restore(1), Drop(0)]
}

/// Moves, windows and look-back beyond any small integer type or fixed capacity.
fn huge_moves<K: Kit>(id: &'static str, what: What, t: bool) -> Vec<Part<'static>> {
    let menu = |far: usize| {
        vec![Adv, AdvTo(1500), AdvTo(5000), AdvTo(far), Save, SaveAt(3000), Restore(0), Restore(1), Drop(0)]
    };
    vec![
        histories::<K>(id, "huge-moves", what, menu(9000), 2, if t { 5 } else { 4 }, vec![10_000], 5),
        histories::<K>(id, "very-huge-moves", what, menu(66_000), 2, if t { 4 } else { 3 }, vec![70_000], 5),
    ]
}

/// All histories over a menu of operations.
fn histories<K: Kit>(
    id: &'static str,
    name: &'static str,
    what: What,
    menu: Vec<Op>,
    slots: usize,
    depth: usize,
    lens: Vec<usize>,
    reread: usize,
) -> Part<'static> {
    part(name, lens.len() * 2, move |cfg, ch, stats| {
        let len = lens[cfg / 2];
        let tape: Rc<[K::I]> = Rc::from(K::tape(len));
        let table: Rc<[Row]> =
            Rc::from(if what == What::Locations { K::table(&tape) } else { vec![] });
        let (mut cx, mut st) = Cx::<K>::new(what, &tape, &table, slots);
        let budget = Cell::new(depth);
        let r = guarded(|| {
            cx.explore(&mut st, ch, &menu, &budget, 0);
            if !cx.over() {
                cx.audit(&mut st, reread, cfg % 2 == 1);
            }
        });
        if let Err(e) = r {
            cx.fail(|| e);
        }
        cx.finish(id, stats, len)
    })
}

/// Many save points: saves interleaved with moves, some dropped, a long advance, then audit, then
/// more saves and another audit.
fn many_saves<K: Kit>(id: &'static str, what: What, t: bool) -> Part<'static> {
    saves_part::<K>(id, what, "many-save-points", vec![90, 40, 17], (1..if t { 15 } else { 12 }).collect(),
        vec![0, 1, 2, 3, 4, 5, 7, 8, 9, 13, 16, 30, 33, 66, 100], if t { 9 } else { 6 })
}
/// Numbers around every power of two up to 200.
fn very_many_saves<K: Kit>(id: &'static str, what: What, t: bool) -> Part<'static> {
    let ns = if t { (12..72).chain([100, 127, 128, 129, 200, 250]).collect() } else { vec![16, 17, 32, 33, 48, 64, 65, 100, 129, 200] };
    saves_part::<K>(id, what, "very-many-save-points", vec![700, 130], ns, vec![0, 6, 33, 140, 300], 0)
}
fn saves_part<K: Kit>(
    id: &'static str,
    what: What,
    name: &'static str,
    lens: Vec<usize>,
    ns: Vec<usize>,
    advs: Vec<usize>,
    full_up_to: usize,
) -> Part<'static> {
    part(name, lens.len(), move |cfg, ch, stats| {
        let len = lens[cfg];
        let tape: Rc<[K::I]> = Rc::from(K::tape(len));
        let table: Rc<[Row]> = Rc::from(K::table(&tape));
        let n = ch.of(&ns);
        let gap = ch.pick(4);
        let ahead = ch.pick(3);
        let full = n <= full_up_to;
        let drops: Vec<bool> = if full {
            (0..n).map(|_| ch.flag()).collect()
        } else {
            // Contiguous ranges, or every second.
            let k = if n < 15 {
                ch.pick(n * 2 + 2)
            } else {
                ch.of(&[0, 1, n / 2, n - 1, n, n + 1, n + n / 2, 2 * n - 1, 2 * n, 2 * n + 1])
            };
            (0..n)
                .map(|i| {
                    if k < n {
                        i < k
                    } else if k < 2 * n {
                        i >= k - n
                    } else {
                        i % 2 == k % 2
                    }
                })
                .collect()
        };
        let adv = ch.of(&advs);
        let after = ch.pick(3);
        let (mut cx, mut st) = Cx::<K>::new(what, &tape, &table, n + 4);
        let r = guarded(|| {
            let nop = &mut |_: &mut Cx<K>, _: &mut Sm<K>| ();
            let mut go = |cx: &mut Cx<K>, op: Op| {
                if !cx.over() && cx.allowed(op) {
                    cx.apply(&mut st, op, nop);
                }
            };
            for i in 0..n {
                match ahead {
                    0 => go(&mut cx, Save),
                    1 => go(&mut cx, SaveAt(i % 4)),
                    _ => go(&mut cx, SaveAt(n - i)),
                }
                if gap > 0 {
                    go(&mut cx, AdvTo(gap));
                }
            }
            for i in 0..n {
                if drops[i] {
                    go(&mut cx, Drop(i as u8));
                }
            }
            for _ in 0..adv {
                go(&mut cx, Adv);
            }
            match after {
                0 => (),
                1 => {
                    // Save, go back to the oldest survivor, come forward again.
                    go(&mut cx, Save);
                    let old = (0..n).find(|i| !drops[*i]);
                    if let Some(o) = old {
                        go(&mut cx, Restore(o as u8));
                    }
                    go(&mut cx, Save);
                    go(&mut cx, AdvTo(9));
                }
                _ => {
                    go(&mut cx, Save);
                    go(&mut cx, AdvTo(3));
                    go(&mut cx, Save);
                    go(&mut cx, AdvTo(20));
                    go(&mut cx, SaveAt(5));
                }
            }
            if !cx.over() {
                cx.audit(&mut st, 6, n % 2 == 0);
            }
        });
        if let Err(e) = r {
            cx.fail(|| e);
        }
        cx.finish(id, stats, len)
    })
}

/// Loops: a body of operations repeated along a long source.
fn loops<K: Kit>(id: &'static str, what: What, len: usize, reps: usize, depth: usize) -> Part<'static> {
    let menu = [
        Token,
        Adv,
        AdvTo(3),
        Save,
        SaveAt(2),
        Restore(0),
        Restore(1),
        Drop(0),
        Attempt(false),
        Attempt(true),
    ];
    part("loops", 1, move |_, ch, stats| {
        let tape: Rc<[K::I]> = Rc::from(K::tape(len));
        let table: Rc<[Row]> = Rc::from(K::table(&tape));
        let n = 1 + ch.pick(depth);
        let body: Vec<Op> = (0..n).map(|_| ch.of(&menu)).collect();
        let (mut cx, mut st) = Cx::<K>::new(what, &tape, &table, 2);
        let r = guarded(|| {
            for _ in 0..reps {
                for op in &body {
                    if !cx.over() && cx.allowed(*op) {
                        cx.apply(&mut st, *op, &mut |cx, st| {
                            // Attempts look two tokens ahead.
                            for op in [Adv, Token, Adv] {
                                if !cx.over() {
                                    cx.apply(st, op, &mut |_, _| ());
                                }
                            }
                        });
                    }
                }
                // Only the tail of the history is kept for the report.
                if cx.ops.len() > 64 && !cx.over() {
                    cx.ops.drain(..32);
                }
            }
            if !cx.over() {
                cx.audit(&mut st, 8, false);
            }
        });
        if let Err(e) = r {
            cx.fail(|| format!("{e} (loop body {body:?})"));
        }
        cx.finish(id, stats, len)
    })
}

pub fn c01(t: bool) -> Vec<Part<'static>> {
    let w = What::Tokens;
    type K = KPlain;
    let mut v = vec![
        histories::<K>("C01", "all-operations", w, full_menu(2), 2, if t { 6 } else { 5 },
            if t { vec![1, 3, 9] } else { vec![0, 1, 3, 9, 40] }, 6),
        histories::<K>("C01", "three-slots-thin", w, thin_menu(3), 3, if t { 8 } else { 7 },
            vec![2, 4, 7, 30], 5),
        histories::<K>("C01", "long-moves", w, walk_menu(), 2, if t { 7 } else { 6 },
            vec![8, 33, 70], 9),
        many_saves::<K>("C01", w, t),
        very_many_saves::<K>("C01", w, t),
        histories::<K>("C01", "longer-moves", w, long_menu(), 2, if t { 6 } else { 5 }, vec![300, 600], 5),
        loops::<K>("C01", w, 200, 150, if t { 5 } else { 4 }),
    ];
    v.extend(huge_moves::<K>("C01", w, t));
    if t {
        v.push(histories::<K>("C01", "all-operations-lengths", w, full_menu(2), 2, 5,
            vec![0, 2, 4, 5, 8, 16, 20, 60], 6));
    }
    v
}

//---------------------------------------------------------------------------------------------
// C02

fn strip(r: &R) -> R {
    fn sv(v: &V) -> V {
        match v {
            V::O(x) => V::O(x.as_ref().map(|x| Box::new(sv(x)))),
            V::P(a, b) => V::P(Box::new(sv(a)), Box::new(sv(b))),
            V::L(x) => V::L(x.iter().map(sv).collect()),
            V::T(k, x) => V::T(*k, Box::new(sv(x))),
            V::Sp(x, _, _) => V::Sp(Box::new(sv(x)), 0, 0),
            x => x.clone(),
        }
    }
    fn sa(a: &A) -> A {
        match a {
            A::No => A::No,
            A::L(_) => A::L(0),
            A::S(..) => A::S(0, 0),
        }
    }
    fn se(e: &MErr) -> MErr {
        match e {
            MErr::EF(x, f, a) => MErr::EF(x.clone(), *f, sa(a)),
            MErr::UL(c, _, a) => MErr::UL(*c, (0, 0), sa(a)),
            MErr::UR(c, _, a) => MErr::UR(*c, (0, 0), sa(a)),
            MErr::UT(c, _, d, _) => MErr::UT(*c, (0, 0), *d, (0, 0)),
            MErr::Cu(m, a) => MErr::Cu(m.clone(), sa(a)),
            MErr::Void => MErr::Void,
        }
    }
    match r {
        R::S(v, p) => R::S(sv(v), *p),
        R::R(v, p, es) => R::R(sv(v), *p, es.iter().map(se).collect()),
        R::F(i, es) => R::F(*i, es.iter().map(se).collect()),
    }
}
/// Whether any location in the result contradicts the tape (see `ToP for TLoc`).
fn has_bad(r: &R) -> bool {
    fn bv(v: &V) -> bool {
        match v {
            V::O(x) => x.as_ref().is_some_and(|x| bv(x)),
            V::P(a, b) => bv(a) || bv(b),
            V::L(x) => x.iter().any(bv),
            V::T(_, x) => bv(x),
            V::Sp(x, a, b) => bv(x) || *a >= BAD || *b >= BAD,
            _ => false,
        }
    }
    let ba = |a: &A| match a {
        A::No => false,
        A::L(p) => *p >= BAD,
        A::S(p, q) => *p >= BAD || *q >= BAD,
    };
    let be = |e: &MErr| match e {
        MErr::EF(_, _, a) | MErr::Cu(_, a) => ba(a),
        MErr::UL(_, s, a) | MErr::UR(_, s, a) => s.0 >= BAD || s.1 >= BAD || ba(a),
        MErr::UT(_, s, _, u) => s.0 >= BAD || s.1 >= BAD || u.0 >= BAD || u.1 >= BAD,
        MErr::Void => false,
    };
    match r {
        R::S(v, _) => bv(v),
        R::R(v, _, es) => bv(v) || es.iter().any(be),
        R::F(_, es) => es.iter().any(be),
    }
}

fn judge_c02(b: &Both) -> Result<(), String> {
    for k in 0..2 {
        let (o, m) = (&b.o[k], &b.m[k]);
        if has_bad(&o.r) {
            return Err("a location does not describe any position of the input".into());
        }
        if o.loc != o.pos {
            return Err(format!("location after the parse is that of {} instead of {}", o.loc, o.pos));
        }
        if o.r != *m && strip(&o.r) == strip(m) {
            return Err("a location or span differs".into());
        }
    }
    Ok(())
}

/// Shape with every callback that receives a location or span.
fn loc_shape(side: usize) -> Shape {
    use St::*;
    fn r1(g: Box<G>) -> G {
        G::Rec(g, strat(vec![Skip, PushHere(1), Skip, PushUpTo(2), PushTok(3), UpdHere(2)], Fin::ReturnSpan(7)))
    }
    fn r2(g: Box<G>) -> G {
        G::Rec(g, strat(vec![SeekFailed, UpdUpTo(2), Skip, UpdTok(2), Restart, PushTok(1)], Fin::OrFail))
    }
    fn r3(g: Box<G>) -> G {
        G::Rec(g, strat(vec![Find("b"), PushUpTo(1), Retry(false, false), PushTok(2)], Fin::ReturnSpan(7)))
    }
    fn r4(g: Box<G>) -> G {
        G::Rec(g, strat(vec![Scan(Sc::Stop(2)), PushHere(1), Scan(Sc::Nest(3))], Fin::ReturnSpan(7)))
    }
    fn r5(g: Box<G>) -> G {
        G::Rec(g, strat(vec![WhileNot("c", vec![PushTok(1), Retry(true, false)]), PushUpTo(2)], Fin::ReturnSpan(7)))
    }
    Shape {
        leaves: vec![G::Just('a'), G::Just('b'), G::Seq("ab"), G::End, G::OneOf("ab"), G::NoneOf("a"), G::Filter("b"), G::FilterMap("a")],
        un: vec![
            G::MapSpan, G::MapErr, G::MapErrSpan, u::tm_err, u::tm_rec, u::tm_ok, G::OrNot, u::star, u::two,
            r1, r2, r3, r4, r5,
        ],
        bin: vec![G::Then, G::Or, b::sep1lt],
        tri: vec![],
        side,
    }
}

fn c02_grammars(name: &'static str, shape: Shape, depth: usize, inputs: Vec<Vec<char>>, pres: Vec<Pre>) -> Part<'static> {
    part(name, 1, move |_, ch, st| {
        let g = shape.gen(ch, depth);
        let inputs: Vec<Rc<[char]>> = inputs.iter().map(|v| Rc::from(&v[..])).collect();
        judge_grammar_from::<ET>(&g, &inputs, &pres, trk_start(), st, &judge_c02, "C02")
    })
}

/// Everything the row/column tracker reports through errors and spans, on all token strings.
fn c02_rich_parser(t: bool) -> Part<'static> {
    use parse_proof_of_concept::error::{At, Error, Simple};
    use parse_proof_of_concept::primitive as prim;
    const TOK: [&str; 5] = ["a", "\n", "é\nxy", "日", ""];
    let n = if t { 7 } else { 5 };
    part("row-column-parser", n + 1, move |len, ch, st| {
        let toks: Vec<&'static str> = (0..len).map(|_| ch.of(&TOK)).collect();
        let mut table = vec![rich_row("", 0)];
        let mut text = String::new();
        for (i, s) in toks.iter().enumerate() {
            text.push_str(s);
            table.push(rich_row(&text, i as u64 + 1));
        }
        let text = format!("{toks:?}");
        type E = Simple<&'static str, RichL>;
        let r = guarded(|| {
            // Runs of one or two tokens, each mapped to its span; newlines are rejected.
            let two = prim::none_of::<&'static str, _, E>(["\n"])
                .then(prim::none_of::<&'static str, _, E>(["\n"]).or_not())
                .map_with_span(|_, s: RichSpan| s);
            let mut out = vec![];
            let mut it = two.stream_with_location(toks.clone(), rich_new("file.x"));
            for r in it.by_ref().take(len + 2) {
                match r {
                    parse_proof_of_concept::parser::Result::Success(s) => out.push(Ok(s)),
                    parse_proof_of_concept::parser::Result::Recovered(s, _) => out.push(Ok(s)),
                    parse_proof_of_concept::parser::Result::Failed(_, es) => {
                        let at = match es.first().map(|e| e.location()) {
                            Some(At::Span(s)) => Some(s.clone()),
                            _ => None,
                        };
                        out.push(Err(at));
                        break;
                    }
                }
            }
            out
        });
        let bad = |m: String| Err(Viol::new(format!("C02:rich:{text}"), format!("{m}\n  tokens {text}")));
        let out = match r {
            Ok(o) => o,
            Err(e) => return bad(e),
        };
        st.states += len as u64 + 1;
        st.compared += 1;
        st.outcome(&(len, out.len()));
        let mut p = 0;
        for r in &out {
            st.transitions += 1;
            match r {
                Ok(s) => {
                    let mut q = p;
                    while q < len && q < p + 2 && toks[q] != "\n" {
                        q += 1;
                    }
                    let got = (off(&s.from, &s.filename), off(&s.to, &s.filename));
                    if got != (table[p], table[q]) {
                        return bad(format!("span of tokens {p}..{q} is {got:?}, not {:?}", (table[p], table[q])));
                    }
                    p = q;
                }
                Err(at) => {
                    if let Some(s) = at {
                        let got = (off(&s.from, &s.filename), off(&s.to, &s.filename));
                        if got != (table[p], table[(p + 1).min(len)]) {
                            return bad(format!("error at token {p} is located at {got:?}"));
                        }
                    }
                }
            }
        }
        st.sample(|| format!("{text} -> {out:?}"));
        Ok(())
    })
}

/// Rows, columns and offsets beyond small integer types: a few large tokens.
fn rich_long(t: bool) -> Part<'static> {
    let toks: Vec<&'static str> = [
        "\n".repeat(254),
        "x".repeat(255),
        "é".repeat(300),
        "ab\n".repeat(130) + "z",
        "\n".repeat(66_000),
        "日".repeat(66_000),
        "\r\n".repeat(200),
        format!("{}\n{}", "y".repeat(70_000), "\u{10000}".repeat(257)),
        String::new(),
    ]
    .into_iter()
    .map(|s| &*Box::leak(s.into_boxed_str()))
    .collect();
    let most = if t { 5 } else { 4 };
    part("row-column-large", 1, move |_, ch, st| {
        let ks: Vec<usize> = (0..1 + ch.pick(most)).map(|_| ch.pick(toks.len())).collect();
        let tape: Vec<&'static str> = ks.iter().map(|k| toks[*k]).collect();
        let saved = ch.pick(tape.len() + 1);
        let mut table = vec![[0, 1, 1, 0]];
        for (i, s) in tape.iter().enumerate() {
            let a: Row = table[i];
            let b = rich_row(s, 0);
            table.push([i as u64 + 1, a[1] + b[1] - 1, if b[1] > 1 { b[2] } else { a[2] + b[2] - 1 }, a[3] + b[3]]);
        }
        let n = tape.len();
        let d = format!("{ks:?}");
        let r = guarded(|| {
            let mut s: Stream<&'static str, RichL> = Stream::new_with_location(tape.clone(), rich_new("file.x"));
            let sp = |x: RichSpan| (off(&x.from, &x.filename), off(&x.to, &x.filename));
            let mut save = None;
            for p in 0..=n {
                if p == saved {
                    save = Some(s.save());
                }
                let l = s.location();
                let got = off(&l.offset, &l.filename);
                if got != table[p] {
                    return Err(format!("location at {p} is {got:?}, not {:?}", table[p]));
                }
                let (got, want) = (sp(s.span()), (table[p], table[(p + 1).min(n)]));
                if got != want {
                    return Err(format!("token span at {p} is {got:?}, not {want:?}"));
                }
                if let Some(k) = &save {
                    let (got, want) = (sp(s.spanning_back_to(k)), (table[saved], table[p]));
                    if got != want {
                        return Err(format!("span {saved}..{p} is {got:?}, not {want:?}"));
                    }
                    let l = s.location_at(k);
                    if off(&l.offset, &l.filename) != table[saved] {
                        return Err(format!("location_at {saved}, from {p}, is {l:?}"));
                    }
                }
                s.advance();
            }
            Ok(())
        });
        st.states += n as u64 + 1;
        st.transitions += 4 * (n as u64 + 1);
        st.compared += 1;
        st.outcome(&table[n]);
        st.sample(|| format!("large tokens {d}: ends at {:?}", table[n]));
        match r.and_then(|r| r) {
            Ok(()) => Ok(()),
            Err(e) => Err(Viol::new(format!("C02:large:{d}"), format!("{e}\n  large tokens {d}, saved at {saved}"))),
        }
    })
}

/// Every character in a token of its own and inside one.
fn rich_every() -> Part<'static> {
    part("row-column-every-character", 0x110, move |k, _, st| {
        let cs: Vec<char> = (k as u32 * 0x1000..(k as u32 + 1) * 0x1000).filter_map(char::from_u32).collect();
        let r = guarded(|| {
            for c in &cs {
                for (i, tape) in [["ab".to_string(), c.to_string(), "z".to_string()], ["\n".to_string(), format!("é{c}"), format!("{c}{c}")]]
                    .into_iter()
                    .enumerate()
                {
                    fn own(s: &String) -> &str {
                        s
                    }
                    let mut l = Rich::new("file.x", own as for<'a> fn(&'a String) -> &'a str);
                    let mut text = String::new();
                    for (j, t) in tape.iter().enumerate() {
                        l.advance(t);
                        text.push_str(t);
                        let got = off(&l.location(j + 1).offset, "file.x");
                        let want = rich_row(&text, j as u64 + 1);
                        if got != want {
                            return Err(format!("location after tokens {:?} is {got:?}, not {want:?} ({i})", &tape[..=j]));
                        }
                    }
                }
            }
            Ok(())
        });
        st.states += 2 * cs.len() as u64;
        st.transitions += 6 * cs.len() as u64;
        st.compared += 2 * cs.len() as u64;
        st.outcome(&k);
        match r.and_then(|r| r) {
            Ok(()) => Ok(()),
            Err(e) => Err(Viol::new(format!("C02:character:{k}"), e)),
        }
    })
}

pub fn c02(t: bool) -> Vec<Part<'static>> {
    let w = What::Locations;
    let mut v = vec![
        histories::<KTrk>("C02", "all-operations-hash", w, full_menu(2), 2, if t { 6 } else { 5 },
            if t { vec![1, 3, 9] } else { vec![0, 2, 5, 12] }, 3),
        histories::<KRich>("C02", "all-operations-row-column", w, full_menu(2), 2, if t { 5 } else { 4 },
            vec![0, 1, 4, 12], 3),
        histories::<KTrk>("C02", "three-slots-thin", w, thin_menu(3), 3, if t { 8 } else { 7 }, vec![4, 12], 3),
        many_saves::<KTrk>("C02", w, t),
        very_many_saves::<KTrk>("C02", w, t),
        histories::<KTrk>("C02", "longer-moves", w, long_menu(), 2, 4, vec![300, 600], 5),
        c02_rich_parser(t),
        c02_grammars("grammars-depth2", loc_shape(if t { 1 } else { 0 }), 2, strings("ab", 3), vec![Pre::Fresh, Pre::AdvAhead]),
        c02_grammars("grammars-depth1", loc_shape(0), 1, strings("abc", 5), PRES.to_vec()),
        rich_long(t),
        rich_every(),
        saves_part::<KRich>("C02", w, "save-points-row-column", vec![130], vec![2, 5, 9, 17, 33, 65],
            vec![0, 3, 33, 66], 0),
    ];
    v.extend(huge_moves::<KTrk>("C02", w, t));
    if t {
        v.push(histories::<KTrk>("C02", "all-operations-lengths", w, full_menu(2), 2, 5, vec![0, 2, 5, 12, 20], 3));
        v.push(c02_grammars("grammars-depth3", loc_shape(0), 3, strings("ab", 3), vec![Pre::AdvAhead]));
        v.push(many_saves::<KRich>("C02", w, false));
        v.last_mut().unwrap().name = "many-save-points-row-column";
    }
    v
}

//---------------------------------------------------------------------------------------------
// C03

fn judge_c03(b: &Both) -> Result<(), String> {
    for k in 0..2 {
        let o = &b.o[k];
        if o.after_end > 0 {
            return Err("source polled again after its end".into());
        }
        // Only where the parse itself did what it should have done.
        if strip(&o.r) != strip(&b.m[k]) {
            continue;
        }
        let need = b.look[k].max(o.pre_polls);
        if o.polls > need {
            return Err(format!("{} tokens pulled although only {need} were needed", o.polls));
        }
    }
    Ok(())
}

/// Source of counted tokens.
struct TkSrc {
    i: u32,
    n: u32,
    log: Rc<SrcLog>,
    /// Whether the size hint says as much as it can (`ENDLESS` never ends as far as it knows).
    hint: bool,
}
const ENDLESS: u32 = u32::MAX - 2;
impl Iterator for TkSrc {
    type Item = Tk;
    fn next(&mut self) -> Option<Tk> {
        burn();
        self.log.polls.set(self.log.polls.get() + 1);
        if self.i > self.n {
            self.log.after_end.set(self.log.after_end.get() + 1);
            return None;
        }
        self.i += 1;
        if self.i > self.n {
            None
        } else {
            Some(Tk::new(self.i - 1))
        }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        if !self.hint {
            (0, None)
        } else if self.n == ENDLESS {
            (usize::MAX, None)
        } else {
            let n = self.n.saturating_sub(self.i) as usize;
            (n, Some(n))
        }
    }
}

/// Loop bodies on a long source: retained tokens stay proportional to the widest window so far.
fn retention(t: bool) -> Part<'static> {
    let depth = if t { 6 } else { 5 };
    let menu = [Token, Adv, AdvTo(3), Save, SaveAt(2), Restore(0), Drop(0), Attempt(false)];
    part("retained-tokens", 1, move |_, ch, stats| {
        let n = 1 + ch.pick(depth);
        let body: Vec<Op> = (0..n).map(|_| ch.of(&menu)).collect();
        // What the source says about its size.
        let hint = body.iter().map(|o| menu.iter().position(|m| m == o).unwrap()).sum::<usize>() % 3;
        let reps = 1000usize;
        let log = Rc::new(SrcLog::default());
        let mut problem: Option<String> = None;
        let mut polls = 0;
        let mut steps = 0u64;
        let mut most = 0;
        let r = guarded(|| {
            Tk::reset();
            let src = TkSrc { i: 0, n: if hint == 2 { 20_000 } else { ENDLESS }, log: log.clone(), hint: hint > 0 };
            let mut st: Stream<'static, Tk, location::Simple> = Stream::new(src);
            let mut slot: Option<(SavedState, usize)> = None;
            let mut pos = 0usize;
            let mut look = 0usize;
            let mut widest = 1usize;
            'run: for _ in 0..reps {
                for op in &body {
                    steps += 1;
                    match op {
                        Token => {
                            st.token();
                            look = look.max(pos + 1);
                        }
                        Adv => {
                            st.advance();
                            pos += 1;
                            look = look.max(pos);
                        }
                        AdvTo(d) => {
                            pos += d;
                            st.advance_to(pos);
                            look = look.max(pos);
                        }
                        Save => {
                            slot = Some((st.save(), pos));
                        }
                        SaveAt(d) => {
                            slot = Some((st.save_at(pos + d), pos + d));
                            look = look.max(pos + d);
                        }
                        Restore(_) => {
                            if let Some(s) = &slot {
                                st.restore(&s.0);
                                pos = s.1;
                            }
                        }
                        Drop(_) => slot = None,
                        _ => {
                            let p = pos;
                            st.attempt(|st| {
                                st.advance_to(p + 5);
                                Err::<(), ()>(())
                            });
                            look = look.max(pos + 5);
                        }
                    }
                    if st.index() != pos {
                        // Judged by C01.
                        break 'run;
                    }
                    let oldest = slot.as_ref().map_or(pos, |s| s.1.min(pos));
                    widest = widest.max(look - oldest.min(look) + 1);
                    let live = Tk::live() as usize;
                    most = most.max(live);
                    if live > 256 + 4 * widest {
                        problem = Some(format!(
                            "{live} tokens retained at position {pos}, window never wider than {widest}"
                        ));
                        break 'run;
                    }
                    if log.polls.get() > look {
                        problem = Some(format!("{} tokens pulled, {look} needed", log.polls.get()));
                        break 'run;
                    }
                }
            }
            polls = log.polls.get();
            drop(st);
            if problem.is_none() && Tk::live() != 0 {
                problem = Some(format!("{} tokens alive after the stream was dropped", Tk::live()));
            }
        });
        stats.states += steps;
        stats.transitions += polls as u64;
        stats.compared += 1;
        stats.maxi("max_retained", most as u64);
        stats.outcome(&(polls, most));
        if let Err(e) = r {
            problem = Some(e);
        }
        stats.sample(|| format!("loop {body:?}: {polls} tokens pulled, at most {most} retained"));
        match problem {
            None => Ok(()),
            Some(p) => Err(Viol::new(format!("C03:retention:{body:?}"), format!("{p}\n  loop body {body:?}"))),
        }
    })
}

/// Many save points that die in different orders while streaming: nothing may stay pinned.
fn retention_many(t: bool) -> Part<'static> {
    part("retained-after-many-saves", 1, move |_, ch, stats| {
        let n = 1 + ch.pick(if t { 40 } else { 20 });
        let gap = ch.pick(3);
        let order = ch.pick(3);
        let keep = ch.pick(n + 1);
        let mut problem = None;
        let mut most = 0;
        let r = guarded(|| {
            Tk::reset();
            let log = Rc::new(SrcLog::default());
            let src = TkSrc { i: 0, n: 5000, log, hint: n % 2 == 1 };
            let mut st: Stream<'static, Tk, location::Simple> = Stream::new(src);
            let mut saves = vec![];
            for _ in 0..n {
                saves.push(st.save());
                st.advance_to(st.index() + gap);
            }
            let window = n * gap + 1;
            for k in 0..(n - keep.min(n)) {
                match order {
                    0 => drop(saves.remove(0)),
                    1 => drop(saves.pop()),
                    _ => drop(saves.remove(k % saves.len())),
                }
            }
            let kept = st.index();
            st.advance_to(kept + 300);
            drop(saves);
            let w2 = window + 300;
            // Nothing is saved any more: a long walk must not retain more than the buffer held.
            for _ in 0..3000 {
                st.advance();
                most = most.max(Tk::live());
            }
            if Tk::live() as usize > 256 + 4 * w2 {
                problem = Some(format!("{} tokens retained with no save point alive", Tk::live()));
            }
        });
        stats.states += 3000;
        stats.transitions += n as u64;
        stats.compared += 1;
        stats.outcome(&most);
        if let Err(e) = r {
            problem = Some(e);
        }
        let d = format!("{n} saves every {gap} tokens, {keep} kept, drop order {order}");
        stats.sample(|| format!("{d}: at most {most} retained"));
        match problem {
            None => Ok(()),
            Some(p) => Err(Viol::new(format!("C03:many:{d}"), format!("{p}\n  {d}"))),
        }
    })
}

/// Parsers over long or endless sources of counted tokens.
fn streaming(t: bool) -> Part<'static> {
    use parse_proof_of_concept::error::{Simple, Void};
    use parse_proof_of_concept::parser::Result as PR;
    use parse_proof_of_concept::primitive as prim;
    use parse_proof_of_concept::recovery::{self, IncompleteStrategy};
    type E = Void<Tk>;
    type B = parse_proof_of_concept::combinator::Boxed<'static, Tk, usize, E>;
    fn any() -> B {
        prim::filter::<Tk, _, E>(|_: &Tk| true).map(|_| 1usize).boxed()
    }
    fn not(m: u32) -> B {
        prim::filter::<Tk, _, E>(move |x: &Tk| x.0 % m != m - 1).map(|_| 1usize).boxed()
    }
    fn only(m: u32) -> B {
        prim::filter::<Tk, _, E>(move |x: &Tk| x.0 % m == m - 1).map(|_| 1usize).boxed()
    }
    fn make(k: usize, m: u32) -> B {
        let sum = |v: Vec<usize>| v.iter().sum::<usize>();
        match k {
            0 => any(),
            1 => not(m).repeated().map(sum).then(only(m)).map(|(a, b)| a + b).boxed(),
            2 => not(m).separated_by(not(m)).allow_trailing().map(move |v: Vec<usize>| v.len()).then(only(m)).map(|(a, b)| a + b).boxed(),
            3 => not(m).then(only(m)).map(|_| 0usize).boxed().or(any()).boxed(),
            4 => not(m).repeated().exactly(m as usize - 1).map(sum).then_ignore(only(m)).or(any()).boxed(),
            5 => only(m).to_recover(recovery::find(move |x: &Tk| x.0 % m == m - 1).skip().and_return(7usize)).boxed(),
            6 => only(m).to_recover(recovery::while_not(|_: &Tk| false, recovery::retry()).and_return(0usize)).boxed(),
            7 => any().then(only(m).or_not()).map(|_| 2usize).boxed(),
            8 => any().repeated().at_most(m as usize).map(sum).boxed(),
            _ => any().try_map(|v, _| parse_proof_of_concept::combinator::TryMapResult::Ok(v)).map_with_span(|v, _| v).boxed(),
        }
    }
    const KINDS: usize = 10;
    part("streaming", KINDS, move |k, ch, stats| {
        let m = match ch.pick(if t { 24 } else { 13 }) {
            k @ 0..4 => [33, 64, 130, 300][k],
            k => k as u32 - 2,
        };
        let endless = ch.flag();
        let hint = ch.flag();
        let tail_at = ch.of(&[usize::MAX, 0, 1, 2, 7, 100]);
        let n: u32 = if endless { ENDLESS } else { ch.of(&[0u32, 1, 2, 5, 2999]) };
        let log = Rc::new(SrcLog::default());
        let d = format!("parser {k} group {m} source {n} {} tail at {tail_at}", if hint { "of known size" } else { "" });
        let mut problem: Option<String> = None;
        let mut items = 0usize;
        let mut most = 0isize;
        let r = guarded(|| {
            Tk::reset();
            let p = make(k, m);
            let src = TkSrc { i: 0, n, log: log.clone(), hint };
            let mut it = p.stream(src);
            if log.polls.get() > 0 {
                problem = Some("source polled before the first item was requested".into());
                return;
            }
            let bound = 256 + 8 * (m as isize + 2);
            // Every item above consumes at most 2m+2 tokens and looks at most that far.
            while items < 1200 && items < tail_at {
                let before = log.polls.get();
                match it.next() {
                    None => break,
                    Some(PR::Failed(..)) => break,
                    Some(_) => items += 1,
                }
                most = most.max(Tk::live());
                if Tk::live() > bound {
                    problem = Some(format!("{} tokens retained after {items} items", Tk::live()));
                    return;
                }
                if log.polls.get() - before > 2 * m as usize + 3 {
                    problem = Some(format!("item {items} pulled {} tokens", log.polls.get() - before));
                    return;
                }
            }
            if tail_at != usize::MAX {
                let before = log.polls.get();
                let mut tail = it.tail();
                let mut got = 0;
                for j in 0..3500usize {
                    if log.polls.get() > before + j {
                        problem = Some(format!("tail pulled {} tokens to give {j}", log.polls.get() - before));
                        return;
                    }
                    if tail.next().is_none() {
                        break;
                    }
                    got += 1;
                    most = most.max(Tk::live());
                    if Tk::live() > bound {
                        problem = Some(format!("{} tokens retained in the tail after {got}", Tk::live()));
                        return;
                    }
                }
                // Once the end was reached it must not be asked for again.
                tail.next();
                tail.next();
            } else {
                it.next();
            }
        });
        if problem.is_none() && log.after_end.get() > 0 {
            problem = Some("source polled again after its end".into());
        }
        stats.states += items as u64 + 1;
        stats.transitions += log.polls.get() as u64;
        stats.compared += 1;
        stats.maxi("max_retained", most.max(0) as u64);
        stats.outcome(&(k, items, most, log.polls.get()));
        if let Err(e) = r {
            problem = Some(e);
        }
        stats.sample(|| format!("{d}: {items} items, {} pulled, at most {most} retained", log.polls.get()));
        match problem {
            None => Ok(()),
            Some(p) => Err(Viol::new(format!("C03:streaming:{d}"), format!("{p}\n  {d}"))),
        }
    })
}

pub fn c03(t: bool) -> Vec<Part<'static>> {
    let w = What::Polls;
    let mut v = vec![
        histories::<KPlain>("C03", "all-operations", w, full_menu(2), 2, if t { 6 } else { 5 },
            if t { vec![1, 3, 9] } else { vec![0, 2, 5, 12] }, 2),
        histories::<KPlain>("C03", "three-slots-thin", w, thin_menu(3), 3, if t { 8 } else { 7 }, vec![1, 4, 12], 2),
        histories::<KPlain>("C03", "longer-moves", w, long_menu(), 2, 4, vec![0, 300, 600], 5),
        many_saves::<KPlain>("C03", w, t),
        very_many_saves::<KPlain>("C03", w, t),
        loops::<KPlain>("C03", w, 200, 150, if t { 5 } else { 4 }),
        retention(t),
        retention_many(t),
        streaming(t),
    ];
    v.extend(huge_moves::<KPlain>("C03", w, t));
    if t {
        v.push(histories::<KPlain>("C03", "all-operations-lengths", w, full_menu(2), 2, 5, vec![0, 2, 5, 12, 20], 2));
    }
    v.extend(fam_parts("C03", families(t), judge_c03, false));
    v
}
