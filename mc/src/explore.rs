//! Stateless, choice-driven exhaustive explorer.
//!
//! A case is a deterministic function of the answers given by `Ch::pick`. The explorer enumerates
//! *all* answer sequences depth-first (replaying prefixes), sharing subtrees between threads. Any
//! divergence while replaying a prefix (different arity at the same point) is a hard engine error.

use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet, VecDeque};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

/// Source of all nondeterminism in a case.
#[derive(Default)]
pub struct Ch {
    script: RefCell<Vec<u16>>,
    taken: RefCell<Vec<(u16, u16)>>,
}

impl Ch {
    pub fn new(script: Vec<u16>) -> Self {
        Ch {
            script: RefCell::new(script),
            taken: Default::default(),
        }
    }
    /// Picks one of `n` alternatives (0-based).
    pub fn pick(&self, n: usize) -> usize {
        assert!(n >= 1 && n < 65000, "bad arity {n}");
        if n == 1 {
            return 0;
        }
        let mut t = self.taken.borrow_mut();
        let s = self.script.borrow();
        let c = if t.len() < s.len() { s[t.len()] } else { 0 };
        if c as usize >= n {
            engine_error(&format!(
                "divergence: choice {} out of range {} at depth {}",
                c,
                n,
                t.len()
            ));
        }
        t.push((c, n as u16));
        c as usize
    }
    pub fn flag(&self) -> bool {
        self.pick(2) == 1
    }
    pub fn of<T: Clone>(&self, xs: &[T]) -> T {
        xs[self.pick(xs.len())].clone()
    }
    pub fn choices(&self) -> Vec<u16> {
        self.taken.borrow().iter().map(|x| x.0).collect()
    }
}

/// Engine errors are never verdicts: exit status 3.
pub fn engine_error(msg: &str) -> ! {
    eprintln!("ENGINE-ERROR {msg}");
    std::process::exit(3)
}

thread_local! {
    static FUEL: Cell<u64> = const { Cell::new(u64::MAX) };
    static GUARD: Cell<bool> = const { Cell::new(false) };
}
/// Whether this thread is running library code under `guarded`.
pub fn in_guard() -> bool {
    GUARD.with(|g| g.get())
}
pub struct OutOfFuel;
pub fn set_fuel(n: u64) {
    FUEL.with(|f| f.set(n))
}
/// Called from every callback the library makes into the harness (sources, trackers, predicates,
/// mock parsers, factories). Running out means the library loops without end on this case.
#[inline]
pub fn burn() {
    FUEL.with(|f| {
        let v = f.get();
        if v == 0 {
            f.set(u64::MAX);
            let Some(i) = INTERRUPT.with(|i| i.borrow_mut().take()) else {
                std::panic::panic_any(OutOfFuel);
            };
            i();
            f.set(FUEL_PER_CASE);
            GUARD.with(|g| g.set(true));
            return;
        }
        f.set(v - 1);
    })
}
const FUEL_PER_CASE: u64 = 1_000_000;
thread_local! {
    static INTERRUPT: RefCell<Option<Box<dyn FnOnce()>>> = const { RefCell::new(None) };
    static ARMED: Cell<Option<u64>> = const { Cell::new(None) };
    static USED: Cell<u64> = const { Cell::new(0) };
}
/// Has the next `guarded` run call `f` from inside its `n`th callback (counted from 0).
pub fn interrupt_at(n: u64, f: Box<dyn FnOnce()>) {
    ARMED.with(|a| a.set(Some(n)));
    INTERRUPT.with(|i| *i.borrow_mut() = Some(f));
}
/// Callbacks made by the last undisturbed `guarded` run.
pub fn callbacks_made() -> u64 {
    USED.with(|u| u.get())
}

/// Runs real code; a panic (or running out of fuel) becomes Err(description).
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    set_fuel(ARMED.with(|a| a.take()).unwrap_or(FUEL_PER_CASE));
    GUARD.with(|g| g.set(true));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    GUARD.with(|g| g.set(false));
    USED.with(|u| u.set(FUEL_PER_CASE.saturating_sub(FUEL.with(|f| f.get()))));
    set_fuel(u64::MAX);
    let r = r.map_err(|e| {
        if e.is::<OutOfFuel>() {
            "does not terminate (1000000 callbacks)".to_string()
        } else if let Some(s) = e.downcast_ref::<&str>() {
            format!("panic: {s}")
        } else if let Some(s) = e.downcast_ref::<String>() {
            format!("panic: {s}")
        } else {
            "panic".to_string()
        }
    });
    if let Err(e) = &r {
        LAST_BAD.with(|l| *l.borrow_mut() = Some(e.clone()));
    }
    r
}
thread_local! {
    static LAST_BAD: RefCell<Option<String>> = const { RefCell::new(None) };
}
/// Turns checks of results into checks that nothing panics or loops: whatever else a case finds
/// is left to the property it belongs to.
pub fn no_panics(id: &'static str, parts: Vec<Part<'static>>) -> Vec<Part<'static>> {
    parts
        .into_iter()
        .map(|p| Part {
            name: p.name,
            ncfg: p.ncfg,
            cap: p.cap,
            run: Box::new(move |cfg, ch, st| {
                LAST_BAD.with(|l| *l.borrow_mut() = None);
                let r = (p.run)(cfg, ch, st);
                match LAST_BAD.with(|l| l.borrow_mut().take()) {
                    None => {
                        if r.is_err() {
                            st.count("left_to_other_property");
                        }
                        Ok(())
                    }
                    Some(e) => Err(Viol::new(
                        format!("{id}:{}:{cfg}:{:?}", p.name, ch.choices()),
                        match r {
                            Err(v) => format!("{e}\n{}", v.text),
                            Ok(()) => e,
                        },
                    )),
                }
            }),
        })
        .collect()
}

/// A property violation in one case.
#[derive(Clone, Debug)]
pub struct Viol {
    /// Stable identification of the failing case, compared with the known-findings file.
    pub key: String,
    /// Human-readable description.
    pub text: String,
}
impl Viol {
    pub fn new(key: impl ToString, text: impl ToString) -> Self {
        Viol {
            key: key.to_string(),
            text: text.to_string(),
        }
    }
}

#[derive(Default)]
pub struct Stats {
    pub execs: u64,
    pub nodes: u64,
    pub states: u64,
    pub transitions: u64,
    pub compared: u64,
    pub outcomes: HashSet<u64>,
    pub counters: BTreeMap<&'static str, u64>,
    pub samples: Vec<String>,
}
impl Stats {
    pub fn count(&mut self, k: &'static str) {
        *self.counters.entry(k).or_default() += 1;
    }
    pub fn add(&mut self, k: &'static str, n: u64) {
        *self.counters.entry(k).or_default() += n;
    }
    pub fn maxi(&mut self, k: &'static str, n: u64) {
        let e = self.counters.entry(k).or_default();
        *e = (*e).max(n);
    }
    /// Registers a distinct observed outcome (for vacuity control).
    pub fn outcome<T: std::hash::Hash>(&mut self, x: &T) {
        if self.outcomes.len() < 2_000_000 {
            use std::hash::Hasher;
            let mut h = std::collections::hash_map::DefaultHasher::new();
            x.hash(&mut h);
            self.outcomes.insert(h.finish());
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 3 || (self.execs.is_power_of_two() && self.samples.len() < 24) {
            let s = f();
            if !self.samples.contains(&s) {
                self.samples.push(s);
            }
        }
    }
    pub fn merge(&mut self, o: Stats) {
        self.execs += o.execs;
        self.nodes += o.nodes;
        self.states += o.states;
        self.transitions += o.transitions;
        self.compared += o.compared;
        self.outcomes.extend(o.outcomes);
        for (k, v) in o.counters {
            let e = self.counters.entry(k).or_default();
            if k.starts_with("max_") {
                *e = (*e).max(v);
            } else {
                *e += v;
            }
        }
        for s in o.samples {
            if self.samples.len() < 24 {
                self.samples.push(s);
            }
        }
    }
}

/// One named exploration space ("part") of a check.
pub struct Part<'a> {
    pub name: &'static str,
    pub ncfg: usize,
    #[allow(clippy::type_complexity)]
    pub run: Box<dyn Fn(usize, &Ch, &mut Stats) -> Result<(), Viol> + Sync + 'a>,
    /// Partial orders of magnitude only; `true` when the choice tree is explored completely.
    pub cap: u64,
}
pub fn part<'a>(
    name: &'static str,
    ncfg: usize,
    run: impl Fn(usize, &Ch, &mut Stats) -> Result<(), Viol> + Sync + 'a,
) -> Part<'a> {
    Part {
        name,
        ncfg,
        run: Box::new(run),
        cap: u64::MAX,
    }
}

#[derive(Clone, Debug)]
pub struct Found {
    pub part: &'static str,
    pub cfg: usize,
    pub choices: Vec<u16>,
    pub viol: Viol,
}

pub struct Outcome {
    pub stats: Stats,
    pub found: Vec<Found>,
    pub known: BTreeMap<String, u64>,
    pub complete: bool,
}

struct Task {
    cfg: usize,
    prefix: Vec<u16>,
}

struct Slot {
    since: AtomicU64,
    cur: Mutex<(usize, Vec<u16>)>,
}

pub fn threads() -> usize {
    std::env::var("MC_THREADS")
        .ok()
        .and_then(|x| x.parse().ok())
        .unwrap_or_else(|| std::thread::available_parallelism().map_or(4, |n| n.get()))
}

/// Runs one case. On the code this was built for no case panics outside `guarded`, so a panic here
/// is the library misbehaving under the plain calls the harness makes around the compared ones.
pub fn run_case(p: &Part, cfg: usize, ch: &Ch, st: &mut Stats) -> Result<(), Viol> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (p.run)(cfg, ch, st))).unwrap_or_else(
        |e| {
            set_fuel(u64::MAX);
            GUARD.with(|g| g.set(false));
            let m = e
                .downcast_ref::<&str>()
                .map(|s| s.to_string())
                .or_else(|| e.downcast_ref::<String>().cloned())
                .unwrap_or_else(|| "out of fuel".into());
            Err(Viol::new(
                format!("panic:{}:{cfg}:{:?}", p.name, ch.choices()),
                format!("the library panicked: {m}"),
            ))
        },
    )
}

/// Explores a part exhaustively. Stops at the first violation that is not `known`.
pub fn explore(
    p: &Part,
    is_known: &(dyn Fn(&Viol) -> bool + Sync),
    on_hang: &(dyn Fn(&'static str, usize, &[u16]) + Sync),
) -> Outcome {
    let nthreads = threads();
    let queue: Mutex<VecDeque<Task>> = Mutex::new(VecDeque::new());
    let next_cfg = AtomicUsize::new(0);
    let idle = AtomicUsize::new(0);
    let hungry = AtomicBool::new(false);
    let stop = AtomicBool::new(false);
    let done = AtomicBool::new(false);
    let cv = Condvar::new();
    let epoch = Instant::now();
    let slots: Vec<Slot> = (0..nthreads)
        .map(|_| Slot {
            since: AtomicU64::new(u64::MAX),
            cur: Mutex::new((0, vec![])),
        })
        .collect();
    let journal = std::env::var("MC_JOURNAL").ok();
    let out = Mutex::new(Outcome {
        stats: Stats::default(),
        found: vec![],
        known: BTreeMap::new(),
        complete: true,
    });
    std::thread::scope(|sc| {
        // Watchdog: a single case takes microseconds; one that is stuck for this long hangs.
        let limit_ms: u64 = 60_000;
        sc.spawn({
            let (slots, done, epoch) = (&slots, &done, &epoch);
            move || {
                while !done.load(Acquire) {
                    std::thread::sleep(Duration::from_millis(20));
                    let now = epoch.elapsed().as_millis() as u64;
                    for s in slots {
                        let t = s.since.load(Acquire);
                        if t != u64::MAX && now > t + limit_ms {
                            let c = s.cur.lock().unwrap().clone();
                            on_hang(p.name, c.0, &c.1);
                        }
                    }
                }
            }
        });
        let mut handles = vec![];
        for w in 0..nthreads {
            let (queue, next_cfg, idle, hungry, stop, cv, slots, epoch, out, journal) = (
                &queue, &next_cfg, &idle, &hungry, &stop, &cv, &slots, &epoch, &out, &journal,
            );
            handles.push(
                std::thread::Builder::new()
                    .stack_size(256 << 20)
                    .spawn_scoped(sc, move || {
                        let mut st = Stats::default();
                        let mut jf = journal.as_ref().map(|d| {
                            std::fs::File::create(format!("{d}/journal.{w}")).expect("journal")
                        });
                        'outer: loop {
                            // Get a task: a queued subtree first, a fresh configuration second.
                            let task = {
                                let mut q = queue.lock().unwrap();
                                loop {
                                    if stop.load(Acquire) {
                                        cv.notify_all();
                                        break 'outer;
                                    }
                                    if let Some(t) = q.pop_front() {
                                        break t;
                                    }
                                    let c = next_cfg.fetch_add(1, AcqRel);
                                    if c < p.ncfg {
                                        break Task {
                                            cfg: c,
                                            prefix: vec![],
                                        };
                                    }
                                    let n = idle.fetch_add(1, AcqRel) + 1;
                                    if n == nthreads {
                                        stop.store(true, Release);
                                        cv.notify_all();
                                        break 'outer;
                                    }
                                    hungry.store(true, Release);
                                    q = cv.wait_timeout(q, Duration::from_millis(5)).unwrap().0;
                                    if stop.load(Acquire) {
                                        break 'outer;
                                    }
                                    idle.fetch_sub(1, AcqRel);
                                }
                            };
                            // Depth-first search below task.prefix.
                            let base = task.prefix.len();
                            let mut script = task.prefix;
                            let mut prev: Vec<(u16, u16)> = vec![];
                            let mut limits: Vec<u16> = vec![];
                            let mut since_split = 0u32;
                            loop {
                                if stop.load(Relaxed) {
                                    break 'outer;
                                }
                                {
                                    let mut c = slots[w].cur.lock().unwrap();
                                    c.0 = task.cfg;
                                    c.1.clear();
                                    c.1.extend_from_slice(&script);
                                }
                                slots[w]
                                    .since
                                    .store(epoch.elapsed().as_millis() as u64, Release);
                                if let Some(f) = &mut jf {
                                    use std::io::{Seek, Write};
                                    let _ = f.rewind();
                                    let _ = writeln!(
                                        f,
                                        "{} {} {:?}                    ",
                                        p.name, task.cfg, script
                                    );
                                }
                                let ch = Ch::new(std::mem::take(&mut script));
                                let r = run_case(p, task.cfg, &ch, &mut st);
                                slots[w].since.store(u64::MAX, Release);
                                let taken = ch.taken.into_inner();
                                let keep = ch.script.into_inner();
                                if taken.len() < keep.len() {
                                    engine_error(&format!(
                                        "divergence: run of {} cfg {} used {} of {} choices",
                                        p.name,
                                        task.cfg,
                                        taken.len(),
                                        keep.len()
                                    ));
                                }
                                // Replaying the common prefix must meet the same choice points.
                                let common = keep.len().min(prev.len());
                                for i in 0..common {
                                    if prev[i].1 != taken[i].1 {
                                        engine_error(&format!(
                                            "divergence: {} cfg {} depth {} arity {} vs {}",
                                            p.name, task.cfg, i, prev[i].1, taken[i].1
                                        ));
                                    }
                                }
                                st.execs += 1;
                                let shared = keep.len().saturating_sub(1).max(0);
                                st.nodes += (taken.len() - shared.min(taken.len())) as u64;
                                if let Err(v) = r {
                                    let mut o = out.lock().unwrap();
                                    if is_known(&v) {
                                        *o.known.entry(v.key.clone()).or_default() += 1;
                                    } else {
                                        o.found.push(Found {
                                            part: p.name,
                                            cfg: task.cfg,
                                            choices: taken.iter().map(|x| x.0).collect(),
                                            viol: v,
                                        });
                                        stop.store(true, Release);
                                        cv.notify_all();
                                        break 'outer;
                                    }
                                }
                                if st.execs >= p.cap {
                                    out.lock().unwrap().complete = false;
                                    break;
                                }
                                // Share work: give away the untried alternatives of the shallowest
                                // open choice point.
                                limits.truncate(taken.len());
                                while limits.len() < taken.len() {
                                    limits.push(taken[limits.len()].1);
                                }
                                since_split += 1;
                                if since_split >= 32 && hungry.load(Relaxed) {
                                    since_split = 0;
                                    for d in base..taken.len() {
                                        if taken[d].0 + 1 < limits[d] {
                                            let mut q = queue.lock().unwrap();
                                            for alt in taken[d].0 + 1..limits[d] {
                                                let mut pre: Vec<u16> =
                                                    taken[..d].iter().map(|x| x.0).collect();
                                                pre.push(alt);
                                                q.push_back(Task {
                                                    cfg: task.cfg,
                                                    prefix: pre,
                                                });
                                            }
                                            limits[d] = taken[d].0 + 1;
                                            hungry.store(false, Release);
                                            cv.notify_all();
                                            break;
                                        }
                                    }
                                }
                                // Backtrack.
                                let mut d = taken.len();
                                loop {
                                    if d == base {
                                        continue 'outer;
                                    }
                                    d -= 1;
                                    if taken[d].0 + 1 < limits[d] {
                                        break;
                                    }
                                }
                                script = taken[..d].iter().map(|x| x.0).collect();
                                script.push(taken[d].0 + 1);
                                limits.truncate(d + 1);
                                prev = taken;
                                prev.truncate(d + 1);
                            }
                        }
                        slots[w].since.store(u64::MAX, Release);
                        out.lock().unwrap().stats.merge(st);
                    })
                    .unwrap(),
            );
        }
        for h in handles {
            if h.join().is_err() {
                engine_error("worker thread panicked");
            }
        }
        done.store(true, Release);
    });
    out.into_inner().unwrap()
}
