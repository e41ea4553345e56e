//! Stateless explorer. A harness is a closed program that asks `Ctx::choose(n)` for every piece of
//! nondeterminism (shape, entry, layout, operation, environment answer). The explorer runs the
//! harness once per complete choice sequence, depth first, until every sequence was run. Work is
//! split between threads by handing over untried sibling alternatives of the shallowest open choice.

use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{BuildHasherDefault, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

#[derive(Debug, Clone)]
pub struct Fail {
    /// Identifies what failed (used to match the known-findings file), independent of the run.
    pub key: String,
    pub msg: String,
}
pub type Res = Result<(), Fail>;
pub fn fail(key: impl Into<String>, msg: impl Into<String>) -> Res {
    Err(Fail { key: key.into(), msg: msg.into() })
}

#[derive(Default, Clone, Copy)]
pub struct IdHash(u64);
impl Hasher for IdHash {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, _: &[u8]) { unreachable!() }
    fn write_u64(&mut self, x: u64) { self.0 = x }
}
pub type FpSet = HashSet<u64, BuildHasherDefault<IdHash>>;

#[derive(Default)]
pub struct Stats {
    pub execs: u64,
    pub nontrivial: u64,
    pub edges: u64,
    pub calls: u64,
    pub cmps: u64,
    pub max_depth: usize,
    pub outcomes: BTreeMap<&'static str, u64>,
    pub ratios: BTreeMap<&'static str, f64>,
    pub fps: FpSet,
    pub known: BTreeMap<String, u64>,
    /// (hash of the choices, digest) of every execution, when asked for
    pub trace: Vec<(u64, u64)>,
}
impl Stats {
    fn merge(&mut self, o: Stats) {
        self.execs += o.execs;
        self.nontrivial += o.nontrivial;
        self.edges += o.edges;
        self.calls += o.calls;
        self.cmps += o.cmps;
        self.max_depth = self.max_depth.max(o.max_depth);
        for (k, v) in o.outcomes { *self.outcomes.entry(k).or_default() += v; }
        for (k, v) in o.ratios { let e = self.ratios.entry(k).or_insert(0.0); if v > *e { *e = v; } }
        for (k, v) in o.known { *self.known.entry(k).or_default() += v; }
        self.trace.extend(o.trace);
        if self.fps.is_empty() { self.fps = o.fps } else { self.fps.extend(o.fps); }
    }
}

pub struct Ctx {
    pre: Vec<u32>,
    ch: Vec<u32>,
    ar: Vec<u32>,
    fp: u64,
    nontrivial: bool,
    pub verbose: bool,
    pub notes: Vec<String>,
    pub st: Stats,
    diverged: Option<String>,
    expect_ar: Vec<u32>,
    pub observed: u64,
    digest: u64,
    /// memory layouts (kinds of gen::LAYOUTS) the monitor hands matrices and right-hand sides over in
    pub lay: [usize; 2],
    /// powers of two by which the monitor rescales the variables (columns) before the library sees them
    pub units: Vec<i32>,
}
impl Ctx {
    fn new(verbose: bool) -> Ctx {
        Ctx { pre: vec![], ch: vec![], ar: vec![], fp: 0, nontrivial: false, verbose, notes: vec![], st: Stats::default(), diverged: None, expect_ar: vec![], observed: 0, digest: 0, lay: [0; 2], units: vec![] }
    }
    /// The only source of nondeterminism in a harness.
    pub fn choose(&mut self, n: usize) -> usize {
        assert!(n > 0 && n < u32::MAX as usize);
        let p = self.ch.len();
        let c = if p < self.pre.len() { self.pre[p] } else { 0 };
        if c as usize >= n {
            self.diverged = Some(format!("choice {p}: {c} out of range {n}"));
            panic!("explorer: replay diverged");
        }
        if p < self.expect_ar.len() && self.expect_ar[p] != n as u32 {
            self.diverged = Some(format!("choice {p}: arity {n}, was {}", self.expect_ar[p]));
            panic!("explorer: replay diverged");
        }
        self.ch.push(c);
        self.ar.push(n as u32);
        c as usize
    }
    #[allow(dead_code)]
    /// Fold a part of the outcome into the digest of this execution.
    pub fn digest(&mut self, x: u64) { self.digest = (self.digest.rotate_left(7) ^ x).wrapping_mul(0x9E37_79B9_7F4A_7C15); }
    pub fn flag(&mut self) -> bool { self.choose(2) == 1 }
    pub fn pick<T: Copy>(&mut self, xs: &[T]) -> T { xs[self.choose(xs.len())] }
    /// Fold a part of the driver state into the fingerprint of this execution.
    pub fn state(&mut self, x: u64) {
        let mut h = self.fp ^ x.wrapping_mul(0x9E37_79B9_7F4A_7C15);
        h ^= h >> 29; h = h.wrapping_mul(0xBF58_476D_1CE4_E5B9); h ^= h >> 32;
        self.fp = h.wrapping_add(0x1234_5678_9ABC_DEF1);
    }
    pub fn state_f(&mut self, xs: &[f64]) { for x in xs { self.state(x.to_bits()); } }
    /// Marks the execution non-trivial (it reached a real comparison on a non-degenerate state).
    pub fn nontrivial(&mut self) { self.nontrivial = true; }
    pub fn outcome(&mut self, s: &'static str) { *self.st.outcomes.entry(s).or_default() += 1; }
    /// Count `n` real API calls.
    pub fn calls(&mut self, n: u64) { self.st.calls += n; }
    pub fn note(&mut self, f: impl FnOnce() -> String) { if self.verbose { let s = f(); self.notes.push(s); } }
    /// Record an observation of the implementation: value `v` must be <= `tol` (NaN fails).
    pub fn le(&mut self, what: &'static str, v: f64, tol: f64) -> Res {
        self.st.cmps += 1;
        self.observed = self.observed.rotate_left(5) ^ v.to_bits();
        let r = v / tol;
        let e = self.st.ratios.entry(what).or_insert(0.0);
        if v == 0.0 || v <= tol {
            if r > *e { *e = r; }
            Ok(())
        } else if cfg!(meas) {
            // measuring build only (RUSTFLAGS="--cfg meas"), never used by a check
            if !(r <= *e) { *e = r; eprintln!("MEAS {what} {v:e} / {tol:e} at {:?}", self.ch); }
            self.outcome(if r > 1e3 { "MEAS >1e3" } else if r > 10.0 { "MEAS >10" } else { "MEAS >1" });
            Ok(())
        } else {
            fail(what, format!("{what}: {v:e} exceeds tolerance {tol:e}"))
        }
    }
    pub fn ok(&mut self, what: &'static str, b: bool, msg: impl FnOnce() -> String) -> Res {
        self.st.cmps += 1;
        self.observed = self.observed.rotate_left(5) ^ b as u64;
        if b { Ok(()) } else { fail(what, format!("{what}: {}", msg())) }
    }
}

thread_local! { static PANIC: RefCell<Option<String>> = const { RefCell::new(None) }; static QUIET: RefCell<bool> = const { RefCell::new(false) }; }
pub fn install_hook() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        if QUIET.with(|q| *q.borrow()) {
            let m = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
            let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            PANIC.with(|p| *p.borrow_mut() = Some(format!("{m} at {l}")));
        } else {
            old(i)
        }
    }));
}
/// Runs `f`, turning a panic of the code under test into `Err(message)`.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let was = QUIET.with(|q| q.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f)).map_err(|_| PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default());
    QUIET.with(|q| *q.borrow_mut() = was);
    r
}

pub type Harness = Box<dyn Fn(&mut Ctx) -> Res + Send + Sync>;
/// One bounded space of executions.
pub struct Space {
    pub name: String,
    pub run: Harness,
}
pub fn space(name: impl Into<String>, run: impl Fn(&mut Ctx) -> Res + Send + Sync + 'static) -> Space {
    Space { name: name.into(), run: Box::new(run) }
}

fn run_one(h: &Harness, ctx: &mut Ctx) -> Res {
    ctx.ch.clear();
    ctx.ar.clear();
    ctx.fp = 0;
    ctx.observed = 0;
    ctx.digest = 0;
    ctx.nontrivial = false;
    ctx.lay = [0; 2];
    ctx.units.clear();
    match guard(|| h(ctx)) {
        Ok(r) => r,
        Err(m) => fail(format!("panic:{}", m.rsplit(" at ").next().unwrap_or("")), format!("panicked: {m}")),
    }
}

#[derive(Debug, Clone)]
pub struct Violation {
    pub space: String,
    pub choices: Vec<u32>,
    pub key: String,
    pub msg: String,
    pub notes: Vec<String>,
}

struct Item { pre: Vec<u32>, lo: u32, hi: u32 }
struct Shared {
    q: Mutex<(Vec<Item>, usize)>, // items, number of busy workers
    cv: Condvar,
    hungry: AtomicUsize,
    stop: AtomicBool,
    capped: AtomicBool,
    viol: Mutex<Option<Violation>>,
    engine: Mutex<Option<String>>,
    slots: Vec<Slot>,
}
struct Slot { t0: AtomicU64, pre: Mutex<Vec<u32>> }

pub struct SpaceResult {
    pub stats: Stats,
    pub violation: Option<Violation>,
    pub exhaustive: bool,
    pub wall: f64,
    pub samples: Vec<String>,
}

/// Runs the harness once on a fixed choice sequence with notes on.
pub fn replay(h: &Harness, choices: &[u32]) -> (Res, Vec<String>, u64, bool) {
    let mut c = Ctx::new(true);
    c.pre = choices.to_vec();
    let r = run_one(h, &mut c);
    (r, c.notes, c.observed, c.diverged.is_some())
}

pub static TRACE: AtomicBool = AtomicBool::new(false);
pub fn choices_hash(c: &[u32]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for x in c { h = (h ^ (*x as u64 + 1)).wrapping_mul(0x9E37_79B9_7F4A_7C15); h ^= h >> 31; }
    h
}
pub const HANG_SECS: u64 = 25;

pub fn explore(sp: &Space, threads: usize, deadline: Instant, known: &(dyn Fn(&str, &str) -> bool + Sync)) -> SpaceResult {
    let t0 = Instant::now();
    let sh = Arc::new(Shared {
        q: Mutex::new((vec![Item { pre: vec![], lo: 0, hi: u32::MAX }], 0)),
        cv: Condvar::new(),
        hungry: AtomicUsize::new(0),
        stop: AtomicBool::new(false),
        capped: AtomicBool::new(false),
        viol: Mutex::new(None),
        engine: Mutex::new(None),
        slots: (0..threads).map(|_| Slot { t0: AtomicU64::new(0), pre: Mutex::new(vec![]) }).collect(),
    });
    let total = Mutex::new(Stats::default());
    let done = AtomicBool::new(false);
    let mut hung = None;
    let last = Mutex::new(Vec::<u32>::new());
    std::thread::scope(|s| {
        let mut hs = vec![];
        for w in 0..threads {
            let sh = sh.clone();
            let total = &total;
            let last = &last;
            hs.push(s.spawn(move || {
                let mut ctx = Ctx::new(false);
                worker(sp, w, &sh, &mut ctx, t0, deadline, known, last);
                total.lock().unwrap().merge(std::mem::take(&mut ctx.st));
            }));
        }
        // watchdog: an execution that does not come back is a violation (the call never returns)
        let sh2 = sh.clone();
        let done = &done;
        let hung = &mut hung;
        let wd = s.spawn(move || {
            while !done.load(SeqCst) {
                std::thread::sleep(Duration::from_millis(100));
                for sl in &sh2.slots {
                    let b = sl.t0.load(SeqCst);
                    if b != 0 && t0.elapsed().as_millis() as u64 > b + HANG_SECS * 1000 {
                        let pre = sl.pre.lock().unwrap().clone();
                        return Some(pre);
                    }
                }
            }
            None
        });
        // the watchdog returns first on a hang; then the process must end, as the stuck thread cannot be joined
        loop {
            if hs.iter().all(|h| h.is_finished()) { done.store(true, SeqCst); break; }
            if wd.is_finished() { break; }
            std::thread::sleep(Duration::from_millis(2));
        }
        *hung = wd.join().unwrap();
        if let Some(pre) = hung.as_ref() {
            HANG.lock().unwrap().replace((sp.name.to_string(), pre.clone()));
            (HANG_EXIT.lock().unwrap().take().expect("hang handler"))(&sp.name, pre);
            std::process::exit(1);
        }
        for h in hs { h.join().unwrap(); }
    });
    if let Some(e) = sh.engine.lock().unwrap().take() {
        eprintln!("ENGINE ERROR in {}: {e}", sp.name);
        std::process::exit(3);
    }
    let violation = sh.viol.lock().unwrap().take();
    let mut samples = vec![];
    for c in [vec![], last.lock().unwrap().clone()] {
        let (_, n, _, _) = replay(&sp.run, &c);
        samples.push(format!("{} {:?}: {}", sp.name, c, n.join("; ")));
    }
    SpaceResult { stats: total.into_inner().unwrap(), violation, exhaustive: !sh.capped.load(SeqCst) && !sh.stop.load(SeqCst), wall: t0.elapsed().as_secs_f64(), samples }
}
pub static HANG: Mutex<Option<(String, Vec<u32>)>> = Mutex::new(None);
#[allow(clippy::type_complexity)]
pub static HANG_EXIT: Mutex<Option<Box<dyn Fn(&str, &[u32]) + Send>>> = Mutex::new(None);

#[allow(clippy::too_many_arguments)]
fn worker(sp: &Space, w: usize, sh: &Shared, ctx: &mut Ctx, t0: Instant, deadline: Instant, known: &(dyn Fn(&str, &str) -> bool + Sync), last: &Mutex<Vec<u32>>) {
    loop {
        let item = {
            let mut g = sh.q.lock().unwrap();
            loop {
                if sh.stop.load(SeqCst) { return; }
                if let Some(i) = g.0.pop() { g.1 += 1; break i; }
                if g.1 == 0 { sh.cv.notify_all(); return; }
                sh.hungry.fetch_add(1, SeqCst);
                g = sh.cv.wait(g).unwrap();
                sh.hungry.fetch_sub(1, SeqCst);
            }
        };
        let base = item.pre.len();
        let mut limits: Vec<u32> = vec![]; // limits[i] bounds the choice at position base+i
        let mut pre = item.pre.clone();
        pre.push(item.lo);
        let mut hi0 = item.hi;
        let mut fresh_from = base;
        ctx.expect_ar.clear();
        let root_empty = base == 0 && item.lo == 0 && item.hi == u32::MAX;
        loop {
            if root_empty && limits.is_empty() && pre == [0] { pre.clear(); }
            ctx.pre.clear();
            ctx.pre.extend_from_slice(&pre);
            { let mut g = sh.slots[w].pre.lock().unwrap(); g.clear(); g.extend_from_slice(&pre); }
            sh.slots[w].t0.store((t0.elapsed().as_millis() as u64).max(1), SeqCst);
            let r = run_one(&sp.run, ctx);
            sh.slots[w].t0.store(0, SeqCst);
            if let Some(d) = ctx.diverged.take() {
                *sh.engine.lock().unwrap() = Some(d);
                sh.stop.store(true, SeqCst);
                sh.cv.notify_all();
                return;
            }
            let n = ctx.ch.len();
            ctx.st.execs += 1;
            ctx.st.edges += n.saturating_sub(fresh_from) as u64;
            ctx.st.max_depth = ctx.st.max_depth.max(n);
            let fp = ctx.fp;
            ctx.st.fps.insert(fp);
            if ctx.nontrivial { ctx.st.nontrivial += 1; }
            if TRACE.load(std::sync::atomic::Ordering::Relaxed) { let t = (choices_hash(&ctx.ch), ctx.digest); ctx.st.trace.push(t); }
            if let Err(f) = r {
                if known(&sp.name, &f.key) {
                    *ctx.st.known.entry(f.key.clone()).or_default() += 1;
                } else {
                    let choices = ctx.ch.clone();
                    // replay twice: the same sequence must fail the same way before it is believed
                    let a = replay(&sp.run, &choices);
                    let b = replay(&sp.run, &choices);
                    let same = matches!((&a.0, &b.0), (Err(x), Err(y)) if x.msg == y.msg && x.msg == f.msg) && a.2 == b.2 && !a.3;
                    let mut v = sh.viol.lock().unwrap();
                    let mut notes = a.1;
                    // the harness has no other source of nondeterminism, so the code under test must
                    // keep state between calls (or read uninitialised memory)
                    if !same { notes.insert(0, format!("the same choices gave different results: {} / {:?} / {:?}", f.msg, a.0, b.0)); }
                    if v.as_ref().map_or(true, |o| (choices.len(), &choices) < (o.choices.len(), &o.choices)) {
                        *v = Some(Violation { space: sp.name.clone(), choices, key: f.key, msg: f.msg, notes });
                    }
                    sh.stop.store(true, SeqCst);
                    sh.cv.notify_all();
                }
            }
            if sh.stop.load(SeqCst) { return; }
            if Instant::now() > deadline { sh.capped.store(true, SeqCst); sh.stop.store(true, SeqCst); sh.cv.notify_all(); return; }
            // next sequence
            limits.truncate(n.saturating_sub(base));
            for i in limits.len()..n.saturating_sub(base) {
                let l = if i == 0 { hi0.min(ctx.ar[base]) } else { ctx.ar[base + i] };
                limits.push(l);
            }
            // donate: the shallowest open position
            if sh.hungry.load(SeqCst) > 0 && n > base {
                for (i, lim) in limits.iter_mut().enumerate() {
                    let c = ctx.ch[base + i];
                    if c + 1 < *lim {
                        let it = Item { pre: ctx.ch[..base + i].to_vec(), lo: c + 1, hi: *lim };
                        *lim = c + 1;
                        if i == 0 { hi0 = c + 1; }
                        sh.q.lock().unwrap().0.push(it);
                        sh.cv.notify_one();
                        break;
                    }
                }
            }
            let mut p = n;
            let mut found = false;
            while p > base {
                p -= 1;
                if ctx.ch[p] + 1 < limits[p - base] { found = true; break; }
            }
            if !found { break; }
            pre.clear();
            pre.extend_from_slice(&ctx.ch[..p]);
            pre.push(ctx.ch[p] + 1);
            limits.truncate(p - base + 1);
            fresh_from = p;
            let keep = p + 1;
            let ar = std::mem::take(&mut ctx.expect_ar);
            ctx.expect_ar = ar;
            ctx.expect_ar.clear();
            ctx.expect_ar.extend_from_slice(&ctx.ar[..keep]);
        }
        {
            let mut l = last.lock().unwrap();
            *l = ctx.ch.clone();
        }
        let mut g = sh.q.lock().unwrap();
        g.1 -= 1;
        if g.1 == 0 && g.0.is_empty() { sh.cv.notify_all(); }
    }
}

#[allow(dead_code)]
/// The choice sequence with the given hash, found by running the space again, alone.
pub fn search(sp: &Space, want: u64) -> Option<Vec<u32>> {
    let mut ctx = Ctx::new(false);
    loop {
        let _ = run_one(&sp.run, &mut ctx);
        if choices_hash(&ctx.ch) == want { return Some(ctx.ch.clone()); }
        let mut p = ctx.ch.len();
        loop {
            if p == 0 { return None; }
            p -= 1;
            if ctx.ch[p] + 1 < ctx.ar[p] { break; }
        }
        ctx.pre = ctx.ch[..p].to_vec();
        ctx.pre.push(ctx.ch[p] + 1);
    }
}
