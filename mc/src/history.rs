//! C33: every operation is a function of its arguments alone. Histories (sequences of calls in one
//! process, on one thread or several), calls from within the callbacks of a running solver, and
//! schedules of two concurrent calls are enumerated; the outcome of every call is compared, bit for
//! bit, with the outcome of the same call as the first and only one of a process.
use crate::explore::*;
use crate::gen::{general, spd, symmetric};
use crate::num::A2;
use crate::spaces::Tier;
use crate::yfloat::{scheduled, Y};
use linfa_linalg::lobpcg::{lobpcg, MagnitudeCorrection, TruncatedEig, TruncatedSvd};
use linfa_linalg::{bidiagonal::*, cholesky::*, eigh::*, norm::*, qr::*, reflection::*, svd::*, triangular::*, tridiagonal::*, LinalgError, Order};
use ndarray::{Array1, Array2, ArrayBase, ArrayView2, ArrayViewMut2, Data, Dimension, NdFloat};
use rand::RngCore;
use std::iter::Sum;
use std::sync::mpsc;
use std::sync::OnceLock;
use std::time::Duration;

pub trait Num: NdFloat + Sum + MagnitudeCorrection { fn of(x: f64) -> Self; fn bits(self) -> u64; }
impl Num for f32 { fn of(x: f64) -> f32 { x as f32 } fn bits(self) -> u64 { self.to_bits() as u64 } }
impl Num for f64 { fn of(x: f64) -> f64 { x } fn bits(self) -> u64 { self.to_bits() } }
impl Num for Y { fn of(x: f64) -> Y { Y(x) } fn bits(self) -> u64 { self.0.to_bits() } }

/// The outcome of one call.
struct Out(u64);
impl Out {
    fn u(&mut self, x: u64) { let mut h = self.0 ^ x.wrapping_mul(0x9E37_79B9_7F4A_7C15); h ^= h >> 29; h = h.wrapping_mul(0xBF58_476D_1CE4_E5B9); h ^= h >> 32; self.0 = h.wrapping_add(0x1234_5678_9ABC_DEF1); }
    fn f<F: Num>(&mut self, x: F) { let b = x.bits(); self.u(if num_traits::Float::is_nan(x) { 0x7FF8_DEAD } else { b }) }
    fn a<F: Num, S: Data<Elem = F>, D: Dimension>(&mut self, a: &ArrayBase<S, D>) { for d in a.shape() { self.u(*d as u64); } for x in a.iter() { self.f(*x); } }
    fn oa<F: Num>(&mut self, a: &Option<Array2<F>>) { match a { Some(a) => self.a(a), None => self.u(7) } }
    fn e(&mut self, e: &LinalgError) { for c in format!("{e:?} {e}").bytes() { self.u(c as u64); } }
    fn r<T>(&mut self, r: Result<T, LinalgError>, f: impl FnOnce(&mut Out, T)) { match r { Ok(t) => f(self, t), Err(e) => { self.u(99); self.e(&e) } } }
}
#[derive(Clone)]
struct Script(u64);
impl RngCore for Script {
    fn next_u64(&mut self) -> u64 { self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15); let mut z = self.0; z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9); z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB); z ^ (z >> 31) }
    fn next_u32(&mut self) -> u32 { (self.next_u64() >> 32) as u32 }
    fn fill_bytes(&mut self, d: &mut [u8]) { for b in d { *b = self.next_u64() as u8; } }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> { self.fill_bytes(d); Ok(()) }
}

const OPERANDS: [&str; 15] = ["4x4 definite", "4x4 definite, two entries exchanged", "4x4 with NaN", "5x3", "3x5", "40x40 definite", "4x4 zero", "4x4 definite times 1024", "4x4 indefinite, same diagonal", "3x3 definite", "3x2", "40x40 symmetric", "2x2 definite", "2x2", "5x3, two entries exchanged"];
fn operand(i: usize) -> A2 {
    let p0 = ndarray::array![[8.0, 1.0, 2.0, 0.5], [1.0, 6.0, 1.5, 1.0], [2.0, 1.5, 9.0, 2.0], [0.5, 1.0, 2.0, 5.0]];
    let with = |x: f64, y: f64, z: f64| { let mut a = p0.clone(); for (i, j, v) in [(1, 2, x), (1, 3, y), (2, 3, z)] { a[(i, j)] = v; a[(j, i)] = v; } a };
    match i {
        0 => p0,
        1 => with(1.0, 1.5, 2.0),
        2 => with(f64::NAN, 1.0, 2.0),
        3 => general(2, 5, 3, 1),
        4 => general(2, 3, 5, 1),
        5 => spd(3, 40, 1),
        6 => A2::zeros((4, 4)),
        7 => p0 * 1024.0,
        8 => with(9.0, -8.0, 7.0),
        9 => ndarray::array![[4.0, 1.0, 0.5], [1.0, 3.0, 1.0], [0.5, 1.0, 2.0]],
        10 => ndarray::array![[1.0, 2.0], [3.0, -1.0], [0.5, 4.0]],
        11 => symmetric(7, 40, 1),
        12 => ndarray::array![[4.0, 1.0], [1.0, 3.0]],
        14 => { let mut a = general(2, 5, 3, 1); a.swap((1, 1), (2, 0)); a }
        _ => ndarray::array![[1.0, 2.0], [3.0, -1.0]],
    }
}
const KINDS: [&str; 30] = ["qr", "qr solve", "qr solve_tr", "qr inverse", "least_squares", "eigh", "eigvalsh", "svd", "svd values", "svd u", "svd vt", "cholesky", "cholesky_dirty", "invc", "solvec", "cholesky_inplace", "solve_triangular lower", "solve_triangular upper", "triangular", "norms", "reflections", "bidiagonal", "bidiagonal diagonals", "tridiagonal", "tridiagonal diagonals", "sorting", "lobpcg", "TruncatedEig", "TruncatedEig iterator", "TruncatedSvd"];
const ORDERS: [Order; 2] = [Order::Largest, Order::Smallest];

/// Runs one call on operands built here and now, and returns its outcome.
fn run<F: Num>(kind: usize, opd: usize) -> u64 {
    let x: Array2<F> = operand(opd).mapv(F::of);
    let (r, c) = x.dim();
    let b = Array2::from_shape_fn((r, 2), |(i, j)| F::of(((3 * i + 5 * j + i * j) % 7) as f64 - 2.5));
    let mut o = Out(1);
    let res = guard(|| {
        let o = &mut o;
        match kind {
            0 => o.r(x.qr(), |o, d| { o.a(&d.generate_q()); o.u(d.is_invertible() as u64); o.a(&d.into_r()) }),
            1 => o.r(x.qr(), |o, d| o.r(d.solve(&b), |o, y| o.a(&y))),
            2 => o.r(x.t().qr(), |o, d| o.r(d.solve_tr(&b), |o, y| o.a(&y))),
            3 => o.r(x.qr(), |o, d| o.r(d.inverse(), |o, y| o.a(&y))),
            4 => o.r(x.clone().least_squares(&b), |o, y| o.a(&y)),
            5 => o.r(x.eigh(), |o, (w, v)| { o.a(&w); o.a(&v) }),
            6 => o.r(x.eigvalsh(), |o, w| o.a(&w)),
            7..=10 => o.r(x.svd(kind == 7 || kind == 9, kind == 7 || kind == 10), |o, t| { o.oa(&t.0); o.a(&t.1); o.oa(&t.2) }),
            11 => o.r(x.cholesky(), |o, l| o.a(&l)),
            12 => o.r(x.cholesky_dirty(), |o, l| o.a(&l)),
            13 => o.r(x.invc(), |o, l| o.a(&l)),
            14 => o.r(x.clone().solvec(&b), |o, l| o.a(&l)),
            15 => { let mut y = x.clone(); o.r(y.cholesky_inplace().map(|_| ()), |_, _| ()); o.a(&y) }
            16 | 17 => o.r(x.solve_triangular(&b, if kind == 16 { UPLO::Lower } else { UPLO::Upper }), |o, y| o.a(&y)),
            18 => { o.u(x.is_triangular(UPLO::Upper) as u64); o.r(x.clone().into_triangular(UPLO::Lower), |o, y| { o.u(y.is_triangular(UPLO::Lower) as u64); o.a(&y) }) }
            19 => { o.f(x.norm_l1()); o.f(x.norm_l2()); o.f(x.norm_max()) }
            20 => {
                let mut y = x.clone();
                let ax = |n: usize| -> Array1<F> { (0..n).map(|i| F::of(if n == 1 { 1.0 } else { [0.6, 0.8, 0.0][i.min(2)] })).collect() };
                Reflection::new(ax(r), F::of(0.5)).reflect_cols(&mut y);
                Reflection::new(ax(c), F::of(-1.0)).reflect_rows(&mut y);
                o.a(&y)
            }
            21 => o.r(x.clone().bidiagonal(), |o, d| { o.a(&d.generate_u()); o.a(&d.generate_vt()); o.u(d.is_upper_diag() as u64); o.a(&d.into_b()) }),
            22 => o.r(x.clone().bidiagonal(), |o, d| { let (p, q) = d.into_diagonals(); o.a(&p); o.a(&q) }),
            23 => o.r(x.clone().sym_tridiagonal(), |o, d| { o.a(&d.generate_q()); o.a(&d.into_tridiag_matrix()) }),
            24 => o.r(x.clone().sym_tridiagonal(), |o, d| { let (p, q) = d.into_diagonals(); o.a(&p); o.a(&q) }),
            25 => {
                let w: Array1<F> = (0..c).map(|i| F::of([2.0, -1.0, 2.0, 0.0, 3.0][i % 5])).collect();
                for k in ORDERS {
                    o.a(&w.clone().sort_eig(k));
                    let (w, v) = (w.clone(), x.clone()).sort_eig(k);
                    o.a(&w);
                    o.a(&v);
                }
                let t = (Some(x.clone()), w.clone(), Some(x.t().to_owned())).sort_svd(ORDERS[0]);
                o.oa(&t.0);
                o.a(&t.1);
                o.oa(&t.2)
            }
            26 => for k in ORDERS { o.u(solver::<F>(opd, k, &mut |_, _| ())) },
            27 => for k in ORDERS {
                let mut e = TruncatedEig::new_with_rng(gram(&x), k, Script(3)).precision(1e-4).maxiter(20);
                for _ in 0..2 { match e.decompose(1) { Ok(l) => { o.a(&l.eigvals); o.a(&l.eigvecs) } Err((e, l)) => { o.e(&e); if let Some(l) = l { o.a(&l.eigvals) } } } }
            },
            28 => for (w, v) in TruncatedEig::new_with_rng(gram(&x), ORDERS[opd % 2], Script(5)).precision(1e-4).maxiter(20).into_iter().take(3) { o.a(&w); o.a(&v) },
            29 => for k in ORDERS { o.r(TruncatedSvd::new_with_rng(x.clone(), k, Script(7)).precision(1e-2).maxiter(20).decompose(1), |o, r| { o.a(&r.values()); let (u, s, vt) = r.values_vectors(); o.a(&u); o.a(&s); o.a(&vt) }) },
            _ => unreachable!(),
        }
    });
    if let Err(m) = res { o.u(0xDEAD); for c in m.bytes() { o.u(c as u64); } }
    o.0
}
fn gram<F: Num>(x: &Array2<F>) -> Array2<F> { if x.nrows() == x.ncols() { x.clone() } else { x.t().dot(x) } }
/// LOBPCG with callbacks: `cb(callback, number of the call)` runs inside them.
fn solver<F: Num>(opd: usize, k: Order, cb: &mut dyn FnMut(usize, usize)) -> u64 {
    let x = gram(&operand(opd).mapv(F::of));
    let n = x.nrows();
    let start = Array2::from_shape_fn((n, if n >= 10 { 2 } else { 1 }), |(i, j)| F::of(((i * 31 + j * 17 + i * j * 7) % 101) as f64 / 50.0 - 0.7));
    let st = std::cell::RefCell::new((cb, [0usize; 2]));
    let at = |w: usize| { let mut s = st.borrow_mut(); let n = s.1[w]; s.1[w] += 1; (s.0)(w, n) };
    let mut o = Out(1);
    let r = lobpcg(|v: ArrayView2<F>| { at(0); x.dot(&v) }, start, |mut v: ArrayViewMut2<F>| { at(1); v *= F::of(0.5) }, None, 1e-5, 12, k);
    let l = match r { Ok(l) => Some(l), Err((e, l)) => { o.e(&e); l } };
    if let Some(l) = l { o.a(&l.eigvals); o.a(&l.eigvecs); for x in &l.rnorm { o.f(*x) } }
    o.0
}

/// A call: its kind, operand and float type, as one number.
const NK: usize = KINDS.len();
const NO: usize = OPERANDS.len();
fn call(i: usize) -> u64 {
    let (k, o, f) = (i % NK, i / NK % NO, i / NK / NO);
    match f { 0 => run::<f64>(k, o), 1 => run::<f32>(k, o), _ => run::<Y>(k, o) }
}
fn name(i: usize) -> String { format!("{} of {} in {}", KINDS[i % NK], OPERANDS[i / NK % NO], ["f64", "f32", "the scheduled type"][i / NK / NO]) }
fn id(kind: usize, opd: usize, f: usize) -> usize { kind + NK * (opd + NO * f) }
fn on_thread<T: Send>(f: impl FnOnce() -> T + Send) -> T { std::thread::scope(|s| s.spawn(f).join().expect("thread")) }

extern "C" { fn fork() -> i32; fn pipe(f: *mut i32) -> i32; fn read(f: i32, b: *mut std::ffi::c_void, n: usize) -> isize; fn write(f: i32, b: *const std::ffi::c_void, n: usize) -> isize; fn close(f: i32) -> i32; fn waitpid(p: i32, s: *mut i32, o: i32) -> i32; fn _exit(c: i32) -> !; fn alarm(s: u32) -> u32; }
/// Runs `f` in a copy of this (single-threaded) process, so that it leaves no trace here.
fn forked(f: impl FnOnce() -> u64) -> Option<u64> {
    unsafe {
        let mut p = [0i32; 2];
        assert_eq!(pipe(p.as_mut_ptr()), 0);
        let c = fork();
        assert!(c >= 0);
        if c == 0 {
            alarm(20);
            let d = f().to_ne_bytes();
            write(p[1], d.as_ptr().cast(), 8);
            _exit(0);
        }
        close(p[1]);
        let mut b = [0u8; 8];
        let n = read(p[0], b.as_mut_ptr().cast(), 8);
        close(p[0]);
        let mut s = 0;
        waitpid(c, &mut s, 0);
        (n == 8).then(|| u64::from_ne_bytes(b))
    }
}
fn line(i: usize, d: Option<u64>) { match d { Some(d) => println!("{i} {d:x}"), None => println!("{i} none") } }

/// `mc hist ...`: one process whose history is explored.
pub fn child(a: &[String]) {
    let n = |k: usize| -> usize { a[k].parse().expect("number") };
    let list = |k: usize| -> Vec<usize> { a[k].split(',').filter_map(|x| x.parse().ok()).collect() };
    match a[0].as_str() {
        // seq THREADS BEFORE LAST: the calls BEFORE, then (each in a copy of the process) each of LAST
        "seq" => {
            let thr = n(1);
            for i in list(2) { if thr == 1 { on_thread(|| call(i)); } else { call(i); } }
            for i in list(3) { line(i, forked(|| if thr == 2 { on_thread(|| call(i)) } else { call(i) })); }
        }
        // nest SOLVER_OPERAND SMALLEST CALLBACK LAST: each of LAST inside each of the solver's callbacks of that kind
        "nest" => {
            let (opd, k, w) = (n(1), ORDERS[n(2)], n(3));
            for i in list(4) {
                for t in 0.. {
                    let mut inner = None;
                    let mut d = 0;
                    let out = forked(|| { let mut inner = 0; let d = solver::<f64>(opd, k, &mut |q, m| if q == w && m == t { inner = call(i) }); d ^ inner.rotate_left(1) });
                    if out.is_some() { d = solver::<f64>(opd, k, &mut |q, m| if q == w && m == t { inner = Some(call(i)) }); }
                    match (out, inner) { (Some(x), Some(y)) => println!("{i} {y:x} {d:x} {}", (x == d ^ y.rotate_left(1)) as u8), (Some(_), None) => break, _ => { println!("{i} none none 0"); break } }
                }
            }
        }
        // conc A B PREEMPTIONS PART PARTS: all schedules of two concurrent calls, those of one part of the preemption points of A
        "conc" => {
            let (i, j) = (n(1), n(2));
            let (mut runs, mut bad) = (0u64, 0);
            let (want_i, na) = scheduled(u64::MAX, Box::new(|| ()), || call(i));
            let (want_j, nb) = scheduled(u64::MAX, Box::new(|| ()), || call(j));
            println!("{i} {want_i:x}");
            println!("{j} {want_j:x}");
            let qs: Vec<u64> = if n(3) == 1 { vec![u64::MAX] } else { (0..nb).collect() };
            for p in (0..na).filter(|p| *p as usize % n(5) == n(4)) {
                for &q in &qs {
                    let (paused_tx, paused) = mpsc::channel::<()>();
                    let (go, go_rx) = mpsc::channel::<()>();
                    let h = std::sync::Arc::new(std::sync::Mutex::new(None));
                    let h2 = h.clone();
                    let start = Box::new(move || {
                        let tx = paused_tx.clone();
                        *h2.lock().unwrap() = Some(std::thread::spawn(move || {
                            let tx2 = tx.clone();
                            let d = scheduled(q, Box::new(move || { let _ = tx2.send(()); let _ = go_rx.recv(); }), || call(j)).0;
                            let _ = tx.send(());
                            d
                        }));
                        // a call that waits for the preempted one cannot go on: then that one does
                        let _ = paused.recv_timeout(Duration::from_millis(300));
                    });
                    let (di, _) = scheduled(p, start, || call(i));
                    let _ = go.send(());
                    let t = h.lock().unwrap().take();
                    let dj = t.map(|t| t.join().expect("thread"));
                    runs += 1;
                    if di != want_i || dj.is_some_and(|d| d != want_j) { bad += 1; if bad <= 3 { println!("bad {p} {q} {di:x} {:x}", dj.unwrap_or(0)); } }
                }
            }
            println!("runs {runs} {na} {nb}");
        }
        x => panic!("hist {x}"),
    }
    println!("end");
}
fn spawn(args: &[String], perturb: &str) -> Result<Vec<Vec<String>>, Fail> {
    let exe = std::env::current_exe().expect("exe");
    let o = std::process::Command::new(exe).arg("hist").args(args).env("MALLOC_PERTURB_", perturb).output().expect("child process");
    let t = String::from_utf8_lossy(&o.stdout).into_owned();
    let v: Vec<Vec<String>> = t.lines().map(|l| l.split(' ').map(|s| s.to_string()).collect()).collect();
    if v.last().map(|l| l[0] == "end") != Some(true) {
        return Err(Fail { key: "process".into(), msg: format!("a process running 'mc hist {}' ended early ({}): {}", args.join(" "), o.status, String::from_utf8_lossy(&o.stderr).lines().rev().take(4).collect::<Vec<_>>().join(" / ")) });
    }
    Ok(v)
}
fn join(v: &[usize]) -> String { v.iter().map(|i| i.to_string()).collect::<Vec<_>>().join(",") }
fn hex(s: &str) -> Option<u64> { u64::from_str_radix(s, 16).ok() }

/// The outcome of every call as the first one of a process.
fn alone() -> &'static Result<Vec<Option<u64>>, String> {
    static R: OnceLock<Result<Vec<Option<u64>>, String>> = OnceLock::new();
    R.get_or_init(|| {
        let all: Vec<usize> = (0..3 * NO * NK).collect();
        let mut v = vec![None; all.len()];
        for l in spawn(&["seq".into(), "0".into(), "".into(), join(&all)], "1").map_err(|f| f.msg)? { if l.len() == 2 { v[l[0].parse::<usize>().unwrap()] = hex(&l[1]); } }
        Ok(v)
    })
}
fn refs() -> Result<&'static Vec<Option<u64>>, Fail> { alone().as_ref().map_err(|m| Fail { key: "process".into(), msg: m.clone() }) }
/// Compares what a call gave in a history with what it gives alone.
fn same(ctx: &mut Ctx, i: usize, got: &str, history: impl Fn() -> String) -> Res {
    let want = refs()?[i];
    ctx.calls(1);
    ctx.state(i as u64);
    let g = hex(got);
    ctx.ok("same outcome as alone", g == want, || format!("{} {}: {} alone, {} there", name(i), history(), want.map_or("nothing".into(), |d| format!("outcome {d:016x}")), g.map_or("the process ended or did not return".into(), |d| format!("outcome {d:016x}"))))
}

pub fn spaces(t: Tier) -> Vec<Space> {
    let th = t.thorough();
    let direct = |f: usize, ops: &[usize]| -> Vec<usize> { ops.iter().flat_map(|o| (0..NK).map(move |k| id(k, *o, f))).collect() };
    let mut v = vec![];
    // every call again, in other processes
    let all: Vec<usize> = (0..3 * NO * NK).collect();
    let a = all.clone();
    v.push(space(format!("processes: all {} calls ({NK} operations x {NO} operands x 3 float types), each alone in another process with other memory contents and addresses, on the main and on another thread", all.len()), move |ctx| {
        let thr = ctx.pick(&[0usize, 2]);
        let p = ctx.pick(&["85", "170", "63"]);
        ctx.state(thr as u64);
        ctx.nontrivial();
        for l in spawn(&["seq".into(), thr.to_string(), "".into(), join(&a)], p)? { if l.len() == 2 { same(ctx, l[0].parse().unwrap(), &l[1], || "alone in another process".into())?; } }
        Ok(())
    }));
    let mut set = direct(0, &[0, 1, 2, 3, 4, 5, 6, 7, 8, 11, 14]);
    set.extend(direct(1, &[0, 1, 3, 5]));
    let (s2, l2): (Vec<usize>, Vec<usize>) = (set.clone(), if th { set.clone() } else { direct(0, &[0, 3]).into_iter().chain(direct(1, &[0])).collect() });
    v.push(space(format!("histories of 2 calls: each of {} calls, then each of {} (operands with the same entries in other places, that fail, that are larger), on one thread, the first or the second on a thread of its own", set.len(), l2.len()), move |ctx| {
        let thr = ctx.choose(3);
        let i = s2[ctx.choose(s2.len())];
        ctx.state_f(&[i as f64, thr as f64]);
        ctx.note(|| format!("first call: {}, threads {thr}", name(i)));
        ctx.nontrivial();
        for l in spawn(&["seq".into(), thr.to_string(), i.to_string(), join(&l2)], "1")? { if l.len() == 2 { same(ctx, l[0].parse().unwrap(), &l[1], || format!("after {}", name(i)))?; } }
        Ok(())
    }));
    let s3: Vec<usize> = if th { direct(0, &[0, 1, 3]) } else { [0usize, 1, 3].iter().flat_map(|o| [0usize, 1, 4, 5, 6, 7, 8, 11, 13, 14, 16, 21, 23, 26, 27, 29].map(|k| id(k, *o, 0))).collect() };
    v.push(space(format!("histories of 3 calls: all sequences of {} calls", s3.len()), move |ctx| {
        let (i, j) = (s3[ctx.choose(s3.len())], s3[ctx.choose(s3.len())]);
        ctx.state_f(&[i as f64, j as f64]);
        ctx.note(|| format!("calls before: {}, {}", name(i), name(j)));
        ctx.nontrivial();
        for l in spawn(&["seq".into(), "0".into(), join(&[i, j]), join(&s3)], "1")? { if l.len() == 2 { same(ctx, l[0].parse().unwrap(), &l[1], || format!("after {} and {}", name(i), name(j)))?; } }
        Ok(())
    }));
    let inner: Vec<usize> = direct(0, if th { &[0, 1, 3, 5, 11] } else { &[0, 3, 11] });
    v.push(space(format!("nested: each of {} calls inside each call of the operator and of the preconditioner of a running LOBPCG", inner.len()), move |ctx| {
        let (opd, k, w) = (ctx.pick(&[0usize, 11]), ctx.choose(2), ctx.choose(2));
        let i = inner[ctx.choose(inner.len())];
        ctx.state_f(&[opd as f64, k as f64, w as f64]);
        ctx.nontrivial();
        let out = solver::<f64>(opd, ORDERS[k], &mut |_, _| ());
        for l in spawn(&["nest".into(), opd.to_string(), k.to_string(), w.to_string(), i.to_string()], "1")? {
            if l.len() != 4 { continue; }
            same(ctx, i, &l[1], || format!("inside a callback of LOBPCG on {}", OPERANDS[opd]))?;
            ctx.ok("same outcome of the solver", hex(&l[2]) == Some(out) && l[3] == "1", || format!("LOBPCG on {} {:?} gives another result when {} runs inside its {}", OPERANDS[opd], ORDERS[k], name(i), ["operator", "preconditioner"][w]))?;
        }
        Ok(())
    }));
    for pre in [1usize, 2] {
        let few = |ks: &[usize], o: usize| -> Vec<usize> { ks.iter().map(|k| id(*k, o, 2)).collect() };
        let (pa, pb): (Vec<usize>, Vec<usize>) = match (pre, th) {
            (1, false) => ((0..NK).map(|k| id(k, if k < 26 { 9 } else { 12 }, 2)).collect(), few(&[0, 4, 5, 7, 11, 23], 9)),
            (1, true) => (direct(2, &[0, 9, 10]), direct(2, &[9, 10])),
            (_, false) => (few(&[0, 4, 6, 8, 11, 13, 21], 12), few(&[0, 6, 8, 11, 13], 13).into_iter().chain(few(&[6, 11], 12)).collect()),
            (_, true) => (few(&[0, 1, 3, 4, 5, 6, 7, 8, 11, 13, 14, 21, 23], 12), few(&[0, 1, 3, 4, 5, 6, 7, 8, 11, 13, 14, 21, 23], 13).into_iter().chain(few(&[5, 6, 11, 13, 14, 23], 12)).collect()),
        };
        let parts = if th { 16 } else { 8 };
        v.push(space(format!("schedules: two concurrent calls ({} x {} pairs), all interleavings with {} at the granularity of arithmetic operations and comparisons", pa.len(), pb.len(), if pre == 1 { "one preemption of the first" } else { "one preemption of each" }), move |ctx| {
            let (i, j, part) = (pa[ctx.choose(pa.len())], pb[ctx.choose(pb.len())], ctx.choose(parts));
            ctx.state_f(&[i as f64, j as f64, part as f64]);
            ctx.note(|| format!("{} preempted by {}", name(i), name(j)));
            ctx.nontrivial();
            for l in spawn(&["conc".into(), i.to_string(), j.to_string(), pre.to_string(), part.to_string(), parts.to_string()], "1")? {
                match l[0].as_str() {
                    "end" => (),
                    "runs" => { let n: u64 = l[1].parse().unwrap_or(0); ctx.calls(2 * n); for k in 0..n { ctx.state(k); } ctx.st.cmps += n; *ctx.st.outcomes.entry("schedules of two concurrent calls").or_default() += n; }
                    "bad" => return fail("schedule", format!("{} and {} run concurrently give {} and {}, not what they give alone (first preempted before its operation {}, second {})", name(i), name(j), l[3], l[4], l[1], l[2])),
                    _ => same(ctx, l[0].parse().unwrap(), &l[1], || "before anything runs concurrently".into())?,
                }
            }
            Ok(())
        }));
    }
    v
}
