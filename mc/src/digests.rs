//! C28: every operation of the library, its complete outcome (values bit for bit, errors, panics)
//! folded into one number per execution. The same enumeration is run in builds with and without
//! debug assertions and with and without the `iterative` feature, and compared execution by execution.
use crate::explore::{guard, space, Ctx, Res, Space};
use crate::gen::*;
use crate::num::*;
use crate::spaces::*;
use linfa_linalg::{bidiagonal::*, cholesky::*, eigh::*, norm::*, qr::*, reflection::*, svd::*, triangular::*, tridiagonal::*, LinalgError, Order};
use ndarray::{Array1, Array2, ArrayBase, ArrayView2, ArrayViewMut2, CowArray, Data, DataMut, Dimension, Ix2};

fn flt(ctx: &mut Ctx) -> bool { let s = ctx.flag(); ctx.state(s as u64); if s { ctx.note(|| "f32".into()); } s }
macro_rules! by { ($s:expr, $f:ident ( $($a:expr),* )) => { if $s { $f::<f32>($($a),*) } else { $f::<f64>($($a),*) } } }

/// Outcome of one call.
pub struct Out(u64);
impl Out {
    fn u(&mut self, x: u64) { let mut h = self.0 ^ x.wrapping_mul(0x9E37_79B9_7F4A_7C15); h ^= h >> 29; h = h.wrapping_mul(0xBF58_476D_1CE4_E5B9); h ^= h >> 32; self.0 = h.wrapping_add(0x1234_5678_9ABC_DEF1); }
    fn f<F: Fl>(&mut self, x: F) { self.u(if x.is_nan() { 0x7FF8_DEAD } else { x.bits() }) }
    fn a<F: Fl, S: Data<Elem = F>, D: Dimension>(&mut self, a: &ArrayBase<S, D>) { for d in a.shape() { self.u(*d as u64); } for x in a.iter() { self.f(*x); } }
    fn e(&mut self, e: &LinalgError) { for c in format!("{e:?} {e}").bytes() { self.u(c as u64); } }
    fn r<T>(&mut self, r: Result<T, LinalgError>, f: impl FnOnce(&mut Out, T)) { match r { Ok(t) => f(self, t), Err(e) => { self.u(99); self.e(&e) } } }
    fn oa<F: Fl>(&mut self, a: &Option<Array2<F>>) { match a { Some(a) => self.a(a), None => self.u(7) } }
}
/// Runs one call and folds its outcome; operations are kept apart, so that one that panics hides no other.
fn call(ctx: &mut Ctx, name: &str, f: impl FnOnce(&mut Out)) {
    let mut o = Out(1);
    let r = guard(|| f(&mut o));
    if r.is_err() { o = Out(0xDEAD); ctx.outcome("panics, in every build"); }
    ctx.calls(1);
    ctx.digest(o.0);
    if ctx.verbose { let d = o.0; ctx.notes.push(format!("op {name} = {d:016x}{}", match r { Ok(()) => String::new(), Err(m) => format!(" panicked: {m}") })); }
}
fn orders() -> [Order; 2] { [Order::Largest, Order::Smallest] }

/// Everything that borrows.
fn refs<F: Fl, S: Data<Elem = F>, T: Data<Elem = F>>(ctx: &mut Ctx, x: &ArrayBase<S, Ix2>, b: &ArrayBase<T, Ix2>) {
    call(ctx, "qr", |o| o.r(x.qr(), |o, d| {
        o.a(&d.generate_q());
        o.u(d.is_invertible() as u64);
        o.r(d.inverse(), |o, i| o.a(&i));
        let (q, r) = d.into_decomp();
        o.a(&q);
        o.a(&r);
    }));
    call(ctx, "qr solve", |o| o.r(x.qr(), |o, d| { o.r(d.solve(b), |o, y| o.a(&y)); o.a(&d.into_r()) }));
    call(ctx, "qr solve_tr", |o| o.r(x.t().qr(), |o, d| { o.r(d.solve_tr(b), |o, y| o.a(&y)); }));
    call(ctx, "eigh", |o| o.r(x.eigh(), |o, (w, v)| { o.a(&w); o.a(&v); for k in orders() { if w.iter().any(|x| x.is_nan()) { break; } let (w, v) = (w.clone(), v.clone()).sort_eig(k); o.a(&w); o.a(&v); } }));
    call(ctx, "eigvalsh", |o| o.r(x.eigvalsh(), |o, w| { o.a(&w); if w.iter().any(|x| x.is_nan()) { return; } o.a(&w.clone().sort_eig_asc()); o.a(&w.sort_eig_desc()); }));
    for (u, v) in [(true, true), (false, true), (true, false), (false, false)] {
        call(ctx, "svd", |o| o.r(x.svd(u, v), |o, t| { o.oa(&t.0); o.a(&t.1); o.oa(&t.2); if t.1.iter().any(|x| x.is_nan()) { return; } let t = t.sort_svd_desc(); o.oa(&t.0); o.a(&t.1); o.oa(&t.2); }));
    }
    call(ctx, "cholesky", |o| o.r(x.cholesky(), |o, l| o.a(&l)));
    call(ctx, "cholesky_dirty", |o| o.r(x.cholesky_dirty(), |o, l| o.a(&l)));
    call(ctx, "invc", |o| o.r(x.invc(), |o, l| o.a(&l)));
    call(ctx, "is_triangular", |o| { o.u(x.is_triangular(UPLO::Upper) as u64); o.u(x.is_triangular(UPLO::Lower) as u64); });
    call(ctx, "norms", |o| { o.f(x.norm_l1()); o.f(x.norm_l2()); o.f(x.norm_max()); });
    for up in [true, false] { call(ctx, "solve_triangular", |o| o.r(x.solve_triangular(b, if up { UPLO::Upper } else { UPLO::Lower }), |o, y| o.a(&y))); }
}
/// Everything that consumes or writes; `fresh` gives operands to write into, `extra` folds what else the call may have changed.
const INTO: usize = 20;
#[allow(clippy::too_many_arguments)]
fn into<F: Fl, S: DataMut<Elem = F>, T: DataMut<Elem = F>>(ctx: &mut Ctx, op: usize, mut x: ArrayBase<S, Ix2>, mut b: ArrayBase<T, Ix2>) {
    let c = x.ncols();
    match op {
        0 => call(ctx, "qr_into", |o| o.r(x.qr_into(), |o, d| { o.a(&d.generate_q()); o.u(d.is_invertible() as u64); o.r(d.inverse(), |o, i| o.a(&i)); o.a(&d.into_r()); })),
        1 => call(ctx, "eigh_into", |o| o.r(x.eigh_into(), |o, (w, v)| { o.a(&w); o.a(&v); })),
        2 => call(ctx, "eigvalsh_into", |o| o.r(x.eigvalsh_into(), |o, w| o.a(&w))),
        3 => call(ctx, "svd_into", |o| o.r(x.svd_into(true, true), |o, t| { o.oa(&t.0); o.a(&t.1); o.oa(&t.2); })),
        4 => call(ctx, "cholesky_into", |o| o.r(x.cholesky_into(), |o, l| o.a(&l))),
        5 => call(ctx, "cholesky_into_dirty", |o| o.r(x.cholesky_into_dirty(), |o, l| o.a(&l))),
        6 => call(ctx, "cholesky_inplace", |o| { o.r(x.cholesky_inplace().map(|_| ()), |_, _| ()); o.a(&x) }),
        7 => call(ctx, "cholesky_inplace_dirty", |o| { o.r(x.cholesky_inplace_dirty().map(|_| ()), |_, _| ()); o.a(&x) }),
        8 => call(ctx, "invc_inplace", |o| { o.r(x.invc_inplace(), |o, i| o.a(&i)); o.a(&x) }),
        9 => call(ctx, "triangular_inplace", |o| { o.r(x.triangular_inplace(UPLO::Upper).map(|_| ()), |_, _| ()); o.a(&x); o.r(x.into_triangular(UPLO::Lower), |o, l| o.a(&l)) }),
        10 => call(ctx, "bidiagonal", |o| o.r(x.bidiagonal(), |o, d| {
            o.a(&d.generate_u());
            o.a(&d.generate_vt());
            o.u(d.is_upper_diag() as u64);
            o.a(&d.into_b());
        })),
        11 => call(ctx, "bidiagonal diagonals", |o| o.r(x.bidiagonal(), |o, d| { let (p, q) = d.into_diagonals(); o.a(&p); o.a(&q); })),
        12 => call(ctx, "sym_tridiagonal", |o| o.r(x.sym_tridiagonal(), |o, d| { o.a(&d.generate_q()); o.a(&d.into_tridiag_matrix()); })),
        13 => call(ctx, "sym_tridiagonal diagonals", |o| o.r(x.sym_tridiagonal(), |o, d| { let (p, q) = d.into_diagonals(); o.a(&p); o.a(&q); })),
        14 => call(ctx, "solve_triangular_into", |o| o.r(x.solve_triangular_into(b, UPLO::Lower), |o, y| o.a(&y))),
        15 => call(ctx, "solve_triangular_inplace", |o| { o.r(x.solve_triangular_inplace(&mut b, UPLO::Upper).map(|_| ()), |_, _| ()); o.a(&b) }),
        16 => call(ctx, "least_squares_into", |o| o.r(x.least_squares_into(b), |o, y| o.a(&y))),
        17 => call(ctx, "solvec_inplace", |o| { o.r(x.solvec_inplace(&mut b).map(|_| ()), |_, _| ()); o.a(&b); o.a(&x) }),
        18 => call(ctx, "qr solve_into", |o| o.r(x.qr_into(), |o, d| { o.r(d.solve_into(b.view_mut()).map(|y| y.to_owned()), |o, y| o.a(&y)); o.a(&b); o.r(d.solve_tr_into(b).map(|y| y.to_owned()), |o, y| o.a(&y)) })),
        19 => call(ctx, "reflections", |o| {
            let ax: Array1<F> = (0..x.nrows()).map(|i| F::of(if x.nrows() == 1 { 1.0 } else { [0.6, 0.8, 0.0][i.min(2)] })).collect();
            Reflection::new(ax, F::of(0.5)).reflect_cols(&mut x);
            o.a(&x);
            let ax: Array1<F> = (0..c).map(|i| F::of(if c == 1 { 1.0 } else { [0.8, 0.6, 0.0][i.min(2)] })).collect();
            Reflection::new(ax, F::of(-1.0)).reflect_rows(&mut x);
            o.a(&x);
        }),
        _ => unreachable!(),
    }
}
/// Operand `a` in layout `la`, right-hand side `b` in layout `lb`: every operation, and the storage around the views afterwards.
fn all<F: Fl>(ctx: &mut Ctx, a: &A2, la: usize, b: &A2, lb: usize, shared: bool) -> Res {
    let (h, hb) = (Held::<F>::new(a, la), Held::<F>::new(b, lb));
    ctx.nontrivial();
    if !shared {
        refs(ctx, &h.view(), &hb.view());
        for op in 0..INTO {
            let (mut x, mut y) = (h.clone(), hb.clone());
            // all storage is folded: also what lies outside the views
            let (vx, vy): (ArrayViewMut2<F>, ArrayViewMut2<F>) = (x.view_mut(), y.view_mut());
            into(ctx, op, vx, vy);
            let mut o = Out(2);
            o.a(&x.base);
            o.a(&y.base);
            ctx.digest(o.0);
        }
    } else {
        // copy-on-write storage with a second owner
        for op in 0..INTO {
            let (x, y) = (h.base.clone().into_shared(), hb.base.clone().into_shared());
            let (x2, y2) = (x.clone(), y.clone());
            into(ctx, op, lay(x, la, h.r, h.c), lay(y, lb, hb.r, hb.c));
            let mut o = Out(3);
            o.a(&x2);
            o.a(&y2);
            ctx.digest(o.0);
            let (vx, vy): (ArrayView2<F>, ArrayView2<F>) = (h.view(), hb.view());
            into(ctx, op, CowArray::from(vx), CowArray::from(vy));
            let mut o = Out(4);
            o.a(&h.base);
            o.a(&hb.base);
            ctx.digest(o.0);
        }
    }
    Ok(())
}
fn special<F: Fl>() -> Vec<f64> { let mx = F::max_value().f(); vec![f64::NAN, f64::INFINITY, f64::NEG_INFINITY, mx, -mx, F::SUB, F::min_positive_value().f(), mx.sqrt() * 2.0, F::min_positive_value().f().sqrt()] }

pub fn spaces(t: Tier) -> Vec<Space> {
    let th = t.thorough();
    let mut v = vec![];
    let shapes: &'static [(usize, usize)] = if th { &[(1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (3, 1), (2, 3), (3, 2), (4, 2), (2, 4), (3, 3)] } else { &[(1, 1), (1, 2), (2, 1), (2, 2), (3, 1), (2, 3), (3, 2)] };
    v.push(space(format!("dense: every matrix of {shapes:?} over {{0, 1, -1}}, every operation"), move |ctx| {
        let (r, c) = ctx.pick(shapes);
        let a = dense(ctx, r, c, Z3);
        let la = if r * c <= 4 { ctx.choose(NLAY) } else { (a.sum().abs() as usize + r) % NLAY };
        ctx.state(la as u64);
        let s = flt(ctx);
        by!(s, all(ctx, &a, la, &rhs_kind(2, r), 0, false))
    }));
    v.push(space("dense symmetric 3x3 over {0, 1, -1}, every operation", move |ctx| {
        let a = dense_sym(ctx, 3, Z3);
        let s = flt(ctx);
        by!(s, all(ctx, &a, 0, &rhs_kind(1, 3), 0, false))
    }));
    let shapes: &'static [(usize, usize)] = if th { &[(0, 0), (0, 3), (3, 0), (1, 1), (2, 2), (3, 3), (4, 4), (5, 5), (6, 6), (3, 2), (2, 3), (5, 3), (3, 5), (7, 6), (6, 7), (9, 9), (12, 12), (17, 16), (16, 17), (33, 33)] } else { &[(0, 0), (0, 3), (3, 0), (1, 1), (2, 2), (3, 3), (4, 4), (3, 2), (5, 3), (3, 5), (6, 6), (7, 6), (6, 7), (9, 9), (17, 17)] };
    for shared in [false, true] {
        v.push(space(format!("families{}: {NGEN} general, {NSYM} symmetric and {NSPD} definite families at {shapes:?} x layouts of A and b, every operation", if shared { " in shared copy-on-write storage" } else { "" }), move |ctx| {
            let (r, c) = ctx.pick(shapes);
            let a = if r * c == 0 { A2::zeros((r, c)) } else if r != c { gen_family(ctx, r, c) } else { match ctx.choose(3) { 0 => gen_family(ctx, r, c), 1 => { let id = ctx.choose(NSYM); let a = symmetric(id, r, 1); reg(ctx, &a); a } _ => { let id = ctx.choose(NSPD); let a = spd(id, r, 1); reg(ctx, &a); a } } };
            let ls: &[(usize, usize)] = if r * c > 60 { &[(0, 0), (1, 8), (4, 1), (7, 6)] } else { &[(0, 0), (1, 1), (2, 3), (3, 2), (4, 5), (5, 6), (6, 7), (7, 8), (8, 9), (9, 4)] };
            let (la, lb) = ctx.pick(ls);
            let k = if r * c > 60 { 2 } else { ctx.pick(&[0usize, 2, 3]) };
            ctx.state_f(&[r as f64, c as f64, la as f64, lb as f64, k as f64]);
            ctx.note(|| format!("{r}x{c}, A {}, b {} kind {k}", LAYOUTS[la], LAYOUTS[lb]));
            let s = flt(ctx);
            by!(s, all(ctx, &a, la, &rhs_kind(k, r), lb, shared))
        }));
    }
    let shapes: &'static [(usize, usize)] = if th { &[(20, 20), (24, 24), (31, 31), (32, 32), (33, 33), (40, 40), (48, 48), (50, 50), (64, 64), (65, 65), (66, 66), (100, 100), (129, 129), (40, 12), (12, 40), (66, 40), (40, 66), (130, 9), (9, 130), (257, 3), (3, 257)] } else { &[(24, 24), (33, 33), (50, 50), (65, 65), (129, 129), (40, 12), (12, 40), (66, 40), (130, 9), (9, 130)] };
    v.push(space(format!("large: a general, a symmetric and a definite family at {shapes:?} x right-hand sides of 1, 9, 33 and 66 columns x 4 pairs of layouts, every operation"), move |ctx| {
        let (r, c) = ctx.pick(shapes);
        let a = if r != c { general(36, r, c, 1) } else { match ctx.choose(3) { 0 => general(36, r, c, 1), 1 => symmetric(7, r, 1), _ => spd(3, r, 1) } };
        reg(ctx, &a);
        let (la, lb) = ctx.pick(&[(0usize, 0usize), (1, 8), (4, 1), (7, 6)]);
        let m = ctx.pick(&[1usize, 9, 33, 66]);
        ctx.state_f(&[la as f64, lb as f64, m as f64]);
        ctx.note(|| format!("{r}x{c}, A {}, b {} of {m} columns", LAYOUTS[la], LAYOUTS[lb]));
        let b = A2::from_shape_fn((r, m), |(i, j)| md((3 * i + 5 * j + i * j + 1) as i64, 13) / 2.0);
        let s = flt(ctx);
        by!(s, all(ctx, &a, la, &b, lb, false))
    }));
    v.push(space("mismatched shapes: A r x c and b with other row counts, r, c in 0..4, every operation, owned-like and strided layouts", move |ctx| {
        let (r, c, n, m) = (ctx.choose(5), ctx.choose(5), ctx.choose(6), ctx.choose(3));
        let l = ctx.pick(&[0usize, 1, 6]);
        let shared = ctx.flag();
        ctx.state_f(&[r as f64, c as f64, n as f64, m as f64, l as f64, shared as u8 as f64]);
        ctx.note(|| format!("A {r}x{c}, b {n}x{m}, {}", LAYOUTS[l]));
        let a = A2::from_shape_fn((r, c), |(i, j)| if i == j { 4.0 } else { 1.0 });
        let b = A2::from_shape_fn((n, m), |(i, j)| (i + 2 * j) as f64);
        let s = flt(ctx);
        by!(s, all(ctx, &a, l, &b, l, shared))
    }));
    v.push(space("special values: NaN, infinities, largest, subnormal and square-overflowing values at one position (two when thorough) of base matrices, every operation", move |ctx| {
        let s = flt(ctx);
        let sp = if s { special::<f32>() } else { special::<f64>() };
        let (r, c) = ctx.pick(&[(1usize, 1usize), (2, 2), (3, 3), (4, 4), (3, 2), (2, 3), (5, 3)]);
        let mut a = match ctx.choose(4) { 0 => general(2, r, c, 0), 1 => general(5, r, c, 0), 2 => general(16, r, c, 0), _ => A2::zeros((r, c)) };
        for k in 0..if th && r * c <= 9 { 2 } else { 1 } {
            let p = ctx.choose(r * c + k);
            if p == r * c { break; }
            let x = sp[ctx.choose(sp.len())];
            let sym = r == c && ctx.flag();
            a[(p / c, p % c)] = x;
            if sym { a[(p % c, p / c)] = x; }
        }
        reg(ctx, &a);
        by!(s, all(ctx, &a, 0, &rhs_kind(2, r), 0, false))
    }));
    v.push(space("scaled families: largest entry at powers of two over the whole range, every operation", move |ctx| {
        let s = flt(ctx);
        let (r, c) = ctx.pick(&[(2usize, 2usize), (4, 4), (5, 3), (3, 5)]);
        let a = gen_family(ctx, r, c);
        let a = rescale(ctx, &a, s);
        by!(s, all(ctx, &a, 0, &rhs_kind(2, r), 0, false))
    }));
    #[cfg(feature = "iterative")]
    iterative::add(&mut v, t);
    v
}

#[cfg(feature = "iterative")]
mod iterative {
    use super::*;
    use linfa_linalg::lobpcg::{lobpcg, TruncatedEig, TruncatedSvd};
    use ndarray::s;
    use rand::RngCore;
    #[derive(Clone)]
    struct Script(u64);
    impl RngCore for Script {
        fn next_u64(&mut self) -> u64 { self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15); let mut z = self.0; z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9); z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB); z ^ (z >> 31) }
        fn next_u32(&mut self) -> u32 { (self.next_u64() >> 32) as u32 }
        fn fill_bytes(&mut self, d: &mut [u8]) { for b in d { *b = self.next_u64() as u8; } }
        fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> { self.fill_bytes(d); Ok(()) }
    }
    fn solve<F: Fl>(ctx: &mut Ctx, a: &A2, k: usize, o: Order, iters: usize, seed: u64) -> Res {
        let n = a.nrows();
        let x = to::<F>(a);
        ctx.nontrivial();
        let start = A2::from_shape_fn((n, k), |(i, j)| (((i * 31 + j * 17 + i * j * 7 + seed as usize * 13) % 101) as f64) / 50.0 - 0.7);
        let y = A2::from_shape_fn((n, 1), |(i, _)| 1.0 + (i % 2) as f64);
        for con in [false, true] {
            call(ctx, "lobpcg", |out| {
                let yy = to::<F>(&y);
                let r = lobpcg(|v| x.dot(&v), to::<F>(&start), |mut v| v *= F::of(0.5), con.then(|| yy.view()), 1e-5, iters, o);
                let l = match r { Ok(l) => Some(l), Err((e, l)) => { out.e(&e); l } };
                if let Some(l) = l { out.a(&l.eigvals); out.a(&l.eigvecs); for x in &l.rnorm { out.f(*x); } }
            });
        }
        call(ctx, "TruncatedEig", |out| {
            let mut e = TruncatedEig::new_with_rng(x.clone(), o, Script(seed)).precision(1e-4).maxiter(iters);
            match e.decompose(k) { Ok(l) => { out.a(&l.eigvals); out.a(&l.eigvecs); } Err((e, l)) => { out.e(&e); if let Some(l) = l { out.a(&l.eigvals); } } }
            for (w, v) in TruncatedEig::new_with_rng(x.clone(), o, Script(seed)).precision(1e-4).maxiter(iters).into_iter().take(4) { out.a(&w); out.a(&v); }
        });
        call(ctx, "TruncatedSvd", |out| {
            let rect = x.slice(s![.., ..n - n / 3]).to_owned();
            out.r(TruncatedSvd::new_with_rng(rect, o, Script(seed)).precision(1e-3).maxiter(iters).decompose(k), |out, r| { out.a(&r.values()); let (u, s, vt) = r.values_vectors(); out.a(&u); out.a(&s); out.a(&vt); });
        });
        Ok(())
    }
    pub fn add(v: &mut Vec<Space>, t: Tier) {
        let th = t.thorough();
        v.push(space(format!("iterative: {NSYM} families at orders 5..{} (4 of them up to order {}) x block sizes x orders x budgets x scripts", if th { 20 } else { 10 }, if th { 100 } else { 65 }), move |ctx| {
            let (n, k) = ctx.pick(if th { &[(5usize, 1usize), (6, 1), (9, 1), (10, 2), (15, 3), (20, 4), (25, 5), (33, 6), (40, 8), (65, 4), (100, 3)][..] } else { &[(5, 1), (6, 1), (10, 2), (33, 6), (65, 3)] });
            let id = if n > 20 { ctx.pick(&[1usize, 7, 10, 22]) } else { ctx.choose(NSYM) };
            let a = symmetric(id, n, 1);
            reg(ctx, &a);
            let o = if ctx.flag() { Order::Largest } else { Order::Smallest };
            let it = ctx.pick(&[0usize, 2, 50]);
            let seed = ctx.choose(if th { 3 } else { 2 }) as u64;
            ctx.state_f(&[k as f64, it as f64, seed as f64, (o == Order::Largest) as u8 as f64]);
            let s = flt(ctx);
            by!(s, solve(ctx, &a, k, o, it, seed))
        }));
    }
}
