//! Monitors: given one concrete input, run the real code and compare with the oracle.
use crate::explore::{fail, Ctx, Res};
use crate::gen::hold;
use crate::num::*;
use crate::oracle;
use linfa_linalg::{bidiagonal::*, cholesky::*, eigh::*, qr::*, svd::*, triangular::*, tridiagonal::*, LinalgError};
use ndarray::{Array1, Array2};

/// Relative tolerance for an r x c factorisation.
pub fn tol<F: Fl>(r: usize, c: usize) -> f64 { 12.0 * (r.max(c) as f64 + 6.0) * F::EPS }
/// Additional absolute error when results are subnormal numbers (in units of 2^e).
pub fn floor<F: Fl>(r: usize, c: usize, e: i32) -> f64 { 8.0 * ((r + c + 2) as f64).powi(2) * ldexp(F::SUB, -e) }

pub fn finite(ctx: &mut Ctx, what: &'static str, a: &A2) -> Res { ctx.ok(what, a.iter().all(|x| x.is_finite()), || format!("not finite: {}", show(a))) }
pub fn finite1(ctx: &mut Ctx, what: &'static str, a: &A1) -> Res { ctx.ok(what, a.iter().all(|x| x.is_finite()), || format!("not finite: {}", show1(a))) }
pub fn unexpected<T>(what: &str, r: Result<T, LinalgError>) -> Result<T, crate::explore::Fail> {
    r.map_err(|e| crate::explore::Fail { key: format!("{what}: error"), msg: format!("{what} failed: {e}") })
}
pub fn dims(ctx: &mut Ctx, what: &'static str, got: (usize, usize), want: (usize, usize)) -> Res { ctx.ok(what, got == want, || format!("dimensions {got:?}, expected {want:?}")) }

/// The rows (columns) of `a` times 2^(s u): variables measured in other units. Exact.
pub fn unit_rows(ctx: &Ctx, a: &A2, s: i32) -> A2 { if ctx.units.is_empty() { a.clone() } else { A2::from_shape_fn(a.dim(), |(i, j)| ldexp(a[(i, j)], s * ctx.units[i])) } }
pub fn unit_cols(ctx: &Ctx, a: &A2, s: i32) -> A2 { if ctx.units.is_empty() { a.clone() } else { A2::from_shape_fn(a.dim(), |(i, j)| ldexp(a[(i, j)], s * ctx.units[j])) } }

// ------------------------------------------------------------------------------- C01
pub fn qr<F: Fl>(ctx: &mut Ctx, a: &A2) -> Res {
    let a = &rounded::<F>(a);
    let (m, n) = a.dim();
    let x = hold::<F>(ctx, &unit_cols(ctx, a, 1), 0);
    let e = expo(a);
    let (t, fl) = (tol::<F>(m, n), floor::<F>(m, n, e));
    let sa = scaled(a, e);
    // Each decomposition is judged by itself: a rank-deficient matrix has many, and the two calls
    // may hand the library the same matrix in different storage orders.
    for name in ["qr", "qr_into"] {
        let take = || unexpected(name, if name == "qr" { x.qr() } else { x.clone().qr_into() });
        let d = take()?;
        let q = fr(&d.generate_q());
        let r = unit_cols(ctx, &fr(&d.into_r()), -1);
        let d = take()?;
        let (q2, r2) = d.into_decomp();
        let (q2, r2) = (fr(&q2), unit_cols(ctx, &fr(&r2), -1));
        for (q, r) in [(&q, &r), (&q2, &r2)] {
            dims(ctx, "qr: Q shape", q.dim(), (m, n))?;
            dims(ctx, "qr: R shape", r.dim(), (n, n))?;
            finite(ctx, "qr: Q finite", q)?;
            finite(ctx, "qr: R finite", r)?;
            ctx.le("qr: |Q^T Q - I|", orth_cols(q), t)?;
            let sr = scaled(r, e);
            ctx.le("qr: |QR - A|", maxdiff(&mul(q, &sr), &sa), t * 2.0 + fl)?;
            for i in 0..n {
                for j in 0..i { ctx.ok("qr: R triangular", r[(i, j)] == 0.0, || format!("{name}: R[{i},{j}] = {:e}", r[(i, j)]))?; }
                ctx.ok("qr: diag R >= 0", r[(i, i)] >= 0.0, || format!("{name}: R[{i},{i}] = {:e}", r[(i, i)]))?;
            }
        }
        ctx.calls(6);
    }
    if amax(a) > 0.0 && n > 1 { ctx.nontrivial(); }
    Ok(())
}
/// Condition estimate through the oracle SVD.
pub fn cond(a: &A2) -> f64 {
    let s = oracle::jsvd(a);
    match (s.first(), s.last()) { (Some(x), Some(y)) => if *y == 0.0 { f64::INFINITY } else { x / y }, _ => 1.0 }
}
pub fn norm2<'a>(a: impl IntoIterator<Item = &'a f64>) -> f64 { a.into_iter().map(|x| x * x).sum::<f64>().sqrt() }
pub fn colnorms(x: &A2) -> Vec<f64> { x.columns().into_iter().map(|c| nmax(c.iter())).collect() }
/// Componentwise-in-columns backward error of op(A) x = b. Everything scaled by the caller.
pub fn backward(ctx: &mut Ctx, what: &'static str, a: &A2, x: &A2, b: &A2, t: f64, fl: f64) -> Res {
    if x.dim() != (a.ncols(), b.ncols()) { return fail(what, format!("{what}: shape {:?}", x.dim())); }
    let r = &mul(a, x) - b;
    let (nx, nb) = (colnorms(x), colnorms(b));
    let na = amax(a) * a.ncols() as f64;
    for j in 0..b.ncols() {
        let rj = nmax(r.column(j).iter());
        if !nx[j].is_finite() { return fail(what, format!("{what}: solution not finite")); }
        ctx.le(what, rj, t * (na * nx[j] + nb[j]) + fl * (1.0 + nx[j]))?;
    }
    Ok(())
}
// ------------------------------------------------------------------------------- C02
/// `a` and `b` are of moderate size; the library sees a*2^ka and b*2^kb (exact), and its solutions
/// are scaled back.
pub fn qr_solve<F: Fl>(ctx: &mut Ctx, a: &A2, b: &A2, ka: i32, kb: i32) -> Res {
    let (a, b) = (&rounded::<F>(a), &rounded::<F>(b));
    let n = a.nrows();
    let (xa, xb) = (hold::<F>(ctx, &unit_cols(ctx, &scaled(a, -ka), 1), 0), hold::<F>(ctx, &scaled(b, -kb), 1));
    let xt = hold::<F>(ctx, &unit_rows(ctx, &scaled(b, -kb), 1), 1);
    let fr = |x: &Array2<F>| scaled(&fr(x), kb - ka);
    let d = unexpected("qr", xa.qr())?;
    let t = 0.5 * tol::<F>(n, n);
    ctx.ok("solve: invertible", d.is_invertible(), || "verdict is non-invertible".into())?;
    let at = tr(a);
    let x1 = unit_rows(ctx, &fr(&unexpected("solve", d.solve(&xb))?), 1);
    backward(ctx, "solve: |Ax - b|", a, &x1, b, t, 0.0)?;
    let x2 = unit_rows(ctx, &fr(&unexpected("solve_into", d.solve_into(xb.clone()))?), 1);
    backward(ctx, "solve_into: |Ax - b|", a, &x2, b, t, 0.0)?;
    let y1 = fr(&unexpected("solve_tr", d.solve_tr(&xt))?);
    backward(ctx, "solve_tr: |A^T x - b|", &at, &y1, b, t, 0.0)?;
    let y2 = fr(&unexpected("solve_tr_into", d.solve_tr_into(xt.clone()))?);
    backward(ctx, "solve_tr_into: |A^T x - b|", &at, &y2, b, t, 0.0)?;
    let inv = unit_rows(ctx, &scaled(&crate::num::fr(&unexpected("inverse", d.inverse())?), -ka), 1);
    let eye = A2::eye(n);
    backward(ctx, "inverse: |A inv - I|", a, &inv, &eye, t, 0.0)?;
    // inv * A = I, amplified by the condition
    let k = (amax(a) * n as f64) * (amax(&inv) * n as f64);
    ctx.le("inverse: |inv A - I|", maxdiff(&mul(&inv, a), &eye), t * (1.0 + k))?;
    ctx.calls(7);
    if n > 1 { ctx.nontrivial(); }
    Ok(())
}
// ------------------------------------------------------------------------------- C03
pub fn lstsq<F: Fl>(ctx: &mut Ctx, a: &A2, b: &A2, ka: i32, kb: i32) -> Res {
    let (a, b) = (&rounded::<F>(a), &rounded::<F>(b));
    let (m, n) = a.dim();
    let (ua, ub) = (scaled(a, -ka), scaled(b, -kb));
    // the units of a wide matrix are those of its rows
    let (ua, ub) = if m >= n { (unit_cols(ctx, &ua, 1), ub) } else { (unit_rows(ctx, &ua, 1), unit_rows(ctx, &ub, 1)) };
    let (xa, xb) = (hold::<F>(ctx, &ua, 0), hold::<F>(ctx, &ub, 1));
    let fr = |x: &Array2<F>| scaled(&fr(x), kb - ka);
    let x1 = fr(&unexpected("least_squares", xa.clone().least_squares(&xb))?);
    let x2 = fr(&unexpected("least_squares_into", xa.clone().least_squares_into(xb.clone()))?);
    let (x1, x2) = if m >= n { (unit_rows(ctx, &x1, 1), unit_rows(ctx, &x2, 1)) } else { (x1, x2) };
    ctx.calls(2);
    let t = 0.5 * tol::<F>(m, n);
    {
        let k = cond(a).max(1.0);
        let sa = amax(a).max(1e-300);
        dims(ctx, "lstsq: shape", x2.dim(), x1.dim())?;
        ctx.le("lstsq: forms agree", maxdiff(&x1, &x2), t * (m + n) as f64 * k * k * (amax(&x1) + amax(b) / sa))?;
    }
    for x in [&x1, &x2] {
        dims(ctx, "lstsq: shape", x.dim(), (n, b.ncols()))?;
        finite(ctx, "lstsq: finite", x)?;
        let r = &mul(a, x) - b;
        let na = amax(a) * (m.max(n)) as f64;
        if m >= n {
            let g = mul(&tr(a), &r);
            let q = oracle::orth_basis(a, 1e-12);
            let least = &mul(&q, &mul(&tr(&q), b)) - b;
            for j in 0..b.ncols() {
                let (lj, r2) = (norm2(least.column(j).iter()), norm2(r.column(j).iter()));
                ctx.le("lstsq: the residual is the least one", r2 - lj, 0.25 * t * (na * (nmax(x.column(j).iter()) + lj / amax(a).max(1e-300)) + norm2(b.column(j).iter())))?;
                let (gj, rj, xj, bj) = (nmax(g.column(j).iter()), nmax(r.column(j).iter()), nmax(x.column(j).iter()), nmax(b.column(j).iter()));
                ctx.le("lstsq: A^T (Ax - b)", gj, t * na * (rj * m as f64 + na * xj + bj))?;
            }
        } else {
            backward(ctx, "lstsq wide: |Ax - b|", a, x, b, t, 0.0)?;
            // minimum norm: x lies in the row space
            let q = oracle::orth_basis(&tr(a), 1e-12);
            let k = cond(a);
            let proj = mul(&q, &mul(&tr(&q), x));
            for j in 0..b.ncols() {
                let mut dj = 0.0f64;
                for i in 0..n { dj = dj.max((x[(i, j)] - proj[(i, j)]).abs()); }
                ctx.le("lstsq wide: x in row space", dj, t * k * nmax(x.column(j).iter()) * (n as f64).sqrt() + t * 1e-3 * nmax(x.column(j).iter()))?;
            }
        }
    }
    ctx.nontrivial();
    Ok(())
}
// ------------------------------------------------------------------------------- C05 / C06 / C07
/// Only the lower triangle of `a` describes the matrix; anything may stand above it.
pub fn chol<F: Fl>(ctx: &mut Ctx, a: &A2) -> Res {
    let a = &rounded::<F>(a);
    let mut low = a.clone();
    for i in 0..a.nrows() { for j in i + 1..a.nrows() { low[(i, j)] = a[(j, i)]; } }
    let n = a.nrows();
    let e = expo(&low) & !1; // even, so that the factor scales by a power of two
    let ua = rounded::<F>(&unit_cols(ctx, &unit_rows(ctx, a, 1), 1));
    let x = hold::<F>(ctx, &ua, 0);
    let t = tol::<F>(n, n);
    let fl = floor::<F>(n, n, e);
    let sa = scaled(&low, e);
    let mut ip = x.clone();
    let mut ipd = x.clone();
    let rs = [
        ("cholesky", unexpected("cholesky", x.cholesky())?, true),
        ("cholesky_dirty", unexpected("cholesky_dirty", x.cholesky_dirty())?, false),
        ("cholesky_into", unexpected("cholesky_into", x.clone().cholesky_into())?, true),
        ("cholesky_into_dirty", unexpected("cholesky_into_dirty", x.clone().cholesky_into_dirty())?, false),
        ("cholesky_inplace", { unexpected("cholesky_inplace", ip.cholesky_inplace().map(|_| ()))?; ip.clone() }, true),
        ("cholesky_inplace_dirty", { unexpected("cholesky_inplace_dirty", ipd.cholesky_inplace_dirty().map(|_| ()))?; ipd.clone() }, false),
    ];
    ctx.calls(6);
    let mut first: Option<A2> = None;
    for (name, l, clean) in rs {
        let l = fr(&l);
        dims(ctx, "cholesky: shape", l.dim(), (n, n))?;
        let mut ll = unit_rows(ctx, &l, -1);
        for i in 0..n {
            for j in i + 1..n {
                let v = l[(i, j)];
                if clean { ctx.ok("cholesky: zero above the diagonal", v == 0.0, || format!("{name}: L[{i},{j}] = {v:e}"))?; }
                else { ctx.ok("cholesky dirty: upper triangle untouched", v.to_bits() == ua[(i, j)].to_bits() || (v.is_nan() && ua[(i, j)].is_nan()), || format!("{name}: [{i},{j}] = {v:e}, was {:e}", ua[(i, j)]))?; }
                ll[(i, j)] = 0.0;
            }
            ctx.ok("cholesky: positive diagonal", l[(i, i)] > 0.0, || format!("{name}: L[{i},{i}] = {:e}", l[(i, i)]))?;
        }
        finite(ctx, "cholesky: finite", &ll)?;
        let sl = scaled(&ll, e / 2);
        // A is judged through its lower triangle only
        let p = mul(&sl, &tr(&sl));
        let mut w = 0.0f64;
        for i in 0..n { for j in 0..=i { w = w.max((p[(i, j)] - sa[(i, j)]).abs()); } }
        ctx.le("cholesky: |L L^T - A|", w, t + fl)?;
        match &first {
            None => first = Some(ll),
            Some(f) => { let k = maxdiff(f, &ll); let m = amax(f); ctx.le("cholesky: variants agree", k, 1e3 * t * m + fl)?; }
        }
    }
    if n > 1 { ctx.nontrivial(); }
    Ok(())
}
/// Runs every route that needs positive definiteness; returns (accepted?, all agree?)
pub fn chol_verdicts<F: Fl>(x: &Array2<F>) -> Vec<(&'static str, Result<bool, LinalgError>)> {
    let n = x.nrows();
    let b = Array2::<F>::eye(n);
    let fin = |a: &Array2<F>| a.iter().all(|v| v.f().is_finite());
    let lowfin = |a: &Array2<F>| (0..n).all(|i| (0..=i).all(|j| a[(i, j)].f().is_finite()));
    let _ = &fin;
    let mut y = x.clone();
    let mut z = x.clone();
    let mut bb = b.clone();
    vec![
        ("cholesky", x.cholesky().map(|l| lowfin(&l))),
        ("cholesky_dirty", x.cholesky_dirty().map(|l| lowfin(&l))),
        ("cholesky_into", x.clone().cholesky_into().map(|l| lowfin(&l))),
        ("cholesky_into_dirty", x.clone().cholesky_into_dirty().map(|l| lowfin(&l))),
        ("cholesky_inplace", y.cholesky_inplace().map(|l| lowfin(l))),
        ("cholesky_inplace_dirty", z.cholesky_inplace_dirty().map(|l| lowfin(l))),
        ("solvec", x.clone().solvec(&b).map(|l| fin(&l))),
        ("solvec_into", x.clone().solvec_into(b.clone()).map(|l| fin(&l))),
        ("solvec_inplace", x.clone().solvec_inplace(&mut bb).map(|l| fin(l))),
        ("invc", x.invc().map(|l| fin(&l))),
        ("invc_inplace", x.clone().invc_inplace().map(|l| fin(&l))),
    ]
}
pub fn spd_solve<F: Fl>(ctx: &mut Ctx, a: &A2, b: &A2, ka: i32, kb: i32) -> Res {
    let (a, b) = (&rounded::<F>(a), &rounded::<F>(b));
    let n = a.nrows();
    let ua = unit_cols(ctx, &unit_rows(ctx, &scaled(a, -ka), 1), 1);
    let (x, xb) = (hold::<F>(ctx, &ua, 0), hold::<F>(ctx, &unit_rows(ctx, &scaled(b, -kb), 1), 1));
    let un = ctx.units.clone();
    let rows = move |x: A2| if un.is_empty() { x } else { A2::from_shape_fn(x.dim(), |(i, j)| ldexp(x[(i, j)], un[i])) };
    let fri = |x: &Array2<F>| tr(&rows(tr(&rows(scaled(&fr(x), -ka)))));
    let fr = |x: &Array2<F>| rows(scaled(&fr(x), kb - ka));
    let t = 0.5 * tol::<F>(n, n);
    let s1 = fr(&unexpected("solvec", x.clone().solvec(&xb))?);
    let s2 = fr(&unexpected("solvec_into", x.clone().solvec_into(xb.clone()))?);
    let mut b3 = xb.clone();
    unexpected("solvec_inplace", x.clone().solvec_inplace(&mut b3).map(|_| ()))?;
    let s3 = fr(&b3);
    ctx.calls(5);
    backward(ctx, "solvec: |Ax - b|", a, &s1, b, t, 0.0)?;
    backward(ctx, "solvec_into: |Ax - b|", a, &s2, b, t, 0.0)?;
    backward(ctx, "solvec_inplace: |Ax - b|", a, &s3, b, t, 0.0)?;
    let i1 = fri(&unexpected("invc", x.invc())?);
    let i2 = fri(&unexpected("invc_inplace", x.clone().invc_inplace())?);
    ctx.ok("invc: A unchanged", crate::gen::same_bits(&x, &to::<F>(&ua)), || "invc changed its operand".into())?;
    let eye = A2::eye(n);
    backward(ctx, "invc: |A inv - I|", a, &i1, &eye, t, 0.0)?;
    backward(ctx, "invc_inplace: |A inv - I|", a, &i2, &eye, t, 0.0)?;
    let k = 1.0 + amax(a) * amax(&i1) * (n * n) as f64;
    ctx.le("solvec: forms agree", maxdiff(&s1, &s2).max(maxdiff(&s1, &s3)), t * k * amax(&s1) )?;
    ctx.le("invc: forms agree", maxdiff(&i1, &i2), t * k * amax(&i1))?;
    if n > 1 { ctx.nontrivial(); }
    Ok(())
}
// ------------------------------------------------------------------------------- C08
/// `poison` fills the opposite triangle; column `nancol` of b (if any) is NaN.
pub fn tri_solve<F: Fl>(ctx: &mut Ctx, a: &A2, b: &A2, upper: bool, poison: Option<f64>, nancol: Option<usize>) -> Res {
    let (a, b) = (&rounded::<F>(a), &rounded::<F>(b));
    let n = a.nrows();
    let uplo = if upper { UPLO::Upper } else { UPLO::Lower };
    let mut t0 = a.clone();
    let mut tp = a.clone();
    for i in 0..n { for j in 0..n { if (upper && j < i) || (!upper && j > i) { t0[(i, j)] = 0.0; if let Some(p) = poison { tp[(i, j)] = p; } } } }
    let mut bp = b.clone();
    if let Some(j) = nancol { for i in 0..n { bp[(i, j)] = f64::NAN; } }
    let (x, xb) = (hold::<F>(ctx, &tp, 0), hold::<F>(ctx, &bp, 1));
    let s1 = fr(&unexpected("solve_triangular", x.solve_triangular(&xb, uplo))?);
    let s2 = fr(&unexpected("solve_triangular_into", x.solve_triangular_into(xb.clone(), uplo))?);
    let mut b3 = xb.clone();
    unexpected("solve_triangular_inplace", x.solve_triangular_inplace(&mut b3, uplo).map(|_| ()))?;
    let s3 = fr(&b3);
    ctx.calls(3);
    let at0 = amax(&t0);
    for (name, sx) in [("solve_triangular", &s1), ("solve_triangular_into", &s2), ("solve_triangular_inplace", &s3)] {
        dims(ctx, "tri: shape", sx.dim(), b.dim())?;
        // componentwise backward error: |Tx - b| <= c n eps |T||x|
        for j in 0..b.ncols() {
            if nancol == Some(j) { continue; }
            for i in 0..n {
                let mut r = -b[(i, j)];
                let mut m = b[(i, j)].abs();
                for k in if upper { i..n } else { 0..i + 1 } { r += t0[(i, k)] * sx[(k, j)]; m += (t0[(i, k)] * sx[(k, j)]).abs(); }
                if !sx[(i, j)].is_finite() { return fail("tri: finite", format!("{name}: x[{i},{j}] = {:?}", sx[(i, j)])); }
                ctx.le("tri: |Tx - b| componentwise", r.abs(), 4.0 * (n as f64 + 3.0) * F::EPS * m + 16.0 * (n as f64 + 1.0) * F::SUB * (1.0 + at0))?;
            }
        }
    }
    if n > 1 { ctx.nontrivial(); }
    Ok(())
}
// ------------------------------------------------------------------------------- C10
pub fn tridiag<F: Fl>(ctx: &mut Ctx, a: &A2) -> Res {
    let a = &rounded::<F>(a);
    let n = a.nrows();
    let e = expo(a);
    let x = hold::<F>(ctx, a, 0);
    let d = unexpected("sym_tridiagonal", x.clone().sym_tridiagonal())?;
    let q = fr(&d.generate_q());
    let (dg, of) = d.clone().into_diagonals();
    let (dg, of) = (fr1(&dg), fr1(&of));
    let tm = fr(&d.into_tridiag_matrix());
    ctx.calls(4);
    dims(ctx, "tridiag: Q shape", q.dim(), (n, n))?;
    dims(ctx, "tridiag: T shape", tm.dim(), (n, n))?;
    ctx.ok("tridiag: diagonals' length", dg.len() == n && of.len() == n - 1, || format!("{} and {}", dg.len(), of.len()))?;
    finite(ctx, "tridiag: Q finite", &q)?;
    finite(ctx, "tridiag: T finite", &tm)?;
    let t = tol::<F>(n, n);
    let fl = floor::<F>(n, n, e);
    for i in 0..n {
        for j in 0..n {
            let v = tm[(i, j)];
            let want = if i == j { dg[i] } else if i == j + 1 { of[j] } else if j == i + 1 { of[i] } else { 0.0 };
            ctx.ok("tridiag: T tridiagonal, symmetric, equal to the diagonals", v == want, || format!("T[{i},{j}] = {v:e}, diagonals say {want:e}"))?;
        }
    }
    ctx.ok("tridiag: off-diagonal >= 0", of.iter().all(|x| *x >= 0.0), || show1(&of))?;
    ctx.le("tridiag: |Q^T Q - I|", orth_cols(&q), t)?;
    let st = scaled(&tm, e);
    ctx.le("tridiag: |Q T Q^T - A|", maxdiff(&mul(&mul(&q, &st), &tr(&q)), &scaled(a, e)), t * (n as f64).sqrt().max(2.0) + fl)?;
    if n > 2 { ctx.nontrivial(); }
    Ok(())
}
// ------------------------------------------------------------------------------- C11
pub fn bidiag<F: Fl>(ctx: &mut Ctx, a: &A2) -> Res {
    let a = &rounded::<F>(a);
    let (r, c) = a.dim();
    let k = r.min(c);
    let e = expo(a);
    let x = hold::<F>(ctx, a, 0);
    let d = unexpected("bidiagonal", x.clone().bidiagonal())?;
    let up = d.is_upper_diag();
    let u = fr(&d.generate_u());
    let vt = fr(&d.generate_vt());
    let (dg, of) = d.clone().into_diagonals();
    let (dg, of) = (fr1(&dg), fr1(&of));
    let b = fr(&d.into_b());
    ctx.calls(6);
    ctx.ok("bidiag: orientation", up == (r >= c), || format!("is_upper_diag = {up} for {r}x{c}"))?;
    dims(ctx, "bidiag: U shape", u.dim(), (r, k))?;
    dims(ctx, "bidiag: Vt shape", vt.dim(), (k, c))?;
    dims(ctx, "bidiag: B shape", b.dim(), (k, k))?;
    ctx.ok("bidiag: diagonals' length", dg.len() == k && of.len() == k - 1, || format!("{} and {}", dg.len(), of.len()))?;
    finite(ctx, "bidiag: U finite", &u)?;
    finite(ctx, "bidiag: Vt finite", &vt)?;
    finite(ctx, "bidiag: B finite", &b)?;
    for i in 0..k {
        for j in 0..k {
            let v = b[(i, j)];
            let want = if i == j { dg[i] } else if up && j == i + 1 { of[i] } else if !up && i == j + 1 { of[j] } else { 0.0 };
            ctx.ok("bidiag: B equal to the diagonals, zero elsewhere", v == want, || format!("B[{i},{j}] = {v:e}, diagonals say {want:e}"))?;
        }
    }
    ctx.ok("bidiag: diagonals >= 0", dg.iter().chain(of.iter()).all(|x| *x >= 0.0), || format!("{} {}", show1(&dg), show1(&of)))?;
    let t = tol::<F>(r, c);
    ctx.le("bidiag: |U^T U - I|", orth_cols(&u), t)?;
    ctx.le("bidiag: |Vt Vt^T - I|", orth_rows(&vt), t)?;
    let sb = scaled(&b, e);
    ctx.le("bidiag: |U B Vt - A|", maxdiff(&mul(&mul(&u, &sb), &vt), &scaled(a, e)), t * (k as f64).sqrt().max(2.0) + floor::<F>(r, c, e))?;
    if k > 1 { ctx.nontrivial(); }
    Ok(())
}
// ------------------------------------------------------------------------------- C12
pub fn eigpair<F: Fl>(ctx: &mut Ctx, a: &A2, w: &A1, v: &A2, e: i32) -> Res {
    let n = a.nrows();
    ctx.ok("eigh: number of values", w.len() == n, || format!("{}", w.len()))?;
    dims(ctx, "eigh: V shape", v.dim(), (n, n))?;
    finite1(ctx, "eigh: values finite", w)?;
    finite(ctx, "eigh: vectors finite", v)?;
    let t = tol::<F>(n, n);
    ctx.le("eigh: |V^T V - I|", orth_cols(v), t * 2.0)?;
    let sw = scaled1(w, e);
    let sa = scaled(a, e);
    ctx.le("eigh: |A V - V diag(w)|", maxdiff(&mul(&sa, v), &mul(v, &diag(&sw))), t * (n as f64).sqrt().max(2.0) + floor::<F>(n, n, e))
}
pub fn eigh<F: Fl>(ctx: &mut Ctx, a: &A2) -> Res {
    let a = &rounded::<F>(a);
    let n = a.nrows();
    let e = expo(a);
    let x = hold::<F>(ctx, a, 0);
    for into in [false, true] {
        let (w, v) = unexpected("eigh", if into { x.clone().eigh_into() } else { x.eigh() })?;
        eigpair::<F>(ctx, a, &fr1(&w), &fr(&v), e)?;
    }
    ctx.calls(2);
    if n > 1 { ctx.nontrivial(); }
    Ok(())
}
// ------------------------------------------------------------------------------- C13
pub fn eigvals<F: Fl>(ctx: &mut Ctx, a: &A2) -> Res {
    let a = &rounded::<F>(a);
    let n = a.nrows();
    let e = expo(a);
    let x = hold::<F>(ctx, a, 0);
    let t = tol::<F>(n, n) * (n as f64).sqrt().max(2.0) + floor::<F>(n, n, e);
    let want = oracle::jacobi_vals(&scaled(a, e));
    let got = [
        ("eigvalsh", unexpected("eigvalsh", x.eigvalsh())?),
        ("eigvalsh_into", unexpected("eigvalsh_into", x.clone().eigvalsh_into())?),
        ("eigh", unexpected("eigh", x.eigh())?.0),
        ("eigh_into", unexpected("eigh_into", x.clone().eigh_into())?.0),
    ];
    ctx.calls(4);
    let exact = if n <= 6 { oracle::ints(a).filter(|m| m.iter().flatten().all(|x| x.abs() <= 16)) } else { None };
    let table: Vec<(f64, usize, usize)> = exact.map(|m| {
        // 2A - kI for every half-integer threshold
        let b = m.iter().map(|r| r.iter().map(|x| x.abs()).sum::<i128>()).max().unwrap_or(0) + 1;
        (-2 * b..=2 * b).map(|k| {
            let mut s: oracle::IM = m.iter().map(|r| r.iter().map(|x| 2 * x).collect()).collect();
            for i in 0..n { s[i][i] -= k; }
            let (neg, zero, _) = oracle::inertia(&s);
            (k as f64 / 2.0, neg, zero)
        }).collect()
    }).unwrap_or_default();
    for (name, w) in &got {
        let mut w = fr1(w).to_vec();
        ctx.ok("eigvals: count", w.len() == n, || format!("{name}: {} values", w.len()))?;
        ctx.ok("eigvals: finite", w.iter().all(|x| x.is_finite()), || format!("{name}: {w:?}"))?;
        w.sort_by(|a, b| a.partial_cmp(b).unwrap());
        for (x, y) in w.iter().zip(&want) { ctx.le("eigvals: distance to the spectrum", (ldexp(*x, -e) - y).abs(), t)?; }
        // exact inertia at every threshold
        let ta = ldexp(t, e);
        for (th, neg, zero) in &table {
            let lo = w.iter().filter(|x| **x < th - ta).count();
            let hi = w.iter().filter(|x| **x <= th + ta).count();
            ctx.ok("eigvals: exact inertia", lo <= *neg && hi >= neg + zero, || format!("{name}: {w:?} has {lo} below {th} and {hi} not above, exactly {neg} eigenvalues are below and {zero} equal"))?;
        }
    }
    if n > 1 { ctx.nontrivial(); }
    Ok(())
}
// ------------------------------------------------------------------------------- C14
pub fn svd_factors<F: Fl>(ctx: &mut Ctx, a: &A2, u: &A2, sv: &A1, vt: &A2, e: i32) -> Res {
    let (r, c) = a.dim();
    let k = r.min(c);
    dims(ctx, "svd: U shape", u.dim(), (r, k))?;
    dims(ctx, "svd: Vt shape", vt.dim(), (k, c))?;
    ctx.ok("svd: number of values", sv.len() == k, || format!("{}", sv.len()))?;
    finite(ctx, "svd: U finite", u)?;
    finite(ctx, "svd: Vt finite", vt)?;
    finite1(ctx, "svd: values finite", sv)?;
    ctx.ok("svd: values non-negative", sv.iter().all(|x| *x >= 0.0), || show1(sv))?;
    let t = tol::<F>(r, c);
    ctx.le("svd: |U^T U - I|", orth_cols(u), t * 2.0)?;
    ctx.le("svd: |Vt Vt^T - I|", orth_rows(vt), t * 2.0)?;
    let us = mul(u, &diag(&scaled1(sv, e)));
    ctx.le("svd: |U S Vt - A|", maxdiff(&mul(&us, vt), &scaled(a, e)), t * (k as f64).sqrt().max(2.0) + floor::<F>(r, c, e))
}
pub fn svd<F: Fl>(ctx: &mut Ctx, a: &A2) -> Res {
    let a = &rounded::<F>(a);
    let e = expo(a);
    let x = hold::<F>(ctx, a, 0);
    for into in [false, true] {
        let (u, sv, vt) = unexpected("svd", if into { x.clone().svd_into(true, true) } else { x.svd(true, true) })?;
        match (u, vt) {
            (Some(u), Some(vt)) => svd_factors::<F>(ctx, a, &fr(&u), &fr1(&sv), &fr(&vt), e)?,
            _ => return fail("svd: factors returned", "a requested factor is missing"),
        }
    }
    ctx.calls(2);
    if a.nrows().min(a.ncols()) > 1 { ctx.nontrivial(); }
    Ok(())
}
// ------------------------------------------------------------------------------- C15
pub fn svals<F: Fl>(ctx: &mut Ctx, a: &A2) -> Res {
    let a = &rounded::<F>(a);
    let (r, c) = a.dim();
    let k = r.min(c);
    let e = expo(a);
    let x = hold::<F>(ctx, a, 0);
    let sa = scaled(a, e);
    let want = oracle::jsvd(&sa);
    let t = tol::<F>(r, c) * (k as f64).sqrt().max(2.0) + floor::<F>(r, c, e);
    let rk = oracle::ints(a).filter(|m| k <= 5 && m.iter().flatten().all(|v| v.abs() <= 100)).map(|m| oracle::rank(&m));
    let mut full: Option<(A2, A2)> = None;
    for variant in 0..12 {
        let (cu, cv) = (variant & 1 == 0, variant & 2 == 0);
        let mode = variant / 4; // borrow, into, transpose
        let (u, sv, vt) = unexpected("svd", match mode { 0 => x.svd(cu, cv), 1 => x.clone().svd_into(cu, cv), _ => x.t().to_owned().svd(cu, cv) })?;
        let name = ["svd", "svd_into", "svd of the transpose"][mode];
        ctx.ok("svals: exactly the requested factors", u.is_some() == cu && vt.is_some() == cv, || format!("{name}({cu},{cv}) returned U: {}, Vt: {}", u.is_some(), vt.is_some()))?;
        let sv = fr1(&sv);
        ctx.ok("svals: count", sv.len() == k, || format!("{}", sv.len()))?;
        ctx.ok("svals: finite and non-negative", sv.iter().all(|v| v.is_finite() && *v >= 0.0), || format!("{name}({cu},{cv}): {}", show1(&sv)))?;
        let mut w = scaled1(&sv, e).to_vec();
        w.sort_by(|a, b| b.partial_cmp(a).unwrap());
        for (p, q) in w.iter().zip(&want) {
            if (p - q).abs() > t { ctx.note(|| format!("{name}({cu},{cv}) gives {w:?}, exact {want:?}")); }
            ctx.le("svals: distance to the singular spectrum", (p - q).abs(), t)?;
        }
        if let Some(rk) = rk {
            // exact rank: at least k - rank values vanish
            let z = w.iter().filter(|p| **p <= t).count();
            ctx.ok("svals: exact rank", z >= k - rk, || format!("{name}({cu},{cv}): {w:?} for a matrix of rank {rk}"))?;
        }
        if mode == 0 {
            if variant == 0 { full = Some((fr(u.as_ref().unwrap()), fr(vt.as_ref().unwrap()))); }
            let (fu, fv) = full.as_ref().unwrap();
            // the same algorithm runs whichever factors are kept
            if let Some(u) = &u { ctx.le("svals: U independent of the flags", maxdiff(&fr(u), fu), 1e3 * t)?; }
            if let Some(v) = &vt { ctx.le("svals: Vt independent of the flags", maxdiff(&fr(v), fv), 1e3 * t)?; }
        }
    }
    ctx.calls(12);
    if k > 1 { ctx.nontrivial(); }
    Ok(())
}
/// One complete tour through the API on one matrix; used where only "returns, without panicking,
/// no NaN" matters.
pub fn tour<F: Fl>(x: &Array2<F>, mut f: impl FnMut(&'static str, Result<bool, LinalgError>)) {
    let nn = |a: &Array2<F>| a.iter().any(|v| v.is_nan());
    let n1 = |a: &Array1<F>| a.iter().any(|v| v.is_nan());
    let (r, c) = x.dim();
    if r >= c { f("qr", x.qr().map(|d| { let inv = d.is_invertible(); let _ = inv; let q = d.generate_q(); let rr = d.into_r(); nn(&q) || nn(&rr) })); }
    f("bidiagonal", x.clone().bidiagonal().map(|d| nn(&d.generate_u()) || nn(&d.generate_vt()) || nn(&d.into_b())));
    for k in 0..4 { f("svd", x.svd(k & 1 == 1, k & 2 == 2).map(|(u, s, v)| u.map_or(false, |u| nn(&u)) || n1(&s) || v.map_or(false, |v| nn(&v)))); }
    if r == c {
        f("sym_tridiagonal", x.clone().sym_tridiagonal().map(|d| { let q = d.generate_q(); let (a, b) = d.clone().into_diagonals(); nn(&q) || n1(&a) || n1(&b) || nn(&d.into_tridiag_matrix()) }));
        f("eigh", x.eigh().map(|(w, v)| n1(&w) || nn(&v)));
        f("eigvalsh", x.eigvalsh().map(|w| n1(&w)));
        f("cholesky", x.cholesky().map(|l| nn(&l)));
        f("invc", x.invc().map(|_| false));
    }
}
pub fn err_name(e: &LinalgError) -> String { format!("{e:?}") }
