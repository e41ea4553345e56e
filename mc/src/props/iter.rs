//! C23-C27, C31, C32: the iterative solvers. The environment of the solver - start block, operator,
//! preconditioner, constraints, budget, tolerance, random numbers - is scripted by the explorer.
use crate::checks::dims;
use crate::explore::{fail, space, Ctx, Fail, Res, Space};
use crate::gen::*;
use crate::num::*;
use crate::oracle;
use crate::spaces::Tier;
use linfa_linalg::lobpcg::{lobpcg, Lobpcg, TruncatedEig, TruncatedSvd};
use linfa_linalg::{LinalgError, Order};
use ndarray::{s, Array2};
use rand::RngCore;
use std::cell::RefCell;

fn flt(ctx: &mut Ctx) -> bool { let s = ctx.flag(); ctx.state(s as u64); if s { ctx.note(|| "f32".into()); } s }
macro_rules! by { ($s:expr, $f:ident ( $($a:expr),* )) => { if $s { $f::<f32>($($a),*) } else { $f::<f64>($($a),*) } } }

pub fn spaces(prop: &str, t: Tier) -> Vec<Space> {
    match prop {
        "C23" => c23(t),
        "C24" => c24(t),
        "C25" => c25(t),
        "C26" => c26(t),
        "C27" => c27(t),
        "C31" => c31(t),
        "C32" => c32(t),
        _ => vec![],
    }
}

// ---------------------------------------------------------------------------- problems
/// Orthonormal bases.
const NBASIS: usize = 4;
fn basis(id: usize, n: usize) -> A2 {
    match id {
        0 => A2::eye(n),
        1 => A2::from_shape_fn((n, n), |(i, j)| {
            let c = (std::f64::consts::PI * (i as f64 + 0.5) * j as f64 / n as f64).cos();
            c * if j == 0 { (1.0 / n as f64).sqrt() } else { (2.0 / n as f64).sqrt() }
        }),
        2 => {
            let v: Vec<f64> = (0..n).map(|i| 1.0 + ((i * 5 + 2) % 7) as f64).collect();
            let l: f64 = v.iter().map(|x| x * x).sum();
            A2::from_shape_fn((n, n), |(i, j)| (i == j) as u8 as f64 - 2.0 * v[i] * v[j] / l)
        }
        3 => A2::from_shape_fn((n, n), |(i, j)| { let a = 2.0 * std::f64::consts::PI * (i as f64 + 1.0) * (j as f64 + 1.0) / (2 * n + 1) as f64; a.sin() * 2.0 / ((2 * n + 1) as f64).sqrt() }),
        _ => unreachable!(),
    }
}
const NSPEC: usize = 12;
fn spectrum(id: usize, n: usize) -> Vec<f64> {
    (0..n).map(|i| match id {
        0 => (i + 1) as f64,
        1 => i as f64 - (n / 2) as f64,
        2 => (i / 2 + 1) as f64,
        3 => ((i + 1) * (i + 1)) as f64,
        4 => 2f64.powi(-(i as i32)),
        5 => if i + 3 >= n { 5.0 } else { i as f64 / n as f64 },
        6 => -1.0 - i as f64,
        7 => if i % 2 == 0 { 1.0 + i as f64 } else { -(i as f64) },
        8 => 1.0,
        9 => if i + 1 == n { 3.0 } else { 0.0 },
        10 => 1.0 / (i + 1) as f64,
        11 => if i < n / 2 { 0.0 } else { 2.0 + (i / 3) as f64 },
        _ => unreachable!(),
    }).collect()
}
fn from_spectrum(q: &A2, w: &[f64]) -> A2 {
    let n = q.nrows();
    let d = A2::from_shape_fn((n, n), |(i, j)| q[(i, j)] * w[j]);
    let m = mul(&d, &tr(q));
    A2::from_shape_fn((n, n), |(i, j)| 0.5 * (m[(i, j)] + m[(j, i)]))
}
/// Problems: (spectrum x basis) then structured families.
const NPROB: usize = NSPEC * NBASIS + 8;
fn problem(id: usize, n: usize) -> A2 {
    if id < NSPEC * NBASIS { from_spectrum(&basis(id % NBASIS, n), &spectrum(id / NBASIS, n)) } else { symmetric([0usize, 1, 7, 9, 10, 12, 21, 16][id - NSPEC * NBASIS], n, 0) }
}
fn lcg(seed: u64) -> impl FnMut() -> f64 {
    let mut s = seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) | 1;
    move || { s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); ((s >> 33) as f64) / (1u64 << 31) as f64 }
}
/// Start blocks; the first `NGENERIC` have a component along every eigenvector of every problem.
const NGENERIC: usize = 4;
const NSTART: usize = 12;
fn start(id: usize, n: usize, k: usize) -> A2 {
    let rnd = |seed: u64, off: f64| { let mut r = lcg(seed); A2::from_shape_fn((n, k), |_| r() - off) };
    match id {
        0 => rnd(1, 0.0),
        1 => rnd(2, 0.5),
        2 => rnd(77, 0.0),
        3 => rnd(5, 0.9) * 1e6,
        4 => A2::from_shape_fn((n, k), |(i, j)| (i == j) as u8 as f64),
        5 => A2::from_shape_fn((n, k), |(i, j)| (i + 1 + j == n) as u8 as f64),
        6 => A2::from_shape_fn((n, k), |(i, j)| if i == j { 2.0 } else { 1.0 }),
        7 => A2::from_shape_fn((n, k), |(i, j)| md((i * (j + 3) * 7 + i * i + 3 * j + 1) as i64, 11)),
        8 => basis(1, n).slice(s![.., ..k]).to_owned(),
        9 => { let b = rnd(9, 0.5); A2::from_shape_fn((n, k), |(i, j)| b[(i, 0)] + 1e-2 * b[(i, j)] * (j > 0) as u8 as f64) }
        10 => rnd(11, 0.5) * 1e-12,
        11 => basis(2, n).slice(s![.., n - k..]).to_owned(),
        _ => unreachable!(),
    }
}
/// Positive definite preconditioners.
const NPREC: usize = 5;
fn precond(id: usize, a: &A2) -> Option<A2> {
    let n = a.nrows();
    let d = |g: &dyn Fn(usize) -> f64| Some(A2::from_shape_fn((n, n), |(i, j)| if i == j { g(i) } else { 0.0 }));
    match id {
        0 => None,
        1 => d(&|_| 0.25),
        2 => d(&|i| 1.0 / (1.0 + a[(i, i)].abs())),
        3 => d(&|i| 1.0 + (i % 3) as f64),
        4 => Some(A2::from_shape_fn((n, n), |(i, j)| if i == j { 1.0 } else { 0.3f64.powi(i.abs_diff(j) as i32) })),
        _ => unreachable!(),
    }
}

pub struct Case { slow: bool, a: A2, x: A2, m: Option<A2>, y: Option<A2>, tol: f32, iters: usize, order: Order }
/// What the solver did to its environment.
#[derive(Default)]
struct Log { ops: Vec<(usize, usize)>, pre: Vec<(usize, usize)>, bad: bool }
type Out<F> = (Result<Lobpcg<F>, (LinalgError, Option<Lobpcg<F>>)>, Log);
fn run<F: Fl>(ctx: &mut Ctx, c: &Case) -> Out<F> {
    let log = RefCell::new(Log::default());
    let a = to::<F>(&c.a);
    let m = c.m.as_ref().map(to::<F>);
    let y = c.y.as_ref().map(to::<F>);
    let r = lobpcg(
        |v| { let mut l = log.borrow_mut(); l.ops.push(v.dim()); l.bad |= v.iter().any(|x| !x.is_finite()); a.dot(&v) },
        to::<F>(&c.x),
        |mut v| { log.borrow_mut().pre.push(v.dim()); if let Some(m) = &m { let w = m.dot(&v); v.assign(&w); } },
        y.as_ref().map(|y| y.view()),
        c.tol,
        c.iters,
        c.order,
    );
    ctx.calls(1);
    (r, log.into_inner())
}
fn verdict<F>(ctx: &mut Ctx, r: &Result<Lobpcg<F>, (LinalgError, Option<Lobpcg<F>>)>) {
    ctx.outcome(match r { Ok(_) => "converged", Err((LinalgError::NotConverged, Some(_))) => "budget exhausted, best result returned", Err((_, Some(_))) => "broke down, best result returned", Err((_, None)) => "no result" });
}
fn norm2(a: &A2) -> f64 { let n = a.nrows(); (0..n).map(|i| a.row(i).iter().map(|x| x.abs()).sum::<f64>()).fold(0.0, f64::max) }
fn sorted_as(w: &[f64], o: Order) -> bool { w.windows(2).all(|p| if o == Order::Largest { p[0] >= p[1] } else { p[0] <= p[1] }) }

// ------------------------------------------------------------------------------- C23
/// Orthonormal vectors, ordered Rayleigh quotients, true residual norms.
fn truthful<F: Fl>(ctx: &mut Ctx, c: &Case, r: &Lobpcg<F>) -> Res {
    let (n, k) = c.x.dim();
    let a = &rounded::<F>(&c.a);
    let v = fr(&r.eigvecs);
    let w = fr1(&r.eigvals).to_vec();
    let rn: Vec<f64> = r.rnorm.iter().map(|x| x.f()).collect();
    dims(ctx, "lobpcg: shape of the eigenvectors", v.dim(), (n, k))?;
    ctx.ok("lobpcg: one eigenvalue and one residual norm per vector", w.len() == k && rn.len() == k, || format!("{} eigenvalues, {} residuals", w.len(), rn.len()))?;
    ctx.ok("lobpcg: eigenvalues in the requested order", sorted_as(&w, c.order), || format!("{w:?}"))?;
    let na = norm2(a).max(f64::MIN_POSITIVE);
    // Cholesky-QR of the start loses orthogonality with the square of its condition number; with a
    // tolerance of zero the solver goes on combining rounding errors after it converged
    let sv = oracle::jsvd(&rounded::<F>(&c.x));
    let cond = sv[0] / sv[k - 1].max(1e-300);
    let zero = c.tol == 0.0;
    let dbl = F::EPS < 1e-10;
    let t0 = 30.0 * F::EPS * cond * cond;
    // the solver leaves out directions below the root of the machine precision, so rounding errors
    // are magnified by up to its inverse
    let t = t0 + if dbl { 1e-7 } else { 5e-3 };
    macro_rules! nm { ($s:literal) => { match (dbl, zero) { (true, true) => concat!($s, " (f64, tolerance 0)"), (true, false) => concat!($s, " (f64)"), (false, true) => concat!($s, " (f32, tolerance 0)"), (false, false) => concat!($s, " (f32)") } } }
    ctx.le(nm!("lobpcg: |V^T V - I|"), orth_cols(&v), t)?;
    let t = t0 + match (dbl, zero) { (true, false) => 1e-8, (true, true) => 1e-6, (false, false) => 3e-3, (false, true) => 1e-2 };
    let av = mul(a, &v);
    for j in 0..k {
        let q: f64 = (0..n).map(|i| v[(i, j)] * av[(i, j)]).sum::<f64>() / (0..n).map(|i| v[(i, j)] * v[(i, j)]).sum::<f64>();
        ctx.le(nm!("lobpcg: eigenvalues are Rayleigh quotients"), (q - w[j]).abs() / na, t)?;
        ctx.le(nm!("lobpcg: reported residual norms are the true ones"), (residual(&av, &v, w[j], j) - rn[j]).abs() / na, t)?;
    }
    Ok(())
}
fn residual(av: &A2, v: &A2, w: f64, j: usize) -> f64 { (0..v.nrows()).map(|i| (av[(i, j)] - w * v[(i, j)]).powi(2)).sum::<f64>().sqrt() }
fn note_case(ctx: &mut Ctx, c: &Case) {
    reg(ctx, &c.a);
    reg(ctx, &c.x);
    if let Some(m) = &c.m { reg(ctx, m); }
    if let Some(m) = &c.y { reg(ctx, m); }
    ctx.state_f(&[c.tol as f64, c.iters as f64, (c.order == Order::Largest) as u8 as f64]);
    let s = format!("tolerance {} budget {} {:?}{}{}", c.tol, c.iters, c.order, if c.m.is_some() { " preconditioned" } else { "" }, if c.y.is_some() { " constrained" } else { "" });
    ctx.note(|| s);
}
fn judge23<F: Fl>(ctx: &mut Ctx, c: &Case) -> Res {
    let (r, _) = run::<F>(ctx, c);
    after23(ctx, c, r)
}
fn after23<F: Fl>(ctx: &mut Ctx, c: &Case, r: Ret<F>) -> Res {
    verdict(ctx, &r);
    match r {
        Ok(l) | Err((_, Some(l))) => { ctx.nontrivial(); truthful(ctx, c, &l) }
        Err((_, None)) => Ok(()),
    }
}
fn pick_size(ctx: &mut Ctx, sizes: &[(usize, usize)]) -> (usize, usize) { sizes[ctx.choose(sizes.len())] }
fn order(ctx: &mut Ctx) -> Order { if ctx.flag() { Order::Largest } else { Order::Smallest } }
fn c23(t: Tier) -> Vec<Space> {
    let th = t.thorough();
    let mut v = vec![];
    let sizes: Vec<(usize, usize)> = if th { vec![(5, 1), (6, 1), (9, 1), (10, 2), (11, 2), (15, 3), (20, 4), (25, 3), (30, 6)] } else { vec![(5, 1), (7, 1), (10, 2), (15, 3)] };
    let budgets: &'static [usize] = if th { &[0, 1, 2, 3, 4, 6, 9, 1000] } else { &[0, 1, 3, 1000] };
    let tols: &'static [f32] = &[1e-5, 1e-2, 0.0];
    let sz = sizes.clone();
    v.push(space(format!("runs: {NPROB} problems x sizes {sizes:?} x {NSTART} start blocks x 2 orders x budgets {budgets:?} x tolerances {tols:?}"), move |ctx| {
        let (n, k) = pick_size(ctx, &sz);
        let a = problem(ctx.choose(NPROB), n);
        let x = start(ctx.choose(NSTART), n, k);
        let order = order(ctx);
        let iters = ctx.pick(budgets);
        let tol = ctx.pick(tols);
        let c = Case { slow: false, a, x, m: None, y: None, tol, iters, order };
        note_case(ctx, &c);
        let s = flt(ctx);
        by!(s, judge23(ctx, &c))
    }));
    let sizes: Vec<(usize, usize)> = if th { vec![(5, 1), (9, 1), (10, 2), (15, 3), (20, 2)] } else { vec![(6, 1), (10, 2)] };
    v.push(space(format!("preconditioned runs: {NPROB} problems x sizes {sizes:?} x {NSTART} start blocks x 2 orders x budgets x {} preconditioners", NPREC - 1), move |ctx| {
        let (n, k) = pick_size(ctx, &sizes);
        let a = problem(ctx.choose(NPROB), n);
        let x = start(ctx.choose(NSTART), n, k);
        let order = order(ctx);
        let iters = ctx.pick(&[2usize, 5, 1000]);
        let m = precond(1 + ctx.choose(NPREC - 1), &a);
        let c = Case { slow: false, a, x, m, y: None, tol: 1e-5, iters, order };
        note_case(ctx, &c);
        let s = flt(ctx);
        by!(s, judge23(ctx, &c))
    }));
    // every small integer matrix, every small integer start
    let n = if th { 3 } else { 2 };
    v.push(space(format!("every symmetric {n}x{n} block over {{0,1,-1}} next to diag(4, -3, 2, 5..) x every 0/1 start vector x budgets"), move |ctx| {
        let d = dense_sym(ctx, n, Z3);
        let m = 5;
        let a = A2::from_shape_fn((m, m), |(i, j)| if i < n && j < n { d[(i, j)] } else if i == j { [4.0, -3.0, 2.0, 5.0, 1.0][i] } else { 0.0 });
        let bits = 1 + ctx.choose((1 << m) - 1);
        let x = A2::from_shape_fn((m, 1), |(i, _)| (bits >> i & 1) as f64);
        let order = order(ctx);
        let iters = ctx.pick(&[0usize, 1, 2, 3, 1000]);
        let c = Case { slow: false, a, x, m: None, y: None, tol: 1e-5, iters, order };
        note_case(ctx, &c);
        let s = flt(ctx);
        by!(s, judge23(ctx, &c))
    }));
    v.push(eig_cases(t, "C23"));
    v.push(unit_cases(t, "runs", &[1, 4, 10000], |ctx, c| judge23::<f64>(ctx, c), |ctx, c| judge23::<f32>(ctx, c)));
    v
}

/// Larger problems, in arbitrary units (problem and tolerance times a power of two).
fn unit_cases(t: Tier, name: &str, budgets: &'static [usize], j64: fn(&mut Ctx, &mut Case) -> Res, j32: fn(&mut Ctx, &mut Case) -> Res) -> Space {
    let th = t.thorough();
    let sizes: &'static [(usize, usize)] = if th { &[(16, 3), (17, 3), (20, 1), (25, 5), (32, 6), (33, 6), (40, 8), (48, 1), (50, 10), (65, 4), (65, 13), (100, 2), (130, 5)] } else { &[(16, 3), (25, 5), (33, 6), (50, 10), (65, 4), (100, 2)] };
    // spectrum and basis
    let probs: &'static [(usize, usize)] = if th { &[(0, 0), (0, 2), (1, 1), (2, 1), (3, 2), (5, 1), (6, 3), (7, 1), (8, 0), (8, 1), (9, 1), (10, 2), (11, 3)] } else { &[(0, 2), (2, 1), (5, 1), (7, 2), (8, 0), (9, 3), (11, 1)] };
    let exps: &'static [i32] = if th { &[-56, -40, -20, -8, 0, 12, 24, 40] } else { &[-40, -20, 0, 24] };
    space(format!("{name} with larger blocks and in other units: spectrum and basis in {probs:?} x sizes {sizes:?} x 2 starts x 2 orders x 2 preconditioners x budgets {budgets:?} x operator and tolerance times 2^e, e in {exps:?} (-12, 0, 13 for f32)"), move |ctx| {
        let (n, k) = pick_size(ctx, sizes);
        let (sp, b) = ctx.pick(probs);
        let a = from_spectrum(&basis(b, n), &spectrum(sp, n));
        let x = start(ctx.choose(2), n, k);
        let order = order(ctx);
        let m = precond(ctx.pick(&[0usize, 3]), &a);
        let s = flt(ctx);
        let e = ctx.pick(if s { &[-12, 0, 13][..] } else { exps });
        let iters = ctx.pick(budgets);
        let a = { let e0 = expo(&a); a.mapv(|x| ldexp(x, e - e0)) };
        let mut c = Case { slow: false, a, x, m, y: None, tol: 1e-5 * 2f32.powi(e), iters, order };
        note_case(ctx, &c);
        if s { j32(ctx, &mut c) } else { j64(ctx, &mut c) }
    })
}

/// Histories of one `TruncatedEig`: settings (or defaults), then several decompositions.
fn eig_cases(t: Tier, prop: &'static str) -> Space {
    let th = t.thorough();
    let sizes: &'static [(usize, usize)] = if th { &[(5, 1), (8, 1), (10, 2), (16, 3), (25, 5), (33, 4)] } else { &[(6, 1), (10, 2), (16, 3)] };
    let specs: &'static [usize] = if th { &[0, 1, 2, 3, 5, 6, 7, 8, 9, 10, 11] } else { &[0, 1, 2, 6, 8, 11] };
    let rngs = if th { 3 } else { 1 };
    // C24 is about the full budget, C25 about constraints
    let budgets: &'static [Option<usize>] = match prop { "C24" => &[Some(10000)], _ => &[None, Some(0), Some(2), Some(10000)] };
    space(format!("TruncatedEig: spectra {specs:?} x {NBASIS} bases x sizes (n, k) {sizes:?} x 2 orders x precision unset, 1e-3 or 1e-7 x budgets {budgets:?} x with or without constraints and preconditioner x {rngs} scripts, then the decompositions k, 0, 1, k of one object"), move |ctx| {
        let (n, k) = pick_size(ctx, sizes);
        let w = spectrum(ctx.pick(specs), n);
        let q = basis(ctx.choose(NBASIS), n);
        let a = from_spectrum(&q, &w);
        let order = order(ctx);
        let set: Vec<usize> = if prop == "C25" || (prop != "C24" && ctx.flag()) { match ctx.choose(if n < 6 { 1 } else { 2 }) { 0 => vec![n - 1], _ => vec![n - 1, 0, 1] } } else { vec![] };
        if n < 5 * k + set.len() && n > 6 { return Ok(()); }
        let y = if set.is_empty() { None } else { Some(constraints(&q, &set, 4 * (set.len() > 1) as usize)) };
        let prec = ctx.pick(&[None, Some(1e-3f32), Some(1e-7)]);
        let budget = ctx.pick(budgets);
        let p = ctx.pick(&[0usize, 1, 3]);
        let m = precond(p, &a);
        let rng = ctx.choose(rngs);
        let s = flt(ctx);
        let mut c = Case { slow: false, a, x: start(0, n, k), m, y, tol: prec.unwrap_or(1e-5), iters: budget.unwrap_or(2 * n), order };
        note_case(ctx, &c);
        ctx.state_f(&[rng as f64, prec.is_some() as u8 as f64, budget.is_some() as u8 as f64]);
        let mut rest: Vec<f64> = (0..n).filter(|i| !set.contains(i)).map(|i| w[i]).collect();
        rest.sort_by(|a, b| a.partial_cmp(b).unwrap());
        if s { eig_history::<f32>(ctx, prop, &mut c, prec, budget, rng, &rest) } else { eig_history::<f64>(ctx, prop, &mut c, prec, budget, rng, &rest) }
    })
}
fn eig_history<F: Fl>(ctx: &mut Ctx, prop: &str, c: &mut Case, prec: Option<f32>, budget: Option<usize>, rng: usize, rest: &[f64]) -> Res {
    let mut e = TruncatedEig::new_with_rng(to::<F>(&c.a), c.order, Script::new(rng));
    if let Some(p) = prec { e = e.precision(p); }
    if let Some(b) = budget { e = e.maxiter(b); }
    if let Some(y) = &c.y { e = e.orthogonal_to(to::<F>(y)); }
    if let Some(m) = &c.m { e = e.precondition_with(to::<F>(m)); }
    let (n, k) = c.x.dim();
    for num in [k, 0, 1, k] {
        let r = e.decompose(num);
        ctx.calls(1);
        if num == 0 {
            ctx.ok("TruncatedEig: nothing requested, empty result", matches!(&r, Ok(l) if l.eigvals.is_empty() && l.eigvecs.is_empty() && l.rnorm.is_empty()), || "not an empty result".into())?;
            continue;
        }
        c.x = start(0, n, num);
        match prop {
            "C23" => after23(ctx, c, r)?,
            "C24" => { c.slow = F::EPS > 1e-10 && c.tol < 1e-6 || c.m.is_some(); after24(ctx, c, r)? }
            "C25" => { c.slow = F::EPS > 1e-10 && c.tol < 1e-6 || c.m.is_some(); after25(ctx, c, rest, budget.is_some_and(|b| b > 100), r)? }
            "C31" => {
                verdict(ctx, &r);
                ctx.nontrivial();
                let Some(l) = part(&r) else { return fail("budget: the best result accompanies every error", format!("{:?}", r.err().map(|e| e.0))) };
                ctx.ok("budget: finite residual norms", l.rnorm.iter().all(|x| x.is_finite()), || format!("{:?}", l.rnorm))?;
                let mut start = Case { slow: false, a: c.a.clone(), x: c.x.clone(), m: None, y: c.y.clone(), tol: c.tol, iters: c.iters, order: c.order };
                if budget == Some(0) { start.x = fr(&l.eigvecs); ritz(ctx, &start, l)?; }
            }
            _ => after32(ctx, c, r, None)?,
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------------- C24
/// The `k` extreme eigenvalues in the requested order.
fn extremes(w: &[f64], k: usize, o: Order) -> Vec<f64> {
    let mut w = w.to_vec();
    w.sort_by(|a, b| if o == Order::Largest { b.partial_cmp(a).unwrap() } else { a.partial_cmp(b).unwrap() });
    w.truncate(k);
    w
}
/// Eigenvalues are the extreme ones of `want`, residuals and orthogonality as requested.
fn right_pairs<F: Fl>(ctx: &mut Ctx, a: &A2, w: &[f64], v: &A2, all: &[f64], tol: f64, o: Order) -> Res {
    let want = extremes(all, w.len(), o);
    let all = &{ let mut x = all.to_vec(); x.sort_by(|a, b| a.partial_cmp(b).unwrap()); x };
    // a cluster narrower than the tolerance cannot be told apart
    let lo = if gap(all, w.len(), o) * (all[all.len() - 1] - all[0]).abs() < 100.0 * tol { 100.0 } else { 1.0 };
    let na = norm2(a).max(1e-30);
    let (dbl, k) = (F::EPS < 1e-10, w.len());
    macro_rules! nm { ($s:literal) => { if dbl { concat!($s, " (f64)") } else { concat!($s, " (f32)") } } }
    let rt = 2.0 * tol + na * if dbl { 1e-9 } else { 1e-4 };
    let av = mul(a, v);
    for j in 0..k {
        ctx.le(nm!("iterative: the j-th extreme eigenvalue"), (w[j] - want[j]).abs(), lo * rt)?;
        ctx.le(nm!("iterative: A v = lambda v"), residual(&av, v, w[j], j), rt)?;
    }
    ctx.le(nm!("iterative: |V^T V - I|"), orth_cols(v), if dbl { 1e-7 } else { 5e-3 })
}
/// Smallest positive distance among the first k + 1 distinct extreme eigenvalues, relative to the
/// spread of the spectrum: what the speed of convergence depends on.
fn gap(w: &[f64], k: usize, o: Order) -> f64 {
    let e = extremes(w, w.len(), o);
    let spread = (e[0] - e[e.len() - 1]).abs();
    if spread == 0.0 { return 1.0; }
    let mut g = 1.0f64;
    for i in 1..e.len() {
        let d = (e[i] - e[i - 1]).abs() / spread;
        if d < 1e-12 { continue; }
        g = g.min(d);
        if i >= k { break; }
    }
    g
}
fn judge24<F: Fl>(ctx: &mut Ctx, c: &Case) -> Res {
    let (r, _) = run::<F>(ctx, c);
    after24(ctx, c, r)
}
fn after24<F: Fl>(ctx: &mut Ctx, c: &Case, r: Ret<F>) -> Res {
    let (n, k) = c.x.dim();
    let a = rounded::<F>(&c.a);
    verdict(ctx, &r);
    let l = match r {
        Ok(l) => l,
        Err((e, Some(l))) => {
            let g = gap(&oracle::jacobi_vals(&a), k, c.order);
            if c.slow || g < 0.03 { ctx.outcome("slow problem, budget exhausted"); return Ok(()); }
            let s = fr1(&l.eigvals);
            let na = norm2(&a);
            let worst = l.rnorm.iter().map(|x| x.f()).fold(0.0, f64::max);
            return ctx.le("iterative: converges with the full budget", worst, if F::EPS >= 1e-10 { 100.0 * c.tol as f64 + na * 5e-3 } else if c.m.is_none() && g >= 0.1 { 3.0 * c.tol as f64 + na * 5e-11 } else { 100.0 * c.tol as f64 + na * 1e-10 }).map_err(|f| Fail { key: f.key, msg: format!("{} ({e:?}, values {}, n {n} k {k})", f.msg, show1(&s)) });
        }
        Err((e, None)) => return fail("iterative: converges with the full budget", format!("no result: {e:?}")),
    };
    ctx.nontrivial();
    let all = oracle::jacobi_vals(&a);
    right_pairs::<F>(ctx, &a, &fr1(&l.eigvals).to_vec(), &fr(&l.eigvecs), &all, c.tol as f64, c.order)
}
fn c24(t: Tier) -> Vec<Space> {
    let th = t.thorough();
    let mut v = vec![];
    let sizes: Vec<(usize, usize)> = if th { vec![(5, 1), (6, 1), (8, 1), (9, 1), (10, 1), (10, 2), (11, 2), (13, 2), (15, 3), (20, 4), (24, 3), (30, 6)] } else { vec![(5, 1), (7, 1), (10, 2), (15, 3)] };
    v.push(space(format!("convergence: {NPROB} problems x sizes {sizes:?} x {NGENERIC} generic start blocks x 2 orders x {NPREC} preconditioners x tolerances 1e-5, 1e-3 (and 1e-9 without preconditioner, f64)"), move |ctx| {
        let (n, k) = pick_size(ctx, &sizes);
        let a = problem(ctx.choose(NPROB), n);
        let x = start(ctx.choose(NGENERIC), n, k);
        let order = order(ctx);
        let p = ctx.choose(NPREC);
        let m = precond(p, &a);
        // full precision only without preconditioners: ill-suited ones lose some of it
        let tol = if m.is_none() { ctx.pick(&[1e-5f32, 1e-3, 1e-9]) } else { ctx.pick(&[1e-5f32, 1e-3]) };
        let c = Case { slow: p == 2, a, x, m, y: None, tol, iters: 10000, order };
        note_case(ctx, &c);
        let s = if tol < 1e-6 { false } else { flt(ctx) };
        by!(s, judge24(ctx, &c))
    }));
    v.push(eig_cases(t, "C24"));
    v.push(unit_cases(t, "convergence", &[10000], |ctx, c| judge24::<f64>(ctx, c), |ctx, c| judge24::<f32>(ctx, c)));
    v
}

// ------------------------------------------------------------------------------- C25
/// Constraint matrix: a basis of the span of the eigenvectors `which`, in one of several shapes.
const NSHAPE: usize = 6;
fn constraints(q: &A2, which: &[usize], shape: usize) -> A2 {
    let n = q.nrows();
    let c = which.len();
    let e = A2::from_shape_fn((n, c), |(i, j)| q[(i, which[j])]);
    match shape {
        0 => e,
        1 => e * 3.0,
        2 => A2::from_shape_fn((n, c), |(i, j)| e[(i, j)] * 10f64.powi(2 * (j % 5) as i32 - 1)),
        3 => mul(&e, &A2::from_shape_fn((c, c), |(i, j)| if i <= j { 1.0 + (i == j) as u8 as f64 } else { 0.0 })),
        4 => mul(&e, &A2::from_shape_fn((c, c), |(i, j)| 1.0 / (1.0 + i as f64 + j as f64) + 2.0 * (i == j) as u8 as f64 * if i % 2 == 0 { 1.0 } else { -1.0 })),
        // unit vectors at an angle
        5 => mul(&e, &A2::from_shape_fn((c, c), |(i, j)| if i == j { if j == 0 { 1.0 } else { 0.8 } } else if i + 1 == j { 0.6 } else { 0.0 })),
        _ => unreachable!(),
    }
}
/// Every non-empty set of at most `m` of the eigenvector indices 0..n (n <= 6), or a few for larger n.
fn pick_set(ctx: &mut Ctx, n: usize, m: usize) -> Vec<usize> {
    if n <= 7 {
        let mut s = vec![];
        let mut lo = 0;
        for _ in 0..m {
            let c = ctx.choose(n - lo + (!s.is_empty()) as usize);
            if c == n - lo { break; }
            s.push(lo + c);
            lo += c + 1;
            if lo == n { break; }
        }
        s
    } else {
        let c = 1 + ctx.choose(m);
        match ctx.choose(4) {
            0 => (0..c).collect(),
            1 => (n - c..n).collect(),
            2 => (0..c).map(|i| (7 * i + 1) % n).collect(),
            _ => (0..c).map(|i| if i % 2 == 0 { i / 2 } else { n - 1 - i / 2 }).collect(),
        }
    }
}
fn normalised(y: &A2) -> A2 { oracle::orth_basis(y, 1e-9) }
fn orthogonal_to<F: Fl>(ctx: &mut Ctx, v: &A2, y: &A2, loose: f64) -> Res {
    let g = mul(&tr(&normalised(y)), v);
    let dbl = F::EPS < 1e-10;
    ctx.le(if dbl { "iterative: orthogonal to the constraints (f64)" } else { "iterative: orthogonal to the constraints (f32)" }, nmax(g.iter()), loose * if dbl { 1e-7 } else { 3e-3 })
}
fn judge25<F: Fl>(ctx: &mut Ctx, c: &Case, rest: &[f64], converge: bool) -> Res {
    let (r, _) = run::<F>(ctx, c);
    after25(ctx, c, rest, converge, r)
}
fn after25<F: Fl>(ctx: &mut Ctx, c: &Case, rest: &[f64], converge: bool, r: Ret<F>) -> Res {
    verdict(ctx, &r);
    let a = rounded::<F>(&c.a);
    let y = rounded::<F>(c.y.as_ref().unwrap());
    let (l, ok) = match r {
        Ok(l) => (l, true),
        Err((_, Some(l))) => (l, false),
        Err((e, None)) => return if converge { fail("iterative: constrained run gives a result", format!("{e:?}")) } else { Ok(()) },
    };
    // what the start block looks like to the constrained problem
    let x = rounded::<F>(&c.x);
    let z = normalised(&y);
    let px = &x - &mul(&z, &mul(&tr(&z), &x));
    let (s, s0) = (oracle::jsvd(&px), oracle::jsvd(&x));
    if s[s.len() - 1] < 1e-3 * s0[0] { ctx.outcome("start block not of full rank next to the constraints"); return Ok(()); }
    ctx.nontrivial();
    let v = fr(&l.eigvecs);
    orthogonal_to::<F>(ctx, &v, &y, 1.0)?;
    if !converge { return Ok(()); }
    let k = v.ncols();
    let all: Vec<f64> = rest.to_vec();
    let g = gap(&all, k, c.order);
    if !ok {
        if g < 0.03 || c.slow { ctx.outcome("slow problem, budget exhausted"); return Ok(()); }
        let worst = l.rnorm.iter().map(|x| x.f()).fold(0.0, f64::max);
        return ctx.le("iterative: constrained run converges with the full budget", worst, 100.0 * c.tol as f64 + norm2(&a) * if F::EPS < 1e-10 { 1e-9 } else { 1e-2 });
    }
    right_pairs::<F>(ctx, &a, &fr1(&l.eigvals).to_vec(), &v, &all, c.tol as f64, c.order)
}
fn c25(t: Tier) -> Vec<Space> {
    let th = t.thorough();
    // n, k, most constraints (n - c >= 5 k)
    let sizes: &'static [(usize, usize, usize)] = if th { &[(6, 1, 1), (7, 1, 2), (9, 1, 4), (11, 2, 1), (13, 2, 3), (15, 2, 5), (20, 3, 5), (20, 1, 15)] } else { &[(6, 1, 1), (7, 1, 2), (9, 1, 4), (12, 2, 2)] };
    let specs: &'static [usize] = if th { &[0, 1, 2, 3, 5, 6, 7, 9, 10, 11] } else { &[0, 1, 2, 9, 11] };
    let mut v = vec![];
    v.push(space(format!("constrained runs: spectra {specs:?} x {NBASIS} bases x sizes (n, k, most constraints) {sizes:?} x every set of eigenvectors (n <= 7) or 4 families x {NSHAPE} constraint bases x 2 generic starts and 2 special ones x 2 orders x budgets x preconditioners"), move |ctx| {
        let (n, k, m) = ctx.pick(sizes);
        let w = spectrum(ctx.pick(specs), n);
        let q = basis(ctx.choose(NBASIS), n);
        let a = from_spectrum(&q, &w);
        let set = pick_set(ctx, n, m);
        let y = constraints(&q, &set, if set.len() == 1 { ctx.choose(2) } else { ctx.choose(NSHAPE) });
        let sid = ctx.pick(if th { &[0usize, 1, 2, 4, 6][..] } else { &[0, 4, 6] });
        let x = start(sid, n, k);
        let order = order(ctx);
        let (p, iters) = ctx.pick(if th { &[(0usize, 10000usize), (0, 2), (1, 10000), (4, 10000), (3, 3), (0, 3), (2, 10000)][..] } else { &[(0, 10000), (0, 2), (0, 3), (4, 10000)] });
        let tol = if iters == 3 { 0.0 } else { 1e-5 };
        let iters = if tol == 0.0 { 60 } else { iters };
        let c = Case { slow: p == 2 || tol == 0.0, m: precond(p, &a), a, x, y: Some(y), tol, iters, order };
        note_case(ctx, &c);
        let mut rest: Vec<f64> = (0..n).filter(|i| !set.contains(i)).map(|i| w[i]).collect();
        rest.sort_by(|a, b| a.partial_cmp(b).unwrap());
        let s = flt(ctx);
        let cv = sid < NGENERIC && iters > 100;
        if s { judge25::<f32>(ctx, &c, &rest, cv) } else { judge25::<f64>(ctx, &c, &rest, cv) }
    }));
    // n, k, number of constraints
    let sizes: &'static [(usize, usize, usize)] = if th { &[(12, 1, 6), (14, 1, 8), (14, 1, 9), (18, 1, 12), (20, 1, 13), (22, 1, 16), (26, 1, 17), (30, 2, 18), (30, 1, 23), (40, 3, 25), (45, 2, 33), (60, 4, 38)] } else { &[(12, 1, 6), (14, 1, 9), (18, 1, 12), (23, 1, 17), (30, 2, 18), (33, 1, 25)] };
    v.push(space(format!("many constraints: (n, k, constraints) {sizes:?} x 4 spectra x {NBASIS} bases x 4 choices of eigenvectors x 4 constraint bases x 2 starts x 2 orders x 2 budgets"), move |ctx| {
        let (n, k, c) = ctx.pick(sizes);
        let w = spectrum(ctx.pick(&[0usize, 1, 2, 6]), n);
        let q = basis(ctx.choose(NBASIS), n);
        let a = from_spectrum(&q, &w);
        let set: Vec<usize> = match ctx.choose(4) {
            0 => (0..c).collect(),
            1 => (n - c..n).collect(),
            2 => (0..c).map(|i| if i % 2 == 0 { i / 2 } else { n - 1 - i / 2 }).collect(),
            _ => { let mut v: Vec<usize> = (0..n).filter(|i| i % 2 == 1).chain((0..n).filter(|i| i % 2 == 0)).take(c).collect(); v.reverse(); v }
        };
        let y = constraints(&q, &set, ctx.pick(&[0usize, 1, 4, 5]));
        let sid = ctx.pick(&[0usize, 6]);
        let x = start(sid, n, k);
        let order = order(ctx);
        let iters = ctx.pick(&[10000usize, 3]);
        let c = Case { slow: false, m: None, a, x, y: Some(y), tol: 1e-5, iters, order };
        note_case(ctx, &c);
        let mut rest: Vec<f64> = (0..n).filter(|i| !set.contains(i)).map(|i| w[i]).collect();
        rest.sort_by(|a, b| a.partial_cmp(b).unwrap());
        let s = flt(ctx);
        let cv = sid < NGENERIC && iters > 100;
        if s { judge25::<f32>(ctx, &c, &rest, cv) } else { judge25::<f64>(ctx, &c, &rest, cv) }
    }));
    v.push(eig_cases(t, "C25"));
    v
}

// ------------------------------------------------------------------------------- C26
/// Scripted random number generator.
#[derive(Clone)]
pub struct Script { s: u64, kind: usize }
const NRNG: usize = 4;
impl Script { pub fn new(kind: usize) -> Script { Script { s: 0x1234_5678 + 7919 * kind as u64, kind } } }
impl RngCore for Script {
    fn next_u64(&mut self) -> u64 {
        self.s = self.s.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.s;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^= z >> 31;
        match self.kind { 3 => z | 0xC000_0000_0000_0000, _ => z }
    }
    fn next_u32(&mut self) -> u32 { (self.next_u64() >> 32) as u32 }
    fn fill_bytes(&mut self, d: &mut [u8]) { for b in d { *b = self.next_u64() as u8; } }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> { self.fill_bytes(d); Ok(()) }
}
struct Walk { a: A2, w: Vec<f64>, y: Option<A2>, left: Vec<f64>, order: Order, step: usize, rng: usize, m: Option<A2> }
fn judge26<F: Fl>(ctx: &mut Ctx, c: &Walk) -> Res {
    let n = c.a.nrows();
    let dbl = F::EPS < 1e-10;
    let a = rounded::<F>(&c.a);
    let na = norm2(&a).max(1e-30);
    let mut eig = TruncatedEig::new_with_rng(to::<F>(&c.a), c.order, Script::new(c.rng)).precision(1e-5).maxiter(20 * n + 20);
    if let Some(y) = &c.y { eig = eig.orthogonal_to(to::<F>(y)); }
    if let Some(m) = &c.m { eig = eig.precondition_with(to::<F>(m)); }
    let room = n - c.y.as_ref().map_or(0, |y| y.ncols());
    let mut it: Box<dyn Iterator<Item = (ndarray::Array1<F>, Array2<F>)>> = if c.step == 1 { Box::new(eig.into_iter()) } else { match eig.into_iter_step_size(c.step) { Ok(i) => Box::new(i), Err(e) => return fail("iterator: construction", format!("{e:?}")) } };
    let mut basis: Vec<Vec<f64>> = vec![];
    let z = c.y.as_ref().map(|y| normalised(&rounded::<F>(y)));
    if let Some(z) = &z { for j in 0..z.ncols() { basis.push(z.column(j).to_vec()); } }
    let pre = basis.len();
    let mut vals: Vec<f64> = vec![];
    let (tv, to_) = if dbl { (2e-5 + 1e-10 * na, 1e-7) } else { (1e-4 + 1e-4 * na, 5e-3) };
    let mut calls = 0;
    while let Some((w, v)) = it.next() {
        calls += 1;
        let (w, v) = (fr1(&w).to_vec(), fr(&v));
        ctx.nontrivial();
        let k = c.step.min(room - vals.len().min(room));
        ctx.ok("iterator: never more vectors than dimensions", k > 0 && vals.len() + w.len() <= room, || format!("{} + {} vectors, room for {room}", vals.len(), w.len()))?;
        dims(ctx, "iterator: shape of a step", v.dim(), (n, k))?;
        ctx.ok("iterator: one value per vector", w.len() == k, || format!("{}", w.len()))?;
        let av = mul(&a, &v);
        for j in 0..k {
            ctx.le(if dbl { "iterator: A v = lambda v (f64)" } else { "iterator: A v = lambda v (f32)" }, residual(&av, &v, w[j], j), tv + 1e-5 * (vals.len() + 1) as f64)?;
            let col: Vec<f64> = v.column(j).to_vec();
            ctx.le(if dbl { "iterator: unit vectors (f64)" } else { "iterator: unit vectors (f32)" }, (col.iter().map(|x| x * x).sum::<f64>() - 1.0).abs(), to_)?;
            for b in &basis {
                let d: f64 = b.iter().zip(&col).map(|(x, y)| x * y).sum();
                ctx.le(if dbl { "iterator: orthogonal to everything before (f64)" } else { "iterator: orthogonal to everything before (f32)" }, d.abs(), to_)?;
            }
            basis.push(col);
            vals.push(w[j]);
        }
    }
    ctx.calls(calls + 1);
    let want = extremes(&c.left, vals.len(), c.order);
    for (i, (x, y)) in vals.iter().zip(&want).enumerate() {
        ctx.le(if dbl { "iterator: the next extreme eigenvalue (f64)" } else { "iterator: the next extreme eigenvalue (f32)" }, (x - y).abs(), 5.0 * tv).map_err(|f| Fail { key: f.key, msg: format!("{} (pair {i} of {vals:?}, expected {want:?})", f.msg) })?;
    }
    ctx.outcome(if vals.len() == room { "exhausted" } else { "stopped early" });
    // a step of several pairs needs a start block that f32 can tell from a dependent one
    if c.rng < 3 && (c.step == 1 || dbl) {
        ctx.ok("iterator: enumerates every pair of the space left by the constraints", vals.len() == room, || format!("{} of {room}: {vals:?}, basis {}", vals.len(), basis.len() - pre))?;
    }
    if vals.len() == room {
        for _ in 0..3 { ctx.ok("iterator: stays exhausted", it.next().is_none(), || "a pair after the end".into())?; }
        ctx.calls(3);
    }
    let _ = &c.w;
    Ok(())
}
fn c26(t: Tier) -> Vec<Space> {
    let th = t.thorough();
    let mut v = vec![];
    let sizes: Vec<usize> = if th { (1..=9).collect() } else { (1..=6).collect() };
    let specs: &'static [usize] = &[0, 1, 2, 3, 5, 6, 7, 8, 9, 10, 11];
    v.push(space(format!("histories of the iterator until after exhaustion: n in {sizes:?} x spectra {specs:?} x {NBASIS} bases x 2 orders x every set of at most n-1 preset constraints (n <= 7) in 2 bases x step sizes 1..3 x scripts x preconditioners"), move |ctx| {
        let n = sizes[ctx.choose(sizes.len())];
        let w = spectrum(ctx.pick(specs), n);
        let q = basis(ctx.choose(NBASIS), n);
        let a = from_spectrum(&q, &w);
        let order = order(ctx);
        let (y, set) = if n > 1 && ctx.flag() {
            let set = pick_set(ctx, n, if n > 5 { 2 } else { n - 1 });
            let sh = if th { ctx.pick(&[0usize, 2, 4]) } else { ctx.pick(&[0, 4]) };
            (Some(constraints(&q, &set, sh)), set)
        } else { (None, vec![]) };
        let step = 1 + ctx.choose(if th { 3 } else { 2 });
        let rng = ctx.choose(if th { NRNG } else { 2 });
        let s = flt(ctx);
        // an ill-suited preconditioner uses up the budget of an f32 solve
        let m = precond(if y.is_some() { 0 } else { ctx.pick(if s { &[0usize, 1] } else { &[0, 4] }) }, &a);
        let left: Vec<f64> = (0..n).filter(|i| !set.contains(i)).map(|i| w[i]).collect();
        reg(ctx, &a);
        if let Some(y) = &y { reg(ctx, y); }
        ctx.state_f(&[step as f64, rng as f64, (order == Order::Largest) as u8 as f64, m.is_some() as u8 as f64]);
        ctx.note(|| format!("step size {step} rng script {rng} {order:?}"));
        let c = Walk { a, w, y, left, order, step, rng, m };
        by!(s, judge26(ctx, &c))
    }));
    let sizes: &'static [usize] = if th { &[10, 13, 16, 17, 20, 24, 33] } else { &[10, 14, 20] };
    let specs: &'static [usize] = if th { &[0, 1, 2, 6, 7, 8, 9, 11] } else { &[0, 1, 2, 9] };
    let steps: &'static [usize] = if th { &[1, 2, 3, 4, 5, 7, 9, 40] } else { &[1, 3, 4, 5, 7] };
    v.push(space(format!("long histories of the iterator until after exhaustion: n in {sizes:?} x spectra {specs:?} x 3 bases x 2 orders x no or 2 preset constraints x step sizes {steps:?}, f64 (and f32 for single steps of n <= 14)"), move |ctx| {
        let n = ctx.pick(sizes);
        let w = spectrum(ctx.pick(specs), n);
        let q = basis(ctx.choose(3), n);
        let a = from_spectrum(&q, &w);
        let order = order(ctx);
        let set = if ctx.flag() { vec![0, n - 2] } else { vec![] };
        let y = if set.is_empty() { None } else { Some(constraints(&q, &set, 4)) };
        let step = ctx.pick(steps);
        let s = step == 1 && n <= 14 && flt(ctx);
        let left: Vec<f64> = (0..n).filter(|i| !set.contains(i)).map(|i| w[i]).collect();
        reg(ctx, &a);
        ctx.state_f(&[step as f64, set.len() as f64, (order == Order::Largest) as u8 as f64]);
        ctx.note(|| format!("step size {step} {order:?} constraints {set:?}"));
        let c = Walk { a, w, y, left, order, step, rng: 0, m: None };
        by!(s, judge26(ctx, &c))
    }));
    v
}

// ------------------------------------------------------------------------------- C27
struct Tsvd { a: A2, k: usize, order: Order, prec: f32, maxit: usize, rng: usize }
fn judge27<F: Fl>(ctx: &mut Ctx, c: &Tsvd) -> Res {
    let a = rounded::<F>(&c.a);
    let (n, m) = a.dim();
    let d = n.min(m);
    let dbl = F::EPS < 1e-10;
    macro_rules! nm { ($s:literal) => { if dbl { concat!($s, " (f64)") } else { concat!($s, " (f32)") } } }
    ctx.calls(3);
    let r = TruncatedSvd::new_with_rng(to::<F>(&c.a), c.order, Script::new(c.rng)).precision(c.prec).maxiter(c.maxit).decompose(c.k);
    if c.k > d {
        ctx.outcome("more triplets than dimensions");
        return ctx.ok("truncated svd: asking for more triplets than there are", matches!(&r, Err(LinalgError::NotThin { rows, cols }) if (*rows, *cols) == (d, c.k)), || format!("{:?}", r.map(|r| r.values())));
    }
    let r = match r { Ok(r) => r, Err(e) => return fail("truncated svd: gives a result", format!("{e:?}")) };
    let s0 = r.values();
    let (u, s, vt) = r.values_vectors();
    ctx.ok("truncated svd: values() = values_vectors()", s0.len() == s.len() && s0.iter().zip(&s).all(|(x, y)| x.bits() == y.bits()), || format!("{s0} {s}"))?;
    let r2 = r.clone().values();
    ctx.ok("truncated svd: repeatable", r2.len() == s.len() && r2.iter().zip(&s).all(|(x, y)| x.bits() == y.bits()), || format!("{r2} {s}"))?;
    let (u, s, v) = (fr(&u), fr1(&s).to_vec(), tr(&fr(&vt)));
    if c.k == 0 {
        ctx.outcome("nothing requested");
        return ctx.ok("truncated svd: nothing requested, empty result", s.is_empty() && u.ncols() == 0 && v.ncols() == 0, || format!("{s:?} {:?} {:?}", u.dim(), v.dim()));
    }
    let t = s.len();
    dims(ctx, "truncated svd: shape of U", u.dim(), (n, t))?;
    dims(ctx, "truncated svd: shape of V", v.dim(), (m, t))?;
    ctx.ok("truncated svd: non-negative numbers", s.iter().all(|x| *x >= 0.0 && x.is_finite()), || format!("{s:?}"))?;
    ctx.ok("truncated svd: order", s.windows(2).all(|p| if c.order == Order::Largest { p[0] >= p[1] } else { p[0] <= p[1] }), || format!("{s:?}"))?;
    ctx.ok("truncated svd: no NaN in the vectors", u.iter().chain(v.iter()).all(|x| x.is_finite()), || format!("values {s:?}"))?;
    ctx.ok("truncated svd: at most as many triplets as requested", t <= c.k, || format!("{t}"))?;
    // the solver works on the Gram matrix, to the square of the precision
    let sv = oracle::jsvd(&a);
    let s1 = sv[0].max(1e-150);
    // and a block of full size spans everything, whatever the precision
    let te = if c.k < d { (c.prec as f64).powi(2) } else { 0.0 } + s1 * s1 * if dbl { 1e-9 } else { 1e-4 };
    let sq: Vec<f64> = sv.iter().map(|x| x * x).collect();
    if c.k < d && (c.k * 5 > d || gap(&sq, c.k, c.order) < 0.03 || c.maxit < 100) { ctx.outcome("outside the accuracy contract"); return Ok(()); }
    ctx.nontrivial();
    let cut = F::EPS * if dbl { 1e6 } else { 1e3 } * s1 * s1;
    if c.order == Order::Largest {
        let (at_least, at_most) = (sq.iter().take(c.k).filter(|x| **x > 4.0 * cut + te).count(), sq.iter().take(c.k).filter(|x| **x > 0.25 * cut).count());
        ctx.ok("truncated svd: numerically zero values, and only those, are dropped", t >= at_least && t <= at_most, || format!("{t} kept of {} : {s:?}, exact {sv:?}", c.k))?;
    } else {
        ctx.ok("truncated svd: all smallest values are returned", t == c.k, || format!("{t} of {}", c.k))?;
    }
    let want = extremes(&sq, t, c.order);
    let lo = if c.k < d && gap(&sq, c.k, c.order) * s1 * s1 < 100.0 * te { 100.0 } else { 1.0 };
    let av = mul(&a, &v);
    let atu = mul(&tr(&a), &u);
    for j in 0..t {
        ctx.le(nm!("truncated svd: squared singular values"), (s[j] * s[j] - want[j]).abs(), lo * te)?;
        if s[j] * s[j] <= 4.0 * cut { continue; }
        let ru = (0..n).map(|i| (av[(i, j)] - s[j] * u[(i, j)]).powi(2)).sum::<f64>().sqrt();
        let rv = (0..m).map(|i| (atu[(i, j)] - s[j] * v[(i, j)]).powi(2)).sum::<f64>().sqrt();
        ctx.le(nm!("truncated svd: A v = s u"), ru * s[j], 2.0 * te)?;
        ctx.le(nm!("truncated svd: A^T u = s v"), rv * s[j], 2.0 * te)?;
        for i in 0..=j {
            if s[i] * s[i] <= 4.0 * cut { continue; }
            let e = (i == j) as u8 as f64;
            let gu = ((0..n).map(|l| u[(l, i)] * u[(l, j)]).sum::<f64>() - e).abs();
            let gv = ((0..m).map(|l| v[(l, i)] * v[(l, j)]).sum::<f64>() - e).abs();
            ctx.le(nm!("truncated svd: |U^T U - I| s_i s_j"), gu * s[i] * s[j], te)?;
            ctx.le(nm!("truncated svd: |V^T V - I| s_i s_j"), gv * s[i] * s[j], te)?;
        }
    }
    // the vectors the solver works on are orthonormal also for zero values
    let w = if n > m { &v } else { &u };
    ctx.le(nm!("truncated svd: orthonormal factor"), orth_cols(w), if dbl { 1e-7 } else { 5e-3 })
}
fn c27(t: Tier) -> Vec<Space> {
    let th = t.thorough();
    let mut v = vec![];
    // (rows, columns, k)
    let mut sizes: Vec<(usize, usize, usize)> = vec![];
    for &(r, c) in if th { &[(5, 5), (6, 5), (5, 7), (9, 6), (6, 12), (10, 10), (11, 10), (10, 20), (15, 15), (30, 16), (20, 20), (21, 40)][..] } else { &[(5, 5), (8, 5), (5, 9), (11, 10), (10, 10), (10, 14)] } {
        for k in 1..=r.min(c) / 5 { sizes.push((r, c, k)); }
    }
    let sz = sizes.clone();
    v.push(space(format!("few triplets: {NGEN} families and {} products basis x singular spectrum x basis, x (rows, columns, k) {sizes:?} x 2 orders x scripts x budgets x precisions", NSPEC * 3), move |ctx| {
        let (r, c, k) = pick3(ctx, &sz);
        let id = ctx.choose(NGEN + NSPEC * 3);
        let a = if id < NGEN { general(id, r, c, 1) } else { svd_problem(id - NGEN, r, c) };
        let order = order(ctx);
        let rng = ctx.choose(if th { 3 } else { 2 });
        let (prec, maxit) = ctx.pick(if th { &[(1e-5f32, 1000usize), (1e-3, 1000), (1e-5, 0), (1e-5, 2)][..] } else { &[(1e-5, 1000), (1e-3, 1000), (1e-5, 2)] });
        reg(ctx, &a);
        ctx.state_f(&[k as f64, rng as f64, prec as f64, maxit as f64, (order == Order::Largest) as u8 as f64]);
        ctx.note(|| format!("k {k} {order:?} rng script {rng} precision {prec} budget {maxit}"));
        let c = Tsvd { a, k, order, prec, maxit, rng };
        let s = flt(ctx);
        by!(s, judge27(ctx, &c))
    }));
    let shapes: &'static [(usize, usize)] = if th { &[(1, 1), (1, 4), (4, 1), (2, 2), (2, 5), (5, 2), (3, 3), (4, 3), (3, 4), (5, 5), (7, 6), (6, 9), (8, 8), (12, 10), (0, 0), (0, 3), (3, 0)] } else { &[(1, 1), (1, 4), (4, 1), (2, 2), (2, 5), (3, 3), (4, 3), (6, 5), (5, 6), (0, 0), (0, 3), (3, 0)] };
    v.push(space(format!("all triplets, none, and too many: {NGEN} families and {} products x shapes {shapes:?} x k in {{0, full, full + 1}} x 2 orders x scripts", NSPEC * 3), move |ctx| {
        let (r, c) = ctx.pick(shapes);
        let id = if r * c == 0 { 0 } else { ctx.choose(NGEN + NSPEC * 3) };
        let a = if id < NGEN { general(id, r, c, 1) } else { svd_problem(id - NGEN, r, c) };
        let d = r.min(c);
        let k = [0, d, d + 1][ctx.choose(3)];
        let order = order(ctx);
        let rng = ctx.choose(if th { 3 } else { 2 });
        reg(ctx, &a);
        ctx.state_f(&[k as f64, rng as f64, (order == Order::Largest) as u8 as f64]);
        ctx.note(|| format!("k {k} {order:?} rng script {rng}"));
        let c = Tsvd { a, k, order, prec: 1e-5, maxit: 1000, rng };
        let s = flt(ctx);
        by!(s, judge27(ctx, &c))
    }));
    // the unit of measurement is arbitrary: problem and precision in other units, and larger shapes
    let mut sizes: Vec<(usize, usize, usize)> = vec![];
    for &(r, c) in if th { &[(3, 3), (2, 6), (7, 3), (5, 5), (6, 11), (12, 5), (10, 10), (10, 23), (31, 10), (15, 40), (33, 33), (70, 15), (20, 100), (130, 10)][..] } else { &[(3, 3), (2, 6), (7, 3), (5, 5), (10, 23), (31, 10), (33, 33), (15, 70)] } {
        let d = r.min(c);
        for k in 1..=d / 5 { sizes.push((r, c, k)); }
        if d <= 12 { sizes.push((r, c, d)); }
    }
    let exps: &'static [i32] = if th { &[-56, -40, -30, -20, -8, 0, 13, 24, 40] } else { &[-40, -20, 0, 24] };
    v.push(space(format!("units: {NGEN} families and {} products x (rows, columns, k) {sizes:?} x 2 orders x largest entry and precision times 2^e, e in {exps:?} (-12, 0, 13 for f32)", NSPEC * 3), move |ctx| {
        let (r, c, k) = pick3(ctx, &sizes);
        let id = if r.min(c) > 12 && !th { ctx.pick(&[1usize, 2, 12, 36, NGEN, NGEN + 7, NGEN + 11, NGEN + 17]) } else { ctx.choose(NGEN + NSPEC * 3) };
        let a = if id < NGEN { general(id, r, c, 1) } else { svd_problem(id - NGEN, r, c) };
        let order = order(ctx);
        // the solver takes the length of residuals of the Gram matrix, whose squares f32 represents for these only
        let s = flt(ctx);
        let e = if s { ctx.pick(&[-12, 0, 13]) } else { ctx.pick(exps) };
        let a = { let e0 = expo(&a); a.mapv(|x| ldexp(x, e - e0)) };
        reg(ctx, &a);
        ctx.state_f(&[k as f64, e as f64, (order == Order::Largest) as u8 as f64]);
        ctx.note(|| format!("k {k} {order:?} times 2^{e}"));
        let c = Tsvd { a, k, order, prec: 1e-5 * 2f32.powi(e), maxit: 1000, rng: 0 };
        by!(s, judge27(ctx, &c))
    }));
    let shapes: &'static [(usize, usize)] = if th { &[(1, 1), (1, 3), (3, 1), (2, 2), (2, 3), (3, 2), (3, 3)] } else { &[(1, 1), (1, 3), (3, 1), (2, 2), (3, 2), (2, 3)] };
    v.push(space(format!("dense: every matrix of shapes {shapes:?} over {{0, 1, -1}}, all triplets, 2 orders"), move |ctx| {
        let (r, c) = ctx.pick(shapes);
        let a = dense(ctx, r, c, Z3);
        let order = order(ctx);
        ctx.state((order == Order::Largest) as u64);
        ctx.note(|| format!("{order:?}"));
        let c = Tsvd { k: r.min(c), a, order, prec: 1e-5, maxit: 1000, rng: 0 };
        let s = flt(ctx);
        by!(s, judge27(ctx, &c))
    }));
    v
}
fn pick3(ctx: &mut Ctx, s: &[(usize, usize, usize)]) -> (usize, usize, usize) { s[ctx.choose(s.len())] }
/// Basis x singular values x basis.
fn svd_problem(id: usize, r: usize, c: usize) -> A2 {
    let d = r.min(c);
    let w = spectrum(id / 3, d);
    let (p, q) = (basis(1 + id % 3, r), basis(1 + (id + 1) % 3, c));
    let l = A2::from_shape_fn((r, d), |(i, j)| p[(i, j)] * w[j]);
    mul(&l, &tr(&q.slice(s![.., ..d]).to_owned()))
}

// ------------------------------------------------------------------------- C31 and C32
type Ret<F> = Result<Lobpcg<F>, (LinalgError, Option<Lobpcg<F>>)>;
fn sum_norm<F: Fl>(l: &Lobpcg<F>) -> F { l.rnorm.iter().cloned().sum() }
fn part<F>(r: &Ret<F>) -> Option<&Lobpcg<F>> { match r { Ok(l) | Err((_, Some(l))) => Some(l), Err((_, None)) => None } }
/// The same problem with every budget 0..=most, and the full one.
fn judge31<F: Fl>(ctx: &mut Ctx, c: &mut Case, most: usize) -> Res {
    let (n, k) = c.x.dim();
    let mut last: Option<(F, bool)> = None;
    let mut seen = 0;
    for b in (0..=most).chain([10 * n + 7]) {
        c.iters = b;
        let (r, log) = run::<F>(ctx, c);
        verdict(ctx, &r);
        let cap = b.min(10 * n);
        ctx.ok("budget: operator applied at most once per iteration, and once for the start", log.ops.len() <= cap + 1, || format!("{} applications with budget {b}", log.ops.len()))?;
        ctx.ok("budget: preconditioner applied at most once per iteration", log.pre.len() <= cap, || format!("{} applications with budget {b}", log.pre.len()))?;
        ctx.ok("budget: a larger budget repeats the run with the smaller one", log.ops.len() >= seen, || format!("{} after {seen}", log.ops.len()))?;
        ctx.ok("budget: start block first", log.ops.first() == Some(&(n, k)), || format!("{:?}", log.ops.first()))?;
        for (what, l) in [("budget: operator sees blocks of n rows and at most k columns", &log.ops), ("budget: preconditioner sees blocks of n rows and at most k columns", &log.pre)] {
            ctx.ok(what, l.iter().all(|d| d.0 == n && d.1 >= 1 && d.1 <= k), || format!("{l:?}"))?;
        }
        seen = log.ops.len();
        let Some(l) = part(&r) else { return fail("budget: the best result accompanies every error", format!("budget {b}: {:?}", r.err().map(|e| e.0))) };
        let s = sum_norm(l);
        ctx.ok("budget: finite residual norms", l.rnorm.iter().all(|x| x.is_finite()), || format!("{:?}", l.rnorm))?;
        // until it converges: a converged result is preferred to a smaller sum
        if let Some((p, true)) = last { ctx.ok("budget: a converged run stays as it is", r.is_ok() && s == p, || format!("{s} after {p} with budget {b}"))?; }
        if let (Some((p, false)), false) = (last, r.is_ok()) { ctx.ok("budget: the summed residual norm never increases with the budget", s <= p, || format!("{s} after {p} with budget {b}"))?; }
        last = Some((s, r.is_ok()));
        if b == 0 { ritz(ctx, c, l)?; }
        ctx.nontrivial();
    }
    Ok(())
}
/// A zero budget: Ritz pairs of the (projected) start block.
fn ritz<F: Fl>(ctx: &mut Ctx, c: &Case, l: &Lobpcg<F>) -> Res {
    let (a, mut x) = (rounded::<F>(&c.a), rounded::<F>(&c.x));
    let dbl = F::EPS < 1e-10;
    macro_rules! nm { ($s:literal) => { if dbl { concat!($s, " (f64)") } else { concat!($s, " (f32)") } } }
    if let Some(y) = &c.y { let z = normalised(&rounded::<F>(y)); x = &x - &mul(&z, &mul(&tr(&z), &x)); }
    let sv = oracle::jsvd(&x);
    let cond = sv[0] / sv[sv.len() - 1].max(1e-300);
    let t = 50.0 * F::EPS * cond * cond + if dbl { 1e-12 } else { 1e-5 };
    let q = oracle::orth_basis(&x, 0.0);
    let g = mul(&tr(&q), &mul(&a, &q));
    let (w, _) = oracle::jacobi_eig(&g);
    let want = extremes(&w, w.len(), c.order);
    let na = norm2(&a).max(1e-30);
    let v = fr(&l.eigvecs);
    for (x, y) in l.eigvals.iter().zip(&want) { ctx.le(nm!("zero budget: Ritz values of the start"), (x.f() - y).abs() / na, t)?; }
    let p = mul(&q, &mul(&tr(&q), &v));
    ctx.le(nm!("zero budget: vectors in the span of the start"), maxdiff(&p, &v), t)?;
    ctx.le(nm!("zero budget: orthonormal"), orth_cols(&v), t)?;
    let h = mul(&tr(&v), &mul(&a, &v));
    let d = A2::from_shape_fn(h.dim(), |(i, j)| if i == j { l.eigvals[i].f() } else { 0.0 });
    ctx.le(nm!("zero budget: V^T A V = diag(Ritz values)"), maxdiff(&h, &d) / na, t)
}
/// Success means converged; a budget that runs out is reported.
fn judge32<F: Fl>(ctx: &mut Ctx, c: &Case) -> Res {
    let (r, log) = run::<F>(ctx, c);
    after32(ctx, c, r, Some(log))
}
fn after32<F: Fl>(ctx: &mut Ctx, c: &Case, r: Ret<F>, log: Option<Log>) -> Res {
    let (n, k) = c.x.dim();
    verdict(ctx, &r);
    ctx.nontrivial();
    let tol = c.tol as f64;
    let a = rounded::<F>(&c.a);
    let na = norm2(&a).max(1e-30);
    let sv = oracle::jsvd(&rounded::<F>(&c.x));
    let cond = sv[0] / sv[k - 1].max(1e-300);
    let t0 = na * (30.0 * F::EPS * cond * cond + if F::EPS < 1e-10 { 1e-8 } else { 5e-3 });
    let cap = c.iters.min(10 * n);
    match r {
        Ok(l) => {
            ctx.ok("success: one residual norm per vector", l.rnorm.len() == k && l.eigvals.len() == k && l.eigvecs.dim() == (n, k), || format!("{} norms", l.rnorm.len()))?;
            ctx.ok("success: every residual norm is at most the tolerance", l.rnorm.iter().all(|x| x.f() <= tol), || format!("{:?} with tolerance {tol}", l.rnorm))?;
            let v = fr(&l.eigvecs);
            let av = mul(&a, &v);
            for j in 0..k { ctx.le(if F::EPS < 1e-10 { "success: true residual within the tolerance (f64)" } else { "success: true residual within the tolerance (f32)" }, residual(&av, &v, l.eigvals[j].f(), j), tol + t0)?; }
        }
        Err((e, Some(l))) => {
            ctx.ok("failure: a residual norm is above the tolerance", l.rnorm.iter().any(|x| x.f() > tol), || format!("{e:?}: {:?} with tolerance {tol}", l.rnorm))?;
            if let (LinalgError::NotConverged, Some(log)) = (&e, &log) { ctx.ok("failure: not converged means the budget was used up", log.ops.len() == cap + 1, || format!("{} of {} iterations: {:?}", log.ops.len() - 1, cap, l.rnorm))?; }
        }
        Err((e, None)) => return fail("failure: the best result accompanies the error", format!("{e:?}")),
    }
    Ok(())
}
/// A full-rank start next to the constraints.
fn full_rank(c: &Case) -> bool {
    let mut x = c.x.clone();
    if let Some(y) = &c.y { let z = normalised(y); x = &x - &mul(&z, &mul(&tr(&z), &x)); }
    let (s, s0) = (oracle::jsvd(&x), oracle::jsvd(&c.x));
    s[s.len() - 1] > 1e-2 * s0[0]
}
/// Problem, start, preconditioner and constraints shared by C31 and C32.
fn any_case(ctx: &mut Ctx, sizes: &[(usize, usize)], starts: &[usize], constrained: bool) -> Case {
    let (n, k) = pick_size(ctx, sizes);
    let p = ctx.choose(NPROB);
    let a = problem(p, n);
    let x = start(ctx.pick(starts), n, k);
    let order = order(ctx);
    let m = precond(ctx.choose(NPREC), &a);
    let y = if constrained && p < NSPEC * NBASIS { match ctx.choose(3) { 0 => None, 1 => Some(constraints(&basis(p % NBASIS, n), &[0], 1)), _ => Some(constraints(&basis(p % NBASIS, n), &[1, n - 1], 3)) } } else { None };
    Case { slow: false, a, x, m, y, tol: 1e-5, iters: 0, order }
}
fn c31(t: Tier) -> Vec<Space> {
    let th = t.thorough();
    let mut v = vec![];
    let sizes: &'static [(usize, usize)] = if th { &[(5, 1), (7, 1), (10, 2), (12, 2), (15, 3)] } else { &[(6, 1), (10, 2), (15, 3)] };
    let most = if th { 10 } else { 6 };
    let starts: &'static [usize] = if th { &[0, 1, 6, 9] } else { &[0, 9] };
    v.push(space(format!("budget histories: {NPROB} problems x sizes {sizes:?} x starts {starts:?} x 2 orders x {NPREC} preconditioners x constraint sets, every budget 0..{most} and the full one, 3 tolerances"), move |ctx| {
        let mut c = any_case(ctx, sizes, starts, true);
        c.tol = ctx.pick(if th { &[1e-5f32, 1e-2, 0.0][..] } else { &[1e-5, 0.0] });
        note_case(ctx, &c);
        let s = flt(ctx);
        if !full_rank(&c) { ctx.outcome("start block not of full rank next to the constraints"); return Ok(()); }
        if s { judge31::<f32>(ctx, &mut c, most) } else { judge31::<f64>(ctx, &mut c, most) }
    }));
    let fsizes: &'static [(usize, usize)] = if th { &[(5, 1), (7, 1), (10, 2), (15, 3)] } else { &[(6, 1), (10, 2)] };
    let ats: &'static [usize] = if th { &[0, 1, 2, 3, 4, 6, 9] } else { &[0, 1, 2, 4] };
    v.push(space(format!("faults: {NPROB} problems x sizes {fsizes:?} x 2 starts x 2 orders x {NFAULT} faults of the operator or preconditioner x first or only faulty call {ats:?}"), move |ctx| {
        let (n, k) = pick_size(ctx, fsizes);
        let a = problem(ctx.choose(NPROB), n);
        let x = start(ctx.pick(&[0usize, 1]), n, k);
        let order = order(ctx);
        let c = Case { slow: false, a, x, m: None, y: None, tol: 1e-5, iters: 1000, order };
        let (fault, at, sticky) = (ctx.choose(NFAULT), ctx.pick(ats), ctx.flag());
        note_case(ctx, &c);
        ctx.state_f(&[fault as f64, at as f64, sticky as u8 as f64]);
        ctx.note(|| format!("fault {fault} at call {at}{}", if sticky { " and later" } else { "" }));
        let s = flt(ctx);
        by!(s, judge31_fault(ctx, &c, fault, at, sticky))
    }));
    v.push(eig_cases(t, "C31"));
    v.push(unit_cases(t, "budget histories", &[0], |ctx, c| judge31::<f64>(ctx, c, 4), |ctx, c| judge31::<f32>(ctx, c, 4)));
    v
}
/// An operator or a preconditioner that breaks at its `at`-th application.
const NFAULT: usize = 6;
fn judge31_fault<F: Fl>(ctx: &mut Ctx, c: &Case, fault: usize, at: usize, sticky: bool) -> Res {
    let a = to::<F>(&c.a);
    let (ops, pre) = (RefCell::new(0usize), RefCell::new(0usize));
    let hit = |n: usize| if sticky { n >= at } else { n == at };
    let n = a.nrows();
    let r = lobpcg(
        |v| {
            let i = ops.replace_with(|x| *x + 1);
            let mut w = a.dot(&v);
            if hit(i) { match fault { 0 => w.fill(F::nan()), 1 => w[(n / 2, 0)] = F::infinity(), 2 => w[(n - 1, v.ncols() - 1)] = F::nan(), _ => {} } }
            w
        },
        to::<F>(&c.x),
        |mut v| {
            let i = pre.replace_with(|x| *x + 1);
            if hit(i) { match fault { 3 => v.fill(F::zero()), 4 => v.fill(F::nan()), 5 => v.fill(F::one()), _ => {} } }
        },
        None,
        c.tol,
        c.iters,
        c.order,
    );
    ctx.calls(1);
    verdict(ctx, &r);
    let started = fault >= 3 || at > 0;
    // what was reached before the fault
    let before = if started { let mut b = Case { slow: false, a: c.a.clone(), x: c.x.clone(), m: None, y: None, tol: c.tol, iters: if fault >= 3 { at } else { at - 1 }, order: c.order }; b.m = None; part(&run::<F>(ctx, &b).0).map(|l| sum_norm(l)) } else { None };
    match part(&r) {
        None => ctx.ok("fault: the best result so far accompanies the error", !started, || format!("{:?}", r.as_ref().err().map(|e| &e.0))),
        Some(l) => {
            if !started { return ctx.ok("fault: a broken start is never a success", r.is_err(), || format!("{:?}", l.rnorm)); }
            ctx.nontrivial();
            let s = sum_norm(l);
            ctx.ok("fault: the result is finite", l.rnorm.iter().chain(&l.eigvals).chain(&l.eigvecs).all(|x| x.is_finite()), || format!("{:?}", l.rnorm))?;
            ctx.ok("fault: the best result so far is kept", before.is_some_and(|b| s <= b) || r.is_ok(), || format!("{s} after {before:?}"))?;
            if fault < 3 || !sticky { Ok(()) } else { truthful(ctx, c, l) }
        }
    }
}
fn c32(t: Tier) -> Vec<Space> {
    let th = t.thorough();
    let mut v = vec![];
    let sizes: &'static [(usize, usize)] = if th { &[(5, 1), (7, 1), (10, 2), (12, 2), (15, 3), (20, 4)] } else { &[(6, 1), (10, 2), (15, 3)] };
    let starts: &'static [usize] = if th { &[0, 1, 6, 9] } else { &[0, 1, 6] };
    let budgets: &'static [usize] = if th { &[0, 1, 2, 3, 4, 6, 8, 15, 10000] } else { &[0, 1, 2, 4, 7, 10000] };
    v.push(space(format!("verdicts: {NPROB} problems x sizes {sizes:?} x starts {starts:?} x 2 orders x {NPREC} preconditioners x constraint sets x budgets {budgets:?} x 5 tolerances"), move |ctx| {
        let mut c = any_case(ctx, sizes, starts, th);
        c.tol = ctx.pick(&[1e-5f32, 1e-3, 0.1, 1.0, 0.0]);
        c.iters = ctx.pick(budgets);
        note_case(ctx, &c);
        let s = flt(ctx);
        if !full_rank(&c) { ctx.outcome("start block not of full rank next to the constraints"); return Ok(()); }
        by!(s, judge32(ctx, &c))
    }));
    v.push(eig_cases(t, "C32"));
    v.push(unit_cases(t, "verdicts", &[0, 3, 9, 10000], |ctx, c| judge32::<f64>(ctx, c), |ctx, c| judge32::<f32>(ctx, c)));
    v
}
