//! C21 (norms) and C22 (plane reflections).
use crate::explore::{space, Ctx, Res, Space};
use crate::checks::dims;
use crate::gen::*;
use crate::num::*;
use crate::spaces::Tier;
use linfa_linalg::{norm::Norm, reflection::Reflection};
use ndarray::{Array1, Array2, ArrayBase, ArrayD, ArrayView, Axis, CowArray, Data, Dimension, Ix0, Ix1, Ix2, Ix3, Ix4, IxDyn, RawData, Slice};

fn flt(ctx: &mut Ctx) -> bool { let s = ctx.flag(); ctx.state(s as u64); if s { ctx.note(|| "f32".into()); } s }
macro_rules! by { ($s:expr, $f:ident ( $($a:expr),* )) => { if $s { $f::<f32>($($a),*) } else { $f::<f64>($($a),*) } } }

pub fn spaces(prop: &str, t: Tier) -> Vec<Space> {
    match prop { "C21" => c21(t), "C22" => c22(t), _ => vec![] }
}

// ------------------------------------------------------------------------------- C21
/// An array of the given shape seen through a layout; everything outside the view is NaN.
/// kind: 0 plain, 1 axes permuted (reversed order), 2 every axis backwards, 3 every second element,
/// 4 inner block, 5 permuted and first axis backwards, 6 first axis backwards with step 2,
/// 7 axes rotated, last axis with step 3
const NKIND: usize = 8;
fn ndlay<S: RawData>(mut b: ArrayBase<S, IxDyn>, shape: &[usize], kind: usize) -> ArrayBase<S, IxDyn> {
    let d = shape.len();
    for ax in 0..d {
        // axis of the base that ends up as some axis of the view
        let n = b.len_of(Axis(ax)) as isize;
        let sl = match kind {
            2 => Slice::new(0, None, -1),
            3 => Slice::new(0, None, 2),
            4 => Slice::new(1, Some(n - 1), 1),
            5 if ax == 0 => Slice::new(0, None, -1),
            6 if ax == 0 => Slice::new(0, None, -2),
            7 if ax + 1 == d => Slice::new(0, None, 3),
            _ => continue,
        };
        b.slice_axis_inplace(Axis(ax), sl);
    }
    match kind {
        1 | 5 => b.reversed_axes(),
        7 if d > 1 => { let p: Vec<usize> = (0..d).map(|i| (i + 1) % d).collect(); b.permuted_axes(IxDyn(&p)) }
        _ => b,
    }
}
fn ndbase(shape: &[usize], kind: usize) -> Vec<usize> {
    let d = shape.len();
    let mut s = shape.to_vec();
    match kind {
        1 | 5 => s.reverse(),
        3 => for x in s.iter_mut() { *x *= 2 },
        4 => for x in s.iter_mut() { *x += 2 },
        6 if d > 0 => s[0] *= 2,
        7 if d > 0 => { // view axis i is base axis (i+1)%d
            for i in 0..d { s[(i + 1) % d] = shape[i]; }
            s[d - 1] *= 3;
        }
        _ => {}
    }
    s
}
fn build<F: Fl>(shape: &[usize], kind: usize, vals: &[f64]) -> ArrayD<F> {
    let mut b = ArrayD::from_elem(IxDyn(&ndbase(shape, kind)), F::nan());
    {
        let mut v = ndlay(b.view_mut(), shape, kind);
        assert_eq!(v.shape(), shape);
        for (x, y) in v.iter_mut().zip(vals) { *x = F::of(*y); }
    }
    ndlay(b, shape, kind)
}
/// The three norms of the array as every static and dynamic dimensionality, owned and borrowed.
fn norms<F: Fl>(ctx: &mut Ctx, a: &ArrayD<F>) -> Result<[f64; 3], crate::explore::Fail> {
    fn n3<F: Fl, S: Data<Elem = F>, D: Dimension>(x: &ArrayBase<S, D>) -> [F; 3] { [x.norm_l1(), x.norm_l2(), x.norm_max()] }
    let r = n3(a);
    let v: ArrayView<F, IxDyn> = a.view();
    let s = match a.ndim() {
        0 => n3(&v.into_dimensionality::<Ix0>().unwrap()),
        1 => n3(&v.into_dimensionality::<Ix1>().unwrap()),
        2 => n3(&v.into_dimensionality::<Ix2>().unwrap()),
        3 => n3(&v.into_dimensionality::<Ix3>().unwrap()),
        4 => n3(&v.into_dimensionality::<Ix4>().unwrap()),
        _ => r,
    };
    let c = n3(&CowArray::from(a.view()));
    let h = n3(&a.to_shared());
    ctx.calls(12);
    let r64 = r.map(|x| x.f());
    for (what, o) in [("static", s), ("cow", c), ("shared", h)] {
        for k in 0..3 {
            let d = (o[k].f() - r64[k]).abs();
            // only rounding may depend on how the array is held
            ctx.le("norms: independent of the array type", if o[k].f() == r64[k] { 0.0 } else { d / r64[k].abs().max(f64::MIN_POSITIVE) }, 4.0 * (a.len() as f64 + 2.0) * F::EPS).map_err(|e| crate::explore::Fail { msg: format!("{} ({what})", e.msg), ..e })?;
        }
    }
    Ok(r64)
}
fn defs<F: Fl>(vals: &[f64]) -> [f64; 3] {
    let v: Vec<f64> = vals.iter().map(|x| F::of(*x).f().abs()).collect();
    let mx = v.iter().fold(0.0, |m: f64, x| m.max(*x));
    let l2 = if mx == 0.0 { 0.0 } else { mx * v.iter().map(|x| (x / mx) * (x / mx)).sum::<f64>().sqrt() };
    [v.iter().sum(), l2, mx]
}
fn judge<F: Fl>(ctx: &mut Ctx, got: [f64; 3], vals: &[f64], l2ok: bool) -> Res {
    let want = defs::<F>(vals);
    let n = vals.len() as f64;
    let t = 2.0 * (n + 4.0) * F::EPS;
    for (k, name) in ["norm_l1 is the sum of magnitudes", "norm_l2 is the root of the sum of squares", "norm_max is the largest magnitude"].into_iter().enumerate() {
        if k == 1 && !l2ok { continue; }
        let d = if got[k] == want[k] { 0.0 } else { (got[k] - want[k]).abs() };
        let fl = if k == 0 { n * F::SUB } else { 0.0 };
        ctx.le(name, d, if k == 2 { 0.0 } else { t * want[k] + fl }).map_err(|e| crate::explore::Fail { msg: format!("{}: {} instead of {}", e.msg, got[k], want[k]), ..e })?;
        ctx.ok("norms are non-negative numbers", got[k] >= 0.0 && got[k].is_sign_positive() || got[k] == 0.0, || format!("{name}: {}", got[k]))?;
        ctx.ok("norms are zero exactly for zero arrays", (got[k] == 0.0) == (want[2] == 0.0), || format!("{name}: {}", got[k]))?;
    }
    if l2ok { ctx.ok("max <= L2 <= L1", got[2] <= got[1] * (1.0 + t) && got[1] <= got[0] * (1.0 + t), || format!("{got:?}"))?; }
    Ok(())
}
fn one<F: Fl>(ctx: &mut Ctx, shape: &[usize], kind: usize, vals: &[f64]) -> Res {
    let a = build::<F>(shape, kind, vals);
    let got = norms(ctx, &a)?;
    if vals.iter().any(|x| *x != 0.0) { ctx.nontrivial(); }
    judge::<F>(ctx, got, vals, true)
}
fn scaled_norms<F: Fl>(ctx: &mut Ctx, vals: &[f64], k: i32) -> Res {
    let base = norms(ctx, &build::<F>(&[vals.len()], 0, vals))?;
    let sv: Vec<f64> = vals.iter().map(|x| ldexp(*x, k)).collect();
    let got = norms(ctx, &build::<F>(&[vals.len()], 0, &sv))?;
    let mn = vals.iter().filter(|x| **x != 0.0).fold(f64::INFINITY, |m, x| m.min(x.abs()));
    let mx = vals.iter().fold(0.0, |m: f64, x| m.max(x.abs()));
    if mx == 0.0 { return Ok(()); }
    let l2ok = ldexp(mn, k) > ldexp(1.0, F::EMIN / 2 + 1) && ldexp(mx, k) < ldexp(1.0, F::EMAX / 2 - 6);
    if ldexp(mn, k) < ldexp(1.0, F::EMIN) || ldexp(mx, k) > ldexp(1.0, F::EMAX - 6) { ctx.outcome("not exactly representable, skipped"); return Ok(()); }
    ctx.outcome(if l2ok { "all norms" } else { "squares leave the range: L1 and max only" });
    ctx.nontrivial();
    for i in [0, 1, 2] {
        if i == 1 && !l2ok { continue; }
        let want = ldexp(base[i], k);
        ctx.le("norms: absolutely homogeneous", (got[i] - want).abs() / want, 2.0 * (vals.len() as f64 + 4.0) * F::EPS)?;
    }
    judge::<F>(ctx, got, &sv, l2ok)
}
fn triangle<F: Fl>(ctx: &mut Ctx, x: &[f64], y: &[f64]) -> Res {
    let n = x.len();
    let s: Vec<f64> = x.iter().zip(y).map(|(a, b)| a + b).collect();
    let (a, b, c) = (norms(ctx, &build::<F>(&[n], 0, x))?, norms(ctx, &build::<F>(&[n], 0, y))?, norms(ctx, &build::<F>(&[n], 0, &s))?);
    ctx.nontrivial();
    for k in 0..3 { ctx.ok("norms: triangle inequality", c[k] <= (a[k] + b[k]) * (1.0 + 2.0 * (n as f64 + 4.0) * F::EPS), || format!("{} > {} + {}", c[k], a[k], b[k]))?; }
    judge::<F>(ctx, c, &s, true)
}
fn broadcast<F: Fl>(ctx: &mut Ctx, n: usize, m: usize, mode: usize) -> Res {
    let base: Array1<F> = (0..n).map(|i| F::of(((i * 5 + 2) % 7) as f64 - 3.0)).collect();
    let b2;
    let v = match mode {
        0 => base.broadcast((m, n)).unwrap(),
        1 => base.broadcast((m, n)).unwrap().reversed_axes(),
        _ => { b2 = base.clone().insert_axis(Axis(1)); b2.broadcast((n, m)).unwrap() }
    };
    let vals: Vec<f64> = v.iter().map(|x| x.f()).collect();
    let g = [v.norm_l1().f(), v.norm_l2().f(), v.norm_max().f()];
    ctx.calls(3);
    ctx.nontrivial();
    judge::<F>(ctx, g, &vals, true)
}
const SHAPES: &[&[usize]] = &[&[], &[0], &[1], &[2], &[3], &[4], &[5], &[7], &[8], &[9], &[16], &[17], &[64], &[1, 1], &[0, 3], &[3, 0], &[2, 2], &[2, 3], &[3, 2], &[1, 5], &[5, 1], &[4, 4], &[5, 7], &[8, 8], &[9, 3], &[2, 2, 2], &[1, 3, 2], &[3, 1, 4], &[2, 0, 3], &[4, 3, 5], &[2, 2, 2, 2], &[1, 2, 3, 1], &[3, 2, 1, 4], &[2, 1, 2, 1, 2]];
fn c21(t: Tier) -> Vec<Space> {
    let th = t.thorough();
    let mut v = vec![];
    let al: &'static [f64] = &[0.0, 1.0, -1.0, 2.0, -3.0, 0.5, -0.0, 1e-9];
    let ml = if th { 6 } else { 5 };
    v.push(space(format!("vectors: every vector of length 0..{ml} over {al:?} (6 values beyond length 4)"), move |ctx| {
        let n = ctx.choose(ml + 1);
        let k = if n > 4 { 6 } else { 8 };
        let vals: Vec<f64> = (0..n).map(|_| ctx.pick(&al[..k])).collect();
        ctx.state(n as u64);
        ctx.state_f(&vals);
        ctx.note(|| format!("{vals:?}"));
        let s = flt(ctx);
        by!(s, one(ctx, &[n], 0, &vals))
    }));
    v.push(space(format!("positions: one non-zero at every position of every shape of {SHAPES:?} in {NKIND} layouts, values 7, -7, tiny and huge"), |ctx| {
        let i = ctx.choose(SHAPES.len());
        let sh = SHAPES[i];
        let n: usize = sh.iter().product();
        let kind = ctx.choose(NKIND);
        let p = ctx.choose(n + 1);
        let s = flt(ctx);
        let e = if s { 40 } else { 400 };
        let x = ctx.pick(&[7.0, -7.0, ldexp(1.25, -e), -ldexp(1.25, e)]);
        let mut vals = vec![0.0; n];
        if p < n { vals[p] = x; }
        ctx.state((i * 16 + kind) as u64);
        ctx.state_f(&[p as f64, x]);
        ctx.note(|| format!("shape {sh:?} layout {kind}, {x} at {p}"));
        by!(s, one(ctx, sh, kind, &vals))
    }));
    v.push(space(format!("layouts: shapes {SHAPES:?} in {NKIND} layouts, 12 content families"), |ctx| {
        let i = ctx.choose(SHAPES.len());
        let sh = SHAPES[i];
        let n: usize = sh.iter().product();
        let kind = ctx.choose(NKIND);
        let f = ctx.choose(12);
        let vals: Vec<f64> = (0..n).map(|i| match f { 0 => 1.0, 1 => -2.0, 2 => i as f64, 3 => -(i as f64) - 1.0, 4 => if i % 2 == 0 { 3.0 } else { -4.0 }, 5 => 1.0 / (i + 1) as f64, 6 => ((i * i * 7 + 3) % 11) as f64 - 5.0, 7 => if i + 1 == n { 9.0 } else { -1.0 }, 8 => if i == 0 { -9.0 } else { 1.0 }, 9 => 10f64.powi(-((i % 7) as i32)), 10 => if i == n / 2 { -0.0 } else { (i as f64) / 3.0 }, _ => (n - i) as f64 * -0.1 }).collect();
        ctx.state((i * 16 + kind) as u64 * 16 + f as u64);
        ctx.note(|| format!("shape {sh:?} layout {kind} content {f}"));
        let s = flt(ctx);
        by!(s, one(ctx, sh, kind, &vals))
    }));
    v.push(space("lengths: every length 0..200, content and position families", |ctx| {
        let n = ctx.choose(201);
        let f = ctx.choose(6);
        let vals: Vec<f64> = (0..n).map(|i| match f { 0 => 1.0, 1 => i as f64, 2 => if i + 1 == n { -5.0 } else { 0.0 }, 3 => if i == 0 { -5.0 } else { 0.0 }, 4 => ((i * 7) % 13) as f64 - 6.0, _ => if i % 8 == 7 { -2.0 } else { 0.25 } }).collect();
        ctx.state((n * 8 + f) as u64);
        let s = flt(ctx);
        by!(s, one(ctx, &[n], 0, &vals))
    }));
    {
        let mut shapes: Vec<Vec<usize>> = [201usize, 255, 256, 257, 258, 260, 263, 264, 300, 383, 384, 400, 511, 512, 513, 515, 520, 600, 767, 768, 769, 1000, 1023, 1024, 1025, 1027, 1031, 1100, 2000, 2047, 2048, 2049, 4000, 4095, 4096, 4097, 4099, 5000, 8191, 8192, 8193, 10000].iter().map(|n| vec![*n]).collect();
        for x in [[16usize, 16], [16, 17], [17, 16], [20, 20], [33, 31], [64, 64], [65, 64], [64, 65], [100, 3], [3, 100], [1, 300], [300, 1], [2, 257], [257, 2], [128, 128], [5, 1000], [1000, 5], [40, 26]] { shapes.push(x.to_vec()); }
        for x in [[8usize, 8, 8], [2, 200, 2], [3, 5, 70], [70, 5, 3], [11, 13, 17], [1, 300, 1], [32, 2, 32]] { shapes.push(x.to_vec()); }
        shapes.push(vec![4, 5, 6, 7]);
        shapes.push(vec![2, 3, 4, 5, 6]);
        if th { for n in 201..1100usize { shapes.push(vec![n]); } for a in 14..40usize { for b in 14..40usize { shapes.push(vec![a, b]); } } for n in [16384usize, 16385, 20000, 32769, 65535, 65536, 65537, 100000] { shapes.push(vec![n]); } }
        let shapes = std::sync::Arc::new(shapes);
        v.push(space(format!("large: {} shapes of up to {} elements in {NKIND} layouts; constant, alternating, or a single entry (alone, or 1000 times the others) at 40 positions", shapes.len(), if th { 100000 } else { 16384 }), move |ctx| {
            let i = ctx.choose(shapes.len());
            let sh = &shapes[i];
            let n: usize = sh.iter().product();
            let kind = ctx.choose(if th && i >= 69 && n < 2000 { 3 } else { NKIND });
            let f = ctx.choose(4);
            let vals: Vec<f64> = if f < 2 { (0..n).map(|i| if f == 0 { -2.0 } else if i % 2 == 0 { 3.0 } else { -1.0 }).collect() } else {
                let l = sh[sh.len() - 1];
                let ps = [0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 31, 32, 63, 64, 65, 127, 128, 129, 200, 255, 256, 257, 511, 512, 1023, 1024, 4095, 4096, l - 1, l, n / 2 - 1, n / 2, n - 1 - n % 8, n - n % 8, n - 9, n - 8, n - 4, n - 2, n - 1];
                let p = ctx.pick(&ps);
                if p >= n { return Ok(()); }
                ctx.state(p as u64);
                (0..n).map(|i| if i == p { -7.0 } else if f == 2 { 0.0 } else { 7e-3 }).collect()
            };
            ctx.state((i * 16 + kind) as u64 * 4 + f as u64);
            ctx.note(|| format!("shape {sh:?} layout {kind} content {f}"));
            let s = flt(ctx);
            by!(s, one(ctx, sh, kind, &vals))
        }));
    }
    v.push(space("scaling: every vector of length 1..4 over 4 values times powers of two over the range of the type", |ctx| {
        let n = 1 + ctx.choose(4);
        let vals: Vec<f64> = (0..n).map(|_| ctx.pick(&[0.0, 1.0, -3.0, 1.625])).collect();
        let s = flt(ctx);
        let k = if s { ctx.pick(&[-126, -124, -100, -64, -63, -62, -61, -30, -1, 1, 30, 55, 60, 62, 63, 64, 100, 119, 120]) } else { ctx.pick(&[-1022, -1020, -900, -511, -510, -508, -100, -1, 1, 100, 500, 504, 508, 511, 512, 900, 1015, 1016]) };
        ctx.state_f(&vals);
        ctx.state(n as u64 * 4096 + (k + 2048) as u64);
        ctx.note(|| format!("{vals:?} * 2^{k}"));
        by!(s, scaled_norms(ctx, &vals, k))
    }));
    let tl = if th { 4 } else { 3 };
    v.push(space(format!("triangle: every pair of vectors of length 0..{tl} over [0, 1, -1, 3, 0.5]"), move |ctx| {
        let n = ctx.choose(tl + 1);
        let al = [0.0, 1.0, -1.0, 3.0, 0.5];
        let x: Vec<f64> = (0..n).map(|_| ctx.pick(&al)).collect();
        let y: Vec<f64> = (0..n).map(|_| ctx.pick(&al)).collect();
        ctx.state(n as u64);
        ctx.state_f(&x);
        ctx.state_f(&y);
        ctx.note(|| format!("{x:?} {y:?}"));
        let s = flt(ctx);
        by!(s, triangle(ctx, &x, &y))
    }));
    v.push(space("broadcast: zero-stride views n x m, n 0..9, m 0..9, three orientations", |ctx| {
        let (n, m, k) = (ctx.choose(10), ctx.choose(10), ctx.choose(3));
        ctx.state((n * 100 + m * 10 + k) as u64);
        ctx.note(|| format!("{n} {m} {k}"));
        let s = flt(ctx);
        by!(s, broadcast(ctx, n, m, k))
    }));
    v
}

// ------------------------------------------------------------------------------- C22
fn axes() -> Vec<Vec<f64>> {
    let mut v: Vec<Vec<f64>> = vec![vec![1.0], vec![-1.0]];
    for n in 2..=5 { for i in 0..n { for s in [1.0, -1.0] { let mut a = vec![0.0; n]; a[i] = s; v.push(a); } } }
    for (a, b, c) in [(3.0, 4.0, 5.0), (5.0, 12.0, 13.0), (8.0, 15.0, 17.0), (20.0, 21.0, 29.0)] {
        for (s, t) in [(1.0, 1.0), (1.0, -1.0), (-1.0, -1.0)] { v.push(vec![s * a / c, t * b / c]); v.push(vec![t * b / c, s * a / c]); v.push(vec![0.0, s * a / c, t * b / c]); v.push(vec![s * a / c, 0.0, 0.0, t * b / c]); }
    }
    for (x, n) in [([1.0, 2.0, 2.0], 3.0), ([2.0, 3.0, 6.0], 7.0), ([1.0, 4.0, 8.0], 9.0), ([4.0, 4.0, 7.0], 9.0), ([2.0, 6.0, 9.0], 11.0)] {
        for k in 0..3 { for m in 0..8 { v.push((0..3).map(|i| { let y = x[(i + k) % 3] / n; if m >> i & 1 == 1 { -y } else { y } }).collect()); } }
    }
    for m in 0..16 { v.push((0..4).map(|i| if m >> i & 1 == 1 { -0.5 } else { 0.5 }).collect()); }
    for n in [6usize, 9, 16, 25, 33, 64] {
        v.push(vec![1.0 / (n as f64).sqrt(); n]);
        let w: Vec<f64> = (0..n).map(|i| ((i * 5 + 3) % 11) as f64 - 4.0).collect();
        let l = w.iter().map(|x| x * x).sum::<f64>().sqrt();
        v.push(w.iter().map(|x| x / l).collect());
    }
    v
}
/// The axis held in different kinds of one-dimensional storage.
const NAX: usize = 6;
fn reflect<F: Fl>(ctx: &mut Ctx, axis: &[f64], bias: f64, v: &A2, akind: usize, lay_kind: usize, rows: bool) -> Res {
    let n = axis.len();
    let ax: Array1<F> = axis.iter().map(|x| F::of(*x)).collect();
    let b = F::of(bias);
    let x = if rows { tr(v) } else { v.clone() };
    let mut h = Held::<F>::new(&x, lay_kind);
    let mut back = Array1::<F>::from_elem(3 * n + 2, F::nan());
    let apply = |h: &mut Held<F>, back: &mut Array1<F>| {
        fn go<F: Fl, D: Data<Elem = F>>(r: Reflection<F, D>, h: &mut Held<F>, rows: bool) -> Array1<F> {
            let mut m = h.view_mut();
            if rows { r.reflect_rows(&mut m) } else { r.reflect_cols(&mut m) }
            r.axis().to_owned()
        }
        match akind {
            0 => go(Reflection::new(ax.clone(), b), h, rows),
            1 => go(Reflection::new(ax.view(), b), h, rows),
            2 => { let mut s = back.slice_mut(ndarray::s![1..3 * n + 1;3]); s.assign(&ax); go(Reflection::new(s.view(), b), h, rows) }
            3 => { let r: Array1<F> = ax.iter().rev().copied().collect(); go(Reflection::new(r.slice(ndarray::s![..;-1]), b), h, rows) }
            4 => go(Reflection::new(ax.to_shared(), b), h, rows),
            _ => { let c = Array2::from_shape_fn((n, 2), |(i, j)| if j == 1 { ax[i] } else { F::nan() }); go(Reflection::new(c.column(1), b), h, rows) }
        }
    };
    let frame = h.base.clone();
    let seen = apply(&mut h, &mut back);
    ctx.calls(1);
    ctx.ok("reflection: axis() is the axis", seen.iter().zip(ax.iter()).all(|(p, q)| p.bits() == q.bits()) && seen.len() == n, || format!("{seen}"))?;
    ctx.ok("reflection: nothing outside the matrix is touched", h.frame_intact(&frame), || "frame modified".into())?;
    let got = fr(&h.view().to_owned());
    let got = if rows { tr(&got) } else { got };
    dims(ctx, "reflection: shape", got.dim(), v.dim())?;
    let v = &rounded::<F>(v);
    let a: Vec<f64> = ax.iter().map(|x| x.f()).collect();
    let bf = b.f();
    let t = 8.0 * (n as f64 + 6.0) * F::EPS;
    let (mut worst, mut inv) = (0.0f64, 0.0f64);
    let mut iso = 0.0f64;
    for j in 0..v.ncols() {
        let d: f64 = (0..n).map(|i| a[i] * v[(i, j)]).sum::<f64>() - bf;
        let m = (0..n).fold(bf.abs(), |m, i| m.max(v[(i, j)].abs()));
        if m == 0.0 { for i in 0..n { worst = worst.max(if got[(i, j)] == 0.0 { 0.0 } else { f64::INFINITY }); } continue; }
        let (mut n0, mut n1) = (0.0, 0.0);
        for i in 0..n {
            let want = v[(i, j)] - 2.0 * d * a[i];
            let e = (got[(i, j)] - want).abs() / m;
            worst = if e.is_nan() { f64::NAN } else { worst.max(e) };
            n0 += (v[(i, j)] / m).powi(2);
            n1 += (got[(i, j)] / m).powi(2);
        }
        if bf == 0.0 { iso = iso.max((n0.sqrt() - n1.sqrt()).abs()); }
    }
    ctx.le("reflection: v - 2(axis.v - bias) axis", worst, t)?;
    ctx.le("reflection: isometry", iso, t)?;
    // again: back to the start
    apply(&mut h, &mut back);
    ctx.calls(1);
    let g2 = fr(&h.view().to_owned());
    let g2 = if rows { tr(&g2) } else { g2 };
    for j in 0..v.ncols() {
        let m = (0..n).fold(bf.abs(), |m, i| m.max(v[(i, j)].abs()));
        for i in 0..n { let e = if g2[(i, j)] == v[(i, j)] { 0.0 } else { (g2[(i, j)] - v[(i, j)]).abs() / m }; inv = if e.is_nan() { f64::NAN } else { inv.max(e) }; }
    }
    ctx.le("reflection: involution", inv, 2.0 * t)
}
/// Points of the plane stay where they are.
fn fixed<F: Fl>(ctx: &mut Ctx, axis: &[f64], bias: f64, w: &[f64], rows: bool) -> Res {
    let n = axis.len();
    let d: f64 = (0..n).map(|i| axis[i] * w[i]).sum::<f64>() - bias;
    let p = A2::from_shape_fn((n, 2), |(i, j)| if j == 0 { w[i] - d * axis[i] } else { bias * axis[i] });
    let ax: Array1<F> = axis.iter().map(|x| F::of(*x)).collect();
    let r = Reflection::new(ax, F::of(bias));
    let mut x: Array2<F> = to(&p);
    let x0 = fr(&x);
    if rows { let mut y = x.t().to_owned(); r.reflect_rows(&mut y); x = y.t().to_owned(); } else { r.reflect_cols(&mut x); }
    ctx.calls(1);
    let m = amax(&p).max(bias.abs()).max(w.iter().fold(0.0, |m: f64, x| m.max(x.abs())));
    ctx.nontrivial();
    ctx.le("reflection: points of the plane are fixed", maxdiff(&fr(&x), &x0), 16.0 * (n as f64 + 6.0) * F::EPS * m)
}
fn c22(t: Tier) -> Vec<Space> {
    let th = t.thorough();
    let mut v = vec![];
    let ax = std::sync::Arc::new(axes());
    let na = ax.len();
    let biases: &'static [f64] = &[0.0, 1.0, -2.5, 0.125];
    {
        let ax = ax.clone();
        v.push(space(format!("dense: {na} unit axes x 4 biases x every vector over [0, 1, -1, 2] up to dimension 4 (3 columns: it, its reverse, twice it)"), move |ctx| {
            let i = ctx.choose(na);
            let a = &ax[i];
            let n = a.len();
            let b = ctx.pick(biases);
            let w: Vec<f64> = if n <= 4 { (0..n).map(|_| ctx.pick(&[0.0, 1.0, -1.0, 2.0])).collect() } else { let k = ctx.choose(6); (0..n).map(|i| md((i * i * 3 + i * k + k) as i64, 7)).collect() };
            let rows = ctx.flag();
            ctx.state((i * 2 + rows as usize) as u64);
            ctx.state_f(&w);
            ctx.state_f(&[b]);
            ctx.note(|| format!("axis {a:?} bias {b} vector {w:?} {}", if rows { "rows" } else { "columns" }));
            ctx.nontrivial();
            let m = A2::from_shape_fn((n, 3), |(i, j)| match j { 0 => w[i], 1 => w[n - 1 - i], _ => 2.0 * w[i] });
            let s = flt(ctx);
            by!(s, reflect(ctx, a, b, &m, 0, 0, rows))
        }));
    }
    {
        let ax = ax.clone();
        let step = if th { 1 } else { 5 };
        v.push(space(format!("layouts: every {step}th unit axis held in {NAX} kinds of storage, matrices of 0..4 columns in all {NLAY} layouts"), move |ctx| {
            let i = ctx.choose(na.div_ceil(step)) * step;
            let a = &ax[i];
            let n = a.len();
            let b = ctx.pick(&[0.0, 0.75]);
            let c = ctx.choose(5);
            let (k, l) = (ctx.choose(NAX), ctx.choose(NLAY));
            let rows = ctx.flag();
            ctx.state((((i * 5 + c) * NAX + k) * NLAY + l) as u64 * 2 + rows as u64);
            ctx.state_f(&[b]);
            ctx.note(|| format!("axis {a:?} kind {k} bias {b}, {c} columns, layout {} {}", LAYOUTS[l], if rows { "rows" } else { "columns" }));
            if c > 0 { ctx.nontrivial(); }
            let m = A2::from_shape_fn((n, c), |(i, j)| md((i * 3 + j * 5 + i * j + 1) as i64, 7));
            let s = flt(ctx);
            by!(s, reflect(ctx, a, b, &m, k, l, rows))
        }));
    }
    {
        let nbig: &'static [usize] = if th { &[1, 2, 3, 5, 8, 16, 17, 31, 32, 33, 63, 64, 65, 66, 100, 127, 128, 129, 130, 200, 255, 256, 257] } else { &[1, 2, 3, 5, 8, 17, 33, 64, 65, 100, 129, 200, 257] };
        let cols: &'static [usize] = if th { &[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 20, 23, 24, 25, 26, 31, 32, 33, 40, 47, 48, 49, 63, 64, 65, 66, 96, 100, 127, 128, 129, 130, 200, 256, 257] } else { &[1, 2, 5, 6, 7, 8, 9, 12, 15, 16, 17, 23, 24, 25, 31, 32, 33, 48, 49, 63, 64, 65, 66, 100, 128, 129, 257] };
        v.push(space(format!("large: dense unit axes of dimension {nbig:?}, matrices of {cols:?} columns, with and without bias, 4 layouts, axis owned, a view and strided"), move |ctx| {
            let n = ctx.pick(nbig);
            let c = ctx.pick(cols);
            if n > 70 && c > 70 && n * c > 20000 && !th { return Ok(()); }
            let b = ctx.pick(&[0.0, 0.75, -40.0]);
            let w: Vec<f64> = (0..n).map(|i| ((i * 5 + 3) % 11) as f64 - 4.0).collect();
            let l = w.iter().map(|x| x * x).sum::<f64>().sqrt();
            let a: Vec<f64> = w.iter().map(|x| x / l).collect();
            let (k, l) = (ctx.choose(3), ctx.choose(4.min(NLAY)));
            let rows = ctx.flag();
            ctx.state((((n * 300 + c) * 3 + k) * 4 + l) as u64 * 2 + rows as u64);
            ctx.state_f(&[b]);
            ctx.note(|| format!("axis of dimension {n} kind {k} bias {b}, {c} columns, layout {} {}", LAYOUTS[l], if rows { "rows" } else { "columns" }));
            ctx.nontrivial();
            let m = A2::from_shape_fn((n, c), |(i, j)| md((i * 3 + j * 5 + i * j + 1) as i64, 7));
            let s = flt(ctx);
            by!(s, reflect(ctx, &a, b, &m, k, l, rows))
        }));
    }
    {
        let ax = ax.clone();
        v.push(space("fixed points: projections of lattice vectors on the plane of every axis and bias, rows and columns", move |ctx| {
            let i = ctx.choose(na);
            let a = &ax[i];
            let b = ctx.pick(&[0.0, 1.0, -2.5, 40.0]);
            let k = ctx.choose(8);
            let rows = ctx.flag();
            let w: Vec<f64> = (0..a.len()).map(|i| md((i * i + i * k + 2 * k) as i64, 9)).collect();
            ctx.state((i * 16 + k * 2 + rows as usize) as u64);
            ctx.state_f(&[b]);
            ctx.note(|| format!("axis {a:?} bias {b} from {w:?}"));
            let s = flt(ctx);
            by!(s, fixed(ctx, a, b, &w, rows))
        }));
    }
    {
        let ax = ax.clone();
        v.push(space("scales: matrices and biases times powers of two", move |ctx| {
            let i = ctx.choose(na);
            let a = &ax[i];
            let s = flt(ctx);
            let k = if s { ctx.pick(&[-120, -70, -20, 20, 70, 115]) } else { ctx.pick(&[-1000, -600, -60, 60, 600, 1010]) };
            let b = ldexp(ctx.pick(&[0.0, 1.0, -2.5]), k);
            let rows = ctx.flag();
            ctx.state((i * 2 + rows as usize) as u64);
            ctx.state(k as u64);
            ctx.state_f(&[b]);
            ctx.note(|| format!("axis {a:?} bias {b} scale 2^{k}"));
            ctx.nontrivial();
            let m = A2::from_shape_fn((a.len(), 2), |(i, j)| ldexp(md((i * 3 + j * 5 + i * j + 1) as i64, 7), k));
            by!(s, reflect(ctx, a, b, &m, 0, 0, rows))
        }));
    }
    v
}
