//! C16-C20, C29, C30: robustness, sorting, aliasing, layouts, shapes, scaling, reuse of objects.
use crate::checks::*;
use crate::explore::{fail, space, Ctx, Fail, Res, Space};
use crate::gen::*;
use crate::num::*;
use crate::oracle;
use crate::spaces::Tier;
use linfa_linalg::{bidiagonal::*, cholesky::*, eigh::*, norm::*, qr::*, reflection::*, svd::*, triangular::*, tridiagonal::*, LinalgError, Order};
use ndarray::{Array1, Array2, ArrayBase, ArrayView2, CowArray, Data, DataMut, Ix1, Ix2};

fn flt(ctx: &mut Ctx) -> bool { let s = ctx.flag(); ctx.state(s as u64); if s { ctx.note(|| "f32".into()); } s }
macro_rules! by { ($s:expr, $f:ident ( $($a:expr),* )) => { if $s { $f::<f32>($($a),*) } else { $f::<f64>($($a),*) } } }

pub fn spaces(prop: &str, t: Tier) -> Vec<Space> {
    match prop {
        "C16" => c16(t),
        "C17" => c17(t),
        "C18" => c18(t),
        "C19" => c19(t),
        "C20" => c20(t),
        "C29" => c29(t),
        "C30" => c30(t),
        _ => vec![],
    }
}

// ------------------------------------------------------------------------------- C16
/// Special values of the type, as f64.
fn special<F: Fl>() -> Vec<f64> {
    let mx = F::max_value().f();
    vec![0.0, 1.0, f64::NAN, f64::INFINITY, -1.0, f64::NEG_INFINITY, mx, F::min_positive_value().f(), -mx, F::SUB, ldexp(1.0, (F::EMIN * 11) / 20), -0.0, mx / 3.0]
}
/// Every decomposition returns, without panicking; without NaN when nothing can overflow.
fn robust<F: Fl>(ctx: &mut Ctx, a: &A2) -> Res {
    let a = &rounded::<F>(a);
    let n = a.nrows().max(a.ncols()) as f64;
    let fin = a.iter().all(|x| x.is_finite()) && amax(a) <= F::max_value().f() / (16.0 * n * n);
    let x = to::<F>(a);
    let mut bad: Option<(&'static str, String)> = None;
    let mut calls = 0;
    tour(&x, |name, r| {
        calls += 1;
        match r {
            Ok(nan) => if nan && fin && name != "invc" { bad = Some(("C16: no NaN for finite input", format!("{name} returned a NaN"))); },
            Err(LinalgError::NotPositiveDefinite) if name == "cholesky" || name == "invc" => {}
            Err(e) => bad = Some(("C16: no error", format!("{name}: {e}"))),
        }
    });
    ctx.calls(calls);
    ctx.outcome(if fin { "finite" } else { "contains NaN, infinity or values that may overflow" });
    ctx.nontrivial();
    match bad { Some((k, m)) => fail(k, m), None => ctx.ok("C16", true, String::new) }
}
fn c16(t: Tier) -> Vec<Space> {
    let th = t.thorough();
    let mut v = vec![];
    let mut sp = |name: &str, shapes: Vec<(usize, usize)>, take: usize, sym: bool| {
        v.push(space(format!("special {name}: every {} matrix of shape {shapes:?} over the first {take} of 0, 1, NaN, inf, -1, -inf, max, min positive, -max, smallest subnormal, 2^(0.55 emin), -0, max/3", if sym { "symmetric" } else { "" }), move |ctx| {
            let s = flt(ctx);
            let al = if s { special::<f32>() } else { special::<f64>() };
            let (r, c) = shapes[ctx.choose(shapes.len())];
            let a = if sym { dense_sym(ctx, r, &al[..take]) } else { dense(ctx, r, c, &al[..take]) };
            by!(s, robust(ctx, &a))
        }));
    };
    sp("2x2 and vectors", vec![(1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (3, 1), (1, 4), (4, 1)], 13, false);
    sp("3x2", vec![(3, 2), (2, 3)], if th { 9 } else { 5 }, false);
    sp("symmetric 3x3", vec![(3, 3)], if th { 11 } else { 7 }, true);
    sp("3x3", vec![(3, 3)], if th { 4 } else { 3 }, false);
    if th { sp("symmetric 4x4", vec![(4, 4)], 4, true); sp("4x3", vec![(4, 3), (3, 4)], 3, false); }
    {
        let d = if th { 2 } else { 1 };
        v.push(space(format!("deviations: at most {d} entries of base matrices replaced by special values, symmetrically or not"), move |ctx| {
            let s = flt(ctx);
            let al = if s { special::<f32>() } else { special::<f64>() };
            let sym = ctx.flag();
            let take = if d == 2 { 7 } else { 13 };
            let a = if sym {
                let n = if d == 2 { 3 + ctx.choose(3) } else { ctx.pick(&[3usize, 4, 5, 6, 7, 8, 10]) };
                let id = ctx.pick(&[0usize, 1, 2, 6, 7, 10, 21, 24]);
                deviate(ctx, symmetric(id, n, 0), d, &al[..take], true)
            } else {
                let (r, c) = if d == 2 { ctx.pick(&[(3usize, 3usize), (4, 4), (4, 3), (3, 4), (5, 5)]) } else { ctx.pick(&[(3usize, 3usize), (4, 4), (5, 5), (6, 6), (4, 3), (3, 4), (5, 3), (3, 5), (7, 7), (8, 5), (5, 8)]) };
                let id = ctx.pick(&[0usize, 1, 2, 5, 16, 17, 21, 33]);
                deviate(ctx, general(id, r, c, 0), d, &al[..take], false)
            };
            by!(s, robust(ctx, &a))
        }));
    }
    {
        let mut shapes = vec![(1, 1), (2, 2), (3, 3), (4, 4), (5, 5), (6, 6), (8, 8), (10, 10), (13, 13), (6, 4), (4, 6), (9, 3), (3, 9), (17, 17), (32, 32)];
        if th { shapes.extend([(7, 7), (12, 12), (16, 16), (20, 20), (24, 24), (33, 33), (48, 48), (64, 64), (65, 30), (30, 65)]); }
        v.push(space(format!("families: {NGEN} general (hence mostly non-symmetric) families at {shapes:?}, at scales from the smallest subnormal to the largest finite number"), move |ctx| {
            let (r, c) = shapes[ctx.choose(shapes.len())];
            let a = gen_family(ctx, r, c);
            let s = flt(ctx);
            let e = expo(&a);
            let k = if s { ctx.pick(&[0, -149, -140, -75, -63, 62, 70, 100, 126]) } else { ctx.pick(&[0, -1074, -1060, -540, -511, 510, 600, 1000, 1022]) };
            let a = if k == 0 { a } else { a.mapv(|x| ldexp(x, k - e)) };
            ctx.state(k as u64);
            ctx.note(|| format!("largest entry about 2^{k}"));
            by!(s, robust(ctx, &a))
        }));
    }
    for (name, n, take, what) in [("symmetric 3x3", 3usize, if th { 9 } else { 6 }, 0usize), ("symmetric tridiagonal 4x4", 4, if th { 9 } else { 5 }, 1), ("upper bidiagonal 4x4", 4, if th { 9 } else { 5 }, 2), ("symmetric tridiagonal 5x5", 5, if th { 5 } else { 3 }, 1), ("upper bidiagonal 5x5", 5, if th { 5 } else { 3 }, 2)] {
        v.push(space(format!("graded {name}: every one over the first {take} of 1, 0, 2^-0.5t, 2^-t, 0.97 2^(emin/2), 2^(emin/4), 2^(-t-7), smallest subnormal, -2^-t (t mantissa bits)"), move |ctx| {
            let s = flt(ctx);
            let (t, e, sub) = if s { (23, f32::EMIN, f32::SUB) } else { (52, f64::EMIN, f64::SUB) };
            let al = [1.0, 0.0, ldexp(1.0, -t / 2), ldexp(1.0, -t), ldexp(0.97, e / 2), ldexp(1.0, e / 4), ldexp(1.0, -t - 7), sub, -ldexp(1.0, -t)];
            let mut a = A2::zeros((n, n));
            for i in 0..n {
                for j in 0..=i {
                    if what != 0 && i - j > 1 { continue; }
                    let x = al[ctx.choose(take)];
                    a[(j, i)] = x;
                    if what != 2 { a[(i, j)] = x; }
                }
            }
            reg(ctx, &a);
            by!(s, robust(ctx, &a))
        }));
    }
    v.push(space("large: one special value at a corner, edge or the middle (or none) of 6 families, shapes up to 129x129, at 5 scales", move |ctx| {
        let (r, c) = if th { ctx.pick(&[(20usize, 20usize), (31, 31), (40, 40), (48, 48), (63, 63), (64, 64), (65, 65), (66, 40), (40, 66), (100, 100), (129, 129), (130, 9), (9, 130), (200, 3), (3, 200)]) } else { ctx.pick(&[(24usize, 24usize), (40, 40), (64, 64), (65, 66), (66, 65), (100, 100), (130, 9), (9, 130)]) };
        let id = ctx.pick(&[1usize, 12, 16, 21, 33, 36]);
        let mut a = general(id, r, c, 1);
        let s = flt(ctx);
        let al = if s { special::<f32>() } else { special::<f64>() };
        let e = expo(&a);
        if ctx.flag() {
            let (i, j) = ctx.pick(&[(0, 0), (r - 1, c - 1), (r - 1, 0), (r / 2, c / 2), (1, 0)]);
            a[(i, j)] = al[2 + ctx.choose(if th { 9 } else { 4 })];
        } else {
            let k = if s { ctx.pick(&[-149, -140, -75, -63, 62, 100]) } else { ctx.pick(&[-1074, -1060, -540, -511, 510, 1000]) };
            a = a.mapv(|x| ldexp(x, k - e));
        }
        reg(ctx, &a);
        by!(s, robust(ctx, &a))
    }));
    v.push(space("all entries alike: constant matrices of every special value, shapes 1..7 x 1..7, and with an identity added", |ctx| {
        let s = flt(ctx);
        let al = if s { special::<f32>() } else { special::<f64>() };
        let (r, c) = (1 + ctx.choose(7), 1 + ctx.choose(7));
        let x = al[ctx.choose(al.len())];
        let mut a = A2::from_elem((r, c), x);
        match ctx.choose(4) {
            0 => {}
            1 => for i in 0..r.min(c) { a[(i, i)] = 1.0; },
            2 => { a.fill(0.0); for i in 0..r.min(c) { a[(i, i)] = x; } }
            _ => { a.fill(1.0); for i in 0..r.min(c) { if i % 2 == 1 { a[(i, i)] = x; } } }
        }
        reg(ctx, &a);
        by!(s, robust(ctx, &a))
    }));
    v
}

// ------------------------------------------------------------------------------- C17
/// Vectors that identify themselves: vector j is a permutation-free encoding of j.
fn tag(i: usize, j: usize) -> f64 { (1000 * (j + 1) + i) as f64 }
fn monotone(w: &[f64], o: Order) -> bool { w.windows(2).all(|p| if o == Order::Largest { p[0] >= p[1] } else { p[0] <= p[1] }) }
/// Pairs (value bits, tag of the vector) as a sorted multiset.
fn pairs(vals: &[f64], tags: &[usize]) -> Vec<(u64, usize)> { let mut v: Vec<_> = vals.iter().map(|x| x.to_bits()).zip(tags.iter().copied()).collect(); v.sort(); v }
/// Which tagged vector stands in column j of `m` (None: not a complete copy of one of them).
fn which(m: &A2, j: usize, n: usize) -> Option<usize> {
    let t = if m.nrows() == 0 { return None } else { (m[(0, j)] / 1000.0) as usize };
    if t == 0 || t > n { return None; }
    (0..m.nrows()).all(|i| m[(i, j)] == tag(i, t - 1)).then_some(t - 1)
}
fn sort_eig<F: Fl>(ctx: &mut Ctx, vals: &[f64], rows: usize, o: Order, lay_kind: usize) -> Res {
    let n = vals.len();
    let vals = &vals.iter().map(|x| F::of(*x).f()).collect::<Vec<_>>()[..];
    let w: Array1<F> = vals.iter().map(|x| F::of(*x)).collect();
    let m = Held::<F>::new(&A2::from_shape_fn((rows, n), |(i, j)| tag(i, j)), lay_kind).owned();
    let r1 = |w: Array1<F>| if o == Order::Largest { w.sort_eig_desc() } else { w.sort_eig_asc() };
    let sorted = fr1(&w.clone().sort_eig(o)).to_vec();
    let (sw, sv) = (w.clone(), m.clone()).sort_eig(o);
    let (w2, m2) = (fr1(&sw).to_vec(), fr(&sv));
    ctx.calls(5);
    let bits = |v: &[f64]| v.iter().map(|x| x.to_bits()).collect::<Vec<_>>();
    let mut want = bits(vals); want.sort();
    let mut got = bits(&sorted); got.sort();
    ctx.ok("sort_eig values: same multiset", got == want, || format!("{vals:?} became {sorted:?}"))?;
    ctx.ok("sort_eig values: monotone", monotone(&sorted, o), || format!("{sorted:?}"))?;
    ctx.ok("sort_eig: shorthand agrees", bits(&fr1(&r1(w.clone())).to_vec()) == bits(&sorted), || "asc/desc disagree with sort_eig".into())?;
    ctx.ok("sort_eig pairs: monotone", w2.len() == n && monotone(&w2, o), || format!("{w2:?}"))?;
    ctx.ok("sort_eig pairs: same values as the plain sort", w2 == sorted, || format!("{w2:?} vs {sorted:?}"))?;
    dims(ctx, "sort_eig: shape", m2.dim(), (rows, n))?;
    if rows > 0 {
        let tags: Option<Vec<usize>> = (0..n).map(|j| which(&m2, j, n)).collect();
        let Some(tags) = tags else { return fail("sort_eig: whole vectors", format!("columns are not copies of the originals: {}", show(&m2))) };
        ctx.ok("sort_eig: value keeps its vector", pairs(&w2, &tags) == pairs(vals, &(0..n).collect::<Vec<_>>()), || format!("{vals:?} became {w2:?} with columns {tags:?}"))?;
    }
    let again = (sw.clone(), sv.clone()).sort_eig(o);
    ctx.ok("sort_eig: idempotent", bits(&fr1(&again.0).to_vec()) == bits(&w2) && fr(&again.1) == m2, || format!("{w2:?}: sorting again changes it"))?;
    Ok(())
}
fn sort_svd<F: Fl>(ctx: &mut Ctx, vals: &[f64], o: Order, hu: bool, hv: bool, extra: (usize, usize), lay_kind: usize) -> Res {
    let n = vals.len();
    let vals = &vals.iter().map(|x| F::of(*x).f()).collect::<Vec<_>>()[..];
    let s: Array1<F> = vals.iter().map(|x| F::of(*x)).collect();
    let u = hu.then(|| Held::<F>::new(&A2::from_shape_fn((n + extra.0, n), |(i, j)| tag(i, j)), lay_kind).owned());
    let vt = hv.then(|| Held::<F>::new(&A2::from_shape_fn((n, n + extra.1), |(i, j)| tag(j, i)), lay_kind).owned());
    let inp = (u, s, vt);
    let out = inp.clone().sort_svd(o);
    let short = if o == Order::Largest { inp.clone().sort_svd_desc() } else { inp.clone().sort_svd_asc() };
    let again = out.clone().sort_svd(o);
    ctx.calls(3);
    let w = fr1(&out.1).to_vec();
    let bits = |v: &Array1<F>| v.iter().map(|x| x.bits()).collect::<Vec<_>>();
    ctx.ok("sort_svd: monotone", w.len() == n && monotone(&w, o), || format!("{w:?}"))?;
    ctx.ok("sort_svd: factors kept", out.0.is_some() == hu && out.2.is_some() == hv, || "a factor appeared or vanished".into())?;
    ctx.ok("sort_svd: shorthand agrees", bits(&short.1) == bits(&out.1) && short.0 == out.0 && short.2 == out.2, || "asc/desc disagree with sort_svd".into())?;
    ctx.ok("sort_svd: idempotent", bits(&again.1) == bits(&out.1) && again.0 == out.0 && again.2 == out.2, || "sorting again changes the result".into())?;
    let mut a: Vec<u64> = vals.iter().map(|x| x.to_bits()).collect(); a.sort();
    let mut b: Vec<u64> = w.iter().map(|x| x.to_bits()).collect(); b.sort();
    ctx.ok("sort_svd: same multiset", a == b, || format!("{vals:?} became {w:?}"))?;
    let mut perms: Vec<(&str, Vec<usize>)> = vec![];
    for (name, m) in [("U", out.0.as_ref().map(|u| fr(u))), ("Vt", out.2.as_ref().map(|v| tr(&fr(v))))] {
        let Some(m) = m else { continue };
        dims(ctx, "sort_svd: shape", m.dim(), (n + if name == "U" { extra.0 } else { extra.1 }, n))?;
        if m.nrows() == 0 { continue; }
        let tags: Option<Vec<usize>> = (0..n).map(|j| which(&m, j, n)).collect();
        let Some(tags) = tags else { return fail("sort_svd: whole vectors", format!("{name}: not copies of the originals")) };
        ctx.ok("sort_svd: value keeps its vector", pairs(&w, &tags) == pairs(vals, &(0..n).collect::<Vec<_>>()), || format!("{name}: {vals:?} became {w:?} with vectors {tags:?}"))?;
        perms.push((name, tags));
    }
    if perms.len() == 2 { ctx.ok("sort_svd: U and Vt reordered alike", perms[0].1 == perms[1].1, || format!("{perms:?}"))?; }
    Ok(())
}
fn c17(t: Tier) -> Vec<Space> {
    let th = t.thorough();
    let mut v = vec![];
    let al: &'static [f64] = &[1.0, 2.0, 0.0, -1.0, -0.0, 3.5, 1e-30];
    let maxlen = if th { 6 } else { 5 };
    v.push(space(format!("sort_eig: every value tuple over {al:?} (5 values beyond length 4) of length 0..{maxlen}, both orders, tagged vectors of n, n+2 and 0 rows"), move |ctx| {
        let n = ctx.choose(maxlen + 1);
        let take = if n > 4 { 5 } else { 7 };
        let vals: Vec<f64> = (0..n).map(|_| ctx.pick(&al[..take])).collect();
        ctx.state_f(&vals);
        let o = if ctx.flag() { Order::Largest } else { Order::Smallest };
        let k = ctx.choose(3);
        let rows = [n, n + 2, 0][k];
        ctx.state(k as u64 + 10 * (o == Order::Largest) as u64);
        ctx.note(|| format!("{vals:?} {o:?}, {rows} rows"));
        if n > 1 { ctx.nontrivial(); }
        let s = flt(ctx);
        by!(s, sort_eig(ctx, &vals, rows, o, 0))
    }));
    let al2: &'static [f64] = &[1.0, 2.0, 0.0, -0.0, 3.5, 1e-30];
    v.push(space(format!("sort_svd: every value tuple over {al2:?} (4 values beyond length 4) of length 0..{maxlen}, both orders, every combination of present factors, square and rectangular"), move |ctx| {
        let n = ctx.choose(maxlen + 1);
        let take = if n > 4 { 4 } else { 6 };
        let vals: Vec<f64> = (0..n).map(|_| ctx.pick(&al2[..take])).collect();
        ctx.state_f(&vals);
        let o = if ctx.flag() { Order::Largest } else { Order::Smallest };
        let (hu, hv) = (ctx.flag(), ctx.flag());
        let ex = ctx.pick(&[(0usize, 0usize), (2, 0), (0, 1)]);
        ctx.state(ex.0 as u64 * 5 + ex.1 as u64 + 16 * (hu as u64 + 2 * hv as u64 + 4 * (o == Order::Largest) as u64));
        ctx.note(|| format!("{vals:?} {o:?} U {hu} Vt {hv}"));
        if n > 1 { ctx.nontrivial(); }
        let s = flt(ctx);
        by!(s, sort_svd(ctx, &vals, o, hu, hv, ex, 0))
    }));
    v.push(space("extremes: every tuple of length 1..4 (5 when thorough) over inf, -inf, the largest number and its negative, the smallest subnormal and its negative, 0, 1 (non-negative ones for svd), both orders", move |ctx| {
        let n = 1 + ctx.choose(if th { 5 } else { 4 });
        let kind = ctx.flag();
        let s = flt(ctx);
        let (mx, sub) = if s { (f32::MAX as f64, f32::from_bits(1) as f64) } else { (f64::MAX, f64::from_bits(1)) };
        let al = [0.0, 1.0, mx, f64::INFINITY, sub, -mx, f64::NEG_INFINITY, -sub];
        let vals: Vec<f64> = (0..n).map(|_| ctx.pick(&al[..if kind { 5 } else { 8 }])).collect();
        ctx.state_f(&vals);
        let o = if ctx.flag() { Order::Largest } else { Order::Smallest };
        ctx.state(2 * kind as u64 + (o == Order::Largest) as u64);
        ctx.note(|| format!("{vals:?} {o:?} svd {kind}"));
        if n > 1 { ctx.nontrivial(); }
        if kind { by!(s, sort_svd(ctx, &vals, o, true, true, (1, 0), 0)) } else { by!(s, sort_eig(ctx, &vals, n, o, 0)) }
    }));
    v.push(space("shapes: vectors of up to 30 more entries than there are values, either factor or both or none, all 10 memory layouts, 5 value orders, eig and svd", |ctx| {
        let n = ctx.pick(&[1usize, 2, 3, 4, 5, 8, 17]);
        let ex = [ctx.pick(&[0usize, 1, 2, 3, 7, 12, 30]), ctx.pick(&[0usize, 1, 2, 3, 7, 12, 30])];
        let (hu, hv) = (ctx.flag(), ctx.flag());
        if (!hu && ex[0] > 0) || (!hv && ex[1] > 0) { return Ok(()); }
        let k = ctx.choose(5);
        let vals: Vec<f64> = (0..n).map(|i| match k { 0 => i as f64, 1 => (n - i) as f64, 2 => ((i * 7 + 3) % n) as f64, 3 => (i % 2) as f64, _ => ((i * 5 + 1) % (n / 3 + 1)) as f64 }).collect();
        ctx.state_f(&vals);
        let l = ctx.choose(NLAY);
        let o = if ctx.flag() { Order::Largest } else { Order::Smallest };
        ctx.state((l * 2 + (o == Order::Largest) as usize + 64 * (ex[0] * 31 + ex[1] + 1024 * (hu as usize + 2 * hv as usize))) as u64);
        ctx.note(|| format!("{n} values, extra {ex:?}, U {hu} Vt {hv}, {o:?}, layout {}", LAYOUTS[l]));
        if n > 1 { ctx.nontrivial(); }
        let s = flt(ctx);
        if hu && !hv { by!(s, sort_eig(ctx, &vals, n + ex[0], o, l))?; }
        by!(s, sort_svd(ctx, &vals, o, hu, hv, (ex[0], ex[1]), l))
    }));
    v.push(space("permutations: every permutation of 1..6 (and with a tie), all 10 memory layouts of the vectors, eig and svd", |ctx| {
        let n = 1 + ctx.choose(6);
        let mut left: Vec<usize> = (0..n).collect();
        let mut vals: Vec<f64> = (0..n).map(|_| { let j = ctx.choose(left.len()); left.remove(j) as f64 }).collect();
        if ctx.flag() { for x in vals.iter_mut() { *x = (*x / 2.0).floor(); } }
        ctx.state_f(&vals);
        let l = if n == 6 { ctx.pick(&[0usize, 1, 8]) } else { ctx.choose(NLAY) };
        let o = if ctx.flag() { Order::Largest } else { Order::Smallest };
        let kind = ctx.flag();
        ctx.state(l as u64 * 4 + (o == Order::Largest) as u64 * 2 + kind as u64);
        ctx.note(|| format!("{vals:?} {o:?} layout {}", LAYOUTS[l]));
        if n > 1 { ctx.nontrivial(); }
        if kind { sort_eig::<f64>(ctx, &vals, n + 1, o, l) } else { sort_svd::<f64>(ctx, &vals, o, true, true, (1, 2), l) }
    }));
    {
        let ns: Vec<usize> = if th { vec![0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 16, 21, 33, 64, 65, 100] } else { vec![0, 1, 2, 3, 4, 5, 6, 8, 11, 21, 33, 65] };
        v.push(space(format!("long: rotated, reversed, constant, alternating and duplicated sequences of length {ns:?} and 20, 50, 100, 257"), |ctx| {
            let n = ctx.pick(&[7usize, 8, 16, 20, 21, 50, 100, 257]);
            let k = ctx.choose(8);
            let vals: Vec<f64> = (0..n).map(|i| match k { 0 => i as f64, 1 => (n - i) as f64, 2 => 1.0, 3 => (i % 2) as f64, 4 => (i / 2) as f64, 5 => ((i * 7 + 3) % n) as f64, 6 => ((i * 5 + 1) % (n / 3 + 1)) as f64, _ => -((i * i) as f64 % 13.0) }).collect();
            ctx.state_f(&vals);
            let o = if ctx.flag() { Order::Largest } else { Order::Smallest };
            let kind = ctx.flag();
            ctx.state((o == Order::Largest) as u64 * 2 + kind as u64);
            ctx.nontrivial();
            if kind { sort_eig::<f64>(ctx, &vals, 3, o, 0) } else { let vals: Vec<f64> = vals.iter().map(|x| x.abs()).collect(); sort_svd::<f64>(ctx, &vals, o, true, true, (0, 0), 0) }
        }));
        v.push(space(format!("real outputs: eigvalsh, eigvalsh_into, eigh, eigh_into and svd of families at orders {ns:?} from every memory layout, owned and view, then sorted"), move |ctx| {
            let n = ns[ctx.choose(ns.len())];
            let a = sym_family(ctx, n);
            let l = if n > 8 { ctx.pick(&[0usize, 1, 8]) } else { ctx.choose(NLAY) };
            let view = ctx.flag();
            ctx.state(l as u64 * 2 + view as u64);
            ctx.note(|| LAYOUTS[l].to_string());
            let s = flt(ctx);
            by!(s, sort_outputs(ctx, &a, l, view))
        }));
    }
    v
}
fn sort_outputs<F: Fl>(ctx: &mut Ctx, a: &A2, l: usize, view: bool) -> Res {
    let a = &rounded::<F>(a);
    let e = expo(a);
    let n = a.nrows();
    let h = Held::<F>::new(a, l);
    let mut h2 = h.clone();
    for o in [Order::Largest, Order::Smallest] {
        let (w, d, we, de) = if view {
            (h.view().eigvalsh(), h.view().eigh(), { h2.base.assign(&h.base); h2.view_mut().eigvalsh_into() }, { h2.base.assign(&h.base); h2.view_mut().eigh_into() })
        } else {
            (h.owned().eigvalsh(), h.owned().eigh(), h.owned().eigvalsh_into(), h.owned().eigh_into())
        };
        let t = tol::<F>(n, n) * 2.0 * (n as f64).sqrt().max(2.0) + floor::<F>(n, n, e);
        let (w, d, we, de) = (unexpected("eigvalsh", w)?, unexpected("eigh", d)?, unexpected("eigvalsh_into", we)?, unexpected("eigh_into", de)?);
        let mut ws = vec![];
        for w in [w, we, d.0.clone(), de.0.clone()] {
            let mut raw: Vec<u64> = w.iter().map(|x| x.bits()).collect();
            let x = w.sort_eig(o);
            let mut srt: Vec<u64> = x.iter().map(|x| x.bits()).collect();
            raw.sort(); srt.sort();
            ctx.ok("sort of real values: same multiset", raw == srt, || show1(&fr1(&x)))?;
            let x = fr1(&x).to_vec();
            ctx.ok("sort of real values: monotone", monotone(&x, o), || format!("{x:?}"))?;
            ws.push(x);
        }
        for x in &ws[1..] { for (p, q) in x.iter().zip(&ws[0]) { ctx.le("sorted values of all routes agree", ldexp((p - q).abs(), -e), t)?; } }
        for d in [d, de] {
            let (w, v) = d.sort_eig(o);
            let w = fr1(&w);
            ctx.ok("sort of real pairs: monotone", monotone(w.as_slice().unwrap_or(&w.to_vec()), o), || show1(&w))?;
            eigpair::<F>(ctx, a, &w, &fr(&v), e)?;
        }
        if n > 0 {
            let x = if view { h.view().svd(true, true) } else { h.owned().svd_into(true, true) };
            let (u, sv, vt) = unexpected("svd", x)?.sort_svd(o);
            let sv = fr1(&sv);
            ctx.ok("sort of real svd: monotone", monotone(&sv.to_vec(), o), || show1(&sv))?;
            svd_factors::<F>(ctx, a, &fr(&u.unwrap()), &sv, &fr(&vt.unwrap()), e)?;
        }
        ctx.calls(10);
    }
    if n > 1 { ctx.nontrivial(); }
    Ok(())
}

// ------------------------------------------------------------------------------- judges for C18 / C19
fn judge_qr<F: Fl>(ctx: &mut Ctx, a: &A2, q: &A2, r: &A2) -> Res {
    let (m, n) = a.dim();
    let e = expo(a);
    dims(ctx, "qr: Q shape", q.dim(), (m, n))?;
    dims(ctx, "qr: R shape", r.dim(), (n, n))?;
    let t = tol::<F>(m, n);
    ctx.le("qr: |Q^T Q - I|", orth_cols(q), t)?;
    ctx.le("qr: |QR - A|", maxdiff(&mul(q, &scaled(r, e)), &scaled(a, e)), 2.0 * t)?;
    for i in 0..n { for j in 0..i { ctx.ok("qr: R triangular", r[(i, j)] == 0.0, || show(r))?; } ctx.ok("qr: diag R >= 0", r[(i, i)] >= 0.0, || show(r))?; }
    Ok(())
}
fn judge_tri<F: Fl>(ctx: &mut Ctx, a: &A2, q: &A2, tm: &A2) -> Res {
    let n = a.nrows();
    let e = expo(a);
    dims(ctx, "tridiag: shapes", q.dim(), (n, n))?;
    dims(ctx, "tridiag: shapes", tm.dim(), (n, n))?;
    let t = tol::<F>(n, n);
    for i in 0..n { for j in 0..n {
        ctx.ok("tridiag: T tridiagonal and symmetric", tm[(i, j)] == tm[(j, i)] && (i.abs_diff(j) <= 1 || tm[(i, j)] == 0.0), || show(tm))?;
    } }
    ctx.le("tridiag: |Q^T Q - I|", orth_cols(q), t)?;
    ctx.le("tridiag: |Q T Q^T - A|", maxdiff(&mul(&mul(q, &scaled(tm, e)), &tr(q)), &scaled(a, e)), t * (n as f64).sqrt().max(2.0))
}
fn judge_bi<F: Fl>(ctx: &mut Ctx, a: &A2, u: &A2, b: &A2, vt: &A2, up: bool) -> Res {
    let (r, c) = a.dim();
    let k = r.min(c);
    let e = expo(a);
    dims(ctx, "bidiag: U shape", u.dim(), (r, k))?;
    dims(ctx, "bidiag: B shape", b.dim(), (k, k))?;
    dims(ctx, "bidiag: Vt shape", vt.dim(), (k, c))?;
    ctx.ok("bidiag: orientation", up == (r >= c), || format!("{r}x{c}: {up}"))?;
    for i in 0..k { for j in 0..k { ctx.ok("bidiag: B bidiagonal", b[(i, j)] == 0.0 || i == j || (up && j == i + 1) || (!up && i == j + 1), || show(b))?; } }
    let t = tol::<F>(r, c);
    ctx.le("bidiag: |U^T U - I|", orth_cols(u), t)?;
    ctx.le("bidiag: |Vt Vt^T - I|", orth_rows(vt), t)?;
    ctx.le("bidiag: |U B Vt - A|", maxdiff(&mul(&mul(u, &scaled(b, e)), vt), &scaled(a, e)), t * (k as f64).sqrt().max(2.0))
}
fn judge_chol<F: Fl>(ctx: &mut Ctx, a: &A2, l: &A2, dirty: bool) -> Res {
    let n = a.nrows();
    dims(ctx, "cholesky: shape", l.dim(), (n, n))?;
    let mut w = l.clone();
    for i in 0..n { for j in i + 1..n {
        if dirty { ctx.ok("cholesky dirty: upper triangle untouched", l[(i, j)].to_bits() == a[(i, j)].to_bits(), || show(l))?; } else { ctx.ok("cholesky: zero above", l[(i, j)] == 0.0, || show(l))?; }
        w[(i, j)] = 0.0;
    } }
    ctx.ok("cholesky: positive diagonal", (0..n).all(|i| w[(i, i)] > 0.0), || show(&w))?;
    ctx.le("cholesky: |L L^T - A|", maxdiff(&mul(&w, &tr(&w)), a), tol::<F>(n, n) * amax(a).max(1e-300))
}
fn vals_close<F: Fl>(ctx: &mut Ctx, what: &'static str, a: &A2, got: &[f64], want: &[f64]) -> Res {
    let (r, c) = a.dim();
    let m = amax(a).max(1e-300);
    ctx.ok(what, got.len() == want.len(), || format!("{} values", got.len()))?;
    let mut g = got.to_vec();
    let mut w = want.to_vec();
    ctx.ok(what, g.iter().all(|x| x.is_finite()), || format!("{g:?}"))?;
    g.sort_by(|a, b| a.partial_cmp(b).unwrap());
    w.sort_by(|a, b| a.partial_cmp(b).unwrap());
    for (x, y) in g.iter().zip(&w) { ctx.le(what, (x - y).abs() / m, tol::<F>(r, c) * (r.max(c) as f64).sqrt().max(2.0))?; }
    Ok(())
}
fn bw<F: Fl>(ctx: &mut Ctx, what: &'static str, a: &A2, x: &A2, b: &A2) -> Res { let n = a.nrows().max(a.ncols()); backward(ctx, what, a, x, b, tol::<F>(n, n), 0.0) }
fn exact_tri(ctx: &mut Ctx, a: &A2, got: &A2, up: bool) -> Res {
    let want = A2::from_shape_fn(a.dim(), |(i, j)| if (up && j >= i) || (!up && j <= i) { a[(i, j)] } else { 0.0 });
    ctx.ok("triangular: exact", got.dim() == a.dim() && got.iter().zip(want.iter()).all(|(x, y)| x == y), || format!("{} instead of {}", show(got), show(&want)))
}
fn is_tri(a: &A2, up: bool) -> bool { a.nrows() == a.ncols() && a.indexed_iter().all(|((i, j), x)| *x == 0.0 || if up { j >= i } else { j <= i }) }
fn tri_part(a: &A2, up: bool) -> A2 { A2::from_shape_fn(a.dim(), |(i, j)| if (up && j >= i) || (!up && j <= i) { a[(i, j)] } else { 0.0 }) }
fn lsq_ok<F: Fl>(ctx: &mut Ctx, a: &A2, x: &A2, b: &A2) -> Res {
    let (m, n) = a.dim();
    if m < n {
        bw::<F>(ctx, "least squares (wide)", a, x, b)?;
        let q = oracle::orth_basis(&tr(a), 1e-12);
        let p = mul(&q, &mul(&tr(&q), x));
        return ctx.le("least squares (wide): in the row space", maxdiff(&p, x), tol::<F>(m, n) * cond(a) * 4.0 * amax(x).max(1e-300));
    }
    dims(ctx, "least squares: shape", x.dim(), (n, b.ncols()))?;
    let r = &mul(a, x) - b;
    ctx.le("least squares: A^T r", amax(&mul(&tr(a), &r)), tol::<F>(m, n) * amax(a) * (m * m) as f64 * (amax(b) + amax(a) * amax(x) * n as f64) + 1e-300)
}
/// Operand classes for the operations below.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind { Any, Sym, Spd, Inv, Full, Tri }
fn operand(ctx: &mut Ctx, k: Kind, shapes: &[(usize, usize)]) -> A2 {
    let (r, c) = match k { Kind::Any | Kind::Full => shapes[ctx.choose(shapes.len())], _ => { let sq: Vec<_> = shapes.iter().filter(|s| s.0 == s.1).collect(); *sq[ctx.choose(sq.len())] } };
    let a = match k {
        Kind::Any => general(ctx.pick(&[1usize, 2, 12, 15, 21, 31, 33, 36]), r, c, 1),
        Kind::Sym => symmetric(ctx.pick(&[0usize, 1, 4, 6, 7, 12, 21, 22, 23]), r, 1),
        Kind::Spd => spd(ctx.pick(&[0usize, 1, 2, 6, 7, 8]), r, 1),
        Kind::Inv | Kind::Full => { let mut a = general(ctx.pick(&[2usize, 12, 15, 21, 33, 36, 38]), r, c, 1); let m = amax(&a) * r.min(c) as f64 + 1.0; for i in 0..r.min(c) { a[(i, i)] += m; } a }
        Kind::Tri => { let mut a = general(ctx.pick(&[1usize, 12, 33, 36]), r, c, 1); let m = amax(&a) + 1.0; for i in 0..r.min(c) { a[(i, i)] = m * if i % 2 == 0 { 1.0 } else { -1.5 }; } a }
    };
    reg(ctx, &a);
    a
}
const REF_OPS: &[(&str, Kind, bool)] = &[
    ("qr", Kind::Any, false), ("eigh", Kind::Sym, false), ("eigvalsh", Kind::Sym, false), ("svd", Kind::Any, false),
    ("cholesky", Kind::Spd, false), ("cholesky_dirty", Kind::Spd, false), ("invc", Kind::Spd, false), ("is_triangular", Kind::Any, false),
    ("norms", Kind::Any, false), ("solve_triangular", Kind::Tri, true), ("qr solve", Kind::Full, true), ("qr solve_tr", Kind::Full, true), ("inverse", Kind::Inv, false),
];
/// Operations that only borrow `x` and `b`: run and judge against the contents.
fn ref_op<F: Fl, S: Data<Elem = F>, T: Data<Elem = F>>(ctx: &mut Ctx, op: usize, a: &A2, x: &ArrayBase<S, Ix2>, bm: &A2, b: &ArrayBase<T, Ix2>) -> Res {
    let e = expo(a);
    let (r, c) = a.dim();
    let n = r.max(c);
    ctx.calls(1);
    match REF_OPS[op].0 {
        "qr" => {
            match x.qr() {
                Ok(d) => { let q = fr(&d.generate_q()); let (q2, r2) = d.into_decomp(); judge_qr::<F>(ctx, a, &q, &fr(&r2))?; ctx.le("generate_q agrees", maxdiff(&q, &fr(&q2)), tol::<F>(n, n)) }
                Err(LinalgError::NotThin { rows, cols }) if r < c && (rows, cols) == (r, c) => Ok(()),
                Err(e) => fail("qr: error", format!("{e}")),
            }
        }
        "eigh" => { let (w, v) = unexpected("eigh", x.eigh())?; eigpair::<F>(ctx, a, &fr1(&w), &fr(&v), e)?; let (w, v) = (w, v).sort_eig_desc(); eigpair::<F>(ctx, a, &fr1(&w), &fr(&v), e) }
        "eigvalsh" => { let w = unexpected("eigvalsh", x.eigvalsh())?; let w = w.sort_eig_asc(); vals_close::<F>(ctx, "eigvalsh", a, &fr1(&w).to_vec(), &oracle::jacobi_vals(a)) }
        "svd" => {
            let (u, s, vt) = unexpected("svd", x.svd(true, true))?;
            svd_factors::<F>(ctx, a, &fr(u.as_ref().unwrap()), &fr1(&s), &fr(vt.as_ref().unwrap()), e)?;
            let (u, s, vt) = (u, s, vt).sort_svd_desc();
            svd_factors::<F>(ctx, a, &fr(&u.unwrap()), &fr1(&s), &fr(&vt.unwrap()), e)?;
            let (_, s2, _) = unexpected("svd", x.svd(false, false))?;
            vals_close::<F>(ctx, "svd values only", a, &fr1(&s2).to_vec(), &fr1(&s).to_vec())
        }
        "cholesky" => { let l = unexpected("cholesky", x.cholesky())?; judge_chol::<F>(ctx, a, &fr(&l), false) }
        "cholesky_dirty" => { let l = unexpected("cholesky_dirty", x.cholesky_dirty())?; judge_chol::<F>(ctx, a, &fr(&l), true) }
        "invc" => { let i = fr(&unexpected("invc", x.invc())?); bw::<F>(ctx, "invc", a, &i, &A2::eye(r)) }
        "is_triangular" => { for up in [false, true] { let g = x.is_triangular(if up { UPLO::Upper } else { UPLO::Lower }); ctx.ok("is_triangular", g == is_tri(a, up), || format!("says {g}"))?; } Ok(()) }
        "norms" => {
            let (l1, l2, mx) = (x.norm_l1().f(), x.norm_l2().f(), x.norm_max().f());
            let (w1, w2) = (a.iter().map(|x| x.abs()).sum::<f64>(), a.iter().map(|x| x * x).sum::<f64>().sqrt());
            let k = (r * c + 2) as f64 * F::EPS;
            ctx.le("norm_l1", (l1 - w1).abs(), k * w1)?;
            ctx.le("norm_l2", (l2 - w2).abs(), k * w2)?;
            ctx.ok("norm_max", mx == amax(a), || format!("{mx}"))
        }
        "solve_triangular" => { for up in [false, true] { let y = unexpected("solve_triangular", x.solve_triangular(b, if up { UPLO::Upper } else { UPLO::Lower }))?; bw::<F>(ctx, "solve_triangular", &tri_part(a, up), &fr(&y), bm)?; } Ok(()) }
        "qr solve" => {
            if r < c { return Ok(()); }
            let d = unexpected("qr", x.qr())?;
            let y = fr(&unexpected("solve", d.solve(b))?);
            lsq_ok::<F>(ctx, a, &y, bm)
        }
        "qr solve_tr" => {
            // b has as many rows as `a`; the decomposition is that of the transpose
            if r > c { return Ok(()); }
            let d = unexpected("qr", x.t().qr())?;
            let y = fr(&unexpected("solve_tr", d.solve_tr(b))?);
            lsq_ok::<F>(ctx, a, &y, bm)
        }
        "inverse" => { let i = fr(&unexpected("inverse", unexpected("qr", x.qr())?.inverse())?); bw::<F>(ctx, "inverse", a, &i, &A2::eye(r)) }
        _ => unreachable!(),
    }
}
const INTO_OPS: &[(&str, Kind, bool)] = &[
    ("qr_into", Kind::Any, false), ("eigh_into", Kind::Sym, false), ("eigvalsh_into", Kind::Sym, false), ("svd_into", Kind::Any, false),
    ("cholesky_into", Kind::Spd, false), ("cholesky_into_dirty", Kind::Spd, false), ("cholesky_inplace", Kind::Spd, false), ("cholesky_inplace_dirty", Kind::Spd, false),
    ("invc_inplace", Kind::Spd, false), ("into_triangular", Kind::Any, false), ("triangular_inplace", Kind::Any, false), ("bidiagonal", Kind::Any, false), ("sym_tridiagonal", Kind::Sym, false),
    ("solve_triangular_into", Kind::Tri, true), ("solve_triangular_inplace", Kind::Tri, true), ("qr solve_into", Kind::Full, true), ("qr solve_tr_into", Kind::Full, true),
    ("solvec", Kind::Spd, true), ("solvec_into", Kind::Spd, true), ("solvec_inplace", Kind::Spd, true), ("least_squares", Kind::Full, true), ("least_squares_into", Kind::Full, true),
    ("reflect_cols", Kind::Any, false), ("reflect_rows", Kind::Any, false), ("into_diagonals", Kind::Any, false),
];
/// Operations that consume or modify `x` (and `b`).
fn into_op<F: Fl, S: DataMut<Elem = F>, T: DataMut<Elem = F>>(ctx: &mut Ctx, op: usize, a: &A2, mut x: ArrayBase<S, Ix2>, bm: &A2, mut b: ArrayBase<T, Ix2>) -> Res {
    let e = expo(a);
    let (r, c) = a.dim();
    let own = |y: &ArrayBase<S, Ix2>| fr(&y.to_owned());
    let ownb = |y: &ArrayBase<T, Ix2>| fr(&y.to_owned());
    let up = (r * 3 + c + (a[(0, 0)] > 0.0) as usize) % 2 == 1;
    let uplo = if up { UPLO::Upper } else { UPLO::Lower };
    ctx.calls(1);
    match INTO_OPS[op].0 {
        "qr_into" => match x.qr_into() {
            Ok(d) => { let q = fr(&d.generate_q()); let r = d.into_r(); judge_qr::<F>(ctx, a, &q, &fr(&r.to_owned())) }
            Err(LinalgError::NotThin { rows, cols }) if r < c && (rows, cols) == (r, c) => Ok(()),
            Err(e) => fail("qr_into: error", format!("{e}")),
        },
        "eigh_into" => { let (w, v) = unexpected("eigh_into", x.eigh_into())?; eigpair::<F>(ctx, a, &fr1(&w), &fr(&v), e)?; let (w, v) = (w, v).sort_eig_asc(); eigpair::<F>(ctx, a, &fr1(&w), &fr(&v), e) }
        "eigvalsh_into" => { let w = unexpected("eigvalsh_into", x.eigvalsh_into())?.sort_eig_desc(); vals_close::<F>(ctx, "eigvalsh_into", a, &fr1(&w).to_vec(), &oracle::jacobi_vals(a)) }
        "svd_into" => { let (u, s, vt) = unexpected("svd_into", x.svd_into(true, true))?; let (u, s, vt) = (u, s, vt).sort_svd_asc(); svd_factors::<F>(ctx, a, &fr(&u.unwrap()), &fr1(&s), &fr(&vt.unwrap()), e) }
        "cholesky_into" => { let l = unexpected("cholesky_into", x.cholesky_into())?; judge_chol::<F>(ctx, a, &own(&l), false) }
        "cholesky_into_dirty" => { let l = unexpected("cholesky_into_dirty", x.cholesky_into_dirty())?; judge_chol::<F>(ctx, a, &own(&l), true) }
        "cholesky_inplace" => { let l = own(unexpected("cholesky_inplace", x.cholesky_inplace())?); judge_chol::<F>(ctx, a, &l, false)?; ctx.ok("returned reference is the array", own(&x) == l, String::new) }
        "cholesky_inplace_dirty" => { let l = own(unexpected("cholesky_inplace_dirty", x.cholesky_inplace_dirty())?); judge_chol::<F>(ctx, a, &l, true)?; ctx.ok("returned reference is the array", own(&x) == l, String::new) }
        "invc_inplace" => { let i = fr(&unexpected("invc_inplace", x.invc_inplace())?); bw::<F>(ctx, "invc_inplace", a, &i, &A2::eye(r)) }
        "into_triangular" => match x.into_triangular(uplo) { Ok(y) => exact_tri(ctx, a, &own(&y), up), Err(LinalgError::NotSquare { rows, cols }) if r != c && (rows, cols) == (r, c) => Ok(()), Err(e) => fail("into_triangular: error", format!("{e}")) },
        "triangular_inplace" => match x.triangular_inplace(uplo).map(|_| ()) { Ok(()) => exact_tri(ctx, a, &own(&x), up), Err(LinalgError::NotSquare { rows, cols }) if r != c && (rows, cols) == (r, c) => ctx.ok("failed call changes nothing", own(&x) == *a, String::new), Err(e) => fail("triangular_inplace: error", format!("{e}")) },
        "bidiagonal" => { let d = unexpected("bidiagonal", x.bidiagonal())?; let (u, vt, up) = (fr(&d.generate_u()), fr(&d.generate_vt()), d.is_upper_diag()); judge_bi::<F>(ctx, a, &u, &fr(&d.into_b()), &vt, up) }
        "into_diagonals" => {
            if r == c {
                let s = A2::from_shape_fn((r, r), |(i, j)| a[(i.max(j), i.min(j))]);
                x.assign(&to::<F>(&s));
                let d = unexpected("sym_tridiagonal", x.sym_tridiagonal())?;
                let q = fr(&d.generate_q());
                let (dg, of) = d.into_diagonals();
                ctx.ok("diagonals are contiguous", dg.as_slice().is_some() && of.as_slice().is_some(), || "not in standard layout".into())?;
                let mut tm = diag(&fr1(&dg));
                for (i, v) in of.iter().enumerate() { tm[(i, i + 1)] = v.f(); tm[(i + 1, i)] = v.f(); }
                judge_tri::<F>(ctx, &s, &q, &tm)
            } else {
                let d = unexpected("bidiagonal", x.bidiagonal())?;
                let (u, vt, up) = (fr(&d.generate_u()), fr(&d.generate_vt()), d.is_upper_diag());
                let (dg, of) = d.into_diagonals();
                let mut b = diag(&fr1(&dg));
                for (i, v) in of.iter().enumerate() { if up { b[(i, i + 1)] = v.f() } else { b[(i + 1, i)] = v.f() } }
                judge_bi::<F>(ctx, a, &u, &b, &vt, up)
            }
        }
        "sym_tridiagonal" => { let d = unexpected("sym_tridiagonal", x.sym_tridiagonal())?; let q = fr(&d.generate_q()); let tm = d.into_tridiag_matrix(); judge_tri::<F>(ctx, a, &q, &own(&tm)) }
        "solve_triangular_into" => { let y = unexpected("solve_triangular_into", x.solve_triangular_into(b, uplo))?; bw::<F>(ctx, "solve_triangular_into", &tri_part(a, up), &ownb(&y), bm)?; ctx.ok("borrowed operand unchanged", own(&x) == *a, String::new) }
        "solve_triangular_inplace" => { let y = ownb(unexpected("solve_triangular_inplace", x.solve_triangular_inplace(&mut b, uplo))?); bw::<F>(ctx, "solve_triangular_inplace", &tri_part(a, up), &y, bm)?; ctx.ok("returned reference is the array", ownb(&b) == y, String::new)?; ctx.ok("borrowed operand unchanged", own(&x) == *a, String::new) }
        "qr solve_into" => { if r < c { return Ok(()); } let d = unexpected("qr_into", x.qr_into())?; let y = unexpected("solve_into", d.solve_into(b))?; lsq_ok::<F>(ctx, a, &ownb(&y), bm) }
        "qr solve_tr_into" => { if r > c { return Ok(()); } let d = unexpected("qr_into", x.reversed_axes().qr_into())?; let y = fr(&unexpected("solve_tr_into", d.solve_tr_into(b))?); lsq_ok::<F>(ctx, a, &y, bm) }
        "solvec" => { let y = fr(&unexpected("solvec", x.solvec(&b))?); bw::<F>(ctx, "solvec", a, &y, bm)?; ctx.ok("borrowed right-hand side unchanged", ownb(&b) == *bm, String::new) }
        "solvec_into" => { let y = unexpected("solvec_into", x.solvec_into(b))?; bw::<F>(ctx, "solvec_into", a, &ownb(&y), bm) }
        "solvec_inplace" => { let y = ownb(unexpected("solvec_inplace", x.solvec_inplace(&mut b))?); bw::<F>(ctx, "solvec_inplace", a, &y, bm)?; ctx.ok("returned reference is the array", ownb(&b) == y, String::new) }
        "least_squares" => { let y = fr(&unexpected("least_squares", x.least_squares(&b))?); lsq_ok::<F>(ctx, a, &y, bm)?; ctx.ok("borrowed right-hand side unchanged", ownb(&b) == *bm, String::new) }
        "least_squares_into" => { let y = fr(&unexpected("least_squares_into", x.least_squares_into(b))?); lsq_ok::<F>(ctx, a, &y, bm) }
        "reflect_cols" | "reflect_rows" => {
            let cols = INTO_OPS[op].0 == "reflect_cols";
            let k = if cols { r } else { c };
            let ax: Array1<F> = (0..k).map(|i| if k == 1 { F::one() } else { F::of([0.6, 0.8][i % 2] * (i < 2) as u8 as f64) }).collect();
            let axb = ax.clone();
            let refl = Reflection::new(ax.view(), F::of(2.0));
            if cols { refl.reflect_cols(&mut x) } else { refl.reflect_rows(&mut x) }
            ctx.ok("axis unchanged", ax == axb && refl.axis() == &axb, String::new)?;
            let ax = fr1(&axb);
            let src = if cols { a.clone() } else { tr(a) };
            let mut want = src.clone();
            for j in 0..src.ncols() { let d: f64 = (0..k).map(|i| ax[i] * src[(i, j)]).sum::<f64>() - 2.0; for i in 0..k { want[(i, j)] -= 2.0 * d * ax[i]; } }
            let got = own(&x);
            let got = if cols { got } else { tr(&got) };
            ctx.le("reflection", maxdiff(&got, &want), 16.0 * (k as f64 + 2.0) * F::EPS * (amax(a) + 2.0))
        }
        _ => unreachable!(),
    }
}
fn bmat(ctx: &mut Ctx, r: usize) -> A2 { let k = ctx.pick(&[2usize, 4, 3]); ctx.state(k as u64); if k == 4 { rhs_kind(0, r) } else { rhs_kind(k, r) } }
/// A larger right-hand side.
fn bwide(ctx: &mut Ctx, r: usize) -> A2 { let m = ctx.pick(&[2usize, 9, 17, 66]); ctx.state(m as u64); A2::from_shape_fn((r, m), |(i, j)| (((i * 31 + j * 17 + i * j * 7 + 3) % 101) as f64) / 50.0 - 1.0 + 1e-3 * j as f64) }
const LARGE: &[(usize, usize)] = &[(9, 9), (12, 12), (16, 16), (17, 17), (20, 9), (9, 20), (33, 33), (40, 12), (12, 40)];
const HUGE: &[(usize, usize)] = &[(48, 48), (64, 64), (65, 65), (66, 40), (40, 66), (100, 100), (130, 4), (4, 130)];
/// Pairs of layouts: all of one with the row-major and column-major of the other.
fn lay_pair(ctx: &mut Ctx, all: bool) -> (usize, usize) { if all { let (f, k, o) = (ctx.flag(), ctx.choose(NLAY), ctx.choose(2)); if f { (k, o) } else { (o, k) } } else { (ctx.pick(&[0usize, 1, 8]), ctx.pick(&[0usize, 1, 9])) } }
const SHAPES: &[(usize, usize)] = &[(1, 1), (2, 2), (3, 3), (4, 4), (5, 5), (3, 2), (4, 2), (5, 3), (2, 3), (2, 4), (3, 5), (1, 3), (3, 1), (8, 8), (9, 7), (7, 9)];

// ------------------------------------------------------------------------------- C18
fn c18(t: Tier) -> Vec<Space> {
    let th = t.thorough();
    let mut v = vec![];
    let shapes: &'static [(usize, usize)] = if th { SHAPES } else { &[(1, 1), (2, 2), (3, 3), (4, 4), (5, 5), (3, 2), (5, 3), (2, 3), (3, 5), (7, 7)] };
    v.push(space(format!("borrowing: {} operations x operand families at {shapes:?} x 10 layouts of A x 10 layouts of b: operands and their storage are bit-for-bit unchanged", REF_OPS.len()), move |ctx| {
        let op = ctx.choose(REF_OPS.len());
        let (name, kind, needs_b) = REF_OPS[op];
        ctx.state(op as u64);
        let a = operand(ctx, kind, shapes);
        let la = ctx.choose(NLAY);
        let (b, lb) = if needs_b { (bmat(ctx, a.nrows()), ctx.choose(NLAY)) } else { (A2::zeros((a.nrows(), 0)), 0) };
        ctx.state((la * NLAY + lb) as u64);
        ctx.note(|| format!("{name}, A {}, b {}", LAYOUTS[la], LAYOUTS[lb]));
        let s = flt(ctx);
        by!(s, borrow(ctx, op, &a, la, &b, lb))
    }));
    v.push(space(format!("in place on views: {} operations x operand families x 10 layouts of A x 10 layouts of b: nothing in the storage outside the views changes", INTO_OPS.len()), move |ctx| {
        let op = ctx.choose(INTO_OPS.len());
        let (name, kind, needs_b) = INTO_OPS[op];
        ctx.state(op as u64);
        let a = operand(ctx, kind, shapes);
        let la = ctx.choose(NLAY);
        let (b, lb) = if needs_b { (bmat(ctx, a.nrows()), ctx.choose(NLAY)) } else { (A2::zeros((a.nrows(), 0)), 0) };
        ctx.state((la * NLAY + lb) as u64);
        ctx.note(|| format!("{name}, A {}, b {}", LAYOUTS[la], LAYOUTS[lb]));
        let s = flt(ctx);
        by!(s, inplace(ctx, op, &a, la, &b, lb))
    }));
    v.push(space(format!("copy-on-write: {} operations on an ArcArray or a CowArray whose storage has another owner: the other owner never sees a change", INTO_OPS.len()), move |ctx| {
        let op = ctx.choose(INTO_OPS.len());
        let (name, kind, needs_b) = INTO_OPS[op];
        ctx.state(op as u64);
        let a = operand(ctx, kind, shapes);
        let la = ctx.choose(NLAY);
        let b = if needs_b { bmat(ctx, a.nrows()) } else { A2::zeros((a.nrows(), 0)) };
        let cow = ctx.flag();
        ctx.state((la * 2 + cow as usize) as u64);
        ctx.note(|| format!("{name}, A {}, {}", LAYOUTS[la], if cow { "CowArray" } else { "ArcArray" }));
        let s = flt(ctx);
        by!(s, shared(ctx, op, &a, la, &b, cow))
    }));
    for (sh, big) in [(LARGE, false), (HUGE, true)] {
        if big && !th { continue; }
        v.push(space(format!("larger: every operation of the first three spaces at {sh:?} with right-hand sides of 2, 9, 17, 66 columns, layouts in pairs"), move |ctx| {
            let sh: &[(usize, usize)] = if th || big { sh } else { &sh[..] };
            let mode = ctx.choose(4);
            let nops = if mode == 0 { REF_OPS.len() } else { INTO_OPS.len() };
            let op = ctx.choose(nops);
            let (name, kind, needs_b) = if mode == 0 { REF_OPS[op] } else { INTO_OPS[op] };
            ctx.state((op * 4 + mode) as u64);
            let a = operand(ctx, kind, sh);
            let (la, lb) = lay_pair(ctx, !big);
            let b = if needs_b { bwide(ctx, a.nrows()) } else { A2::zeros((a.nrows(), 0)) };
            ctx.state((la * NLAY + lb) as u64);
            ctx.note(|| format!("{name}, mode {mode}, A {}, b {}", LAYOUTS[la], LAYOUTS[lb]));
            let s = flt(ctx);
            match mode { 0 => by!(s, borrow(ctx, op, &a, la, &b, lb)), 1 => by!(s, inplace(ctx, op, &a, la, &b, lb)), m => by!(s, shared(ctx, op, &a, la, &b, m == 2)) }
        }));
    }
    v.push(space("failing in-place calls: indefinite, wrong-shaped and non-square operands in every layout: storage outside the views is intact, borrowed operands unchanged", move |ctx| {
        let n = 1 + ctx.choose(4);
        let m = 1 + ctx.choose(4);
        let la = ctx.choose(NLAY);
        let lb = ctx.choose(NLAY);
        let br = ctx.choose(5);
        let which = ctx.choose(6);
        ctx.state((((n * 5 + m) * 10 + la) * 10 + lb) as u64 * 64 + (br * 8 + which) as u64);
        ctx.note(|| format!("A {n}x{m} {}, b {br} rows {}, operation {which}", LAYOUTS[la], LAYOUTS[lb]));
        let s = flt(ctx);
        by!(s, failing(ctx, n, m, la, lb, br, which))
    }));
    v
}
fn borrow<F: Fl>(ctx: &mut Ctx, op: usize, a: &A2, la: usize, b: &A2, lb: usize) -> Res {
    let (a, b) = (&rounded::<F>(a), &rounded::<F>(b));
    let (h, hb) = (Held::<F>::new(a, la), Held::<F>::new(b, lb));
    let (h0, hb0) = (h.base.clone(), hb.base.clone());
    ref_op::<F, _, _>(ctx, op, a, &h.view(), b, &hb.view())?;
    ctx.ok("C18: borrowed A unchanged", same_bits(&h.base, &h0), || "storage of A changed".into())?;
    ctx.ok("C18: borrowed b unchanged", same_bits(&hb.base, &hb0), || "storage of b changed".into())?;
    // owned arrays behind a shared reference
    let (x, y) = (h.owned(), hb.owned());
    let (x0, y0) = (x.to_owned(), y.to_owned());
    ref_op::<F, _, _>(ctx, op, a, &x, b, &y)?;
    ctx.ok("C18: borrowed A unchanged", same_bits(&x, &x0), || "A changed".into())?;
    ctx.ok("C18: borrowed b unchanged", same_bits(&y, &y0), || "b changed".into())?;
    ctx.nontrivial();
    Ok(())
}
fn inplace<F: Fl>(ctx: &mut Ctx, op: usize, a: &A2, la: usize, b: &A2, lb: usize) -> Res {
    let (a, b) = (&rounded::<F>(a), &rounded::<F>(b));
    let (mut h, mut hb) = (Held::<F>::new(a, la), Held::<F>::new(b, lb));
    let (h0, hb0) = (h.base.clone(), hb.base.clone());
    into_op::<F, _, _>(ctx, op, a, h.view_mut(), b, hb.view_mut())?;
    ctx.ok("C18: storage around A untouched", h.frame_intact(&h0), || format!("{:?}", fr(&h.base)))?;
    ctx.ok("C18: storage around b untouched", hb.frame_intact(&hb0), || format!("{:?}", fr(&hb.base)))?;
    ctx.nontrivial();
    Ok(())
}
fn shared<F: Fl>(ctx: &mut Ctx, op: usize, a: &A2, la: usize, b: &A2, cow: bool) -> Res {
    let (a, b) = (&rounded::<F>(a), &rounded::<F>(b));
    let (h, hb) = (Held::<F>::new(a, la), Held::<F>::new(b, 0));
    if cow {
        let (h0, hb0) = (h.base.clone(), hb.base.clone());
        into_op::<F, _, _>(ctx, op, a, CowArray::from(h.view()), b, CowArray::from(hb.view()))?;
        ctx.ok("C18: the lender's A unchanged", same_bits(&h.base, &h0), || "A changed through a CowArray".into())?;
        ctx.ok("C18: the lender's b unchanged", same_bits(&hb.base, &hb0), || "b changed through a CowArray".into())?;
    } else {
        let (x, y) = (h.owned().into_shared(), hb.owned().into_shared());
        let (x0, y0) = (x.to_owned(), y.to_owned());
        into_op::<F, _, _>(ctx, op, a, x.clone(), b, y.clone())?;
        ctx.ok("C18: the other owner's A unchanged", same_bits(&x.to_owned(), &x0), || "A changed for the other owner".into())?;
        ctx.ok("C18: the other owner's b unchanged", same_bits(&y.to_owned(), &y0), || "b changed for the other owner".into())?;
    }
    ctx.nontrivial();
    Ok(())
}
fn failing<F: Fl>(ctx: &mut Ctx, n: usize, m: usize, la: usize, lb: usize, br: usize, which: usize) -> Res {
    // indefinite (last pivot) when square
    let mut a = if n == m { spd(1, n, 0) } else { general(36, n, m, 0) };
    if n == m && which != 1 { a[(n - 1, n - 1)] = -1.0; }
    let b = A2::from_shape_fn((br, 2), |(i, j)| 1.0 + (i + 2 * j) as f64);
    let (mut h, mut hb) = (Held::<F>::new(&a, la), Held::<F>::new(&b, lb));
    let (h0, hb0) = (h.base.clone(), hb.base.clone());
    let expect_ok;
    let got = {
        let (mut x, mut y) = (h.view_mut(), hb.view_mut());
        match which {
            0 => { expect_ok = false; x.cholesky_inplace().map(|_| ()) }
            1 => { expect_ok = n == m && br == n; x.solvec_inplace(&mut y).map(|_| ()) }
            2 => { expect_ok = false; x.solvec_inplace(&mut y).map(|_| ()) }
            3 => { expect_ok = n == m && br == n; x.solve_triangular_inplace(&mut y, UPLO::Upper).map(|_| ()) }
            4 => { expect_ok = n >= m && br == n; x.qr_into().and_then(|d| d.solve_into(y).map(|_| ())) }
            _ => { expect_ok = n == m; x.triangular_inplace(UPLO::Lower).map(|_| ()) }
        }
    };
    ctx.calls(1);
    ctx.ok("C18: success exactly when the operands allow it", got.is_ok() == expect_ok, || format!("{got:?}"))?;
    ctx.ok("C18: storage around A untouched", h.frame_intact(&h0), || format!("{:?}", fr(&h.base)))?;
    ctx.ok("C18: storage around b untouched", hb.frame_intact(&hb0), || format!("{:?}", fr(&hb.base)))?;
    if which == 3 { ctx.ok("C18: borrowed A unchanged", same_bits(&h.base, &h0), || "A changed".into())?; }
    if which == 0 || which == 5 { ctx.ok("C18: b not involved", same_bits(&hb.base, &hb0), || "b changed".into())?; }
    ctx.outcome(if expect_ok { "succeeds" } else { "fails" });
    ctx.nontrivial();
    Ok(())
}

// ------------------------------------------------------------------------------- C19
fn c19(t: Tier) -> Vec<Space> {
    let th = t.thorough();
    let mut v = vec![];
    let shapes: &'static [(usize, usize)] = if th { SHAPES } else { &[(1, 1), (2, 2), (3, 3), (4, 4), (3, 2), (5, 3), (2, 3), (3, 5), (7, 7), (6, 5), (5, 6)] };
    v.push(space(format!("by reference: {} operations x operand families at {shapes:?} x 10 layouts of A x 10 layouts of b x (owned, view)^2", REF_OPS.len()), move |ctx| {
        let op = ctx.choose(REF_OPS.len());
        let (name, kind, needs_b) = REF_OPS[op];
        ctx.state(op as u64);
        let a = operand(ctx, kind, shapes);
        let la = ctx.choose(NLAY);
        let oa = ctx.flag();
        let (b, lb, ob) = if needs_b { (bmat(ctx, a.nrows()), ctx.choose(NLAY), ctx.flag()) } else { (A2::zeros((a.nrows(), 0)), 0, false) };
        ctx.state(((la * NLAY + lb) * 4 + oa as usize * 2 + ob as usize) as u64);
        ctx.note(|| format!("{name}, A {} {}, b {} {}", LAYOUTS[la], if oa { "owned" } else { "view" }, LAYOUTS[lb], if ob { "owned" } else { "view" }));
        let s = flt(ctx);
        by!(s, lay_ref(ctx, op, &a, la, oa, &b, lb, ob))
    }));
    v.push(space(format!("consuming and in place: {} operations x operand families x 10 layouts of A x 10 layouts of b x (owned, mutable view)^2", INTO_OPS.len()), move |ctx| {
        let op = ctx.choose(INTO_OPS.len());
        let (name, kind, needs_b) = INTO_OPS[op];
        ctx.state(op as u64);
        let a = operand(ctx, kind, shapes);
        let la = ctx.choose(NLAY);
        let oa = ctx.flag();
        let (b, lb, ob) = if needs_b { (bmat(ctx, a.nrows()), ctx.choose(NLAY), ctx.flag()) } else { (A2::zeros((a.nrows(), 0)), 0, false) };
        ctx.state(((la * NLAY + lb) * 4 + oa as usize * 2 + ob as usize) as u64);
        ctx.note(|| format!("{name}, A {} {}, b {} {}", LAYOUTS[la], if oa { "owned" } else { "mutable view" }, LAYOUTS[lb], if ob { "owned" } else { "mutable view" }));
        let s = flt(ctx);
        by!(s, lay_into(ctx, op, &a, la, oa, &b, lb, ob))
    }));
    for (sh, big) in [(LARGE, false), (HUGE, true)] {
        if big && !th { continue; }
        v.push(space(format!("larger: every operation at {sh:?} with right-hand sides of 2, 9, 17, 66 columns, layouts in pairs"), move |ctx| {
            let by_ref = ctx.flag();
            let op = ctx.choose(if by_ref { REF_OPS.len() } else { INTO_OPS.len() });
            let (name, kind, needs_b) = if by_ref { REF_OPS[op] } else { INTO_OPS[op] };
            ctx.state((op * 2 + by_ref as usize) as u64);
            let a = operand(ctx, kind, sh);
            let (la, lb) = lay_pair(ctx, !big);
            let (oa, ob) = (ctx.flag(), needs_b && ctx.flag());
            let b = if needs_b { bwide(ctx, a.nrows()) } else { A2::zeros((a.nrows(), 0)) };
            ctx.state(((la * NLAY + lb) * 4 + oa as usize * 2 + ob as usize) as u64);
            ctx.note(|| format!("{name}, A {} {}, b {} {}", LAYOUTS[la], if oa { "owned" } else { "view" }, LAYOUTS[lb], if ob { "owned" } else { "view" }));
            let s = flt(ctx);
            if by_ref { by!(s, lay_ref(ctx, op, &a, la, oa, &b, lb, ob)) } else { by!(s, lay_into(ctx, op, &a, la, oa, &b, lb, ob)) }
        }));
    }
    v.push(space("broadcast operands (stride zero): one row, one column or one number repeated, as A and as b, for every operation that borrows", move |ctx| {
        let op = ctx.choose(REF_OPS.len());
        ctx.state(op as u64);
        let (r, c) = ctx.pick(&[(1usize, 1usize), (2, 2), (3, 3), (4, 4), (3, 2), (2, 3), (5, 3), (3, 5), (6, 6)]);
        let k = ctx.choose(4);
        let w = ctx.choose(3);
        ctx.state((((r * 8 + c) * 4 + k) * 4 + w) as u64);
        ctx.note(|| format!("{} {r}x{c}, broadcast {k}, values {w}", REF_OPS[op].0));
        let s = flt(ctx);
        by!(s, lay_broadcast(ctx, op, r, c, k, w))
    }));
    v.push(space("lobpcg-free consistency: eigenvalues, singular values, norms and factors are the same numbers (to rounding) from all layouts, families at orders 1..12", move |ctx| {
        let n = 1 + ctx.choose(if th { 12 } else { 8 });
        let a = sym_family(ctx, n);
        let l = 1 + ctx.choose(NLAY - 1);
        ctx.state(l as u64);
        ctx.note(|| LAYOUTS[l].to_string());
        let s = flt(ctx);
        by!(s, lay_same(ctx, &a, l))
    }));
    v
}
#[allow(clippy::too_many_arguments)]
fn lay_ref<F: Fl>(ctx: &mut Ctx, op: usize, a: &A2, la: usize, oa: bool, b: &A2, lb: usize, ob: bool) -> Res {
    let (a, b) = (&rounded::<F>(a), &rounded::<F>(b));
    let (h, hb) = (Held::<F>::new(a, la), Held::<F>::new(b, lb));
    ctx.nontrivial();
    match (oa, ob) {
        (false, false) => ref_op::<F, _, _>(ctx, op, a, &h.view(), b, &hb.view()),
        (false, true) => ref_op::<F, _, _>(ctx, op, a, &h.view(), b, &hb.owned()),
        (true, false) => ref_op::<F, _, _>(ctx, op, a, &h.owned(), b, &hb.view()),
        (true, true) => ref_op::<F, _, _>(ctx, op, a, &h.owned(), b, &hb.owned()),
    }
}
#[allow(clippy::too_many_arguments)]
fn lay_into<F: Fl>(ctx: &mut Ctx, op: usize, a: &A2, la: usize, oa: bool, b: &A2, lb: usize, ob: bool) -> Res {
    let (a, b) = (&rounded::<F>(a), &rounded::<F>(b));
    let (mut h, mut hb) = (Held::<F>::new(a, la), Held::<F>::new(b, lb));
    ctx.nontrivial();
    match (oa, ob) {
        (false, false) => into_op::<F, _, _>(ctx, op, a, h.view_mut(), b, hb.view_mut()),
        (false, true) => into_op::<F, _, _>(ctx, op, a, h.view_mut(), b, hb.owned()),
        (true, false) => into_op::<F, _, _>(ctx, op, a, h.owned(), b, hb.view_mut()),
        (true, true) => into_op::<F, _, _>(ctx, op, a, h.owned(), b, hb.owned()),
    }
}
fn lay_broadcast<F: Fl>(ctx: &mut Ctx, op: usize, r: usize, c: usize, k: usize, w: usize) -> Res {
    let (name, kind, needs_b) = REF_OPS[op];
    let sq = matches!(kind, Kind::Sym | Kind::Spd | Kind::Tri | Kind::Inv);
    let (r, c) = if sq { (r, r) } else { (r, c) };
    let vals = |i: usize| F::of(match w { 0 => 1.0, 1 => (i as f64) - 1.0, _ => 0.5 + (i % 3) as f64 });
    let row: Array2<F> = Array2::from_shape_fn((1, c), |(_, j)| vals(j));
    let col: Array2<F> = Array2::from_shape_fn((r, 1), |(i, _)| vals(i));
    let num: Array2<F> = Array2::from_elem((1, 1), vals(2));
    let bc = |k: usize| -> ArrayView2<'_, F> { match k { 0 => num.broadcast((r, c)).unwrap(), 1 => row.broadcast((r, c)).unwrap(), 2 => col.broadcast((r, c)).unwrap(), _ => num.broadcast((r, c)).unwrap().reversed_axes().reversed_axes() } };
    ctx.nontrivial();
    // broadcast right-hand side, ordinary A
    if needs_b {
        let kind_shape = [(r, c)];
        let mut a = general(36, r, c, 1);
        let m = amax(&a) * r.min(c) as f64 + 1.0;
        for i in 0..r.min(c) { a[(i, i)] += m; }
        let _ = kind_shape;
        let a = &rounded::<F>(&a);
        let b1: Array2<F> = Array2::from_shape_fn((1, 3), |(_, j)| vals(j));
        let b2: Array2<F> = Array2::from_shape_fn((r, 1), |(i, _)| vals(i));
        let bv = match k { 0 => num.broadcast((r, 3)).unwrap(), 1 => b1.broadcast((r, 3)).unwrap(), 2 => b2.broadcast((r, 3)).unwrap(), _ => b2.broadcast((r, 1)).unwrap() };
        return ref_op::<F, _, _>(ctx, op, a, &to::<F>(a), &fr(&bv.to_owned()), &bv);
    }
    let x = bc(k);
    let a = fr(&x.to_owned());
    let b: Array2<F> = Array2::zeros((r, 0));
    let bm = A2::zeros((r, 0));
    match name {
        "cholesky" | "cholesky_dirty" | "invc" => {
            // a broadcast matrix has rank one (only the lower triangle counts): definite for order 1,
            // otherwise the verdict must be that of the ordinary copy
            let y = x.to_owned();
            let (p, q) = match name { "cholesky" => (x.cholesky(), y.cholesky()), "cholesky_dirty" => (x.cholesky_dirty(), y.cholesky_dirty()), _ => (x.invc(), y.invc()) };
            ctx.calls(2);
            match (p, q) {
                (Ok(p), Ok(q)) => ctx.le("C19: broadcast and ordinary agree", maxdiff(&fr(&p), &fr(&q)), 64.0 * F::EPS * (1.0 + amax(&fr(&q)))),
                (Err(LinalgError::NotPositiveDefinite), Err(LinalgError::NotPositiveDefinite)) => Ok(()),
                (p, q) => fail("C19: broadcast and ordinary agree", format!("{:?} vs {:?}", p.map(|_| ()), q.map(|_| ()))),
            }
        }
        "inverse" => {
            let (p, q) = (unexpected("qr", x.qr())?.inverse(), unexpected("qr", x.to_owned().qr())?.inverse());
            if r == 1 { ctx.ok("C19: broadcast and ordinary agree", p.is_ok() == q.is_ok(), String::new)?; }
            Ok(())
        }
        "eigh" | "eigvalsh" => {
            if k == 1 || k == 2 { return Ok(()); } // not symmetric
            ref_op::<F, _, _>(ctx, op, &a, &x, &bm, &b)
        }
        _ => ref_op::<F, _, _>(ctx, op, &a, &x, &bm, &b),
    }
}
fn lay_same<F: Fl>(ctx: &mut Ctx, a: &A2, l: usize) -> Res {
    let a = &rounded::<F>(a);
    let n = a.nrows();
    let (x, y) = (to::<F>(a), Held::<F>::new(a, l).owned());
    let s = |w: Array1<F>| fr1(&w.sort_eig_asc()).to_vec();
    let (w1, w2) = (s(unexpected("eigvalsh", x.eigvalsh())?), s(unexpected("eigvalsh", y.eigvalsh())?));
    vals_close::<F>(ctx, "C19: eigenvalues of both layouts", a, &w2, &w1)?;
    let (s1, s2) = (unexpected("svd", x.svd(false, false))?.1, unexpected("svd", y.clone().svd_into(false, false))?.1);
    vals_close::<F>(ctx, "C19: singular values of both layouts", a, &fr1(&s2).to_vec(), &fr1(&s1).to_vec())?;
    let (d1, d2) = (unexpected("qr", x.qr())?, unexpected("qr", y.clone().qr_into())?);
    ctx.ok("C19: invertibility verdict of both layouts", d1.is_invertible() == d2.is_invertible() || cond(a) > 1e6, || "verdicts differ".into())?;
    let (c1, c2) = (x.cholesky(), y.cholesky());
    let min = oracle::jacobi_vals(a).first().copied().unwrap_or(1.0);
    if min.abs() > 1e3 * F::EPS * amax(a) * n as f64 { ctx.ok("C19: definiteness verdict of both layouts", c1.is_ok() == c2.is_ok(), || "verdicts differ".into())?; }
    let k = (n * n + 2) as f64 * F::EPS;
    ctx.le("C19: norms", ((x.norm_l2() - y.norm_l2()).f().abs() / x.norm_l2().f().max(1e-300)).max((x.norm_l1() - y.norm_l1()).f().abs() / x.norm_l1().f().max(1e-300)), k)?;
    ctx.ok("C19: max norm", x.norm_max() == y.norm_max(), String::new)?;
    ctx.calls(12);
    ctx.nontrivial();
    Ok(())
}

// ------------------------------------------------------------------------------- C20
#[derive(Debug, Clone, Copy, PartialEq)]
enum Want { Ok, NotSquare, NotThin, Empty, WrongRows(usize, usize), Lenient }
fn matches<T>(ctx: &mut Ctx, op: &'static str, r: Result<T, LinalgError>, w: Want, rc: (usize, usize)) -> Result<Option<T>, Fail> {
    let good = match (&r, w) {
        (Ok(_), Want::Ok | Want::Lenient) => true,
        (Err(LinalgError::NonInvertible | LinalgError::NotPositiveDefinite), Want::Lenient) => true,
        (Err(LinalgError::NotSquare { rows, cols }), Want::NotSquare) => (*rows, *cols) == rc,
        (Err(LinalgError::NotThin { rows, cols }), Want::NotThin) => (*rows, *cols) == rc,
        (Err(LinalgError::EmptyMatrix), Want::Empty) => true,
        (Err(LinalgError::WrongRows { expected, actual }), Want::WrongRows(e, a)) => (*expected, *actual) == (e, a),
        _ => false,
    };
    ctx.calls(1);
    ctx.ok("C20: documented outcome", good, || format!("{op} on {rc:?}: expected {w:?}, got {}", match &r { Ok(_) => "success".into(), Err(e) => format!("{e:?}") }))?;
    ctx.outcome(match w { Want::Ok => "succeeds", Want::Lenient => "succeeds or singular", _ => "shape error" });
    Ok(r.ok())
}
const ONE: &[(&str, Kind)] = &[
    ("qr", Kind::Any), ("qr_into", Kind::Any), ("svd", Kind::Any), ("svd_into", Kind::Any), ("bidiagonal", Kind::Any), ("sym_tridiagonal", Kind::Sym), ("eigh", Kind::Sym), ("eigh_into", Kind::Sym),
    ("eigvalsh", Kind::Sym), ("eigvalsh_into", Kind::Sym), ("cholesky", Kind::Spd), ("cholesky_into", Kind::Spd), ("cholesky_inplace", Kind::Spd), ("cholesky_dirty", Kind::Spd), ("cholesky_into_dirty", Kind::Spd),
    ("cholesky_inplace_dirty", Kind::Spd), ("invc", Kind::Spd), ("invc_inplace", Kind::Spd), ("inverse", Kind::Inv), ("into_triangular", Kind::Any), ("triangular_inplace", Kind::Any), ("is_triangular", Kind::Any),
];
const TWO: &[(&str, Kind)] = &[
    ("solve", Kind::Inv), ("solve_into", Kind::Inv), ("solve_tr", Kind::Inv), ("solve_tr_into", Kind::Inv), ("least_squares", Kind::Inv), ("least_squares_into", Kind::Inv),
    ("solvec", Kind::Spd), ("solvec_into", Kind::Spd), ("solvec_inplace", Kind::Spd), ("solve_triangular", Kind::Tri), ("solve_triangular_into", Kind::Tri), ("solve_triangular_inplace", Kind::Tri),
];
/// Contents of any shape that suit the operation: class 0 is well behaved, 1 all ones, 2 all zeros.
fn contents<F: Fl>(k: Kind, r: usize, c: usize, class: usize, lay: usize) -> Held<F> {
    let a = match class {
        0 => match k {
            Kind::Any => general(36, r, c, 0),
            Kind::Sym if r == c => symmetric(22, r, 1),
            Kind::Spd if r == c => spd(7, r, 1),
            _ => { let mut a = general(36, r, c, 0); for i in 0..r.min(c) { a[(i, i)] += 5.0 + r as f64; } a }
        },
        1 => A2::ones((r, c)),
        _ => A2::zeros((r, c)),
    };
    Held::new(&a, lay)
}
fn shape_one<F: Fl>(ctx: &mut Ctx, op: &'static str, kind: Kind, r: usize, c: usize, class: usize, lay: usize) -> Res {
    let h = contents::<F>(kind, r, c, class, lay);
    let x = h.owned();
    let k = r.min(c);
    let rc = (r, c);
    let sq = |w: Want| if r == c { w } else { Want::NotSquare };
    let pd = sq(if class == 0 || r == 0 { Want::Ok } else { Want::Lenient });
    let some = |b: bool| if b { Want::Empty } else { Want::Ok };
    match op {
        "qr" | "qr_into" => {
            let w = if r < c { Want::NotThin } else { Want::Ok };
            if op == "qr" { if let Some(d) = matches(ctx, op, h.view().qr(), w, rc)? { dims(ctx, "Q", d.generate_q().dim(), (r, c))?; dims(ctx, "R", d.into_r().dim(), (c, c))?; } }
            else if let Some(d) = matches(ctx, op, x.qr_into(), w, rc)? { let (q, rr) = d.into_decomp(); dims(ctx, "Q", q.dim(), (r, c))?; dims(ctx, "R", rr.dim(), (c, c))?; }
        }
        "svd" | "svd_into" => for f in 0..4 {
            let (cu, cv) = (f & 1 == 1, f & 2 == 2);
            let res = if op == "svd" { h.view().svd(cu, cv) } else { x.clone().svd_into(cu, cv) };
            if let Some((u, s, vt)) = matches(ctx, op, res, some(k == 0), rc)? {
                ctx.ok("sigma length", s.len() == k, || format!("{}", s.len()))?;
                ctx.ok("requested factors", u.is_some() == cu && vt.is_some() == cv, String::new)?;
                if let Some(u) = u { dims(ctx, "U", u.dim(), (r, k))?; }
                if let Some(v) = vt { dims(ctx, "Vt", v.dim(), (k, c))?; }
            }
        },
        "bidiagonal" => if let Some(d) = matches(ctx, op, x.bidiagonal(), some(k == 0), rc)? {
            dims(ctx, "U", d.generate_u().dim(), (r, k))?;
            dims(ctx, "Vt", d.generate_vt().dim(), (k, c))?;
            let (p, q) = d.clone().into_diagonals();
            ctx.ok("diagonals", p.len() == k && q.len() == k - 1, String::new)?;
            dims(ctx, "B", d.into_b().dim(), (k, k))?;
        },
        "sym_tridiagonal" => if let Some(d) = matches(ctx, op, x.sym_tridiagonal(), sq(some(r == 0)), rc)? {
            dims(ctx, "Q", d.generate_q().dim(), (r, r))?;
            let (p, q) = d.clone().into_diagonals();
            ctx.ok("diagonals", p.len() == r && q.len() == r - 1, String::new)?;
            dims(ctx, "T", d.into_tridiag_matrix().dim(), (r, r))?;
        },
        "eigh" | "eigh_into" => { let res = if op == "eigh" { h.view().eigh() } else { x.eigh_into() }; if let Some((w, v)) = matches(ctx, op, res, sq(Want::Ok), rc)? { ctx.ok("values", w.len() == r, String::new)?; dims(ctx, "vectors", v.dim(), (r, r))?; let (w, v) = (w, v).sort_eig_desc(); ctx.ok("sorted", w.len() == r && v.dim() == (r, r), String::new)?; } }
        "eigvalsh" | "eigvalsh_into" => { let res = if op == "eigvalsh" { h.view().eigvalsh() } else { x.eigvalsh_into() }; if let Some(w) = matches(ctx, op, res, sq(Want::Ok), rc)? { ctx.ok("values", w.len() == r, String::new)?; let w = w.sort_eig_asc(); ctx.ok("sorted", w.len() == r, String::new)?; } }
        "cholesky" => if let Some(l) = matches(ctx, op, h.view().cholesky(), pd, rc)? { dims(ctx, "L", l.dim(), rc)?; },
        "cholesky_dirty" => if let Some(l) = matches(ctx, op, h.view().cholesky_dirty(), pd, rc)? { dims(ctx, "L", l.dim(), rc)?; },
        "cholesky_into" => if let Some(l) = matches(ctx, op, x.cholesky_into(), pd, rc)? { dims(ctx, "L", l.dim(), rc)?; },
        "cholesky_into_dirty" => if let Some(l) = matches(ctx, op, x.cholesky_into_dirty(), pd, rc)? { dims(ctx, "L", l.dim(), rc)?; },
        "cholesky_inplace" => { let mut x = x; matches(ctx, op, x.cholesky_inplace().map(|_| ()), pd, rc)?; dims(ctx, "L", x.dim(), rc)?; }
        "cholesky_inplace_dirty" => { let mut x = x; matches(ctx, op, x.cholesky_inplace_dirty().map(|_| ()), pd, rc)?; dims(ctx, "L", x.dim(), rc)?; }
        "invc" => if let Some(l) = matches(ctx, op, h.view().invc(), pd, rc)? { dims(ctx, "inverse", l.dim(), rc)?; },
        "invc_inplace" => { let mut x = x; if let Some(l) = matches(ctx, op, x.invc_inplace(), pd, rc)? { dims(ctx, "inverse", l.dim(), rc)?; } }
        "inverse" => if r >= c {
            let d = unexpected("qr", h.view().qr())?;
            let w = sq(if class == 0 || r == 0 { Want::Ok } else { Want::Lenient });
            if let Some(i) = matches(ctx, op, d.inverse(), w, rc)? { dims(ctx, "inverse", i.dim(), rc)?; }
        },
        "into_triangular" => for u in [UPLO::Upper, UPLO::Lower] { if let Some(y) = matches(ctx, op, x.clone().into_triangular(u), sq(Want::Ok), rc)? { dims(ctx, "triangle", y.dim(), rc)?; ctx.ok("extraction passes the test", y.is_triangular(u), String::new)?; } },
        "triangular_inplace" => for u in [UPLO::Upper, UPLO::Lower] { let mut y = x.clone(); matches(ctx, op, y.triangular_inplace(u).map(|_| ()), sq(Want::Ok), rc)?; dims(ctx, "triangle", y.dim(), rc)?; },
        "is_triangular" => for u in [true, false] { let g = x.is_triangular(if u { UPLO::Upper } else { UPLO::Lower }); ctx.calls(1); ctx.ok("is_triangular", g == is_tri(&fr(&x), u), || format!("{rc:?}: {g}"))?; },
        _ => unreachable!(),
    }
    ctx.nontrivial();
    Ok(())
}
#[allow(clippy::too_many_arguments)]
fn shape_two<F: Fl>(ctx: &mut Ctx, op: &'static str, kind: Kind, r: usize, c: usize, br: usize, bc: usize, class: usize, lay: usize) -> Res {
    let h = contents::<F>(kind, r, c, class, lay);
    let hb = Held::<F>::new(&general(36, br, bc, 0), lay);
    let (mut x, b) = (h.owned(), hb.owned());
    let rc = (r, c);
    let fine = class == 0 || r.min(c) == 0;
    let rows = |e: usize, w: Want| if br != e { Want::WrongRows(e, br) } else { w };
    let sq = |w: Want| if r == c { w } else { Want::NotSquare };
    match op {
        "solve" | "solve_into" | "solve_tr" | "solve_tr_into" => {
            if r < c { return Ok(()); }
            let d = unexpected("qr", x.qr())?;
            let w = rows(if op.starts_with("solve_tr") { c } else { r }, if fine { Want::Ok } else { Want::Lenient });
            let res = match op { "solve" => d.solve(&hb.view()), "solve_into" => d.solve_into(b), "solve_tr" => d.solve_tr(&hb.view()), _ => d.solve_tr_into(b) };
            if let Some(y) = matches(ctx, op, res, w, rc)? { dims(ctx, "solution", y.dim(), (if op.starts_with("solve_tr") { r } else { c }, bc))?; }
        }
        "least_squares" | "least_squares_into" => {
            let w = rows(r, if fine { Want::Ok } else { Want::Lenient });
            let res = if op == "least_squares" { x.least_squares(&b) } else { x.least_squares_into(b) };
            if let Some(y) = matches(ctx, op, res, w, rc)? { dims(ctx, "solution", y.dim(), (c, bc))?; }
        }
        "solvec" | "solvec_into" | "solvec_inplace" => {
            let w = sq(if class != 0 && r > 0 { if br != r { return singular_or_rows(ctx, op, x, b, r, br); } Want::Lenient } else { rows(r, Want::Ok) });
            let mut b2 = b.clone();
            let res = match op { "solvec" => x.solvec(&hb.view()), "solvec_into" => x.solvec_into(b), _ => x.solvec_inplace(&mut b2).map(|y| y.clone()) };
            if let Some(y) = matches(ctx, op, res, w, rc)? { dims(ctx, "solution", y.dim(), (r, bc))?; }
        }
        _ => {
            for u in [UPLO::Upper, UPLO::Lower] {
                let w = sq(rows(r, Want::Ok));
                let mut b2 = b.clone();
                let res = match op { "solve_triangular" => x.solve_triangular(&hb.view(), u), "solve_triangular_into" => x.solve_triangular_into(b.clone(), u), _ => x.solve_triangular_inplace(&mut b2, u).map(|y| y.clone()) };
                if let Some(y) = matches(ctx, op, res, w, rc)? { dims(ctx, "solution", y.dim(), (r, bc))?; }
            }
        }
    }
    ctx.nontrivial();
    Ok(())
}
/// Singular contents and wrong rows together: either documented error is right.
fn singular_or_rows<F: Fl>(ctx: &mut Ctx, op: &'static str, mut x: Array2<F>, b: Array2<F>, r: usize, br: usize) -> Res {
    if x.nrows() != x.ncols() {
        let rc = x.dim();
        let res = match op { "solvec" => x.solvec(&b), _ => x.solvec_into(b) };
        matches(ctx, op, res.map(|_| ()), Want::NotSquare, rc)?;
        return Ok(());
    }
    let res = match op { "solvec" => x.solvec(&b), _ => x.solvec_into(b) };
    ctx.calls(1);
    ctx.ok("C20: documented outcome", matches!(&res, Err(LinalgError::NotPositiveDefinite)) || matches!(&res, Err(LinalgError::WrongRows { expected, actual }) if *expected == r && *actual == br), || format!("{op}: {res:?}"))
}
fn c20(t: Tier) -> Vec<Space> {
    let th = t.thorough();
    let m = if th { 7 } else { 5 };
    let mut v = vec![];
    v.push(space(format!("one operand: {} operations x every shape in 0..{m} x 0..{m} (and long ones), well behaved, constant and zero contents, row-major, column-major and reversed strided, f32 and f64", ONE.len()), move |ctx| {
        let op = ctx.choose(ONE.len());
        let k = ctx.choose(m * m + 8);
        let (r, c) = if k < m * m { (k / m, k % m) } else { [(0, 17), (17, 0), (1, 20), (20, 1), (9, 8), (8, 9), (16, 16), (33, 2)][k - m * m] };
        let class = ctx.choose(3);
        let lay = ctx.pick(&[0usize, 1, 8]);
        ctx.state((((op * 64 + r) * 64 + c) * 3 + class) as u64 * 16 + lay as u64);
        ctx.note(|| format!("{} on {r}x{c}, contents {class}, {}", ONE[op].0, LAYOUTS[lay]));
        let s = flt(ctx);
        by!(s, shape_one(ctx, ONE[op].0, ONE[op].1, r, c, class, lay))
    }));
    v.push(space(format!("two operands: {} operations x every pair of shapes A in 0..{m} x 0..{m}, b in 0..{m} x 0..3, well behaved, constant and zero contents", TWO.len()), move |ctx| {
        let op = ctx.choose(TWO.len());
        let (r, c) = (ctx.choose(m), ctx.choose(m));
        let (br, bc) = (ctx.choose(m), ctx.choose(3));
        let class = ctx.choose(2);
        let class = if class == 1 && TWO[op].0.starts_with("solve_triangular") { 1 } else { class * 2 };
        let lay = ctx.pick(&[0usize, 1, 8]);
        ctx.state(((((op * 16 + r) * 16 + c) * 16 + br) * 4 + bc) as u64 * 64 + (class * 16 + lay) as u64);
        ctx.note(|| format!("{} A {r}x{c}, b {br}x{bc}, contents {class}, {}", TWO[op].0, LAYOUTS[lay]));
        let s = flt(ctx);
        by!(s, shape_two(ctx, TWO[op].0, TWO[op].1, r, c, br, bc, class, lay))
    }));
    v.push(space(format!("larger operands: {} and {} operations at larger shapes, right-hand sides with the right, one more, one less, no or the other number of rows and 0, 1, 9, 70 columns", ONE.len(), TWO.len()), move |ctx| {
        let shapes: &[(usize, usize)] = if th { &[(9, 9), (16, 16), (17, 17), (33, 33), (64, 64), (65, 65), (40, 12), (12, 40), (66, 65), (65, 66), (100, 100), (129, 129), (130, 2), (2, 130), (70, 0), (0, 70), (64, 1), (1, 64)] } else { &[(9, 9), (17, 17), (33, 33), (65, 65), (40, 12), (12, 40), (66, 65), (65, 66), (100, 2), (2, 100), (70, 0), (0, 70), (64, 1), (1, 64)] };
        let (r, c) = ctx.pick(shapes);
        let op = ctx.choose(ONE.len() + TWO.len());
        let class = ctx.choose(2);
        let lay = ctx.pick(&[0usize, 8]);
        let s = flt(ctx);
        ctx.state((((op * 256 + r) * 256 + c) * 3 + class) as u64 * 16 + lay as u64);
        if op < ONE.len() {
            ctx.note(|| format!("{} on {r}x{c}, contents {class}, {}", ONE[op].0, LAYOUTS[lay]));
            return by!(s, shape_one(ctx, ONE[op].0, ONE[op].1, r, c, class, lay));
        }
        let (name, kind) = TWO[op - ONE.len()];
        let br = match ctx.choose(5) { 0 => r, 1 => r + 1, 2 => r.saturating_sub(1), 3 => 0, _ => c };
        let bc = ctx.pick(&[0usize, 1, 9, 70]);
        let class = if class == 1 && name.starts_with("solve_triangular") { 1 } else { class * 2 };
        ctx.state((br * 128 + bc) as u64);
        ctx.note(|| format!("{name} A {r}x{c}, b {br}x{bc}, contents {class}, {}", LAYOUTS[lay]));
        by!(s, shape_two(ctx, name, kind, r, c, br, bc, class, lay))
    }));
    v
}

// ------------------------------------------------------------------------------- C29
fn c29(t: Tier) -> Vec<Space> {
    let th = t.thorough();
    let mut v = vec![];
    let exps = |s: bool| -> &'static [i32] { if s { crate::spaces::EXP32 } else { crate::spaces::EXP64 } };
    {
        let ns: &'static [usize] = if th { &[1, 2, 3, 4, 5, 6, 8, 10, 13] } else { &[1, 2, 3, 4, 6] };
        v.push(space(format!("eigenvalues: {} symmetric families at orders {ns:?} x every power of two of the table", NSYM + NGEN), move |ctx| {
            let n = ctx.pick(ns);
            let a = sym_family(ctx, n);
            let s = flt(ctx);
            let k = ctx.pick(exps(s));
            ctx.state(k as u64);
            ctx.note(|| format!("scaled to about 2^{k}"));
            by!(s, eig_scale(ctx, &a, k))
        }));
        v.push(space(format!("singular values: {NGEN} families at shapes up to {}x{} x every power of two of the table", ns[ns.len() - 1], ns[ns.len() - 1]), move |ctx| {
            let (r, c) = ctx.pick(&[(1usize, 1usize), (2, 2), (3, 3), (4, 4), (3, 2), (2, 3), (5, 3), (3, 5), (4, 1), (1, 4), (6, 6)]);
            let a = gen_family(ctx, r, c);
            let s = flt(ctx);
            let k = ctx.pick(exps(s));
            ctx.state(k as u64);
            ctx.note(|| format!("scaled to about 2^{k}"));
            by!(s, svd_scale(ctx, &a, k))
        }));
    }
    v.push(space("dense: every symmetric matrix of order 2 and 3 over 0, 1, -1, 3 and every 2x2 over 0, 1, -2, 5 at every power of two of the table", move |ctx| {
        let k0 = ctx.choose(3);
        let a = match k0 { 0 => dense_sym(ctx, 2, &[0.0, 1.0, -1.0, 3.0]), 1 => dense_sym(ctx, 3, if th { &[0.0, 1.0, -1.0, 3.0] } else { &[0.0, 1.0, -1.0] }), _ => dense(ctx, 2, 2, &[0.0, 1.0, -2.0, 5.0]) };
        let s = flt(ctx);
        let k = ctx.pick(exps(s));
        ctx.state(k as u64);
        ctx.note(|| format!("scaled to about 2^{k}"));
        if k0 == 2 { by!(s, svd_scale(ctx, &a, k)) } else { by!(s, eig_scale(ctx, &a, k)) }
    }));
    {
        let ns: Vec<usize> = if th { (1..=12).chain([16, 20, 33]).collect() } else { (1..=9).chain([16]).collect() };
        v.push(space(format!("negation, shift and orthogonal similarity by signs and reversal: {} symmetric families at orders {ns:?}, shifts by 5 multiples of the identity", NSYM + NGEN), move |ctx| {
            let n = ns[ctx.choose(ns.len())];
            let a = sym_family(ctx, n);
            let s = flt(ctx);
            let c = ctx.choose(8);
            ctx.state(c as u64);
            by!(s, eig_shift(ctx, &a, c))
        }));
    }
    v.push(space("singular values are invariant under negation, transposition, row and column reversal and sign changes: families at 12 shapes", move |ctx| {
        let (r, c) = ctx.pick(&[(1usize, 1usize), (2, 2), (3, 3), (4, 4), (5, 5), (3, 2), (2, 3), (6, 3), (3, 6), (7, 7), (8, 5), (12, 12)]);
        let a = gen_family(ctx, r, c);
        let s = flt(ctx);
        let k = ctx.choose(6);
        ctx.state(k as u64);
        by!(s, svd_sym(ctx, &a, k))
    }));
    v.push(space("large: 8 families at orders up to 65 (129 when thorough): every power of two of the table, negation, shifts, sign and reversal similarities, reversal and transposition of singular values", move |ctx| {
        let n = if th { ctx.pick(&[9usize, 12, 16, 17, 24, 31, 32, 33, 40, 48, 50, 64, 65, 100, 129]) } else { ctx.pick(&[9usize, 12, 17, 24, 33, 48, 65]) };
        let id = ctx.pick(&[1usize, 6, 7, 10, 12, 22, 24, 30]);
        let what = ctx.choose(4);
        let s = flt(ctx);
        ctx.state(what as u64);
        if what % 2 == 0 {
            let a = symmetric(id, n, 1);
            reg(ctx, &a);
            if what == 0 { let t = exps(s); let k = t[ctx.choose(t.len().div_ceil(2)) * 2]; ctx.state(k as u64); by!(s, eig_scale(ctx, &a, k)) } else { let c = ctx.choose(8); ctx.state(c as u64); by!(s, eig_shift(ctx, &a, c)) }
        } else {
            let (r, c) = match ctx.choose(3) { 0 => (n, n), 1 => (n, n / 2 + 1), _ => (n / 3 + 1, n) };
            let a = general(id, r, c, 1);
            reg(ctx, &a);
            if what == 1 { let t = exps(s); let k = t[ctx.choose(t.len().div_ceil(2)) * 2]; ctx.state(k as u64); by!(s, svd_scale(ctx, &a, k)) } else { let k = ctx.choose(6); ctx.state(k as u64); by!(s, svd_sym(ctx, &a, k)) }
        }
    }));
    v
}
fn sorted<F: Fl>(w: &Array1<F>) -> Vec<f64> { let mut v = fr1(w).to_vec(); v.sort_by(|a, b| a.partial_cmp(b).unwrap_or(std::cmp::Ordering::Equal)); v }
fn close<F: Fl>(ctx: &mut Ctx, what: &'static str, x: &[f64], y: &[f64], n: usize, m: f64, fl: f64) -> Res {
    ctx.ok(what, x.len() == y.len(), || format!("{} and {} values", x.len(), y.len()))?;
    for (p, q) in x.iter().zip(y) { ctx.le(what, (p - q).abs(), 2.0 * tol::<F>(n, n) * (n as f64).sqrt().max(2.0) * m + fl)?; }
    Ok(())
}
fn eig_scale<F: Fl>(ctx: &mut Ctx, a: &A2, k: i32) -> Res {
    // the base matrix is brought to [1,2) and to a form that scales exactly
    let a = rounded::<F>(&scaled(a, expo(a)));
    if amax(&a) == 0.0 { return Ok(()); }
    let b = scaled(&a, -k);
    if rounded::<F>(&b) != b || scaled(&b, k) != a { ctx.outcome("not exactly representable, skipped"); return Ok(()); }
    let n = a.nrows();
    let (x, y) = (to::<F>(&a), to::<F>(&b));
    let fl = floor::<F>(n, n, k);
    let (w1, w2) = (sorted(&unexpected("eigvalsh", x.eigvalsh())?), sorted(&unexpected("eigvalsh", y.eigvalsh())?));
    close::<F>(ctx, "C29: eigenvalues scale", &w2.iter().map(|v| ldexp(*v, -k)).collect::<Vec<_>>(), &w1, n, 1.0, fl)?;
    let (w, v) = unexpected("eigh", y.eigh())?;
    close::<F>(ctx, "C29: eigenvalues scale", &sorted(&w).iter().map(|v| ldexp(*v, -k)).collect::<Vec<_>>(), &w1, n, 1.0, fl)?;
    eigpair::<F>(ctx, &b, &fr1(&w), &fr(&v), k)?;
    ctx.outcome("scaled");
    ctx.calls(3);
    ctx.nontrivial();
    Ok(())
}
fn svd_scale<F: Fl>(ctx: &mut Ctx, a: &A2, k: i32) -> Res {
    let a = rounded::<F>(&scaled(a, expo(a)));
    if amax(&a) == 0.0 { return Ok(()); }
    let b = scaled(&a, -k);
    if rounded::<F>(&b) != b || scaled(&b, k) != a { ctx.outcome("not exactly representable, skipped"); return Ok(()); }
    let n = a.nrows().max(a.ncols());
    let (x, y) = (to::<F>(&a), to::<F>(&b));
    let fl = floor::<F>(n, n, k);
    let w1 = sorted(&unexpected("svd", x.svd(false, false))?.1);
    let w2 = sorted(&unexpected("svd", y.svd(false, false))?.1);
    close::<F>(ctx, "C29: singular values scale", &w2.iter().map(|v| ldexp(*v, -k)).collect::<Vec<_>>(), &w1, n, 1.0, fl)?;
    let (u, s, vt) = unexpected("svd", y.svd_into(true, true))?;
    close::<F>(ctx, "C29: singular values scale", &sorted(&s).iter().map(|v| ldexp(*v, -k)).collect::<Vec<_>>(), &w1, n, 1.0, fl)?;
    svd_factors::<F>(ctx, &b, &fr(&u.unwrap()), &fr1(&s), &fr(&vt.unwrap()), k)?;
    ctx.outcome("scaled");
    ctx.calls(3);
    ctx.nontrivial();
    Ok(())
}
fn eig_shift<F: Fl>(ctx: &mut Ctx, a: &A2, c: usize) -> Res {
    let a = rounded::<F>(a);
    let n = a.nrows();
    let m = amax(&a);
    let w1 = sorted(&unexpected("eigvalsh", to::<F>(&a).eigvalsh())?);
    let (b, want, mag): (A2, Vec<f64>, f64) = match c {
        0 => (a.mapv(|x| -x), w1.iter().rev().map(|x| -x).collect(), m),
        1..=5 => {
            let sh = F::of([1.0, -1.0, 0.5, 100.0, -7.0][c - 1] * m).f();
            let mut b = a.clone();
            for i in 0..n { b[(i, i)] += sh; }
            (rounded::<F>(&b), w1.iter().map(|x| x + sh).collect(), m + sh.abs())
        }
        6 => (A2::from_shape_fn((n, n), |(i, j)| a[(n - 1 - i, n - 1 - j)]), w1.clone(), m),
        _ => (A2::from_shape_fn((n, n), |(i, j)| a[(i, j)] * if (i % 2 == 0) == (j % 2 == 0) { 1.0 } else { -1.0 }), w1.clone(), m),
    };
    let name = ["C29: negation", "C29: shift", "C29: shift", "C29: shift", "C29: shift", "C29: shift", "C29: reversal similarity", "C29: sign similarity"][c];
    ctx.note(|| format!("{name} {c}"));
    let y = to::<F>(&b);
    close::<F>(ctx, name, &sorted(&unexpected("eigvalsh", y.eigvalsh())?), &want, n, mag, 0.0)?;
    close::<F>(ctx, name, &sorted(&unexpected("eigh", y.eigh())?.0), &want, n, mag, 0.0)?;
    ctx.calls(3);
    if n > 1 { ctx.nontrivial(); }
    Ok(())
}
fn svd_sym<F: Fl>(ctx: &mut Ctx, a: &A2, k: usize) -> Res {
    let a = rounded::<F>(a);
    let (r, c) = a.dim();
    let w1 = sorted(&unexpected("svd", to::<F>(&a).svd(false, false))?.1);
    let f = |g: &dyn Fn(usize, usize) -> f64| A2::from_shape_fn((r, c), |(i, j)| g(i, j));
    let b = match k {
        0 => a.mapv(|x| -x),
        1 => tr(&a),
        2 => f(&|i, j| a[(r - 1 - i, j)]),
        3 => f(&|i, j| a[(i, c - 1 - j)]),
        4 => f(&|i, j| a[(i, j)] * if i % 2 == 0 { 1.0 } else { -1.0 }),
        _ => f(&|i, j| a[((i + 1) % r, (j + c - 1) % c)]),
    };
    let y = to::<F>(&b);
    let n = r.max(c);
    close::<F>(ctx, "C29: singular values invariant", &sorted(&unexpected("svd", y.svd(false, false))?.1), &w1, n, amax(&a), 0.0)?;
    close::<F>(ctx, "C29: singular values invariant", &sorted(&unexpected("svd", y.svd(true, true))?.1), &w1, n, amax(&a), 0.0)?;
    ctx.calls(3);
    if r.min(c) > 1 { ctx.nontrivial(); }
    Ok(())
}

// ------------------------------------------------------------------------------- C30
/// One borrowing operation on a QR decomposition: its outcome as numbers.
fn qr_call<F: Fl, S: DataMut<Elem = F>>(d: &QRDecomp<F, S>, op: usize, r: usize, c: usize) -> (String, Option<A2>) {
    let b = to::<F>(&rhs_kind(2, r));
    let bt = to::<F>(&rhs_kind(2, c));
    let bad = Array2::<F>::ones((r + c + 1, 1));
    let res = |x: Result<Array2<F>, LinalgError>| match x { Ok(y) => ("ok".to_string(), Some(fr(&y))), Err(e) => (format!("{e:?}"), None) };
    match op {
        0 => ("ok".into(), Some(fr(&d.generate_q()))),
        1 => (format!("{}", d.is_invertible()), None),
        2 => res(d.solve(&b)),
        3 => res(d.solve_tr_into(bt)),
        4 => res(d.inverse()),
        5 => res(d.solve(&bad)),
        6 => res(d.solve_into(b)),
        7 => res(d.solve_tr(&bt)),
        8 => res(d.solve_tr_into(bad)),
        _ => unreachable!(),
    }
}
const NQR: usize = 9;
fn same(ctx: &mut Ctx, what: &'static str, got: &(String, Option<A2>), want: &(String, Option<A2>), eps: f64) -> Res {
    ctx.ok(what, got.0 == want.0, || format!("{} instead of {}", got.0, want.0))?;
    match (&got.1, &want.1) {
        (Some(x), Some(y)) => { dims(ctx, what, x.dim(), y.dim())?; ctx.le(what, maxdiff(x, y), 1e4 * eps * (1.0 + amax(y))) }
        (None, None) => Ok(()),
        _ => fail(what, "one of them has no value"),
    }
}
fn base30(ctx: &mut Ctx, shapes: &[(usize, usize)]) -> A2 {
    let (r, c) = shapes[ctx.choose(shapes.len())];
    let mut a = general(36, r, c, 0);
    for i in 0..r.min(c) { a[(i, i)] += 4.0; }
    match ctx.choose(3) {
        0 => {}
        1 => { if c > 0 { a.column_mut(c / 2).fill(0.0) } }
        _ => { for i in 0..r { for j in 0..c { if j < i { a[(i, j)] = 0.0; } } } }
    }
    reg(ctx, &a);
    a
}
fn c30(t: Tier) -> Vec<Space> {
    let th = t.thorough();
    let depth = if th { 5 } else { 4 };
    let mut v = vec![];
    v.push(space(format!("qr: every sequence of {depth} operations out of generate_q, is_invertible, solve, solve_tr_into, inverse, failing solve, solve_into, solve_tr, failing solve_tr_into, continue on a clone (original dropped), continue on the original (clone consumed); 6 shapes, invertible, singular and triangular; borrowed, owned column-major, shared and mutable-view decompositions"), move |ctx| {
        let a = base30(ctx, if th { &[(3, 3), (4, 2), (1, 1)] } else { &[(3, 3), (4, 2)] });
        let how = ctx.choose(4);
        ctx.state(how as u64);
        ctx.note(|| ["qr()", "qr_into(column-major)", "qr_into(ArcArray)", "qr_into(view of reversed strided storage)"][how].into());
        let ops: Vec<usize> = (0..depth).map(|_| ctx.choose(NQR + if how == 3 { 0 } else { 2 })).collect();
        for o in &ops { ctx.state(*o as u64 + 3); }
        ctx.note(|| format!("operations {ops:?}"));
        qr_seq::<f64>(ctx, &a, how, &ops)
    }));
    v.push(space("qr, single precision and more shapes: every sequence of 3 operations", move |ctx| {
        let a = base30(ctx, &[(3, 3), (4, 2), (1, 1), (2, 2), (5, 4), (3, 0), (0, 0), (6, 1)]);
        let how = ctx.choose(4);
        ctx.state(how as u64);
        let ops: Vec<usize> = (0..3).map(|_| ctx.choose(NQR + if how == 3 { 0 } else { 2 })).collect();
        for o in &ops { ctx.state(*o as u64 + 3); }
        ctx.note(|| format!("construction {how}, operations {ops:?}"));
        let s = flt(ctx);
        by!(s, qr_seq(ctx, &a, how, &ops))
    }));
    v.push(space("more shapes: every sequence of 2 (3 when thorough) operations on QR, tridiagonal and bidiagonal decompositions at shapes from 1x1 to 65x66, all constructions", move |ctx| {
        let what = ctx.choose(3);
        let mut sh: Vec<(usize, usize)> = vec![(1, 2), (2, 1), (1, 3), (3, 1), (1, 7), (7, 1), (2, 2), (2, 3), (3, 2), (4, 5), (5, 4), (4, 4), (6, 6), (2, 9), (9, 2), (9, 9), (8, 12), (12, 8), (17, 17), (20, 9), (9, 20), (33, 33), (34, 33), (33, 34)];
        if th { sh.extend([(1, 20), (20, 1), (16, 16), (48, 48), (65, 65), (65, 64), (64, 66), (3, 70), (70, 3)]); }
        let sh: Vec<(usize, usize)> = sh.into_iter().filter(|(r, c)| match what { 0 => r >= c, 1 => r == c, _ => true }).collect();
        let s = flt(ctx);
        let d = if th { 3 } else { 2 };
        ctx.state(what as u64);
        match what {
            0 => {
                let a = base30(ctx, &sh);
                let how = ctx.choose(4);
                ctx.state(how as u64);
                let ops: Vec<usize> = (0..d).map(|_| ctx.choose(NQR + if how == 3 { 0 } else { 2 })).collect();
                for o in &ops { ctx.state(*o as u64 + 3); }
                ctx.note(|| format!("construction {how}, operations {ops:?}"));
                by!(s, qr_seq(ctx, &a, how, &ops))
            }
            w => {
                let (r, c) = sh[ctx.choose(sh.len())];
                let mut a = match (w, ctx.choose(3)) { (1, 0) => symmetric(22, r, 1), (1, 1) => symmetric(16, r, 1), (1, _) => symmetric(6, r, 1), (_, 0) => general(36, r, c, 1), (_, 1) => general(17, r, c, 1), _ => general(12, r, c, 1) };
                if w == 2 { a[(0, 0)] += 3.0; }
                reg(ctx, &a);
                let how = ctx.choose(3);
                let ops: Vec<usize> = (0..d).map(|_| ctx.choose(if w == 1 { 4 } else { 6 })).collect();
                ctx.state(how as u64);
                for o in &ops { ctx.state(*o as u64 + 3); }
                ctx.note(|| format!("{} construction {how}, operations {ops:?}", if w == 1 { "tridiagonal" } else { "bidiagonal" }));
                if w == 1 { by!(s, tri_seq(ctx, &a, how, &ops)) } else { by!(s, bi_seq(ctx, &a, how, &ops)) }
            }
        }
    }));
    let d2 = if th { 7 } else { 5 };
    v.push(space(format!("tridiagonal and bidiagonal: every sequence of {d2} operations out of generate_q / generate_u, generate_vt, is_upper_diag, continue on a clone, consume a clone (into_diagonals, into_tridiag_matrix / into_b); 5 shapes, 3 constructions"), move |ctx| {
        let tri = ctx.flag();
        let how = ctx.choose(3);
        let (r, c) = if tri { ctx.pick(&[(3usize, 3usize), (4, 4), (1, 1), (2, 2), (5, 5)]) } else { ctx.pick(&[(3usize, 3usize), (4, 2), (2, 4), (1, 1), (5, 4)]) };
        let a = if tri { symmetric(22, r, 1) } else { general(36, r, c, 1) };
        reg(ctx, &a);
        let nops = if tri { 4 } else { 6 };
        let d2 = if tri { d2 } else { d2 - 1 };
        let ops: Vec<usize> = (0..d2).map(|_| ctx.choose(nops)).collect();
        ctx.state(tri as u64 * 3 + how as u64);
        for o in &ops { ctx.state(*o as u64 + 3); }
        ctx.note(|| format!("{} construction {how}, operations {ops:?}", if tri { "tridiagonal" } else { "bidiagonal" }));
        if tri { tri_seq::<f64>(ctx, &a, how, &ops) } else { bi_seq::<f64>(ctx, &a, how, &ops) }
    }));
    v
}
fn qr_seq<F: Fl>(ctx: &mut Ctx, a: &A2, how: usize, ops: &[usize]) -> Res {
    let a = &rounded::<F>(a);
    let (r, c) = a.dim();
    let x = to::<F>(a);
    fn run<F: Fl, S: DataMut<Elem = F>>(ctx: &mut Ctx, mut d: QRDecomp<F, S>, x: &Array2<F>, ops: &[usize], clone: impl Fn(&QRDecomp<F, S>) -> Option<QRDecomp<F, S>>) -> Res {
        let (r, c) = x.dim();
        let fresh = || unexpected("qr", x.qr());
        for &o in ops {
            if o < NQR {
                let want = qr_call(&fresh()?, o, r, c);
                let got = qr_call(&d, o, r, c);
                ctx.calls(2);
                same(ctx, "C30: same answer as a fresh decomposition", &got, &want, F::EPS)?;
            } else {
                let k = clone(&d).expect("cloneable");
                if o == NQR { d = k; } else {
                    // consuming the clone must not disturb the original
                    let (q, rr) = k.into_decomp();
                    let (q0, r0) = fresh()?.into_decomp();
                    same(ctx, "C30: the clone is equivalent", &("q".into(), Some(fr(&q))), &("q".into(), Some(fr(&q0))), F::EPS)?;
                    same(ctx, "C30: the clone is equivalent", &("r".into(), Some(fr(&rr.to_owned()))), &("r".into(), Some(fr(&r0))), F::EPS)?;
                }
            }
        }
        let (q0, r0) = fresh()?.into_decomp();
        let even = ops.iter().sum::<usize>() % 2 == 0;
        let rr = if even { let (q, rr) = d.into_decomp(); same(ctx, "C30: into_decomp after any history", &("q".into(), Some(fr(&q))), &("q".into(), Some(fr(&q0))), F::EPS)?; rr } else { d.into_r() };
        same(ctx, "C30: R after any history", &("r".into(), Some(fr(&rr.to_owned()))), &("r".into(), Some(fr(&r0))), F::EPS)
    }
    if r * c > 1 { ctx.nontrivial(); }
    match how {
        0 => run(ctx, unexpected("qr", x.qr())?, &x, ops, |d| Some(d.clone())),
        1 => run(ctx, unexpected("qr_into", Held::from(&x, 1).owned().qr_into())?, &x, ops, |d| Some(d.clone())),
        2 => { let keep = Held::from(&x, 0).owned().into_shared(); let res = run(ctx, unexpected("qr_into", keep.clone().qr_into())?, &x, ops, |d| Some(d.clone())); ctx.ok("C30: other owner of the storage undisturbed", same_bits(&keep.to_owned(), &x), String::new)?; res }
        _ => { let mut h = Held::from(&x, 8); let before = h.base.clone(); let res = { let d = unexpected("qr_into", h.view_mut().qr_into())?; run(ctx, d, &x, ops, |_| None) }; ctx.ok("C30: frame intact", h.frame_intact(&before), String::new)?; res }
    }
}
fn tri_seq<F: Fl>(ctx: &mut Ctx, a: &A2, how: usize, ops: &[usize]) -> Res {
    let a = &rounded::<F>(a);
    let x = to::<F>(a);
    fn run<F: Fl, S: DataMut<Elem = F>>(ctx: &mut Ctx, make: impl Fn() -> Result<TridiagonalDecomp<F, S>, LinalgError>, ops: &[usize], clone: impl Fn(&TridiagonalDecomp<F, S>) -> TridiagonalDecomp<F, S>) -> Res {
        // built in the same way, so that rounding is the same
        let fresh = || unexpected("sym_tridiagonal", make());
        let mut d = fresh()?;
        let q0 = ("q".to_string(), Some(fr(&fresh()?.generate_q())));
        let (dg0, of0) = fresh()?.into_diagonals();
        let (dg0, of0) = (("d".to_string(), Some(fr1(&dg0).insert_axis(ndarray::Axis(0)))), ("o".to_string(), Some(fr1(&of0).insert_axis(ndarray::Axis(0)))));
        let t0 = ("t".to_string(), Some(fr(&fresh()?.into_tridiag_matrix().to_owned())));
        for &o in ops {
            match o {
                0 => { ctx.calls(1); let q = d.generate_q(); same(ctx, "C30: Q", &("q".into(), Some(fr(&q))), &q0, F::EPS)?; }
                1 => d = clone(&d),
                2 => { let (p, q) = clone(&d).into_diagonals(); same(ctx, "C30: diagonal of the clone", &("d".into(), Some(fr1(&p).insert_axis(ndarray::Axis(0)))), &dg0, F::EPS)?; same(ctx, "C30: off-diagonal of the clone", &("o".into(), Some(fr1(&q).insert_axis(ndarray::Axis(0)))), &of0, F::EPS)?; }
                _ => { let m = clone(&d).into_tridiag_matrix(); same(ctx, "C30: T of the clone", &("t".into(), Some(fr(&m.to_owned()))), &t0, F::EPS)?; }
            }
        }
        if ops[0] % 2 == 0 { let m = d.into_tridiag_matrix(); same(ctx, "C30: T after any history", &("t".into(), Some(fr(&m.to_owned()))), &t0, F::EPS) }
        else { let (p, _) = d.into_diagonals(); same(ctx, "C30: diagonal after any history", &("d".into(), Some(fr1(&p).insert_axis(ndarray::Axis(0)))), &dg0, F::EPS) }
    }
    if a.nrows() > 1 { ctx.nontrivial(); }
    match how {
        0 => run(ctx, || x.clone().sym_tridiagonal(), ops, |d| d.clone()),
        1 => run(ctx, || Held::from(&x, 9).owned().sym_tridiagonal(), ops, |d| d.clone()),
        _ => { let keep = x.clone().into_shared(); let res = run(ctx, || keep.clone().sym_tridiagonal(), ops, |d| d.clone()); ctx.ok("C30: other owner of the storage undisturbed", same_bits(&keep.to_owned(), &x), String::new)?; res }
    }
}
fn bi_seq<F: Fl>(ctx: &mut Ctx, a: &A2, how: usize, ops: &[usize]) -> Res {
    let a = &rounded::<F>(a);
    let x = to::<F>(a);
    fn run<F: Fl, S: DataMut<Elem = F>>(ctx: &mut Ctx, make: impl Fn() -> Result<BidiagonalDecomp<F, S>, LinalgError>, ops: &[usize], clone: impl Fn(&BidiagonalDecomp<F, S>) -> BidiagonalDecomp<F, S>) -> Res {
        let fresh = || unexpected("bidiagonal", make());
        let mut d = fresh()?;
        let m = |n: &str, a: A2| (n.to_string(), Some(a));
        let v = |n: &str, a: Array1<F>| (n.to_string(), Some(fr1(&a).insert_axis(ndarray::Axis(0))));
        let (u0, v0, up0) = (m("u", fr(&fresh()?.generate_u())), m("v", fr(&fresh()?.generate_vt())), fresh()?.is_upper_diag());
        let (p0, q0) = fresh()?.into_diagonals();
        let (p0, q0) = (v("d", p0), v("o", q0));
        let b0 = m("b", fr(&fresh()?.into_b()));
        for &o in ops {
            ctx.calls(1);
            match o {
                0 => same(ctx, "C30: U", &m("u", fr(&d.generate_u())), &u0, F::EPS)?,
                1 => same(ctx, "C30: Vt", &m("v", fr(&d.generate_vt())), &v0, F::EPS)?,
                2 => ctx.ok("C30: is_upper_diag", d.is_upper_diag() == up0, String::new)?,
                3 => d = clone(&d),
                4 => { let (p, q) = clone(&d).into_diagonals(); same(ctx, "C30: diagonals of the clone", &v("d", p), &p0, F::EPS)?; same(ctx, "C30: diagonals of the clone", &v("o", q), &q0, F::EPS)?; }
                _ => same(ctx, "C30: B of the clone", &m("b", fr(&clone(&d).into_b())), &b0, F::EPS)?,
            }
        }
        if ops[0] % 2 == 0 { same(ctx, "C30: B after any history", &m("b", fr(&d.into_b())), &b0, F::EPS) }
        else { let (p, _) = d.into_diagonals(); same(ctx, "C30: diagonals after any history", &v("d", p), &p0, F::EPS) }
    }
    if a.len() > 1 { ctx.nontrivial(); }
    match how {
        0 => run(ctx, || x.clone().bidiagonal(), ops, |d| d.clone()),
        1 => run(ctx, || Held::from(&x, 9).owned().bidiagonal(), ops, |d| d.clone()),
        _ => { let keep = x.clone().into_shared(); let res = run(ctx, || keep.clone().bidiagonal(), ops, |d| d.clone()); ctx.ok("C30: other owner of the storage undisturbed", same_bits(&keep.to_owned(), &x), String::new)?; res }
    }
}
#[allow(unused)]
type _Unused = Ix1;
