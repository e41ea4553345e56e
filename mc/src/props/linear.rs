//! C02-C09: QR solving, least squares, Cholesky, triangular routines.
use crate::checks::*;
use crate::explore::{fail, space, Ctx, Res, Space};
use crate::gen::*;
use crate::num::*;
use crate::oracle;
use crate::spaces::{var_units, Tier, VARUNITS};
use linfa_linalg::{cholesky::*, qr::*, triangular::*, LinalgError};
use ndarray::Array2;

fn flt(ctx: &mut Ctx) -> bool { let s = ctx.flag(); ctx.state(s as u64); if s { ctx.note(|| "f32".into()); } s }
macro_rules! by { ($s:expr, $f:ident ( $($a:expr),* )) => { if $s { $f::<f32>($($a),*) } else { $f::<f64>($($a),*) } } }

/// Scales used for solving: result magnitudes stay well inside the range of the type.
const KA64: &[i32] = &[0, -400, 400, -60, 33];
const KA32: &[i32] = &[0, -50, 50, -13, 20];
fn pick_scale(ctx: &mut Ctx, single: bool) -> (i32, i32) {
    let t = if single { KA32 } else { KA64 };
    let (a, b) = (ctx.pick(t), ctx.pick(t));
    ctx.state((a * 7 + b) as u64);
    (a, b)
}
/// Column counts and orders around which code likes to change its mind.
const COLS: &[usize] = &[4, 5, 6, 7, 8, 9, 11, 12, 15, 16, 17, 24, 25, 31, 32, 33, 47, 48, 49, 63, 64, 65, 66, 67, 80, 96, 100, 101, 127, 128, 129, 130, 200, 256, 257];
const ORDERS: &[usize] = &[40, 47, 48, 49, 50, 63, 64, 65, 66, 96, 100, 127, 128, 129, 130];
const ORDERS_DEEP: &[usize] = &[36, 40, 44, 47, 48, 49, 50, 56, 63, 64, 65, 66, 72, 80, 96, 97, 100, 101, 120, 127, 128, 129, 130, 150, 192, 200, 255, 256, 257];
fn orders(t: Tier) -> &'static [usize] { if t.thorough() { ORDERS_DEEP } else { ORDERS } }
/// Right-hand sides of m columns, none like another.
fn wide_rhs(n: usize, m: usize) -> A2 { A2::from_shape_fn((n, m), |(i, j)| (((i * 31 + j * 17 + i * j * 7 + 3) % 101) as f64) / 50.0 - 1.0 + 1e-3 * j as f64) }
/// Well conditioned without asking the oracle: a few families plus a dominant, an anti- or no diagonal.
fn big(ctx: &mut Ctx, r: usize, c: usize) -> A2 {
    let id = ctx.pick(&[2usize, 12, 16, 36]);
    let mut a = general(id, r, c, 1);
    let (d, m) = (r.min(c), amax(&a) * r.max(c) as f64 + 1.0);
    let k = ctx.choose(2);
    for i in 0..d { if k == 0 { a[(i, i)] += m } else { a[(i, d - 1 - i)] -= m } }
    reg(ctx, &a);
    a
}
/// Orders, right-hand sides' column counts and scales every routine is crossed with.
fn crossed(ctx: &mut Ctx, t: Tier) -> (usize, usize, bool, i32, i32) {
    let n = ctx.pick(if t.thorough() { &[1usize, 2, 3, 4, 5, 6, 8, 9, 12, 13, 16, 17, 24, 31, 32, 33, 40] } else { &[1usize, 2, 3, 5, 8, 12, 17, 33] });
    let m = if n > 12 { ctx.pick(&[2usize, 9]) } else { ctx.pick(if t.thorough() { &[1usize, 2, 3, 4, 5, 8, 9, 12, 16, 17, 20, 33] } else { &[1usize, 3, 5, 9, 17] }) };
    ctx.state((n * 1000 + m) as u64);
    let s = flt(ctx);
    let (ka, kb) = if n > 12 && !t.thorough() { ctx.pick(&[(0, 0), (-3, 2)]) } else if s { ctx.pick(&[(0, 0), (-50, 20), (50, -40), (40, 40)]) } else { ctx.pick(&[(0, 0), (-400, 100), (400, -300), (300, 300)]) };
    ctx.state((ka * 7 + kb) as u64);
    (n, m, s, ka, kb)
}
const CROSSED: &str = "crossed: orders up to 33 (40) x right-hand sides of up to 17 (33) columns x 4 scales of both x 10 memory layouts of the matrix x 5 of the right-hand side";
fn condlim(single: bool) -> f64 { if single { 3e2 } else { 1e7 } }

pub fn spaces(prop: &str, t: Tier) -> Vec<Space> {
    match prop {
        "C02" => c02(t),
        "C03" => c03(t),
        "C04" => c04(t),
        "C05" => c05(t),
        "C06" => c06(t),
        "C07" => c07(t),
        "C08" => c08(t),
        "C09" => c09(t),
        _ => vec![],
    }
}
fn det_ok(a: &A2) -> bool { oracle::ints(a).map_or(false, |m| oracle::det(&m) != 0) }

// ------------------------------------------------------------------------------- C02
const MAGNITUDES: &str = "magnitudes: a corner block, one entry, row, column or the coupling of two blocks of a family scaled by 2^-1 .. 2^-64, and geometric grading of rows, columns or both; right-hand sides plain, or graded along rows and columns";
/// Right-hand sides whose rows or columns differ in magnitude, or that have rows and columns of zeros.
fn graded_rhs(ctx: &mut Ctx, n: usize) -> A2 {
    let k = ctx.choose(5);
    ctx.state(k as u64);
    let mut b = wide_rhs(n, 3);
    match k {
        0 => {}
        1 => for i in 0..n { for j in 0..3 { b[(i, j)] = ldexp(b[(i, j)], -13 * (i + 2 * j) as i32); } }
        2 => for i in 0..n { for j in 0..3 { b[(i, j)] = ldexp(b[(i, j)], -13 * ((n - 1 - i) + 2 * (2 - j)) as i32); } }
        3 => { b.row_mut(0).fill(0.0); b.column_mut(1).fill(0.0); }
        _ => { b.row_mut(n - 1).fill(0.0); b.column_mut(0).fill(0.0); }
    }
    b
}
fn c02(t: Tier) -> Vec<Space> {
    let mut v = vec![];
    let mut dense_s = |name: &str, ns: &'static [usize], al: &'static [f64]| {
        v.push(space(format!("dense {name}: every invertible (exact determinant) matrix of order {ns:?} over {al:?} x 7 right-hand sides"), move |ctx| {
            let n = ctx.pick(ns);
            let a = dense(ctx, n, n, al);
            if !det_ok(&a) { ctx.outcome("singular, skipped"); return Ok(()); }
            let b = rhs(ctx, n);
            let s = flt(ctx);
            ctx.outcome("solved");
            by!(s, qr_solve(ctx, &a, &b, 0, 0))
        }));
    };
    dense_s("ternary", &[0, 1, 2, 3], Z3);
    dense_s("seven", &[1, 2], Z7);
    if t.thorough() { dense_s("quinary", &[3], Z5); dense_s("binary", &[4], Z2); }
    {
        let mut ns: Vec<usize> = (1..=10).collect();
        ns.extend([12, 16, 17, 32, 33]);
        if t.thorough() { ns.extend([20, 24, 48, 64, 65, 100]); }
        v.push(space(format!("families: {NGEN} families, and each plus a multiple of the identity, at orders {ns:?}, condition at most 1e7 (300 for f32), x 7 right-hand sides"), move |ctx| {
            let n = ns[ctx.choose(ns.len())];
            let a = invertible(ctx, n);
            let s = flt(ctx);
            if !(cond(&a) <= condlim(s)) { ctx.outcome("ill conditioned, skipped"); return Ok(()); }
            let b = rhs(ctx, n);
            ctx.outcome("solved");
            by!(s, qr_solve(ctx, &a, &b, 0, 0))
        }));
    }
    v.push(space("permutations: every signed permutation-like matrix of order 1..4 times a diagonal, x 7 right-hand sides", |ctx| {
        let n = 1 + ctx.choose(4);
        let mut left: Vec<usize> = (0..n).collect();
        let mut a = A2::zeros((n, n));
        for i in 0..n { let j = left.remove(ctx.choose(left.len())); a[(i, j)] = ctx.pick(&[1.0, -1.0, 5.0]); }
        reg(ctx, &a);
        let b = rhs(ctx, n);
        let s = flt(ctx);
        by!(s, qr_solve(ctx, &a, &b, 0, 0))
    }));
    v.push(space("scales: families at orders 1, 2, 3, 5 with A and b scaled independently by powers of two", |ctx| {
        let n = ctx.pick(&[1usize, 2, 3, 5]);
        let a = invertible(ctx, n);
        let s = flt(ctx);
        if !(cond(&a) <= condlim(s)) { return Ok(()); }
        let (ka, kb) = pick_scale(ctx, s);
        let b = rhs(ctx, n);
        by!(s, qr_solve(ctx, &a, &b, ka, kb))
    }));
    v.push(space(format!("right-hand sides of {COLS:?} columns at orders 1, 2, 3, 7, 18"), |ctx| {
        let n = ctx.pick(&[1usize, 2, 3, 7, 18]);
        let m = ctx.pick(COLS);
        let a = big(ctx, n, n);
        ctx.state(m as u64);
        let s = flt(ctx);
        by!(s, qr_solve(ctx, &a, &wide_rhs(n, m), 0, 0))
    }));
    v.push(space(format!("large: dominant and anti-dominant families at orders {:?} x right-hand sides of 1, 3, 66 columns", orders(t)), move |ctx| {
        let n = ctx.pick(orders(t));
        let m = ctx.pick(if n < 70 { &[1usize, 3, 66] } else { &[3usize] });
        let a = big(ctx, n, n);
        ctx.state(m as u64);
        let s = flt(ctx);
        by!(s, qr_solve(ctx, &a, &wide_rhs(n, m), 0, 0))
    }));
    {
        let d = if t.thorough() { 2 } else { 1 };
        v.push(space(format!("deviations: at most {d} entries of base families (orders 2..6) replaced"), move |ctx| {
            let n = 2 + ctx.choose(5);
            let id = ctx.pick(&[2usize, 7, 8, 14, 15, 16, 17, 25, 33]);
            let a = deviate(ctx, general(id, n, n, 0), d, &[0.0, 1.0, -3.0, 1e-3, 40.0], false);
            let s = flt(ctx);
            if !(cond(&a) <= condlim(s)) { return Ok(()); }
            let k = ctx.choose(3);
            ctx.state(k as u64);
            by!(s, qr_solve(ctx, &a, &rhs_kind(k, n), 0, 0))
        }));
    }
    v.push(space(format!("{VARUNITS}; orders 1..6"), move |ctx| {
        let n = 1 + ctx.choose(6);
        let a = if n <= 3 { gen_family(ctx, n, n) } else { big(ctx, n, n) };
        let s = flt(ctx);
        if !(cond(&a) <= condlim(s)) { ctx.outcome("ill conditioned, skipped"); return Ok(()); }
        var_units(ctx, n, s);
        by!(s, qr_solve(ctx, &a, &wide_rhs(n, 3), 0, 0))
    }));
    v.push(space(format!("{MAGNITUDES}, orders 2..6, condition at most 1e7 (300 for f32)"), move |ctx| {
        let n = 2 + ctx.choose(5);
        let a = big(ctx, n, n);
        let a = crate::spaces::magnitudes(ctx, a, false, t.thorough());
        let s = flt(ctx);
        if !(cond(&a) <= condlim(s)) { ctx.outcome("ill conditioned, skipped"); return Ok(()); }
        let b = graded_rhs(ctx, n);
        by!(s, qr_solve(ctx, &a, &b, 0, 0))
    }));
    v.push(space(format!("{CROSSED}, dominant and anti-dominant families"), move |ctx| {
        let (n, m, s, ka, kb) = crossed(ctx, t);
        let a = big(ctx, n, n);
        pick_layouts(ctx);
        by!(s, qr_solve(ctx, &a, &wide_rhs(n, m), ka, kb))
    }));
    v
}
/// Families with and without an added diagonal (which makes most of them well conditioned).
fn invertible(ctx: &mut Ctx, n: usize) -> A2 {
    let mut a = gen_family(ctx, n, n);
    match ctx.choose(3) { 0 => {} 1 => { let m = amax(&a) * n as f64 + 1.0; for i in 0..n { a[(i, i)] += m; } } _ => { let m = amax(&a) * 1.5 + 0.5; for i in 0..n { a[(i, n - 1 - i)] -= m; } } }
    reg(ctx, &a);
    a
}
// ------------------------------------------------------------------------------- C03
fn c03(t: Tier) -> Vec<Space> {
    let mut v = vec![];
    let mut dense_s = |name: &str, shapes: Vec<(usize, usize)>, al: &'static [f64]| {
        v.push(space(format!("dense {name}: every full-rank (exact rank) matrix of shape {shapes:?} over {al:?} x 7 right-hand sides (mostly outside its range)"), move |ctx| {
            let (r, c) = shapes[ctx.choose(shapes.len())];
            let a = dense(ctx, r, c, al);
            if oracle::ints(&a).map_or(true, |m| oracle::rank(&m) < r.min(c)) { ctx.outcome("rank deficient, skipped"); return Ok(()); }
            let b = rhs(ctx, r);
            let s = flt(ctx);
            ctx.outcome(if r > c { "overdetermined" } else if r < c { "underdetermined" } else { "square" });
            by!(s, lstsq(ctx, &a, &b, 0, 0))
        }));
    };
    dense_s("ternary", vec![(1, 1), (1, 2), (2, 1), (1, 3), (3, 1), (2, 2), (2, 3), (3, 2), (4, 1), (1, 4)], Z3);
    dense_s("ternary 2x4", vec![(2, 4), (4, 2)], Z3);
    dense_s("seven", vec![(1, 2), (2, 1), (2, 2)], Z7);
    dense_s("ternary 3x3", vec![(3, 3)], Z3);
    dense_s("binary", vec![(4, 3), (3, 4)], Z2);
    if t.thorough() {
        dense_s("quinary", vec![(3, 2), (2, 3)], Z5);
        dense_s("binary 5", vec![(5, 2), (2, 5), (5, 3), (3, 5), (4, 4)], Z2);
    }
    {
        let mut shapes = vec![];
        for r in 1..=9 { for c in 1..=9 { shapes.push((r, c)); } }
        shapes.extend([(20, 3), (3, 20), (33, 8), (8, 33), (17, 16), (16, 17), (40, 1), (1, 40), (33, 32)]);
        if t.thorough() { shapes.extend([(64, 30), (30, 64), (65, 64), (64, 65), (100, 7), (7, 100), (130, 129)]); }
        v.push(space(format!("families: {NGEN} families (and shifted diagonals), condition at most 1e7 (300 for f32), at {} shapes x 7 right-hand sides", shapes.len()), move |ctx| {
            let (r, c) = shapes[ctx.choose(shapes.len())];
            let mut a = gen_family(ctx, r, c);
            if ctx.flag() { let m = amax(&a) * r.min(c) as f64 + 1.0; for i in 0..r.min(c) { a[(i, i)] += m; } }
            reg(ctx, &a);
            let s = flt(ctx);
            if !(cond(&a) <= condlim(s)) { ctx.outcome("ill conditioned, skipped"); return Ok(()); }
            let b = rhs(ctx, r);
            by!(s, lstsq(ctx, &a, &b, 0, 0))
        }));
    }
    v.push(space("scales: A and b scaled independently by powers of two, shapes up to 5x5", |ctx| {
        let (r, c) = ctx.pick(&[(1usize, 1usize), (2, 2), (3, 2), (2, 3), (5, 3), (3, 5)]);
        let mut a = gen_family(ctx, r, c);
        if ctx.flag() { let m = amax(&a) + 1.0; for i in 0..r.min(c) { a[(i, i)] += m; } }
        reg(ctx, &a);
        let s = flt(ctx);
        if !(cond(&a) <= condlim(s)) { return Ok(()); }
        let (ka, kb) = pick_scale(ctx, s);
        let b = rhs(ctx, r);
        by!(s, lstsq(ctx, &a, &b, ka, kb))
    }));
    {
        let d = if t.thorough() { 2 } else { 1 };
        v.push(space(format!("deviations: at most {d} entries of base families (2..6 rows and columns) replaced"), move |ctx| {
            let (r, c) = (2 + ctx.choose(5), 2 + ctx.choose(5));
            let id = ctx.pick(&[2usize, 7, 8, 16, 17, 25, 27, 28]);
            let a = deviate(ctx, general(id, r, c, 0), d, &[0.0, 1.0, -3.0, 1e-3, 40.0], false);
            let s = flt(ctx);
            if !(cond(&a) <= condlim(s)) { return Ok(()); }
            let k = ctx.pick(&[0usize, 2]);
            ctx.state(k as u64);
            by!(s, lstsq(ctx, &a, &rhs_kind(k, r), 0, 0))
        }));
    }
    v.push(space(format!("right-hand sides of {COLS:?} columns at 5 shapes"), |ctx| {
        let (r, c) = ctx.pick(&[(2usize, 2usize), (5, 2), (2, 5), (9, 4), (4, 9)]);
        let m = ctx.pick(COLS);
        let a = big(ctx, r, c);
        ctx.state(m as u64);
        let s = flt(ctx);
        by!(s, lstsq(ctx, &a, &wide_rhs(r, m), 0, 0))
    }));
    {
        let mut shapes = vec![(4usize, 2usize), (8, 2), (9, 3), (16, 2), (12, 1), (13, 1), (24, 2), (25, 2), (33, 4), (40, 2), (50, 5), (64, 1), (64, 4), (100, 3), (128, 2), (200, 4), (257, 2), (130, 16), (100, 10), (72, 12)];
        if t.thorough() { for c in 1..=8 { for k in [3, 5, 6, 7, 10, 12, 15, 20, 30, 33, 60] { shapes.push((c * k, c)); shapes.push((c * k + 1, c)); } } }
        v.push(space(format!("elongated: near-collinear columns (rows) with gaps 1, 1e-1 (all), 1e-2 .. 1e-6 (f64), at {} shapes with up to 257 times as many rows as columns, and their transposes, x 4 right-hand sides in and out of the range", shapes.len()), move |ctx| {
            let (mut r, mut c) = shapes[ctx.choose(shapes.len())];
            if ctx.flag() { std::mem::swap(&mut r, &mut c); }
            let s = flt(ctx);
            let g = if s { ctx.pick(&[1.0, 0.1]) } else { ctx.pick(&[1.0, 1e-1, 1e-2, 1e-3, 1e-4, 1e-5, 1e-6]) };
            let k = ctx.choose(2);
            let a = crate::spaces::collinear(r, c, g, k);
            let a = if s { rounded::<f32>(&a) } else { a };
            reg(ctx, &a);
            if !(cond(&a) <= condlim(s)) { ctx.outcome("ill conditioned, skipped"); return Ok(()); }
            let q = ctx.choose(4);
            ctx.state(q as u64);
            let b = match q { 0 => mul(&a, &A2::from_elem((c, 1), 1.0)), 1 => mul(&a, &wide_rhs(c, 2)), 2 => wide_rhs(r, 2), _ => &mul(&a, &wide_rhs(c, 2)) + &scaled(&wide_rhs(r, 2), 20) };
            by!(s, lstsq(ctx, &a, &b, 0, 0))
        }));
    }
    v.push(space(format!("large: dominant and anti-dominant families with one side in {:?}", orders(t)), move |ctx| {
        let n = ctx.pick(orders(t));
        let (r, c) = match ctx.choose(5) { 0 => (n, n), 1 => (n, n - 1), 2 => (n - 1, n), 3 => (n, n / 3), _ => (n / 3, n) };
        let a = big(ctx, r, c);
        let s = flt(ctx);
        by!(s, lstsq(ctx, &a, &wide_rhs(r, 2), 0, 0))
    }));
    v.push(space(format!("{VARUNITS} (of the rows, if wide); 12 shapes"), move |ctx| {
        let (r, c) = ctx.pick(&[(2usize, 1usize), (1, 2), (2, 2), (3, 2), (2, 3), (4, 2), (2, 4), (5, 3), (3, 5), (4, 4), (7, 4), (4, 7)]);
        let a = if r.max(c) <= 4 { gen_family(ctx, r, c) } else { big(ctx, r, c) };
        let s = flt(ctx);
        if !(cond(&a) <= condlim(s)) { ctx.outcome("ill conditioned, skipped"); return Ok(()); }
        var_units(ctx, r.min(c), s);
        by!(s, lstsq(ctx, &a, &wide_rhs(r, 3), 0, 0))
    }));
    v.push(space(format!("{MAGNITUDES}, 10 shapes, condition at most 1e7 (300 for f32)"), move |ctx| {
        let (r, c) = ctx.pick(&[(2usize, 1usize), (1, 2), (2, 2), (3, 2), (2, 3), (4, 2), (2, 4), (5, 3), (3, 5), (4, 4)]);
        let a = big(ctx, r, c);
        let a = crate::spaces::magnitudes(ctx, a, false, t.thorough());
        let s = flt(ctx);
        if !(cond(&a) <= condlim(s)) { ctx.outcome("ill conditioned, skipped"); return Ok(()); }
        let b = graded_rhs(ctx, r);
        by!(s, lstsq(ctx, &a, &b, 0, 0))
    }));
    v.push(space(format!("{CROSSED}, square, tall and wide"), move |ctx| {
        let (n, m, s, ka, kb) = crossed(ctx, t);
        let (r, c) = match ctx.choose(3) { 0 => (n, n), 1 => (n + 1 + n / 2, n), _ => (n, n + 1 + n / 2) };
        let a = big(ctx, r, c);
        pick_layouts(ctx);
        by!(s, lstsq(ctx, &a, &wide_rhs(r, m), ka, kb))
    }));
    v
}
// ------------------------------------------------------------------------------- C04
fn routes<F: Fl>(ctx: &Ctx, a: &A2) -> Vec<(&'static str, Result<(), LinalgError>)> {
    let (r, c) = a.dim();
    let x = hold::<F>(ctx, a, 0);
    let mut v = vec![];
    let tall = if r >= c { x.clone() } else { x.clone().reversed_axes() };
    let (m, n) = tall.dim();
    let (bm, bn) = (hold::<F>(ctx, &A2::ones((m, 2)), 1), hold::<F>(ctx, &A2::ones((n, 2)), 1));
    let d = tall.qr().unwrap();
    let d2 = tall.clone().qr_into().unwrap();
    for (i, d) in [d, d2].iter().enumerate() {
        v.push((["solve", "solve (qr_into)"][i], d.solve(&bm).map(|_| ())));
        v.push((["solve_into", "solve_into (qr_into)"][i], d.solve_into(bm.clone()).map(|_| ())));
        v.push((["solve_tr", "solve_tr (qr_into)"][i], d.solve_tr(&bn).map(|_| ())));
        v.push((["solve_tr_into", "solve_tr_into (qr_into)"][i], d.solve_tr_into(bn.clone()).map(|_| ())));
        if m == n { v.push((["inverse", "inverse (qr_into)"][i], d.inverse().map(|_| ()))); }
        v.push((["is_invertible", "is_invertible (qr_into)"][i], if d.is_invertible() { Ok(()) } else { Err(LinalgError::NonInvertible) }));
    }
    let b = hold::<F>(ctx, &A2::ones((r, 2)), 1);
    v.push(("least_squares", x.clone().least_squares(&b).map(|_| ())));
    v.push(("least_squares_into", x.clone().least_squares_into(b.clone()).map(|_| ())));
    if r == c {
        v.push(("least_squares of the transpose", x.clone().reversed_axes().least_squares(&b).map(|_| ())));
    }
    v
}
fn must_reject<F: Fl>(ctx: &mut Ctx, a: &A2, square_transpose: bool) -> Res {
    let rs = routes::<F>(ctx, a);
    ctx.calls(rs.len() as u64);
    for (name, r) in rs {
        if name == "least_squares of the transpose" && !square_transpose { continue; }
        let ok = matches!(r, Err(LinalgError::NonInvertible));
        ctx.ok("C04: exactly zero column is rejected", ok, || format!("{name}: {}", match &r { Ok(()) => "succeeded".into(), Err(e) => err_name(e) }))?;
    }
    ctx.outcome("rejected");
    ctx.nontrivial();
    Ok(())
}
fn must_accept<F: Fl>(ctx: &mut Ctx, a: &A2) -> Res {
    let rs = routes::<F>(ctx, a);
    ctx.calls(rs.len() as u64);
    for (name, r) in rs {
        // the variables of the transpose are the rows, whose units may hide its rank
        if name == "least_squares of the transpose" && !ctx.units.is_empty() { continue; }
        ctx.ok("C04: well-conditioned matrix is accepted", r.is_ok(), || format!("{name}: {}", err_name(r.as_ref().unwrap_err())))?;
    }
    ctx.outcome("accepted");
    ctx.nontrivial();
    Ok(())
}
fn c04(t: Tier) -> Vec<Space> {
    let mut v = vec![];
    // zero column (tall), zero row (wide)
    let zero = |a: &mut A2, k: usize| { if a.nrows() >= a.ncols() { a.column_mut(k).fill(0.0) } else { a.row_mut(k).fill(0.0) } };
    let mut dense_z = |name: &str, shapes: Vec<(usize, usize)>, al: &'static [f64]| {
        v.push(space(format!("zero column (row, if wide) in every position of every {name} matrix of shape {shapes:?}"), move |ctx| {
            let (r, c) = shapes[ctx.choose(shapes.len())];
            let k = ctx.choose(r.min(c));
            let tall = r >= c;
            let sub = if tall { dense(ctx, r, c - 1, al) } else { dense(ctx, r - 1, c, al) };
            let a = A2::from_shape_fn((r, c), |(i, j)| { let z = if tall { j } else { i }; if z == k { 0.0 } else { let s = if z > k { z - 1 } else { z }; if tall { sub[(i, s)] } else { sub[(s, j)] } } });
            ctx.state(k as u64);
            ctx.note(|| show(&a));
            let s = flt(ctx);
            by!(s, must_reject(ctx, &a, false))
        }));
    };
    dense_z("ternary", vec![(1, 1), (2, 1), (3, 1), (2, 2), (3, 2), (4, 2), (3, 3), (1, 2), (1, 3), (2, 3), (2, 4)], Z3);
    dense_z("graded", vec![(2, 2), (3, 2), (2, 3)], GRADED);
    dense_z("binary", vec![(4, 4), (4, 3), (3, 4)], Z2);
    if t.thorough() { dense_z("quinary", vec![(3, 3), (4, 3), (3, 4)], &[0.0, 1.0, -1.0, 2.0, -2.0]); dense_z("ternary 4x4", vec![(4, 4)], Z3); }
    {
        let mut shapes = vec![(1, 1), (2, 2), (3, 3), (4, 4), (5, 5), (8, 8), (5, 3), (3, 5), (7, 4), (4, 7), (16, 16), (17, 9), (9, 17), (33, 32), (20, 1), (1, 20)];
        if t.thorough() { shapes.extend([(6, 6), (12, 12), (64, 64), (65, 33), (33, 65)]); }
        let shapes2: Vec<(usize, usize)> = vec![(48, 48), (64, 64), (65, 65), (66, 40), (40, 66), (100, 100), (129, 129), (130, 70), (200, 3), (3, 200), (257, 2)];
        v.push(space(format!("zero column at first, second, middle, 64th, last position of dominant families at {shapes2:?}; and the same without"), move |ctx| {
            let (r, c) = shapes2[ctx.choose(shapes2.len())];
            let mut a = big(ctx, r, c);
            let d = r.min(c);
            let k = [d, 0, 1, d / 2, 31, 32, 63, 64, d - 2, d - 1][ctx.choose(10)];
            let s = flt(ctx);
            if k < d { zero(&mut a, k); reg(ctx, &a); by!(s, must_reject(ctx, &a, false)) } else { by!(s, must_accept(ctx, &a)) }
        }));
        v.push(space(format!("zero column in first, middle, last position of {NGEN} families at {shapes:?}, at powers of two over the whole range"), move |ctx| {
            let (r, c) = shapes[ctx.choose(shapes.len())];
            let mut a = gen_family(ctx, r, c);
            let d = r.min(c);
            let k = [0, d / 2, d - 1][ctx.choose(if d >= 3 { 3 } else { d })];
            let k = if d == 2 { k.min(1) } else { k };
            zero(&mut a, k);
            let s = flt(ctx);
            let e = if s { ctx.pick(&[0, -110, 100]) } else { ctx.pick(&[0, -1000, 900]) };
            let a = scaled(&a, -e);
            reg(ctx, &a);
            by!(s, must_reject(ctx, &a, false))
        }));
    }
    let mut dense_i = |name: &str, shapes: Vec<(usize, usize)>, al: &'static [f64]| {
        v.push(space(format!("accept: every full-rank {name} matrix of shape {shapes:?}"), move |ctx| {
            let (r, c) = shapes[ctx.choose(shapes.len())];
            let a = dense(ctx, r, c, al);
            if oracle::ints(&a).map_or(true, |m| oracle::rank(&m) < r.min(c)) { ctx.outcome("rank deficient, skipped"); return Ok(()); }
            let s = flt(ctx);
            by!(s, must_accept(ctx, &a))
        }));
    };
    dense_i("ternary", vec![(1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (3, 2), (3, 3), (4, 2), (2, 4)], Z3);
    dense_i("binary", vec![(4, 4), (4, 3), (3, 4)], Z2);
    if t.thorough() { dense_i("quinary", vec![(3, 3), (3, 2), (2, 3)], Z5); }
    {
        let mut shapes = vec![(1, 1), (2, 2), (3, 3), (4, 4), (5, 5), (5, 3), (3, 5), (8, 8), (7, 2), (2, 7), (12, 12)];
        if t.thorough() { shapes.extend([(6, 6), (16, 16), (33, 32), (32, 33), (64, 64)]); }
        v.push(space(format!("accept: {NGEN} families (and with a shifted diagonal) of condition at most 1e6 (100 for f32) at {shapes:?}, at powers of two over the whole range"), move |ctx| {
            let (r, c) = shapes[ctx.choose(shapes.len())];
            let mut a = gen_family(ctx, r, c);
            if ctx.flag() { let m = amax(&a) * r.min(c) as f64 + 1.0; for i in 0..r.min(c) { a[(i, i)] += m; } }
            let s = flt(ctx);
            let lim = if s { 1e2 } else { 1e6 };
            if !(cond(&a) <= lim) { ctx.outcome("ill conditioned, skipped"); return Ok(()); }
            let e = if s { ctx.pick(&[0, -100, -110, -126, 100, 118]) } else { ctx.pick(&[0, -500, -560, -960, -1010, 500, 900, 1010]) };
            let a = scaled(&a, expo(&a) - e);
            let a = if s { rounded::<f32>(&a) } else { a };
            // entries must survive the scaling
            let small = a.iter().filter(|x| **x != 0.0).fold(f64::INFINITY, |m, x| m.min(x.abs()));
            let low = if s { 1.2e-38 } else { 2.3e-308 };
            let sub = if s { f32::SUB } else { f64::SUB };
            if small < low && !(cond(&a) <= lim && amax(&a) / lim > sub * 64.0 * (r + c) as f64) { ctx.outcome("subnormal, skipped"); return Ok(()); }
            reg(ctx, &a);
            by!(s, must_accept(ctx, &a))
        }));
    }
    v.push(space(format!("{VARUNITS} (of the rows, if wide); accept: families of condition at most 1e6 (100 for f32) at 14 shapes; reject: the same with a zero column"), move |ctx| {
        let (r, c) = ctx.pick(&[(1usize, 1usize), (2, 2), (3, 3), (2, 1), (1, 2), (3, 2), (2, 3), (4, 2), (2, 4), (5, 3), (3, 5), (4, 4), (5, 5), (6, 6)]);
        let mut a = if r.max(c) <= 3 { gen_family(ctx, r, c) } else { big(ctx, r, c) };
        let s = flt(ctx);
        if !(cond(&a) <= if s { 1e2 } else { 1e6 }) { ctx.outcome("ill conditioned, skipped"); return Ok(()); }
        let d = r.min(c);
        let k = ctx.choose(d + 1);
        if k < d { zero(&mut a, k); reg(ctx, &a); }
        var_units(ctx, d, s);
        let a = if r >= c { unit_cols(ctx, &a, 1) } else { unit_rows(ctx, &a, 1) };
        if k < d { by!(s, must_reject(ctx, &a, false)) } else { by!(s, must_accept(ctx, &a)) }
    }));
    v.push(space("layouts: dominant families at orders up to 33 and 5 other shapes, one column (every position up to order 5) zero or none, 3 scales, 10 memory layouts of the matrix x 5 of the right-hand side", move |ctx| {
        let (r, c) = ctx.pick(&[(1usize, 1usize), (2, 2), (3, 3), (5, 5), (12, 12), (33, 33), (5, 3), (3, 5), (9, 8), (8, 9), (40, 2)]);
        let mut a = big(ctx, r, c);
        let d = r.min(c);
        let k = if d <= 5 { ctx.choose(d + 1) } else { [0, d / 2, d - 1, d][ctx.choose(4)] };
        if k < d { zero(&mut a, k); reg(ctx, &a); }
        let s = flt(ctx);
        let e = if s { ctx.pick(&[0, -100, 100]) } else { ctx.pick(&[0, -900, 900]) };
        let a = scaled(&a, expo(&a) - e);
        ctx.state(e as u64);
        pick_layouts(ctx);
        if k < d { by!(s, must_reject(ctx, &a, false)) } else { by!(s, must_accept(ctx, &a)) }
    }));
    v
}
// ------------------------------------------------------------------------------- C05
fn posdef_int(a: &A2) -> Option<bool> { oracle::ints(a).map(|m| oracle::leading_minors(&m).iter().all(|d| *d > 0)) }
/// Fills the strictly upper triangle.
fn poison(ctx: &mut Ctx, a: &mut A2) {
    let k = ctx.choose(5);
    ctx.state(k as u64);
    let n = a.nrows();
    for i in 0..n { for j in i + 1..n { match k { 0 => {} 1 => a[(i, j)] = f64::NAN, 2 => a[(i, j)] = 0.0, 3 => a[(i, j)] = -1e30 * (i + j) as f64, _ => a[(i, j)] = if (i + j) % 2 == 0 { f64::INFINITY } else { 0.125 * (i as f64 - j as f64) } } } }
    ctx.note(|| format!("upper triangle: {}", ["symmetric", "NaN", "zeros", "huge", "mixed"][k]));
}
fn c05(t: Tier) -> Vec<Space> {
    let mut v = vec![];
    let mut dense_s = |name: &str, ns: &'static [usize], al: &'static [f64], dg: &'static [f64]| {
        v.push(space(format!("dense {name}: every positive definite (exact Sylvester) symmetric matrix of order {ns:?}, diagonal over {dg:?}, off-diagonal over {al:?} x 5 contents of the upper triangle"), move |ctx| {
            let n = ctx.pick(ns);
            let mut a = A2::zeros((n, n));
            for i in 0..n { for j in 0..i { let x = ctx.pick(al); a[(i, j)] = x; a[(j, i)] = x; } a[(i, i)] = ctx.pick(dg); }
            reg(ctx, &a);
            if n > 0 && posdef_int(&a) != Some(true) { ctx.outcome("not definite, skipped"); return Ok(()); }
            poison(ctx, &mut a);
            let s = flt(ctx);
            ctx.outcome("definite");
            by!(s, chol(ctx, &a))
        }));
    };
    dense_s("small", &[0, 1, 2], &[0.0, 1.0, -1.0, 2.0, -3.0, 5.0], &[1.0, 2.0, 3.0, 4.0, 7.0, 9.0, 16.0, 26.0]);
    dense_s("order 3", &[3], Z5, &[1.0, 2.0, 3.0, 5.0, 9.0]);
    dense_s("order 4", &[4], Z3, &[2.0, 3.0]);
    if t.thorough() { dense_s("order 4 wide", &[4], Z3, &[1.0, 2.0, 3.0, 5.0]); dense_s("order 5", &[5], Z2, &[2.0, 3.0, 4.0]); }
    v.push(chol_families(t));
    v.push(space(format!("{VARUNITS}; definite families at orders 1..6, upper triangle symmetric or misleading"), |ctx| {
        let n = 1 + ctx.choose(6);
        let mut a = if n <= 3 { spd_family(ctx, n) } else { big_definite(ctx, n) };
        let s = flt(ctx);
        if !(cond(&a) <= condlim(s)) { ctx.outcome("ill conditioned, skipped"); return Ok(()); }
        var_units(ctx, n, s);
        poison(ctx, &mut a);
        by!(s, chol(ctx, &a))
    }));
    v.push(space(format!("large: definite families at orders {:?}, upper triangle NaN or symmetric", orders(t)), move |ctx| {
        let n = ctx.pick(orders(t));
        let mut a = big_definite(ctx, n);
        if ctx.flag() { for i in 0..n { for j in i + 1..n { a[(i, j)] = f64::NAN; } } ctx.state(1); }
        let s = flt(ctx);
        by!(s, chol(ctx, &a))
    }));
    v.push(space("small pivots: definite families whose pivot k is 1, 1e-2, .. 1e-12 of its diagonal entry, orders 2..12, 33, every k (up to 12)", |ctx| {
        let n = ctx.pick(&[2usize, 3, 4, 5, 6, 8, 9, 12, 33]);
        let (mut a, _) = pivot(ctx, n, &[1e-2, 1e-4, 1e-6, 1e-8, 1e-10, 1e-12]);
        let s = flt(ctx);
        let dec = if s { decide::<f32>(&a) } else { decide::<f64>(&a) };
        if dec != Some(true) { ctx.outcome("not safely definite, skipped"); return Ok(()); }
        poison(ctx, &mut a);
        by!(s, chol(ctx, &a))
    }));
    v.push(space("magnitudes: an off-diagonal pair, a row and column or the coupling of two blocks of a definite family scaled by 2^-1 .. 2^-64, orders 2..6, safely definite ones", move |ctx| {
        let n = 2 + ctx.choose(5);
        let a = big_definite(ctx, n);
        let mut a = crate::spaces::magnitudes(ctx, a, true, t.thorough());
        let s = flt(ctx);
        if (if s { decide::<f32>(&a) } else { decide::<f64>(&a) }) != Some(true) { ctx.outcome("not safely definite, skipped"); return Ok(()); }
        poison(ctx, &mut a);
        by!(s, chol(ctx, &a))
    }));
    v.push(space("scales: 12 definite families at orders 1..5 times powers of two over the whole range", |ctx| {
        let n = 1 + ctx.choose(5);
        let a = spd_family(ctx, n);
        let s = flt(ctx);
        let mut a = crate::spaces::rescale(ctx, &a, s);
        // keep definiteness in spite of rounding to subnormals
        let r = if s { rounded::<f32>(&a) } else { a.clone() };
        let w = oracle::jacobi_eig(&r).0;
        let (eps, sub) = if s { (f32::EPS, f32::SUB) } else { (f64::EPS, f64::SUB) };
        if w[0] < 100.0 * n as f64 * (eps * amax(&r) + sub) { ctx.outcome("not safely definite, skipped"); return Ok(()); }
        poison(ctx, &mut a);
        by!(s, chol(ctx, &a))
    }));
    v.push(space("layouts: definite families at orders up to 33 (65) x 5 contents of the upper triangle x 3 scales x 10 memory layouts", move |ctx| {
        let n = ctx.pick(if t.thorough() { &[1usize, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 17, 24, 32, 33, 48, 65] } else { &[1usize, 2, 3, 4, 5, 8, 12, 17, 33] });
        let a = if n > 12 { big_definite(ctx, n) } else { definite(ctx, n) };
        let s = flt(ctx);
        let k = if n > 12 { 0 } else if s { ctx.pick(&[0, -70, 60]) } else { ctx.pick(&[0, -540, 500]) };
        ctx.state(k as u64);
        let mut a = if k == 0 { a } else { scaled(&a, expo(&a) - k) };
        poison(ctx, &mut a);
        pick_layout(ctx);
        by!(s, chol(ctx, &a))
    }));
    v
}
fn big_definite(ctx: &mut Ctx, n: usize) -> A2 {
    let k = ctx.choose(4);
    let mut a = if k < 2 { spd([1, 4][k], n, 1) } else {
        let g = general([12, 36][k - 2], n, n, 1);
        let g = scaled(&g, expo(&g));
        mul(&tr(&g), &g)
    };
    if k >= 2 { let m = amax(&a).max(1.0) * n as f64 * 1e-2; for i in 0..n { a[(i, i)] += m; } }
    reg(ctx, &a);
    a
}
/// A definite family with the pivot of row k moved to `x` times the diagonal entry.
fn pivot(ctx: &mut Ctx, n: usize, xs: &[f64]) -> (A2, usize) {
    let id = ctx.choose(NSPD);
    let mut a = spd(id, n, 1);
    let k = if n <= 12 { ctx.choose(n) } else { [0, 1, n / 2, n - 2, n - 1][ctx.choose(5)] };
    let x = ctx.pick(xs);
    let d = a[(k, k)];
    a[(k, k)] -= schur(&a, k) - x * d;
    reg(ctx, &a);
    (a, k)
}
fn chol_families(t: Tier) -> Space {
    let mut ns: Vec<usize> = (1..=12).collect();
    ns.extend([16, 17, 31, 32, 33, 48]);
    if t.thorough() { ns.extend([20, 24, 64, 65, 100, 129]); }
    space(format!("families: {NSPD} definite families, Gram matrices of {NGEN} general families plus a diagonal, orders {ns:?} x 5 contents of the upper triangle"), move |ctx| {
        let n = ns[ctx.choose(ns.len())];
        let mut a = definite(ctx, n);
        poison(ctx, &mut a);
        let s = flt(ctx);
        by!(s, chol(ctx, &a))
    })
}
/// Definite with condition at most about 1e6.
fn definite(ctx: &mut Ctx, n: usize) -> A2 {
    let id = ctx.choose(NSPD + NGEN);
    let a = if id < NSPD { spd(id, n, 1) } else {
        let g = general(id - NSPD, n, n, 1);
        let g = scaled(&g, expo(&g));
        let mut a = mul(&tr(&g), &g);
        let m = amax(&a).max(1.0) * n as f64 * 1e-2;
        for i in 0..n { a[(i, i)] += m; }
        a
    };
    reg(ctx, &a);
    a
}
// ------------------------------------------------------------------------------- C06
fn verdict<F: Fl>(ctx: &mut Ctx, a: &A2, want: bool) -> Res {
    let x = hold::<F>(ctx, a, 0);
    let rs = chol_verdicts::<F>(&x);
    ctx.calls(rs.len() as u64);
    for (name, r) in rs {
        match (&r, want) {
            (Ok(fin), true) => ctx.ok("C06: accepted with finite results", *fin || !name.starts_with("chol"), || format!("{name}: result is not finite"))?,
            (Err(LinalgError::NotPositiveDefinite), false) => {}
            (Ok(_), false) => return fail("C06: rejected", format!("{name}: accepted a matrix that is not positive definite")),
            (Err(e), _) => return fail(if want { "C06: accepted" } else { "C06: right error" }, format!("{name}: {}", err_name(e))),
        }
    }
    ctx.outcome(if want { "accepted" } else { "rejected" });
    ctx.nontrivial();
    Ok(())
}
/// Exact or margin verdict: Some(definite?) when it is not a matter of rounding.
fn decide<F: Fl>(a: &A2) -> Option<bool> {
    let n = a.nrows();
    if n == 0 { return Some(true); }
    let r = rounded::<F>(a);
    let e = expo(&r);
    let w = oracle::jacobi_eig(&scaled(&r, e)).0;
    let margin = 20.0 * (n * n) as f64 * F::EPS + 64.0 * (n * n) as f64 * ldexp(F::SUB, -e);
    if w[0] > margin { Some(true) } else if w[0] < -margin { Some(false) } else { None }
}
fn c06(t: Tier) -> Vec<Space> {
    let mut v = vec![];
    let mut dense_s = |name: &str, ns: &'static [usize], al: &'static [f64], dg: &'static [f64]| {
        v.push(space(format!("dense {name}: every symmetric matrix of order {ns:?}, diagonal over {dg:?}, off-diagonal over {al:?}; verdict from the exact leading minors (singular ones skipped unless a margin decides)"), move |ctx| {
            let n = ctx.pick(ns);
            let mut a = A2::zeros((n, n));
            for i in 0..n { for j in 0..i { let x = ctx.pick(al); a[(i, j)] = x; a[(j, i)] = x; } a[(i, i)] = ctx.pick(dg); }
            reg(ctx, &a);
            let m = oracle::leading_minors(&oracle::ints(&a).unwrap());
            let s = flt(ctx);
            if m.iter().all(|d| *d > 0) { return by!(s, verdict(ctx, &a, true)); }
            // not definite; the smallest eigenvalue of an integer matrix is below zero by a margin, or zero
            let dec = if s { decide::<f32>(&a) } else { decide::<f64>(&a) };
            match dec {
                Some(w) => { if w { return fail("oracle", "margin verdict contradicts the exact minors"); } by!(s, verdict(ctx, &a, false)) }
                None => { ctx.outcome("semidefinite, skipped here"); Ok(()) }
            }
        }));
    };
    dense_s("small", &[0, 1, 2], &[0.0, 1.0, -1.0, 2.0, -3.0, 5.0], &[-4.0, -1.0, 0.0, 1.0, 2.0, 3.0, 4.0, 9.0]);
    dense_s("order 3", &[3], Z5, &[-1.0, 0.0, 1.0, 2.0, 4.0]);
    dense_s("order 4", &[4], Z3, &[0.0, 1.0, 2.0]);
    if t.thorough() { dense_s("order 4 wide", &[4], Z3, &[-1.0, 0.0, 1.0, 2.0, 4.0]); dense_s("order 5", &[5], Z2, &[0.0, 1.0, 2.0]); dense_s("order 3 wide", &[3], &[0.0, 1.0, -1.0, 2.0, -3.0, 7.0], &[-2.0, 0.0, 1.0, 3.0, 5.0, 8.0, 10.0]); }
    {
        let ns: &'static [usize] = if t.thorough() { &[1, 2, 3, 4, 5] } else { &[1, 2, 3, 4] };
        v.push(space(format!("exactly singular: L D L^T with every integer unit-lower L over -1,0,1 (order {ns:?}) and D over powers of four with at least one zero or negative entry: all arithmetic is exact, the first bad pivot may be anywhere"), move |ctx| {
            let n = ctx.pick(ns);
            let mut l = A2::eye(n);
            let lim = if n >= 5 { 1 } else { n };
            for i in 0..n { for j in 0..i { if i - j <= lim { l[(i, j)] = ctx.pick(Z3); } } }
            let mut d = A2::zeros((n, n));
            let mut bad = false;
            for i in 0..n { let x = ctx.pick(&[1.0, 4.0, 0.0, -1.0]); d[(i, i)] = x; bad |= x <= 0.0; }
            if !bad { return Ok(()); }
            let a = mul(&mul(&l, &d), &tr(&l));
            reg(ctx, &a);
            let s = flt(ctx);
            by!(s, verdict(ctx, &a, false))
        }));
    }
    {
        let mut ns: Vec<usize> = vec![1, 2, 3, 4, 5, 6, 7, 8, 12, 16, 17, 32, 33];
        if t.thorough() { ns.extend([9, 10, 11, 24, 48, 64, 65]); }
        v.push(space(format!("bad pivot k: definite families at orders {ns:?}, row and column k made to give pivot -1, -0.01, or left definite, every k; accept/reject decided with margin"), move |ctx| {
            let n = ns[ctx.choose(ns.len())];
            let id = ctx.choose(NSPD);
            let mut a = spd(id, n, 1);
            let k = if n <= 12 { ctx.choose(n) } else { [0, 1, n / 2, n - 2, n - 1][ctx.choose(5)] };
            // Schur complement of entry k given the leading block: subtract it and a bit more
            let m = ctx.choose(4);
            if m > 0 {
                let piv = schur(&a, k);
                a[(k, k)] -= piv + [0.0, 1.0, 0.01 * a[(k, k)], 50.0 * a[(k, k)]][m];
            }
            reg(ctx, &a);
            let s = flt(ctx);
            let dec = if s { decide::<f32>(&a) } else { decide::<f64>(&a) };
            match dec { Some(w) => by!(s, verdict(ctx, &a, w)), None => { ctx.outcome("undecided by margin, skipped"); Ok(()) } }
        }));
    }
    v.push(space("near the boundary: pivot k of definite families moved to +-1e-2 .. +-1e-12 of its diagonal entry, orders 1..12, 17, 33, every k (up to 12); verdict by margin", |ctx| {
        let n = ctx.pick(&[1usize, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 17, 33]);
        let (a, _) = pivot(ctx, n, &[1e-2, -1e-2, -1e-3, 1e-4, -1e-4, -1e-5, 1e-6, -1e-6, -1e-7, 1e-8, -1e-8, -1e-9, 1e-10, -1e-10, -1e-11, -1e-12]);
        let s = flt(ctx);
        let dec = if s { decide::<f32>(&a) } else { decide::<f64>(&a) };
        match dec { Some(w) => by!(s, verdict(ctx, &a, w)), None => { ctx.outcome("undecided by margin, skipped"); Ok(()) } }
    }));
    v.push(space(format!("large: definite families at orders {:?}, untouched or with one diagonal entry (several positions) of 0 or below", orders(t)), move |ctx| {
        let n = ctx.pick(orders(t));
        let mut a = big_definite(ctx, n);
        let k = [0, 1, 31, 32, n / 2, n - 2, n - 1, n][ctx.choose(8)];
        if k < n { a[(k, k)] = ctx.pick(&[0.0, -1.0]) * amax(&a); reg(ctx, &a); if k == 0 && a[(0, 0)] == 0.0 && (1..n).all(|i| a[(i, 0)] == 0.0) { ctx.outcome("still singular"); } }
        let s = flt(ctx);
        by!(s, verdict(ctx, &a, k == n))
    }));
    v.push(space("NaN at every position on or below the diagonal of definite families, orders 1..8: never accepted", |ctx| {
        let n = 1 + ctx.choose(8);
        let mut a = spd_family(ctx, n);
        let i = ctx.choose(n);
        let j = ctx.choose(i + 1);
        a[(i, j)] = f64::NAN;
        if ctx.flag() { a[(j, i)] = f64::NAN; }
        reg(ctx, &a);
        let s = flt(ctx);
        by!(s, verdict(ctx, &a, false))
    }));
    v.push(space(format!("{VARUNITS}; symmetric families at orders 1..6, verdict by margin in unit scale"), |ctx| {
        let n = 1 + ctx.choose(6);
        let a = if ctx.flag() { spd_family(ctx, n) } else { sym_family(ctx, n) };
        let s = flt(ctx);
        let dec = if s { decide::<f32>(&a) } else { decide::<f64>(&a) };
        let Some(w) = dec else { ctx.outcome("undecided by margin, skipped"); return Ok(()); };
        if w && !(cond(&a) <= condlim(s)) { ctx.outcome("inverse may leave the range, skipped"); return Ok(()); }
        let a = if s { rounded::<f32>(&a) } else { a };
        var_units(ctx, n, s);
        let a = unit_cols(ctx, &unit_rows(ctx, &a, 1), 1);
        by!(s, verdict(ctx, &a, w))
    }));
    v.push(space("non-finite alphabet: every symmetric matrix of order 1..3 over 0, 1, 4, -1, NaN, inf, -inf, max, 1e-300: a success has no NaN in the factor", |ctx| {
        let n = 1 + ctx.choose(3);
        let a = dense_sym(ctx, n, &[1.0, 0.0, 4.0, -1.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, f64::MAX, 1e-300]);
        let s = flt(ctx);
        by!(s, nonfinite(ctx, &a))
    }));
    v.push(space("scales: symmetric families at orders 1..5 times powers of two over the whole range, verdict by margin", |ctx| {
        let n = 1 + ctx.choose(5);
        let a = if ctx.flag() { spd_family(ctx, n) } else { sym_family(ctx, n) };
        let s = flt(ctx);
        let a = crate::spaces::rescale(ctx, &a, s);
        let dec = if s { decide::<f32>(&a) } else { decide::<f64>(&a) };
        match dec { Some(w) => { let a = if s { rounded::<f32>(&a) } else { a }; by!(s, verdict_factor(ctx, &a, w)) } None => { ctx.outcome("undecided by margin, skipped"); Ok(()) } }
    }));
    {
        let mut ns: Vec<usize> = vec![2, 3, 4, 5, 6, 8, 11, 16, 20];
        if t.thorough() { ns.extend([7, 9, 10, 13, 32, 33, 50]); }
        v.push(space(format!("families: {} symmetric families at orders {ns:?} plus c*I for every c in -3..3 times the largest entry; verdict by margin", NSYM + NGEN), move |ctx| {
            let n = ns[ctx.choose(ns.len())];
            let mut a = sym_family(ctx, n);
            let c = ctx.pick(&[0.0, 0.5, 1.0, 2.0, 3.0, -1.0, 0.1, -0.1]) * amax(&a);
            for i in 0..n { a[(i, i)] += c; }
            reg(ctx, &a);
            let s = flt(ctx);
            let dec = if s { decide::<f32>(&a) } else { decide::<f64>(&a) };
            match dec { Some(w) => by!(s, verdict(ctx, &a, w)), None => { ctx.outcome("undecided by margin, skipped"); Ok(()) } }
        }));
    }
    v.push(space("layouts: definite families at orders up to 33, untouched or with one diagonal entry below zero, upper triangle symmetric or misleading, x 10 memory layouts", move |ctx| {
        let n = ctx.pick(&[1usize, 2, 3, 4, 5, 8, 12, 17, 33]);
        let mut a = if n > 12 { big_definite(ctx, n) } else { definite(ctx, n) };
        let k = if n <= 5 { ctx.choose(n + 1) } else { [0, n / 2, n - 1, n][ctx.choose(4)] };
        if k < n { a[(k, k)] = -amax(&a); reg(ctx, &a); }
        poison(ctx, &mut a);
        let s = flt(ctx);
        pick_layout(ctx);
        by!(s, verdict(ctx, &a, k == n))
    }));
    v
}
fn schur(a: &A2, k: usize) -> f64 {
    let mut m = a.clone();
    for p in 0..k { for i in p + 1..=k { let f = m[(i, p)] / m[(p, p)]; for j in p..=k { m[(i, j)] -= f * m[(p, j)]; } } }
    m[(k, k)]
}
/// Like `verdict`, but only the factorising routes (inverses overflow at extreme scales).
fn verdict_factor<F: Fl>(ctx: &mut Ctx, a: &A2, want: bool) -> Res {
    let x = hold::<F>(ctx, a, 0);
    for (name, r) in [("cholesky", x.cholesky().map(|_| ())), ("cholesky_dirty", x.cholesky_dirty().map(|_| ())), ("cholesky_into", x.clone().cholesky_into().map(|_| ()))] {
        ctx.calls(1);
        ctx.ok("C06: verdict at extreme scale", r.is_ok() == want && (want || matches!(r, Err(LinalgError::NotPositiveDefinite))), || format!("{name}: accepted = {}, expected {want}", r.is_ok()))?;
    }
    ctx.outcome(if want { "accepted" } else { "rejected" });
    ctx.nontrivial();
    Ok(())
}
fn nonfinite<F: Fl>(ctx: &mut Ctx, a: &A2) -> Res {
    let x = to::<F>(a);
    let n = a.nrows();
    let mut y = x.clone();
    let rs = vec![("cholesky", x.cholesky()), ("cholesky_dirty", x.cholesky_dirty()), ("cholesky_inplace", y.cholesky_inplace().map(|l| l.clone()))];
    ctx.calls(3);
    for (name, r) in rs {
        match r {
            Ok(l) => {
                ctx.outcome("accepted");
                let nan = (0..n).any(|i| (0..=i).any(|j| l[(i, j)].is_nan()));
                ctx.ok("C06: no NaN in an accepted factor", !nan, || format!("{name} succeeded with NaN in {}", show(&fr(&l))))?;
            }
            Err(LinalgError::NotPositiveDefinite) => ctx.outcome("rejected"),
            Err(e) => return fail("C06: right error", format!("{name}: {}", err_name(&e))),
        }
    }
    ctx.nontrivial();
    Ok(())
}
// ------------------------------------------------------------------------------- C07
fn c07(t: Tier) -> Vec<Space> {
    let mut v = vec![];
    let mut dense_s = |name: &str, ns: &'static [usize], al: &'static [f64], dg: &'static [f64]| {
        v.push(space(format!("dense {name}: every definite (exact Sylvester) symmetric matrix of order {ns:?}, diagonal over {dg:?}, off-diagonal over {al:?} x 7 right-hand sides"), move |ctx| {
            let n = ctx.pick(ns);
            let mut a = A2::zeros((n, n));
            for i in 0..n { for j in 0..i { let x = ctx.pick(al); a[(i, j)] = x; a[(j, i)] = x; } a[(i, i)] = ctx.pick(dg); }
            reg(ctx, &a);
            if n > 0 && posdef_int(&a) != Some(true) { return Ok(()); }
            let b = rhs(ctx, n);
            let s = flt(ctx);
            ctx.outcome("solved");
            by!(s, spd_solve(ctx, &a, &b, 0, 0))
        }));
    };
    dense_s("small", &[0, 1, 2], &[0.0, 1.0, -1.0, 2.0, -3.0, 5.0], &[1.0, 2.0, 3.0, 4.0, 7.0, 9.0, 16.0, 26.0]);
    dense_s("order 3", &[3], Z5, &[1.0, 2.0, 3.0, 5.0, 9.0]);
    dense_s("order 4", &[4], Z3, &[2.0, 3.0]);
    if t.thorough() { dense_s("order 4 wide", &[4], Z3, &[1.0, 2.0, 3.0, 5.0]); }
    {
        let mut ns: Vec<usize> = (1..=12).collect();
        ns.extend([16, 17, 32, 33]);
        if t.thorough() { ns.extend([24, 48, 64, 65, 100]); }
        v.push(space(format!("families: {} definite families at orders {ns:?} x 7 right-hand sides", NSPD + NGEN), move |ctx| {
            let n = ns[ctx.choose(ns.len())];
            let a = definite(ctx, n);
            let b = rhs(ctx, n);
            let s = flt(ctx);
            by!(s, spd_solve(ctx, &a, &b, 0, 0))
        }));
    }
    v.push(space("scales: A and b scaled independently by powers of two, orders 1..5", |ctx| {
        let n = 1 + ctx.choose(5);
        let a = definite(ctx, n);
        let s = flt(ctx);
        let (ka, kb) = pick_scale(ctx, s);
        let b = rhs(ctx, n);
        by!(s, spd_solve(ctx, &a, &b, ka & !1, kb))
    }));
    v.push(space(format!("right-hand sides of {COLS:?} columns at orders 1, 2, 3, 7, 18"), |ctx| {
        let n = ctx.pick(&[1usize, 2, 3, 7, 18]);
        let m = ctx.pick(COLS);
        let a = big_definite(ctx, n);
        ctx.state(m as u64);
        let s = flt(ctx);
        by!(s, spd_solve(ctx, &a, &wide_rhs(n, m), 0, 0))
    }));
    v.push(space(format!("large: definite families at orders {:?} x right-hand sides of 1, 3, 66 columns", orders(t)), move |ctx| {
        let n = ctx.pick(orders(t));
        let m = ctx.pick(if n < 70 { &[1usize, 3, 66] } else { &[3usize] });
        let a = big_definite(ctx, n);
        ctx.state(m as u64);
        let s = flt(ctx);
        by!(s, spd_solve(ctx, &a, &wide_rhs(n, m), 0, 0))
    }));
    v.push(space(format!("{VARUNITS}; definite families at orders 1..6"), move |ctx| {
        let n = 1 + ctx.choose(6);
        let a = if n <= 3 { spd_family(ctx, n) } else { big_definite(ctx, n) };
        let s = flt(ctx);
        if !(cond(&a) <= condlim(s)) { ctx.outcome("ill conditioned, skipped"); return Ok(()); }
        var_units(ctx, n, s);
        by!(s, spd_solve(ctx, &a, &wide_rhs(n, 3), 0, 0))
    }));
    v.push(space(format!("{MAGNITUDES}, orders 2..6, safely definite ones"), move |ctx| {
        let n = 2 + ctx.choose(5);
        let a = big_definite(ctx, n);
        let a = crate::spaces::magnitudes(ctx, a, true, t.thorough());
        let s = flt(ctx);
        if !(cond(&a) <= condlim(s)) || (if s { decide::<f32>(&a) } else { decide::<f64>(&a) }) != Some(true) { ctx.outcome("not safely definite, skipped"); return Ok(()); }
        let b = graded_rhs(ctx, n);
        by!(s, spd_solve(ctx, &a, &b, 0, 0))
    }));
    v.push(space("couplings: identity plus one or two symmetric off-diagonal pairs at every position, orders 2..6 x 3 right-hand sides", |ctx| {
        let n = 2 + ctx.choose(5);
        let mut a = A2::eye(n) * 4.0;
        let np = n * (n - 1) / 2;
        let mut from = 0;
        for _ in 0..2 {
            let p = ctx.choose(np - from + 1);
            if p == 0 { break; }
            let pos = from + p - 1;
            let (mut i, mut q) = (1, pos);
            while q >= i { q -= i; i += 1; }
            let x = ctx.pick(&[1.0, -1.5]);
            a[(i, q)] = x; a[(q, i)] = x;
            from = pos + 1;
            if from >= np { break; }
        }
        reg(ctx, &a);
        let k = ctx.choose(3);
        ctx.state(k as u64);
        let s = flt(ctx);
        by!(s, spd_solve(ctx, &a, &rhs_kind(k, n), 0, 0))
    }));
    v.push(space(format!("{CROSSED}, definite families"), move |ctx| {
        let (n, m, s, ka, kb) = crossed(ctx, t);
        let a = big_definite(ctx, n);
        pick_layouts(ctx);
        by!(s, spd_solve(ctx, &a, &wide_rhs(n, m), ka & !1, kb))
    }));
    v
}
// ------------------------------------------------------------------------------- C08
fn c08(t: Tier) -> Vec<Space> {
    let mut v = vec![];
    const POISON: &[Option<f64>] = &[None, Some(f64::NAN), Some(0.0), Some(f64::INFINITY), Some(1e300)];
    fn pz(ctx: &mut Ctx) -> (bool, Option<f64>) { let (u, k) = (ctx.flag(), ctx.choose(POISON.len())); ctx.state((u as u64) * 8 + k as u64); ctx.note(|| format!("upper = {u}, other triangle {:?}", POISON[k])); (u, POISON[k]) }
    let mut dense_s = |name: &str, ns: &'static [usize], al: &'static [f64], dg: &'static [f64]| {
        v.push(space(format!("dense {name}: every triangle of order {ns:?}, diagonal over {dg:?}, rest over {al:?}, x 5 contents of the other triangle x 7 right-hand sides, both orientations"), move |ctx| {
            let n = ctx.pick(ns);
            let (up, p) = pz(ctx);
            let mut a = A2::from_elem((n, n), 0.75);
            for i in 0..n { for j in 0..=i { let x = if i == j { ctx.pick(dg) } else { ctx.pick(al) }; if up { a[(j, i)] = x } else { a[(i, j)] = x } } }
            reg(ctx, &a);
            let b = rhs(ctx, n);
            let s = flt(ctx);
            by!(s, tri_solve(ctx, &a, &b, up, p, None))
        }));
    };
    dense_s("order 0..2", &[0, 1, 2], &[0.0, 1.0, -1.0, 2.0, -3.0, 0.5, 1e-8, 1e8], &[1.0, -1.0, 2.0, -3.0, 1e-8, 7.0, 1e-12]);
    dense_s("order 3", &[3], Z3, &[1.0, -2.0, 1e-4]);
    dense_s("order 4", &[4], Z2, &[1.0, -3.0]);
    if t.thorough() { dense_s("order 3 graded", &[3], &[0.0, 1.0, -1.0, 1e-8, 1e6], &[1.0, -2.0, 1e-6, 3.0]); dense_s("order 4 ternary", &[4], Z3, &[1.0, -3.0]); dense_s("order 5", &[5], Z2, &[1.0, -3.0]); }
    {
        let mut ns: Vec<usize> = (1..=10).collect();
        ns.extend([16, 17, 31, 32, 33, 48]);
        if t.thorough() { ns.extend([12, 20, 24, 63, 64, 65, 100]); }
        v.push(space(format!("families: {NGEN} families with a dominant or unit diagonal at orders {ns:?} x 5 contents of the other triangle x 7 right-hand sides (NaN x at most 3 beyond order 12), both orientations"), move |ctx| {
            let n = ns[ctx.choose(ns.len())];
            let (up, p) = if n > 12 { let u = ctx.flag(); ctx.state(u as u64); (u, Some(f64::NAN)) } else { pz(ctx) };
            let mut a = gen_family(ctx, n, n);
            a = scaled(&a, expo(&a));
            for i in 0..n { if a[(i, i)].abs() < 0.5 { a[(i, i)] = if i % 2 == 0 { 2.0 } else { -1.0 }; } }
            if n > 12 { for i in 0..n { a[(i, i)] *= n as f64; } }
            reg(ctx, &a);
            let b = if n > 12 { let k = if n > 40 { 2 } else { ctx.pick(&[0usize, 2, 6]) }; ctx.state(k as u64); rhs_kind(k, n) } else { rhs(ctx, n) };
            let s = flt(ctx);
            by!(s, tri_solve(ctx, &a, &b, up, p, None))
        }));
    }
    v.push(space(format!("right-hand sides of {COLS:?} columns at orders 1, 2, 3, 6, 17, both orientations, last or no column NaN"), |ctx| {
        let n = ctx.pick(&[1usize, 2, 3, 6, 17]);
        let m = ctx.pick(COLS);
        let up = ctx.flag();
        let mut a = big(ctx, n, n);
        let d = 2.0 * n as f64 * amax(&a).max(1.0);
        for i in 0..n { a[(i, i)] = if i % 3 == 1 { -d } else { d }; }
        let nc = [None, Some(m - 1), Some(m / 2)][ctx.choose(3)];
        ctx.state((m * 2 + up as usize) as u64);
        ctx.state(nc.map_or(0, |x| x + 1) as u64);
        let s = flt(ctx);
        by!(s, tri_solve(ctx, &a, &wide_rhs(n, m), up, Some(f64::NAN), nc))
    }));
    v.push(space(format!("{MAGNITUDES}, orders 2..6, both orientations"), move |ctx| {
        let n = 2 + ctx.choose(5);
        let up = ctx.flag();
        ctx.state(up as u64);
        let mut a = big(ctx, n, n);
        let d = 2.0 * n as f64 * amax(&a).max(1.0);
        for i in 0..n { a[(i, i)] = if i % 3 == 1 { -d } else { d }; }
        let a = crate::spaces::magnitudes(ctx, a, false, t.thorough());
        let s = flt(ctx);
        // the solution may grow by every ratio of an entry to its diagonal
        let worst = (0..n).map(|i| (0..n).map(|j| a[(i, j)].abs().max(a[(j, i)].abs()) / a[(i, i)].abs()).fold(1.0, f64::max).log2()).sum::<f64>();
        let worst = worst - (0..n).map(|i| a[(i, i)].abs().log2()).fold(0.0, f64::min);
        if worst > if s { 80.0 } else { 600.0 } { ctx.outcome("solution may leave the range, skipped"); return Ok(()); }
        let b = graded_rhs(ctx, n);
        by!(s, tri_solve(ctx, &a, &b, up, Some(f64::NAN), None))
    }));
    v.push(space(format!("large: orders {:?} x right-hand sides of 1, 3, 66 columns, both orientations", orders(t)), move |ctx| {
        let n = ctx.pick(orders(t));
        let m = ctx.pick(if n < 70 { &[1usize, 3, 66] } else { &[3usize] });
        let up = ctx.flag();
        let mut a = big(ctx, n, n);
        let d = 2.0 * n as f64 * amax(&a).max(1.0);
        for i in 0..n { a[(i, i)] = if i % 3 == 1 { -d } else { d }; }
        ctx.state((m * 2 + up as usize) as u64);
        let s = flt(ctx);
        by!(s, tri_solve(ctx, &a, &wide_rhs(n, m), up, Some(f64::NAN), None))
    }));
    v.push(space("column independence: every subset position of a NaN column among 1..5 columns, orders 1..6, both orientations", |ctx| {
        let n = 1 + ctx.choose(6);
        let (up, p) = pz(ctx);
        let id = ctx.pick(&[7usize, 8, 16, 27, 12]);
        let mut a = general(id, n, n, 0);
        for i in 0..n { a[(i, i)] += 3.0; }
        reg(ctx, &a);
        let m = 1 + ctx.choose(5);
        let b = A2::from_shape_fn((n, m), |(i, j)| ((i * 7 + j * 3 + i * j) % 11) as f64 - 5.0);
        let k = ctx.choose(m);
        ctx.state((m * 10 + k) as u64);
        let s = flt(ctx);
        by!(s, tri_solve(ctx, &a, &b, up, p, Some(k)))
    }));
    v.push(space("independent equations: one row of A and b NaN; unknowns not depending on it stay finite", |ctx| {
        let n = 2 + ctx.choose(5);
        let up = ctx.flag();
        let k = ctx.choose(n);
        ctx.state((n * 100 + k * 2 + up as usize) as u64);
        let s = flt(ctx);
        fn run<F: Fl>(ctx: &mut Ctx, n: usize, up: bool, k: usize) -> Res {
            let mut a = A2::from_shape_fn((n, n), |(i, j)| 1.0 + ((i * 3 + j * 5) % 7) as f64);
            let mut b = A2::from_shape_fn((n, 2), |(i, j)| (i + j) as f64 - 1.5);
            for j in 0..n { if (up && j >= k) || (!up && j <= k) { a[(k, j)] = f64::NAN; } }
            b.row_mut(k).fill(f64::NAN);
            let x = fr(&to::<F>(&a).solve_triangular(&to::<F>(&b), if up { UPLO::Upper } else { UPLO::Lower }).unwrap());
            ctx.calls(1);
            for i in 0..n {
                let dep = if up { i <= k } else { i >= k };
                if !dep { ctx.ok("tri: independent unknowns", x.row(i).iter().all(|v| v.is_finite()), || format!("x[{i}] = {:?} though only row {k} is NaN", x.row(i)))?; }
            }
            ctx.nontrivial();
            Ok(())
        }
        by!(s, run(ctx, n, up, k))
    }));
    v.push(space(format!("{CROSSED}, both orientations"), move |ctx| {
        let (n, m, s, ka, kb) = crossed(ctx, t);
        let up = ctx.flag();
        let mut a = big(ctx, n, n);
        let d = 2.0 * n as f64 * amax(&a).max(1.0);
        for i in 0..n { a[(i, i)] = if i % 3 == 1 { -d } else { d }; }
        ctx.state(up as u64);
        pick_layouts(ctx);
        by!(s, tri_solve(ctx, &scaled(&a, -ka), &scaled(&wide_rhs(n, m), -kb), up, Some(f64::NAN), None))
    }));
    v.push(space("range: triangles with every or one diagonal entry at the ends of the range (subnormal, smallest normal, huge), right-hand sides in proportion, orders 1..6 x 1, 3, 8, 9, 17 columns, both orientations", |ctx| {
        let n = 1 + ctx.choose(6);
        let m = ctx.pick(&[1usize, 3, 8, 9, 17]);
        let up = ctx.flag();
        let s = flt(ctx);
        let e = if s { ctx.pick(&[-146, -140, -132, -127, -126, -120, 120, 126, 127]) } else { ctx.pick(&[-1070, -1060, -1040, -1023, -1022, -1000, 1000, 1022, 1023]) };
        let one = ctx.choose(n + 1);
        // off-diagonal entries no larger than the diagonal, or none
        let off = ctx.pick(&[0.0, 0.25]);
        ctx.state_f(&[n as f64, m as f64, up as u8 as f64, e as f64, one as f64, off]);
        ctx.note(|| format!("order {n}, {m} columns, upper = {up}, {} scaled to 2^{e}, off-diagonal {off}", if one < n { format!("row {one}") } else { "all".into() }));
        let row = |i: usize| if one == n || one == i { e } else { 0 };
        let a = A2::from_shape_fn((n, n), |(i, j)| ldexp(if i == j { if i % 2 == 0 { 1.0 } else { -1.5 } } else { off * md((i * 3 + j * 5 + 1) as i64, 3) / n as f64 }, row(i)));
        let b = A2::from_shape_fn((n, m), |(i, j)| ldexp(0.5 * md((i * 7 + j * 3 + i * j) as i64, 5), row(i)));
        by!(s, tri_solve(ctx, &a, &b, up, Some(f64::NAN), None))
    }));
    v
}
// ------------------------------------------------------------------------------- C09
/// A made-up element type: only `Zero` is available.
#[derive(Clone, Copy, Debug, PartialEq)]
struct Tok(u8, char);
impl std::ops::Add for Tok { type Output = Tok; fn add(self, o: Tok) -> Tok { Tok(self.0 ^ o.0, self.1) } }
impl num_traits::Zero for Tok { fn zero() -> Tok { Tok(0, 'z') } fn is_zero(&self) -> bool { self.0 == 0 } }
fn tri_exact<T: Copy + num_traits::Zero + std::fmt::Debug>(ctx: &mut Ctx, a: &Array2<T>, same: fn(&T, &T) -> bool) -> Res {
    let (r, c) = a.dim();
    for up in [true, false] {
        let uplo = if up { UPLO::Upper } else { UPLO::Lower };
        let outside = |i: usize, j: usize| if up { j < i } else { j > i };
        let want = r == c && a.indexed_iter().all(|((i, j), x)| !outside(i, j) || x.is_zero());
        ctx.ok("C09: triangularity test", a.is_triangular(uplo) == want, || format!("is_triangular({uplo:?}) = {}, expected {want}", !want))?;
        ctx.ok("C09: triangularity test (view)", a.view().is_triangular(uplo) == want && a.t().is_triangular(if up { UPLO::Lower } else { UPLO::Upper }) == want, || "view or transpose disagrees".into())?;
        let mut ip = a.clone();
        let r1 = ip.triangular_inplace(uplo).map(|_| ());
        let r2 = a.clone().into_triangular(uplo);
        // a view inside a larger matrix, transposed
        let mut frame = Array2::from_elem((c + 2, r + 2), a.iter().next().copied().unwrap_or_else(T::zero));
        let keep = frame.clone();
        let r3 = { let mut w = frame.slice_mut(ndarray::s![1..c + 1, 1..r + 1]).reversed_axes(); w.assign(a); w.triangular_inplace(uplo).map(|_| ()) };
        ctx.calls(6);
        if r != c {
            let bad = |e: &Result<(), LinalgError>| matches!(e, Err(LinalgError::NotSquare { rows, cols }) if *rows == r && *cols == c);
            ctx.ok("C09: NotSquare", bad(&r1) && bad(&r2.as_ref().map(|_| ()).map_err(|_| LinalgError::NotSquare { rows: r, cols: c })) && r2.is_err() && bad(&r3), || format!("{r1:?} {r3:?}"))?;
            continue;
        }
        let Ok(b) = r2 else { return fail("C09: extraction", "into_triangular failed") };
        ctx.ok("C09: extraction in place", r1.is_ok() && r3.is_ok(), || "failed".into())?;
        let inner = frame.slice(ndarray::s![1..c + 1, 1..r + 1]);
        for ((i, j), x) in a.indexed_iter() {
            for (name, y) in [("into_triangular", &b[(i, j)]), ("triangular_inplace", &ip[(i, j)]), ("triangular_inplace on a transposed sub-view", &inner[(j, i)])] {
                let ok = if outside(i, j) { y.is_zero() } else { same(x, y) };
                ctx.ok("C09: extracted entries", ok, || format!("{name}({uplo:?}): [{i},{j}] was {x:?}, is {y:?}"))?;
            }
        }
        ctx.ok("C09: extraction passes the test", b.is_triangular(uplo) && ip.is_triangular(uplo), || "extracted matrix is not triangular".into())?;
        for ((i, j), x) in keep.indexed_iter() { if i == 0 || j == 0 || i == c + 1 || j == r + 1 { ctx.ok("C09: frame", same(x, &frame[(i, j)]), || format!("storage outside the view changed at {i},{j}"))?; } }
        if want { ctx.outcome("triangular"); } else { ctx.outcome("not triangular"); }
    }
    if r > 1 && c > 1 { ctx.nontrivial(); }
    Ok(())
}
fn tri_types(ctx: &mut Ctx, a: &A2) -> Res {
    match ctx.choose(6) {
        0 => { ctx.state(0); tri_exact(ctx, a, |x: &f64, y| x.to_bits() == y.to_bits()) }
        1 => { ctx.state(1); tri_exact(ctx, &a.mapv(|x| x as f32), |x, y| x.to_bits() == y.to_bits()) }
        2 => { ctx.state(2); tri_exact(ctx, &a.mapv(|x| x as i32), |x, y| x == y) }
        3 => { ctx.state(3); tri_exact(ctx, &a.mapv(|x| x as u8), |x, y| x == y) }
        4 => { ctx.state(4); tri_exact(ctx, &a.mapv(|x| x as i64), |x, y| x == y) }
        _ => { ctx.state(5); tri_exact(ctx, &a.mapv(|x| Tok(if x.is_nan() { 77 } else { (x as i64 & 255) as u8 }, 'a')), |x, y| x == y) }
    }
}
fn c09(t: Tier) -> Vec<Space> {
    let mut v = vec![];
    let th = t.thorough();
    v.push(space("dense: every matrix of up to 2x3, 3x2 over 0, 1, -1, 200, NaN, -0 and 3x3 over 0, 1, NaN, 6 element types", |ctx| {
        let (r, c) = ctx.pick(&[(0usize, 0usize), (0, 2), (2, 0), (1, 1), (1, 2), (2, 1), (2, 2), (3, 1), (3, 3)]);
        let a = if r == 3 && c == 3 { dense(ctx, 3, 3, &[0.0, 1.0, f64::NAN]) } else { dense(ctx, r, c, &[0.0, 1.0, -1.0, 200.0, f64::NAN, -0.0]) };
        tri_types(ctx, &a)
    }));
    v.push(space("4x4: every 0/1 pattern, 6 element types", |ctx| { let a = dense(ctx, 4, 4, Z2); tri_types(ctx, &a) }));
    v.push(space(format!("single and double deviations: full, empty and triangular patterns with {} entries flipped, sizes up to 9x9 and 33x33", if th { 2 } else { 1 }), move |ctx| {
        let (r, c) = if th { ctx.pick(&[(4usize, 4usize), (5, 5), (6, 6), (7, 7), (4, 6), (6, 4)]) } else { ctx.pick(&[(4usize, 4usize), (5, 5), (6, 6), (7, 7), (8, 8), (9, 9), (4, 6), (6, 4), (17, 17), (33, 33)]) };
        let base = match ctx.choose(5) { 0 => A2::zeros((r, c)), 1 => A2::from_shape_fn((r, c), |(i, j)| 1.0 + ((i * c + j) % 200) as f64), 2 => general(7, r, c, 0), 3 => general(8, r, c, 0), _ => A2::from_shape_fn((r, c), |(i, j)| if i == j { 2.0 } else { 0.0 }) };
        let a = deviate(ctx, base, if th { 2 } else { 1 }, &[0.0, 3.0, -0.0, f64::NAN], false);
        tri_types(ctx, &a)
    }));
    v.push(space(format!("large: triangular, full and zero patterns at orders {:?} and non-square neighbours, one entry at any of the corners, edges, block boundaries and middles of both triangles flipped", orders(t)), move |ctx| {
        let n = ctx.pick(orders(t));
        let (r, c) = match ctx.choose(4) { 0..=1 => (n, n), 2 => (n, n - 1), _ => (n - 1, n) };
        let mut a = match ctx.choose(4) { 0 => A2::zeros((r, c)), 1 => A2::from_shape_fn((r, c), |(i, j)| 1.0 + ((i * c + j) % 200) as f64), 2 => general(7, r, c, 0), _ => general(8, r, c, 0) };
        let ps = [0, 1, 15, 16, 31, 32, 33, n / 2, n - 3, n - 2, n - 1];
        let (i, j) = (ctx.pick(&ps), ctx.pick(&ps));
        if i < r && j < c { let x = ctx.pick(&[5.0, 0.0]); if a[(i, j)] == x { return Ok(()); } a[(i, j)] = x; } else if i != j { return Ok(()); }
        reg(ctx, &a);
        match ctx.choose(3) { 0 => { ctx.state(0); tri_exact(ctx, &a, |x: &f64, y| x.to_bits() == y.to_bits()) } 1 => { ctx.state(1); tri_exact(ctx, &a.mapv(|x| x as f32), |x, y| x.to_bits() == y.to_bits()) } _ => { ctx.state(2); tri_exact(ctx, &a.mapv(|x| x as i32), |x, y| x == y) } }
    }));
    v
}
