//! Combinators: bounded input spaces x monitor.
use crate::explore::{space, Ctx, Res, Space};
use crate::gen::*;
use crate::num::*;
use std::sync::Arc;

/// Monitor on one matrix, for either float type.
pub type Chk = Arc<dyn Fn(&mut Ctx, &A2, bool) -> Res + Send + Sync>;
#[macro_export]
macro_rules! chk {
    ($($f:ident)::+) => { std::sync::Arc::new(|ctx: &mut $crate::explore::Ctx, a: &$crate::num::A2, single: bool| if single { $($f)::+::<f32>(ctx, a) } else { $($f)::+::<f64>(ctx, a) }) as $crate::spaces::Chk };
}

#[derive(Clone, Copy, PartialEq)]
pub enum Tier { Quick, Thorough }
impl Tier { pub fn thorough(self) -> bool { self == Tier::Thorough } }

fn fl(ctx: &mut Ctx, a: &A2, chk: &Chk) -> Res {
    let single = ctx.flag();
    ctx.state(single as u64);
    if single { ctx.note(|| "f32".into()); }
    chk(ctx, a, single)
}
/// Powers of two spread over the range of the type, including subnormal results.
pub const EXP64: &[i32] = &[-1072, -1060, -1030, -1000, -600, -540, -525, -515, -505, -400, -300, -100, -30, 30, 100, 300, 480, 505, 510, 515, 600, 900, 1000, 1012];
pub const EXP32: &[i32] = &[-148, -140, -130, -124, -100, -76, -70, -66, -60, -40, -20, 20, 40, 58, 61, 63, 66, 90, 110, 118];
pub fn rescale(ctx: &mut Ctx, a: &A2, single: bool) -> A2 {
    let e = expo(a);
    let k = if single { ctx.pick(EXP32) } else { ctx.pick(EXP64) };
    ctx.state(k as u64);
    ctx.note(|| format!("largest entry scaled to about 2^{k}"));
    a.mapv(|x| ldexp(x, k - e))
}

fn dense_space(name: &str, shapes: Vec<(usize, usize)>, al: &'static [f64], chk: &Chk) -> Space {
    let chk = chk.clone();
    let n = format!("dense/{name}: every matrix of shape {shapes:?} over {al:?}, f32 and f64");
    space(n, move |ctx| {
        let (r, c) = shapes[ctx.choose(shapes.len())];
        let a = dense(ctx, r, c, al);
        fl(ctx, &a, &chk)
    })
}
fn sym_space(name: &str, ns: Vec<usize>, al: &'static [f64], chk: &Chk) -> Space {
    let chk = chk.clone();
    let n = format!("sym/{name}: every symmetric matrix of order {ns:?} over {al:?}, f32 and f64");
    space(n, move |ctx| {
        let n = ns[ctx.choose(ns.len())];
        let a = dense_sym(ctx, n, al);
        fl(ctx, &a, &chk)
    })
}
pub fn cross(rs: &[usize], cs: &[usize], keep: fn(usize, usize) -> bool) -> Vec<(usize, usize)> {
    let mut v = vec![];
    for &r in rs { for &c in cs { if keep(r, c) { v.push((r, c)); } } }
    v
}
/// Spaces of general matrices of the shapes accepted by `keep`.
pub fn matrices(t: Tier, keep: fn(usize, usize) -> bool, empty: bool, chk: Chk) -> Vec<Space> {
    let mut v = vec![];
    let ok = |s: Vec<(usize, usize)>| -> Vec<(usize, usize)> { s.into_iter().filter(|(r, c)| keep(*r, *c) && (empty || r * c > 0)).collect() };
    let mut add = |name: &str, s: Vec<(usize, usize)>, al: &'static [f64]| { let s = ok(s); if !s.is_empty() { v.push(dense_space(name, s, al, &chk)); } };
    add("ternary", vec![(0, 0), (1, 0), (0, 1), (3, 0), (0, 3), (1, 1), (1, 2), (2, 1), (1, 3), (3, 1), (2, 2), (2, 3), (3, 2), (4, 2), (2, 4), (3, 3), (5, 1), (1, 5)], Z3);
    add("seven", vec![(1, 1), (2, 1), (1, 2), (3, 1), (1, 3), (2, 2)], Z7);
    add("graded 2x2", vec![(2, 2), (3, 1), (1, 3), (1, 4), (4, 1)], GRADED);
    add("binary 4", vec![(4, 3), (3, 4), (4, 4)], Z2);
    if t.thorough() {
        add("quinary", vec![(3, 2), (2, 3), (3, 3)], Z5);
        add("ternary 4x3", vec![(4, 3), (3, 4), (5, 2), (2, 5)], Z3);
        add("graded 3x2", vec![(3, 2), (2, 3)], GRADED);
        add("binary 5", vec![(5, 3), (3, 5), (5, 4), (4, 5)], Z2);
    }
    if keep(3, 3) {
        let chk = chk.clone();
        let th = t.thorough();
        v.push(space("bidiagonal: every upper or lower bidiagonal matrix over graded values, order 3 (4 when thorough), and 3x4 / 4x3 with a last row or column", move |ctx| {
            let n = if th { 3 + ctx.choose(2) } else { 3 };
            let al: &[f64] = if n == 3 { &[0.0, 1.0, -3.0, 1e-8, 1e-17, 1e-40, 1e-160] } else { &[0.0, 1.0, -2.0, 1e-9, 1e-17] };
            let lower = ctx.flag();
            let extra = keep(4, 3) && keep(3, 4) && n == 3 && ctx.flag();
            let mut a = A2::zeros(if !extra { (n, n) } else if lower { (n + 1, n) } else { (n, n + 1) });
            for i in 0..n {
                a[(i, i)] = ctx.pick(al);
                if i + 1 < n || extra {
                    let x = if i + 1 < n { ctx.pick(al) } else { ctx.pick(&[1.0, 1e-9]) };
                    if lower { a[(i + 1, i)] = x } else { a[(i, i + 1)] = x }
                }
            }
            reg(ctx, &a);
            fl(ctx, &a, &chk)
        }));
    }
    // deviations from structured bases
    {
        let chk = chk.clone();
        let d = if t.thorough() { 2 } else { 1 };
        let shapes = ok(cross(&[3, 4, 5, 6], &[3, 4, 5, 6], |r, c| r.abs_diff(c) <= 1));
        v.push(space(format!("deviations: at most {d} entries of 8 base families replaced by graded values, shapes {shapes:?}"), move |ctx| {
            let (r, c) = shapes[ctx.choose(shapes.len())];
            let id = ctx.pick(&[0usize, 1, 2, 5, 16, 17, 31, 36]);
            let a = deviate(ctx, general(id, r, c, 0), d, if d == 1 { GRADED } else { &[0.0, 1.0, -1e-8, 1e-17, 1e3] }, false);
            fl(ctx, &a, &chk)
        }));
    }
    {
        let chk = chk.clone();
        let mut shapes = ok(cross(&[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12], &[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12], |r, c| r == c || r == c + 1 || c == r + 1 || (r % 4 == 1 && c % 3 == 0) || (r % 3 == 0 && c % 4 == 1)));
        shapes.extend(ok(cross(&[15, 16, 17, 24, 31, 32, 33], &[15, 16, 17, 24, 31, 32, 33], |r, c| r.abs_diff(c) <= 1)));
        shapes.extend(ok(vec![(40, 3), (3, 40), (33, 8), (8, 33), (20, 1), (1, 20), (64, 5), (5, 64)]));
        if t.thorough() { shapes.extend(ok(cross(&[20, 40, 48, 50, 63, 64, 65], &[20, 40, 48, 50, 63, 64, 65], |r, c| r.abs_diff(c) <= 2))); shapes.extend(ok(vec![(130, 7), (7, 130), (200, 3), (3, 200)])); }
        v.push(space(format!("families: {NGEN} structured families x {} shapes up to {:?}", shapes.len(), shapes.iter().max_by_key(|s| s.0 * s.1).unwrap()), move |ctx| {
            let (r, c) = shapes[ctx.choose(shapes.len())];
            let a = gen_family(ctx, r, c);
            fl(ctx, &a, &chk)
        }));
    }
    {
        let chk = chk.clone();
        let mut shapes = ok(vec![(48, 48), (64, 64), (65, 65), (70, 66), (66, 70), (100, 100), (129, 129), (130, 40), (40, 130), (200, 200), (257, 9), (9, 257)]);
        if t.thorough() { shapes.extend(ok(vec![(257, 257), (160, 150), (150, 160), (300, 64), (64, 300), (513, 5), (5, 513)])); }
        let fams: &'static [usize] = if t.thorough() { &[1, 5, 12, 16, 21, 24, 27, 31, 32, 34, 36, 38] } else { &[12, 36] };
        v.push(space(format!("large: families {fams:?} at {shapes:?} (one where both sides exceed 140)"), move |ctx| {
            let (r, c) = shapes[ctx.choose(shapes.len())];
            let id = if r.min(c) > 140 { fams[fams.len() - 2] } else { ctx.pick(fams) };
            let a = general(id, r, c, 1);
            reg(ctx, &a);
            fl(ctx, &a, &chk)
        }));
    }
    {
        let chk = chk.clone();
        let shapes = ok(if t.thorough() { vec![(2, 2), (3, 3), (4, 4), (5, 5), (6, 6), (8, 8), (5, 3), (3, 5), (7, 4), (4, 7), (13, 13), (18, 18)] } else { vec![(3, 3), (5, 5), (8, 8), (6, 3), (3, 6), (11, 11)] });
        let wide = t.thorough();
        v.push(space(format!("lattices: a_ij = (p i + q j + r i j + i^2 + t) mod m - m/2 for all parameters, shapes {shapes:?}"), move |ctx| {
            let (r, c) = shapes[ctx.choose(shapes.len())];
            let a = lattice(ctx, r, c, wide);
            fl(ctx, &a, &chk)
        }));
    }
    {
        let chk = chk.clone();
        let shapes = ok(if t.thorough() { vec![(1, 1), (2, 2), (3, 3), (4, 4), (6, 6), (10, 10), (5, 3), (3, 5), (4, 1), (1, 4)] } else { vec![(1, 1), (2, 2), (3, 3), (5, 5), (4, 2), (2, 4)] });
        v.push(space(format!("scales: {NGEN} families at {shapes:?} times powers of two over the whole range of the type, subnormal to near overflow"), move |ctx| {
            let (r, c) = shapes[ctx.choose(shapes.len())];
            let a = gen_family(ctx, r, c);
            let single = ctx.flag();
            let a = rescale(ctx, &a, single);
            chk(ctx, &a, single)
        }));
    }
    {
        let chk = chk.clone();
        let mut shapes = ok(vec![(1, 1), (2, 2), (3, 3), (4, 4), (5, 5), (8, 8), (9, 9), (16, 16), (17, 17), (33, 33), (2, 1), (1, 3), (4, 2), (2, 4), (5, 3), (3, 5), (9, 5), (5, 9), (12, 11), (11, 12), (40, 3), (3, 40), (33, 17), (17, 33)]);
        if t.thorough() { shapes.extend(ok(vec![(6, 6), (12, 12), (24, 24), (32, 32), (48, 48), (65, 64), (64, 65), (66, 66), (130, 7), (7, 130), (20, 10), (10, 20), (31, 8), (8, 31)])); }
        let th = t.thorough();
        v.push(space(format!("layouts: families at {} shapes up to {:?} x {NLAY} memory layouts x 3 scales", shapes.len(), shapes.iter().max_by_key(|s| s.0 * s.1).unwrap()), move |ctx| {
            let (r, c) = shapes[ctx.choose(shapes.len())];
            let id = if r.max(c) > if th { 20 } else { 9 } { ctx.pick(&[5usize, 12, 36]) } else { ctx.pick(&[1usize, 2, 5, 8, 12, 16, 18, 21, 24, 36]) };
            let a = general(id, r, c, 1);
            reg(ctx, &a);
            let single = ctx.flag();
            let k = ctx.pick(if single { &[0, -70, 63] } else { &[0, -540, 510] });
            ctx.state((2 * k as i64 + single as i64) as u64);
            let e = expo(&a);
            let a = if k == 0 { a } else { a.mapv(|x| ldexp(x, k - e)) };
            pick_layout(ctx);
            chk(ctx, &a, single)
        }));
    }
    {
        let chk = chk.clone();
        let mut shapes = vec![(4usize, 2usize), (8, 2), (9, 3), (12, 1), (12, 3), (16, 2), (17, 3), (25, 2), (24, 4), (33, 4), (40, 2), (50, 5), (64, 4), (100, 3), (128, 2), (130, 8), (200, 4), (257, 2)];
        if t.thorough() { for c in 2..=8 { for k in [2, 3, 4, 5, 6, 8, 10, 15, 20, 33, 60] { shapes.push((c * k, c)); shapes.push((c * k + 1, c)); shapes.push((c * k + c - 1, c)); } } shapes.sort(); shapes.dedup(); }
        let mut both = shapes.clone(); both.extend(shapes.iter().map(|(r, c)| (*c, *r)));
        let shapes = ok(both);
        v.push(space(format!("elongated: columns (rows) a gap of 1 .. 1e-15 apart, first or last the odd one, at {} shapes with up to 257 times as many rows as columns (or columns as rows)", shapes.len()), move |ctx| {
            let (r, c) = shapes[ctx.choose(shapes.len())];
            let g = ctx.pick(&[1.0, 1e-1, 1e-2, 1e-3, 1e-4, 1e-6, 1e-8, 1e-10, 1e-13, 1e-15]);
            let a = collinear(r, c, g, ctx.pick(&[0, r.min(c) - 1]));
            reg(ctx, &a);
            fl(ctx, &a, &chk)
        }));
    }
    {
        let chk = chk.clone();
        let th = t.thorough();
        let shapes = ok(if th { vec![(2, 2), (3, 2), (2, 3), (3, 3), (4, 3), (3, 4), (4, 4), (5, 4), (4, 5), (5, 5), (6, 4), (4, 6), (6, 6), (9, 9), (9, 6), (6, 9), (17, 17)] } else { vec![(2, 2), (3, 2), (2, 3), (3, 3), (4, 3), (3, 4), (4, 4), (5, 4), (4, 5), (6, 6)] });
        v.push(space(format!("magnitudes: a corner block, one entry, row, column or the coupling of two blocks of a family scaled by 2^-1 .. 2^-64, and geometric grading of rows, columns or both, shapes {shapes:?}"), move |ctx| {
            let (r, c) = shapes[ctx.choose(shapes.len())];
            let id = if th { ctx.pick(&[1usize, 5, 12, 16, 21, 24, 31, 36]) } else { ctx.pick(&[1usize, 12, 36]) };
            let a = magnitudes(ctx, general(id, r, c, 1), false, th);
            fl(ctx, &a, &chk)
        }));
    }
    v
}
/// Columns (rows, when wide) that differ by `g` from being the same: condition about 1/g.
pub fn collinear(r: usize, c: usize, g: f64, k: usize) -> A2 {
    let (t, w) = (r.max(c), r.min(c));
    let a = A2::from_shape_fn((t, w), |(i, j)| if j == k % w { 1.0 } else { 1.0 + g * (md((i * (j + 2) + i / (j + 1)) as i64, 11) + if i == j { 9.0 } else { 0.0 }) });
    if r >= c { a } else { tr(&a) }
}
/// Every variable in a unit of its own.
pub const VARUNITS: &str = "units per variable: every combination of 2^0, 2^-k, 2^k for up to 3 variables, one, two, all, alternating or graded ones for up to 6, k in 8, 30, 60, 240 (4, 9, 16, 22 for f32)";
pub fn var_units(ctx: &mut Ctx, n: usize, single: bool) {
    let k = if single { ctx.pick(&[4, 9, 16, 22]) } else { ctx.pick(&[8, 30, 60, 240]) };
    let u: Vec<i32> = if n <= 3 { (0..n).map(|_| ctx.pick(&[0, -k, k])).collect() } else {
        let up = ctx.pick(&[1, -1]);
        let p = ctx.choose(2 * n + 2);
        (0..n).map(|i| up * match p { _ if p < n => if i == p { k } else { 0 }, _ if p < 2 * n => if i <= p - n { k } else { 0 }, _ if p == 2 * n => if i % 2 == 0 { k } else { -k }, _ => (k / n as i32).max(1) * i as i32 }).collect()
    };
    ctx.state(u.iter().fold(7u64, |h, x| h.wrapping_mul(1009).wrapping_add(*x as u64)));
    ctx.note(|| format!("units 2^{u:?}"));
    ctx.units = u;
}
/// One part of `a` scaled by a power of two down to 2^-64, the rest left as it is.
pub fn magnitudes(ctx: &mut Ctx, a: A2, sym: bool, every: bool) -> A2 {
    let (r, c) = a.dim();
    let kind = ctx.choose(if sym { 6 } else { 8 });
    let k = if kind >= (if sym { 4 } else { 6 }) { 1 + ctx.choose(20) } else if every { 1 + ctx.choose(64) } else { 2 * (1 + ctx.choose(32)) };
    let g = ldexp(1.0, -(k as i32));
    let p = ctx.choose(r.min(c));
    let mut a = a;
    match (sym, kind) {
        // one entry (pair): on the diagonal, next to it, and in the far corner of row p
        (_, 0) => { a[(p, p)] *= g; }
        (true, 1) => { if p > 0 { a[(p, p - 1)] *= g; a[(p - 1, p)] *= g; } else { a[(0, r - 1)] *= g; if r > 1 { a[(r - 1, 0)] *= g; } } }
        (false, 1) => { let q = if ctx.flag() { c - 1 } else { (p + 1) % c }; a[(p, q)] *= g; }
        // row and column p
        (true, 2) => { for i in 0..r { a[(i, p)] *= g; a[(p, i)] *= g; } }
        // coupling of the leading p + 1 rows (columns) with the others
        (_, 3) => { for i in 0..r { for j in 0..c { if (i <= p) != (j <= p) { a[(i, j)] *= g; } } } }
        // geometric grading, downwards or upwards
        (true, 4) => { for i in 0..r { for j in 0..r { a[(i, j)] = ldexp(a[(i, j)], -(k as i32) * (i + j) as i32); } } }
        (true, 5) => { for i in 0..r { for j in 0..r { a[(i, j)] = ldexp(a[(i, j)], -(k as i32) * (2 * r - 2 - i - j) as i32); } } }
        (false, 2) => { for j in 0..c { a[(p, j)] *= g; } }
        (false, 4) => { for i in 0..r { a[(i, p)] *= g; } }
        (false, 5) => { for i in p..r { for j in p..c { a[(i, j)] *= g; } } }
        (false, 6) => { let d = ctx.choose(3); for i in 0..r { for j in 0..c { a[(i, j)] = ldexp(a[(i, j)], -(k as i32) * [i, j, i + j][d] as i32); } } }
        (false, 7) => { let d = ctx.choose(3); for i in 0..r { for j in 0..c { a[(i, j)] = ldexp(a[(i, j)], -(k as i32) * [r - 1 - i, c - 1 - j, r + c - 2 - i - j][d] as i32); } } }
        _ => unreachable!(),
    }
    reg(ctx, &a);
    a
}
/// Spaces of symmetric matrices.
pub fn symmetrics(t: Tier, empty: bool, chk: Chk) -> Vec<Space> {
    let mut v = vec![];
    v.push(sym_space("ternary", if empty { vec![0, 1, 2, 3, 4] } else { vec![1, 2, 3, 4] }, Z3, &chk));
    v.push(sym_space("seven", vec![1, 2], Z7, &chk));
    v.push(sym_space("quinary 3", vec![3], Z5, &chk));
    v.push(sym_space("graded 2", vec![2], GRADED, &chk));
    v.push(sym_space("binary 5", vec![5], Z2, &chk));
    {
        let chk = chk.clone();
        let th = t.thorough();
        v.push(space("tridiagonal: every symmetric tridiagonal matrix with diagonal and off-diagonal over graded values, order 3 (4 when thorough)", move |ctx| {
            let n = if th { 3 + ctx.choose(2) } else { 3 };
            let al: &[f64] = if n == 3 { &[0.0, 1.0, -1.0, 3.0, 1e-8, 1e-17, 1e-160] } else { &[0.0, 1.0, -2.0, 1e-9, 1e-17] };
            let mut a = A2::zeros((n, n));
            for i in 0..n { a[(i, i)] = ctx.pick(al); }
            for i in 1..n { let x = ctx.pick(al); a[(i, i - 1)] = x; a[(i - 1, i)] = x; }
            reg(ctx, &a);
            fl(ctx, &a, &chk)
        }));
    }
    if t.thorough() {
        v.push(sym_space("graded 3", vec![3], &[0.0, 1.0, -1.0, 3.0, 1e-8, 1e-4, 2e-16, 1e-30], &chk));
        v.push(sym_space("quaternary 4", vec![4], &[0.0, 1.0, -1.0, 2.0], &chk));
        v.push(sym_space("binary 6", vec![6], Z2, &chk));
    }
    {
        let chk = chk.clone();
        let d = if t.thorough() { 2 } else { 1 };
        v.push(space(format!("deviations: at most {d} symmetric pairs of 9 base families replaced by graded values, orders 3..8"), move |ctx| {
            let n = 3 + ctx.choose(if d == 2 { 3 } else { 6 });
            let id = ctx.pick(&[0usize, 1, 2, 4, 6, 7, 8, 10, 21]);
            let a = deviate(ctx, symmetric(id, n, 0), d, if d == 1 { GRADED } else { &[0.0, 1.0, -1e-8, 1e-17, 1e3] }, true);
            fl(ctx, &a, &chk)
        }));
    }
    {
        let chk = chk.clone();
        let mut ns: Vec<usize> = (1..=12).collect();
        ns.extend([15, 16, 17, 20, 24, 31, 32, 33]);
        if t.thorough() { ns.extend([40, 48, 50, 63, 64, 65, 80]); }
        v.push(space(format!("families: {} structured families at orders {ns:?}", NSYM + NGEN), move |ctx| {
            let n = ns[ctx.choose(ns.len())];
            let a = sym_family(ctx, n);
            fl(ctx, &a, &chk)
        }));
    }
    {
        let chk = chk.clone();
        let ns: &'static [usize] = if t.thorough() { &[48, 64, 65, 100, 129, 150, 200, 257, 300] } else { &[48, 64, 65, 100, 129, 200] };
        let fams: &'static [usize] = if t.thorough() { &[1, 6, 7, 9, 10, 12, 16, 17, 21, 22, 23, 24, 25, 30] } else { &[7, 10, 22] };
        v.push(space(format!("large: families {fams:?} at orders {ns:?}, the first alone beyond 150"), move |ctx| {
            let n = ctx.pick(ns);
            let id = if n > 150 { fams[0] } else { ctx.pick(fams) };
            let a = symmetric(id, n, 1);
            reg(ctx, &a);
            fl(ctx, &a, &chk)
        }));
    }
    {
        let chk = chk.clone();
        let ns: Vec<usize> = if t.thorough() { vec![1, 2, 3, 4, 5, 8, 12] } else { vec![1, 2, 3, 5] };
        v.push(space(format!("scales: {} families at orders {ns:?} times powers of two over the whole range of the type", NSYM + NGEN), move |ctx| {
            let n = ns[ctx.choose(ns.len())];
            let a = sym_family(ctx, n);
            let single = ctx.flag();
            let a = rescale(ctx, &a, single);
            chk(ctx, &a, single)
        }));
    }
    {
        let chk = chk.clone();
        let mut ns: Vec<usize> = vec![1, 2, 3, 4, 5, 6, 8, 9, 12, 16, 17, 33];
        if t.thorough() { ns.extend([7, 10, 11, 24, 32, 48, 64, 65, 66]); }
        v.push(space(format!("layouts: families at orders {ns:?} x {NLAY} memory layouts x 3 scales"), move |ctx| {
            let n = ns[ctx.choose(ns.len())];
            let id = if n > 9 { ctx.pick(&[7usize, 16, 22]) } else { ctx.pick(&[1usize, 2, 5, 7, 8, 10, 16, 18, 21, 22, 24, 27]) };
            let a = symmetric(id, n, 1);
            reg(ctx, &a);
            let single = ctx.flag();
            let k = ctx.pick(if single { &[0, -70, 63] } else { &[0, -540, 510] });
            ctx.state((2 * k as i64 + single as i64) as u64);
            let e = expo(&a);
            let a = if k == 0 { a } else { a.mapv(|x| ldexp(x, k - e)) };
            pick_layout(ctx);
            chk(ctx, &a, single)
        }));
    }
    {
        let chk = chk.clone();
        let th = t.thorough();
        let ns: Vec<usize> = if th { vec![2, 3, 4, 5, 6, 7, 9, 12, 17] } else { vec![2, 3, 4, 5, 6, 9] };
        v.push(space(format!("magnitudes: one entry pair, a row and column or the coupling of two blocks of a family scaled by 2^-1 .. 2^-64, and geometric grading up and down, orders {ns:?}"), move |ctx| {
            let n = ns[ctx.choose(ns.len())];
            let id = if th { ctx.pick(&[1usize, 2, 5, 7, 10, 16, 21, 22, 24, 27]) } else { ctx.pick(&[1usize, 2, 7, 16, 22]) };
            let a = magnitudes(ctx, symmetric(id, n, 1), true, th);
            fl(ctx, &a, &chk)
        }));
    }
    v
}

/// QR with every column in a unit of its own; the factors are judged column by column.
pub fn qr_units(chk: Chk) -> Space {
    space(format!("{VARUNITS}; families at 14 shapes"), move |ctx| {
        let (r, c) = ctx.pick(&[(1usize, 1usize), (2, 1), (2, 2), (3, 1), (3, 2), (3, 3), (4, 2), (4, 3), (4, 4), (5, 3), (5, 5), (6, 6), (9, 4), (12, 5)]);
        let a = gen_family(ctx, r, c);
        let s = ctx.flag();
        ctx.state(s as u64);
        var_units(ctx, c, s);
        if s { ctx.note(|| "f32".into()); }
        chk(ctx, &a, s)
    })
}
