//! Bounded spaces of matrices, right-hand sides and memory layouts. Everything nondeterministic is
//! asked from the explorer.
use crate::explore::Ctx;
use crate::num::*;
use ndarray::{s, Array2, ArrayBase, ArrayView2, ArrayViewMut2, Ix2, OwnedRepr, RawData};

pub const Z3: &[f64] = &[0.0, 1.0, -1.0];
pub const Z2: &[f64] = &[0.0, 1.0];
pub const Z5: &[f64] = &[0.0, 1.0, -1.0, 2.0, -2.0];
pub const Z7: &[f64] = &[0.0, 1.0, -1.0, 2.0, -3.0, 0.5, 7.0];
/// Magnitudes from tiny to huge next to each other.
pub const GRADED: &[f64] = &[0.0, 1.0, -1.0, 3.0, 1e-8, -1e-8, 1e-4, 2e-16, 1e-30, -0.0, 1e-160, 1e3];

/// Every matrix of the shape with entries from `al`.
pub fn dense(ctx: &mut Ctx, r: usize, c: usize, al: &[f64]) -> A2 {
    let mut a = A2::zeros((r, c));
    for x in a.iter_mut() { *x = al[ctx.choose(al.len())]; }
    reg(ctx, &a);
    a
}
/// Every symmetric matrix of the size with entries from `al`.
pub fn dense_sym(ctx: &mut Ctx, n: usize, al: &[f64]) -> A2 {
    let mut a = A2::zeros((n, n));
    for i in 0..n { for j in 0..=i { let x = al[ctx.choose(al.len())]; a[(i, j)] = x; a[(j, i)] = x; } }
    reg(ctx, &a);
    a
}
/// Registers an input as (part of) the state of this execution.
pub fn reg(ctx: &mut Ctx, a: &A2) {
    ctx.state(a.nrows() as u64 + 1);
    ctx.state(a.ncols() as u64 + 1);
    for x in a.iter() { ctx.state(x.to_bits()); }
    if ctx.verbose { let s = show(a); ctx.note(|| s); }
}

pub fn md(x: i64, m: i64) -> f64 { (x.rem_euclid(m) - m / 2) as f64 }

pub const NGEN: usize = 40;
/// Structured matrices of any shape. `k` is a secondary parameter (position, block size).
pub fn general(id: usize, r: usize, c: usize, k: usize) -> A2 {
    let d = r.min(c);
    let f = |g: &dyn Fn(usize, usize) -> f64| A2::from_shape_fn((r, c), |(i, j)| g(i, j));
    match id {
        0 => f(&|_, _| 0.0),
        1 => f(&|_, _| 1.0),
        2 => f(&|i, j| (i == j) as u8 as f64),
        3 => f(&|i, j| if i == j { 2f64.powi(-4 * i as i32) } else { 0.0 }),
        4 => f(&|i, j| if i == j { 10f64.powi(-(2 * ((i + k) % 9) as i32)) } else { 0.0 }),
        5 => f(&|i, j| 1.0 / (i + j + 1) as f64),
        6 => f(&|i, j| (((i + 1) as f64) / r as f64).powi(j as i32)),
        7 => f(&|i, j| (i >= j) as u8 as f64),
        8 => f(&|i, j| (i <= j) as u8 as f64),
        9 => f(&|i, j| 0.9f64.powi(i as i32) * if i == j { 1.0 } else if j > i { -0.4 } else { 0.0 }),
        10 => f(&|i, j| if i == 0 { 1.0 } else if i == j + 1 { 1e-9 } else { 0.0 }),
        11 => f(&|i, j| ((i + 1) * (j + 1)) as f64),
        12 => f(&|i, j| md(i as i64 * 3, 7) * md(j as i64 * 2, 5) + md(i as i64, 3) * md(j as i64 + 1, 4)),
        13 => f(&|i, j| (i == k % r.max(1) && j == (k / 2) % c.max(1)) as u8 as f64 * -3.0),
        14 => f(&|i, j| (i == (j + 1 + k) % r.max(1)) as u8 as f64),
        15 => f(&|i, j| if i + j + 1 == d { -2.0 + i as f64 } else { 0.0 }),
        16 => f(&|i, j| if i == j { 2.0 } else if i == j + 1 || j == i + 1 { -1.0 } else { 0.0 }),
        17 => f(&|i, j| if i == j || j == i + 1 { 1.0 } else { 0.0 }),
        18 => f(&|i, j| if i == j { if i == k % d.max(1) { 0.0 } else { 1.0 + i as f64 } } else if j == i + 1 { 1.0 } else { 0.0 }),
        19 => f(&|i, j| if j % 2 == 1 { 0.0 } else { md((i * 5 + j * 3 + 1) as i64, 11) }),
        20 => f(&|i, j| md((i * 5 + (j / 2) * 3 + i * (j / 2)) as i64, 11)),
        21 => f(&|i, j| md((i * 7 + j * 3 + i * j) as i64, 11) * 10f64.powi(-(3 * (j % 5) as i32))),
        22 => f(&|i, j| md((i * 7 + j * 3 + i * j) as i64, 11) * 10f64.powi(-(3 * (i % 5) as i32))),
        23 => f(&|i, j| if (i < d / 2) == (j < d / 2) { md((i * 4 + j * 9 + i * j) as i64, 7) } else { 0.0 }),
        24 => f(&|i, j| if (i + j) % 2 == 0 { 1.0 } else { -1.0 }),
        25 => f(&|i, j| if i == j { -1.0 } else { 0.0 }),
        26 => f(&|i, j| 1.0 + 1e-12 * md((i * 3 + j * 5 + i * j) as i64, 7)),
        27 => f(&|i, j| if i == 0 || j == 0 || i == j { 1.0 + (i + j) as f64 } else { 0.0 }),
        28 => f(&|i, j| if (i & j).count_ones() % 2 == 0 { 1.0 } else { -1.0 }),
        29 => f(&|i, j| (std::f64::consts::PI * (i as f64 + 0.5) * j as f64 / r.max(1) as f64).cos()),
        30 => f(&|i, j| if j == i + 1 && i % 3 != 2 { 1.0 } else { 0.0 }),
        31 => f(&|i, j| if i == 0 || j == 0 { 0.0 } else { md((i * 2 + j * 3 + i * i * j) as i64, 5) }),
        32 => f(&|i, j| if i + 1 == r || j + 1 == c { 0.0 } else { md((i * 2 + j * 3 + i * i * j) as i64, 5) }),
        33 => f(&|i, j| if i <= j + 1 { md((i * 3 + j * 7 + i * j * j + k) as i64, 9) } else { 0.0 }),
        34 => f(&|i, j| md((i * 3 + j * 7 + i * j * j) as i64, 9) * 2f64.powi((i as i32 * 7 + j as i32 * 3) % 40 - 20)),
        35 => f(&|i, j| if i == j { (1 + i % 3) as f64 } else { 0.0 }),
        36 => f(&|i, j| ((i * i + 3 * j + i * j * j + k) % 13) as f64 / 7.0 - 0.8),
        37 => f(&|i, j| if i == j { 1.0 } else { 1e-9 * md((i * 3 + j * 5 + 1) as i64, 7) }),
        38 => f(&|i, j| -(((i * 31 + j * 17 + i * j * 7 + k * 13) % 101) as f64)),
        39 => f(&|i, j| if i == j { if i % 2 == 0 { 1.0 } else { 0.0 } } else if j == i + 1 { 0.5 } else { 0.0 }),
        _ => unreachable!(),
    }
}
pub const NSYM: usize = 32;
pub fn symmetric(id: usize, n: usize, k: usize) -> A2 {
    let f = |g: &dyn Fn(usize, usize) -> f64| A2::from_shape_fn((n, n), |(i, j)| g(i.max(j), i.min(j)));
    let lat = |p: i64, q: i64, r: i64, m: i64| f(&|i, j| md(p * (i + j) as i64 + q * (i * j) as i64 + r * ((i - j) * (i - j)) as i64 + k as i64, m));
    match id {
        0 => f(&|_, _| 0.0),
        1 => f(&|_, _| 1.0),
        2 => f(&|i, j| (i == j) as u8 as f64),
        3 => f(&|i, j| if i == j { 10f64.powi(-(2 * ((i + k) % 9) as i32)) } else { 0.0 }),
        4 => f(&|i, j| if i == j { ((i + k) % 3) as f64 - 1.0 } else { 0.0 }),
        5 => f(&|i, j| 1.0 / (i + j + 1) as f64),
        6 => f(&|i, j| if i == j { (i as f64 - (n as f64 - 1.0) / 2.0).abs() } else if i == j + 1 { 1.0 } else { 0.0 }),
        7 => f(&|i, j| if i == j { 2.0 } else if i == j + 1 { -1.0 } else { 0.0 }),
        8 => f(&|i, j| if i == j + 1 { 1.0 } else { 0.0 }),
        9 => f(&|i, j| if i == j + 1 || (j == 0 && i + 1 == n) { 1.0 } else { 0.0 }),
        10 => f(&|i, j| (i != j) as u8 as f64),
        11 => f(&|i, j| if j == 0 || i == j { 1.0 + (i % 4) as f64 } else { 0.0 }),
        12 => f(&|i, j| if j == 0 && i > 0 { 1.0 } else { 0.0 }),
        13 => f(&|i, j| (i == j) as u8 as f64 - 2.0 / n as f64),
        14 => f(&|i, j| ((i + 1) * (j + 1)) as f64),
        15 => f(&|i, j| if (i < n / 2) == (j < n / 2) { 0.0 } else { md((i * 3 + j * 5) as i64, 7) }),
        16 => f(&|i, j| (i.min(j) + 1) as f64),
        17 => f(&|i, j| if i == j + 1 { (((j + 1) * (n - 1 - j)) as f64).sqrt() } else { 0.0 }),
        18 => f(&|i, j| if i == j { i as f64 } else if i == j + 1 && j % 2 != k % 2 { 1.0 } else { 0.0 }),
        19 => f(&|i, j| if i == j { 1.0 } else { 1e-9 * md((i + j) as i64, 5) }),
        20 => f(&|i, j| if i == j { 1.0 + i as f64 } else { 1e-6 }),
        21 => lat(3, 2, 1, 7),
        22 => lat(5, 1, 3, 11),
        23 => lat(1, 0, 2, 5),
        24 => f(&|i, j| md((i * 3 + j * 5 + i * j) as i64, 9) * 10f64.powi(-(2 * (i.max(j) % 7) as i32))),
        25 => f(&|i, j| md((i * 3 + j * 5 + i * j) as i64, 9) * 10f64.powi(-(2 * ((n - 1 - i.min(j)) % 7) as i32))),
        26 => f(&|i, j| if i == j && i == k % n.max(1) { -5.0 } else { 0.0 }),
        27 => f(&|i, j| if i / 2 == j / 2 && i != j { 1.0 + (i / 2) as f64 } else { 0.0 }),
        28 => f(&|i, j| if i + j + 1 == n { 1.0 } else { 0.0 }),
        29 => f(&|i, j| if i == j { -(1.0 + i as f64) } else { -0.25 }),
        30 => f(&|i, j| if i % 3 == j % 3 { 1.0 + ((i + j) % 2) as f64 } else { 0.0 }),
        31 => f(&|i, j| if i == j { 1.0 } else if i == j + 1 { 10f64.powi(-(2 * (j % 8) as i32)) } else { 0.0 }),
        _ => unreachable!(),
    }
}
pub const NSPD: usize = 12;
/// Symmetric positive definite, condition at most about 1e6 (unless noted).
pub fn spd(id: usize, n: usize, k: usize) -> A2 {
    let f = |g: &dyn Fn(usize, usize) -> f64| A2::from_shape_fn((n, n), |(i, j)| g(i.max(j), i.min(j)));
    let gram = |l: &A2| mul(l, &tr(l));
    match id {
        0 => f(&|i, j| (i == j) as u8 as f64),
        1 => f(&|i, j| if i == j { 2.0 } else if i == j + 1 { -1.0 } else { 0.0 }),
        2 => f(&|i, j| (j + 1 - i.min(0)) as f64),
        3 => f(&|i, j| (j + 1) as f64 / (i + 1) as f64),
        4 => f(&|i, j| if i == j { 10f64.powi(((i * 3 + k) % 7) as i32 - 3) } else { 0.0 }),
        5 => f(&|i, j| (i == j) as u8 as f64 + 1.0),
        6 => { let l = A2::from_shape_fn((n, n), |(i, j)| if i == j { 1.0 + ((i + k) % 3) as f64 } else if i > j && i - j < 4 { md((i * 3 + j * 5 + k) as i64, 3) } else { 0.0 }); gram(&l) }
        7 => { let b = A2::from_shape_fn((n, n), |(i, j)| md((i * 7 + j * 3 + i * j + k) as i64, 11)); let mut g = gram(&b); for i in 0..n { g[(i, i)] += 1.0 + n as f64; } g }
        8 => f(&|i, j| 0.5f64.powi((i - j) as i32)),
        9 => f(&|i, j| if i == j { n as f64 + 1.0 } else { -1.0 }),
        10 => f(&|i, j| if i == j { 1.0 + i as f64 } else if j == 0 { 0.25 } else { 0.0 } ),
        11 => f(&|i, j| if i == j { 4.0 } else if i == j + 1 { 1.0 } else if i == j + 2 { -1.0 } else { 0.0 }),
        _ => unreachable!(),
    }
}
/// Lattice a_ij = ((p i + q j + r i j + s i i + t) mod m) - m/2.
pub fn lattice(ctx: &mut Ctx, r: usize, c: usize, wide: bool) -> A2 {
    let m = if wide { ctx.pick(&[3i64, 5, 7, 11, 13]) } else { ctx.pick(&[3i64, 7, 11]) };
    let p = ctx.choose(if wide { 5 } else { 3 }) as i64;
    let q = ctx.choose(if wide { 5 } else { 3 }) as i64 + 1;
    let rr = ctx.choose(3) as i64;
    let t = ctx.choose(if wide { 4 } else { 2 }) as i64;
    let a = A2::from_shape_fn((r, c), |(i, j)| md(p * i as i64 + q * j as i64 + rr * (i * j) as i64 + (i * i) as i64 + t, m));
    reg(ctx, &a);
    a
}
pub fn gen_family(ctx: &mut Ctx, r: usize, c: usize) -> A2 {
    let id = ctx.choose(NGEN);
    let k = if matches!(id, 4 | 13 | 14 | 18 | 33 | 36 | 38) { ctx.choose(3) } else { 0 };
    let a = general(id, r, c, k);
    reg(ctx, &a);
    a
}
pub fn sym_family(ctx: &mut Ctx, n: usize) -> A2 {
    let id = ctx.choose(NSYM + NGEN);
    let a = if id < NSYM {
        let k = if matches!(id, 3 | 4 | 18 | 21 | 22 | 23 | 26) { ctx.choose(3) } else { 0 };
        symmetric(id, n, k)
    } else {
        let g = general(id - NSYM, n, n, 1);
        let mut a = A2::zeros((n, n));
        for i in 0..n { for j in 0..n { a[(i, j)] = g[(i.max(j), i.min(j))] + g[(i.min(j), i.max(j))]; } }
        a
    };
    reg(ctx, &a);
    a
}
pub fn spd_family(ctx: &mut Ctx, n: usize) -> A2 {
    let id = ctx.choose(NSPD);
    let k = if matches!(id, 4 | 6 | 7) { ctx.choose(3) } else { 0 };
    let a = spd(id, n, k);
    reg(ctx, &a);
    a
}
/// All matrices that differ from `base` in at most `d` entries, replaced by values of `al`.
pub fn deviate(ctx: &mut Ctx, mut base: A2, d: usize, al: &[f64], sym: bool) -> A2 {
    let (r, c) = base.dim();
    let mut from = 0;
    for _ in 0..d {
        if r * c == 0 { break; }
        let p = ctx.choose(r * c - from + 1);
        if p == 0 { break; }
        let pos = from + p - 1;
        let v = al[ctx.choose(al.len())];
        base[(pos / c, pos % c)] = v;
        if sym { base[(pos % c, pos / c)] = v; }
        from = pos;
        if from + 1 >= r * c { break; }
        from += 1;
    }
    reg(ctx, &base);
    base
}

// ---------------------------------------------------------------------------------- layouts
pub const LAYOUTS: &[&str] = &["row-major", "column-major", "rows reversed", "columns reversed", "both reversed", "strided", "sub-view", "transposed sub-view", "reversed strided", "transposed reversed"];
pub const NLAY: usize = 10;
fn base_dim(kind: usize, r: usize, c: usize) -> (usize, usize) {
    match kind {
        0 | 2 | 3 | 4 => (r, c),
        1 | 9 => (c, r),
        5 => (2 * r, 3 * c),
        6 => (r + 3, c + 2),
        7 => (c + 3, r + 2),
        8 => (2 * r, 2 * c),
        _ => unreachable!(),
    }
}
pub fn lay<S: RawData>(b: ArrayBase<S, Ix2>, kind: usize, r: usize, c: usize) -> ArrayBase<S, Ix2>
where
    S: ndarray::RawData,
{
    match kind {
        0 => b,
        1 => b.reversed_axes(),
        2 => b.slice_move(s![..;-1, ..]),
        3 => b.slice_move(s![.., ..;-1]),
        4 => b.slice_move(s![..;-1, ..;-1]),
        5 => b.slice_move(s![..;2, ..;3]),
        6 => b.slice_move(s![1..r + 1, 2..c + 2]),
        7 => b.slice_move(s![2..c + 2, 1..r + 1]).reversed_axes(),
        8 => b.slice_move(s![..;-2, ..;-2]),
        9 => b.slice_move(s![..;-1, ..]).reversed_axes(),
        _ => unreachable!(),
    }
}
/// A matrix held in backing storage larger than itself; the rest of the storage are canaries.
#[derive(Clone)]
pub struct Held<F> { pub base: Array2<F>, pub kind: usize, pub r: usize, pub c: usize }
impl<F: Fl> Held<F> {
    pub fn new(a: &A2, kind: usize) -> Self { Self::from(&to::<F>(a), kind) }
    pub fn from(a: &Array2<F>, kind: usize) -> Self {
        let (r, c) = a.dim();
        let mut base = Array2::from_elem(base_dim(kind, r, c), F::nan());
        lay(base.view_mut(), kind, r, c).assign(a);
        Held { base, kind, r, c }
    }
    pub fn view(&self) -> ArrayView2<'_, F> { lay(self.base.view(), self.kind, self.r, self.c) }
    pub fn view_mut(&mut self) -> ArrayViewMut2<'_, F> { lay(self.base.view_mut(), self.kind, self.r, self.c) }
    pub fn owned(&self) -> ArrayBase<OwnedRepr<F>, Ix2> { lay(self.base.clone(), self.kind, self.r, self.c) }
    /// Bits of all storage outside the matrix unchanged?
    pub fn frame_intact(&self, before: &Array2<F>) -> bool {
        let mut inside = Array2::from_elem(self.base.dim(), false);
        lay(inside.view_mut(), self.kind, self.r, self.c).fill(true);
        ndarray::Zip::from(&self.base).and(before).and(&inside).all(|a, b, i| *i || a.bits() == b.bits())
    }
}
/// The matrix as the monitor's current layout for matrices (0) or right-hand sides (1) holds it.
pub fn hold<F: Fl>(ctx: &Ctx, a: &A2, which: usize) -> Array2<F> { if ctx.lay[which] == 0 { to::<F>(a) } else { Held::<F>::new(a, ctx.lay[which]).owned() } }
/// Chooses the layouts of the matrix and of the right-hand side.
pub fn pick_layout(ctx: &mut Ctx) {
    ctx.lay[0] = ctx.choose(NLAY);
    ctx.state(ctx.lay[0] as u64);
    let l = ctx.lay[0];
    ctx.note(|| format!("held {}", LAYOUTS[l]));
}
pub fn pick_layouts(ctx: &mut Ctx) {
    pick_layout(ctx);
    ctx.lay[1] = ctx.pick(&[0usize, 1, 3, 5, 9]);
    ctx.state(ctx.lay[1] as u64);
    let l = ctx.lay[1];
    ctx.note(|| format!("right-hand side {}", LAYOUTS[l]));
}
pub fn same_bits<F: Fl>(a: &Array2<F>, b: &Array2<F>) -> bool { a.dim() == b.dim() && a.iter().zip(b.iter()).all(|(x, y)| x.bits() == y.bits()) }
/// Right-hand sides with `n` rows.
pub const NRHS: usize = 7;
pub fn rhs_kind(kind: usize, n: usize) -> A2 {
    match kind {
        0 => A2::from_elem((n, 1), 1.0),
        1 => A2::eye(n),
        2 => A2::from_shape_fn((n, 3), |(i, j)| md((i * 3 + j * 5 + i * j + 1) as i64, 7)),
        3 => A2::zeros((n, 0)),
        4 => A2::from_shape_fn((n, 2), |(i, j)| if j == 0 { 0.0 } else { 10f64.powi(-(i as i32 * 5 % 7)) }),
        5 => A2::from_shape_fn((n, 1), |(i, _)| (i + 1 == n) as u8 as f64 * -2.0),
        6 => A2::from_shape_fn((n, n + 2), |(i, j)| (((i * 31 + j * 17 + i * j * 7) % 101) as f64) / 50.0 - 1.0),
        _ => unreachable!(),
    }
}
pub fn rhs(ctx: &mut Ctx, n: usize) -> A2 {
    let k = ctx.choose(NRHS);
    ctx.state(1000 + k as u64);
    let b = rhs_kind(k, n);
    if ctx.verbose { let s = show(&b); ctx.note(|| format!("b = {s}")); }
    b
}
