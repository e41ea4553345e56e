//! Float types the library is instantiated with, and helpers on `Array2<f64>` (the oracle side).
use ndarray::{Array1, Array2, NdFloat};
use std::iter::Sum;

pub type A1 = Array1<f64>;
pub type A2 = Array2<f64>;

pub trait Fl: NdFloat + Sum + Send + Sync + linfa_fl::Mag {
    const EPS: f64;
    /// exponent range of normal numbers
    const EMIN: i32;
    const EMAX: i32;
    /// smallest subnormal
    const SUB: f64;
    fn of(x: f64) -> Self;
    fn f(self) -> f64;
    fn bits(self) -> u64;
}
#[cfg(feature = "iterative")]
pub mod linfa_fl { pub use linfa_linalg::lobpcg::MagnitudeCorrection as Mag; }
#[cfg(not(feature = "iterative"))]
pub mod linfa_fl { pub trait Mag {} impl Mag for f32 {} impl Mag for f64 {} }

impl Fl for f32 {
    const EPS: f64 = f32::EPSILON as f64;
    const EMIN: i32 = -126;
    const EMAX: i32 = 127;
    const SUB: f64 = 1.401298464324817e-45;
    fn of(x: f64) -> f32 { x as f32 }
    fn f(self) -> f64 { self as f64 }
    fn bits(self) -> u64 { self.to_bits() as u64 }
}
impl Fl for f64 {
    const EPS: f64 = f64::EPSILON;
    const EMIN: i32 = -1022;
    const EMAX: i32 = 1023;
    const SUB: f64 = 5e-324;
    fn of(x: f64) -> f64 { x }
    fn f(self) -> f64 { self }
    fn bits(self) -> u64 { self.to_bits() }
}

pub fn to<F: Fl>(a: &A2) -> Array2<F> { a.mapv(F::of) }
pub fn fr<F: Fl>(a: &Array2<F>) -> A2 { a.mapv(F::f) }
pub fn fr1<F: Fl>(a: &Array1<F>) -> A1 { a.mapv(F::f) }
/// The matrix the library actually sees (entries rounded to the float type).
pub fn rounded<F: Fl>(a: &A2) -> A2 { a.mapv(|x| F::of(x).f()) }

pub fn amax(a: &A2) -> f64 { a.iter().fold(0.0, |m: f64, x| if x.is_nan() { f64::NAN } else { m.max(x.abs()) }) }
/// Like amax, but NaN anywhere gives NaN (which fails every comparison).
pub fn nmax<'a>(a: impl IntoIterator<Item = &'a f64>) -> f64 {
    let mut m = 0.0f64;
    for x in a {
        if x.is_nan() { return f64::NAN; }
        m = m.max(x.abs());
    }
    m
}
/// x * 2^e without intermediate overflow/underflow
pub fn ldexp(mut x: f64, mut e: i32) -> f64 {
    while e > 1000 { x *= 2f64.powi(1000); e -= 1000; }
    while e < -1000 { x *= 2f64.powi(-1000); e += 1000; }
    x * 2f64.powi(e)
}
/// Exponent e such that max|a| * 2^-e is in [1,2) (0 for the zero matrix).
pub fn expo(a: &A2) -> i32 {
    let mut m = amax(a);
    if m == 0.0 || !m.is_finite() { return 0; }
    let mut e = 0;
    if m < 1e-290 { m *= 2f64.powi(200); e -= 200; }
    while m < 1.0 { m *= 2.0; e -= 1; }
    while m >= 2.0 { m *= 0.5; e += 1; }
    e
}
pub fn scaled(a: &A2, e: i32) -> A2 { if e == 0 { a.clone() } else { a.mapv(|x| ldexp(x, -e)) } }
pub fn scaled1(a: &A1, e: i32) -> A1 { if e == 0 { a.clone() } else { a.mapv(|x| ldexp(x, -e)) } }

/// Plain triple loop product (independent of ndarray's gemm).
pub fn mul(a: &A2, b: &A2) -> A2 {
    let (n, k) = a.dim();
    let m = b.ncols();
    assert_eq!(k, b.nrows());
    let mut o = A2::zeros((n, m));
    for i in 0..n {
        for l in 0..k {
            let x = a[(i, l)];
            if x != 0.0 {
                for j in 0..m { o[(i, j)] += x * b[(l, j)]; }
            }
        }
    }
    o
}
pub fn tr(a: &A2) -> A2 { a.t().to_owned() }
pub fn diag(d: &A1) -> A2 { A2::from_diag(d) }
/// max |Q^T Q - I|
pub fn orth_cols(q: &A2) -> f64 {
    let g = mul(&tr(q), q);
    let mut m = 0.0f64;
    for ((i, j), x) in g.indexed_iter() {
        let d = (x - (i == j) as u8 as f64).abs();
        if d.is_nan() { return f64::NAN; }
        m = m.max(d);
    }
    m
}
pub fn orth_rows(q: &A2) -> f64 { orth_cols(&tr(q)) }
pub fn maxdiff(a: &A2, b: &A2) -> f64 {
    if a.dim() != b.dim() { return f64::INFINITY; }
    let mut m = 0.0f64;
    for (x, y) in a.iter().zip(b.iter()) {
        let d = (x - y).abs();
        if d.is_nan() { return f64::NAN; }
        m = m.max(d);
    }
    m
}
pub fn show(a: &A2) -> String {
    let (r, c) = a.dim();
    let rows: Vec<String> = a.rows().into_iter().map(|r| format!("[{}]", r.iter().map(|x| format!("{x:?}")).collect::<Vec<_>>().join(", "))).collect();
    if r * c > 400 { format!("{r}x{c} matrix, first row {}", rows.first().cloned().unwrap_or_default().chars().take(200).collect::<String>()) } else { format!("{r}x{c} [{}]", rows.join(", ")) }
}
pub fn show1(a: &A1) -> String { format!("[{}]", a.iter().take(40).map(|x| format!("{x:?}")).collect::<Vec<_>>().join(", ")) }
