//! Independent oracles. None of them shares code (or an algorithm) with the library: Jacobi
//! methods instead of QR iterations, integer arithmetic instead of floating point.
use crate::num::*;

/// Cyclic Jacobi; ascending eigenvalues and the matching orthonormal vectors (columns).
pub fn jacobi_eig(a: &A2) -> (Vec<f64>, A2) { jacobi(a, true) }
pub fn jacobi_vals(a: &A2) -> Vec<f64> { jacobi(a, false).0 }
fn jacobi(a: &A2, vectors: bool) -> (Vec<f64>, A2) {
    let n = a.nrows();
    let e = expo(a);
    let mut m = scaled(a, e);
    for i in 0..n { for j in 0..i { let x = m[(i, j)]; m[(j, i)] = x; } }
    let mut v = A2::eye(n);
    for _ in 0..60 {
        let mut off = 0.0f64;
        for p in 0..n { for q in p + 1..n { off = off.max(m[(p, q)].abs()); } }
        if off < 1e-18 { break; }
        for p in 0..n {
            for q in p + 1..n {
                let apq = m[(p, q)];
                if apq.abs() < 1e-19 { continue; }
                let th = (m[(q, q)] - m[(p, p)]) / (2.0 * apq);
                let t = if th.abs() > 1e150 { 0.5 / th } else { th.signum() / (th.abs() + (th * th + 1.0).sqrt()) };
                let c = 1.0 / (t * t + 1.0).sqrt();
                let s = t * c;
                for k in 0..n {
                    let (x, y) = (m[(k, p)], m[(k, q)]);
                    m[(k, p)] = c * x - s * y;
                    m[(k, q)] = s * x + c * y;
                }
                for k in 0..n {
                    let (x, y) = (m[(p, k)], m[(q, k)]);
                    m[(p, k)] = c * x - s * y;
                    m[(q, k)] = s * x + c * y;
                }
                m[(p, q)] = 0.0;
                m[(q, p)] = 0.0;
                if !vectors { continue; }
                for k in 0..n {
                    let (x, y) = (v[(k, p)], v[(k, q)]);
                    v[(k, p)] = c * x - s * y;
                    v[(k, q)] = s * x + c * y;
                }
            }
        }
    }
    let mut idx: Vec<usize> = (0..n).collect();
    idx.sort_by(|&i, &j| m[(i, i)].partial_cmp(&m[(j, j)]).unwrap());
    let w = idx.iter().map(|&i| ldexp(m[(i, i)], e)).collect();
    let mut vs = A2::zeros((n, n));
    for (k, &i) in idx.iter().enumerate() { vs.column_mut(k).assign(&v.column(i)); }
    (w, vs)
}

/// One-sided Jacobi singular values, descending.
pub fn jsvd(a: &A2) -> Vec<f64> {
    let e = expo(a);
    let mut m = scaled(a, e);
    if m.nrows() < m.ncols() { m = tr(&m); }
    let (r, c) = m.dim();
    // work on contiguous columns
    let mut cols: Vec<Vec<f64>> = (0..c).map(|j| (0..r).map(|i| m[(i, j)]).collect()).collect();
    for _ in 0..60 {
        let mut rotated = false;
        for p in 0..c {
            for q in p + 1..c {
                let (l, rr) = cols.split_at_mut(q);
                let (x, y) = (&mut l[p], &mut rr[0]);
                let (mut al, mut be, mut ga) = (0.0, 0.0, 0.0);
                for k in 0..r { al += x[k] * x[k]; be += y[k] * y[k]; ga += x[k] * y[k]; }
                if ga == 0.0 || ga.abs() <= 1e-15 * (1.0 + (r / 16) as f64) * (al * be).sqrt() || al.max(be) < 1e-200 { continue; }
                rotated = true;
                let z = (be - al) / (2.0 * ga);
                let t = if z.abs() > 1e150 { 0.5 / z } else { z.signum() / (z.abs() + (1.0 + z * z).sqrt()) };
                let cs = 1.0 / (1.0 + t * t).sqrt();
                let sn = cs * t;
                for k in 0..r {
                    let (u, w) = (x[k], y[k]);
                    x[k] = cs * u - sn * w;
                    y[k] = sn * u + cs * w;
                }
            }
        }
        if !rotated { break; }
    }
    let mut s: Vec<f64> = cols.iter().map(|x| {
        let mx = x.iter().fold(0.0f64, |m, v| m.max(v.abs()));
        if mx == 0.0 { 0.0 } else { x.iter().map(|v| (v / mx) * (v / mx)).sum::<f64>().sqrt() * mx }
    }).collect();
    s.sort_by(|a, b| b.partial_cmp(a).unwrap());
    s.into_iter().map(|x| ldexp(x, e)).collect()
}

pub type IM = Vec<Vec<i128>>;
/// Exact integer image of an integer-valued matrix.
pub fn ints(a: &A2) -> Option<IM> {
    let mut o = vec![];
    for r in a.rows() {
        let mut v = vec![];
        for x in r { if x.fract() != 0.0 || x.abs() > 1e6 { return None; } v.push(*x as i128); }
        o.push(v);
    }
    Some(o)
}
/// Bareiss: rank of an integer matrix.
pub fn rank(m: &IM) -> usize {
    let mut m = m.clone();
    let (r, c) = (m.len(), if m.is_empty() { 0 } else { m[0].len() });
    let mut prev = 1i128;
    let mut row = 0;
    for col in 0..c {
        let Some(p) = (row..r).find(|&i| m[i][col] != 0) else { continue };
        m.swap(row, p);
        for i in row + 1..r {
            for j in col + 1..c { m[i][j] = (m[row][col] * m[i][j] - m[i][col] * m[row][j]) / prev; }
            m[i][col] = 0;
        }
        prev = m[row][col];
        row += 1;
        if row == r { break; }
    }
    row
}
pub fn det(m: &IM) -> i128 {
    let mut m = m.clone();
    let n = m.len();
    let mut prev = 1i128;
    let mut sg = 1;
    for k in 0..n {
        let Some(p) = (k..n).find(|&i| m[i][k] != 0) else { return 0 };
        if p != k { m.swap(k, p); sg = -sg; }
        for i in k + 1..n { for j in k + 1..n { m[i][j] = (m[k][k] * m[i][j] - m[i][k] * m[k][j]) / prev; } }
        prev = m[k][k];
    }
    if n == 0 { 1 } else { sg * m[n - 1][n - 1] }
}
/// Exact verdict on positive definiteness: all leading principal minors positive (Sylvester).
pub fn leading_minors(m: &IM) -> Vec<i128> {
    (1..=m.len()).map(|k| det(&m[..k].iter().map(|r| r[..k].to_vec()).collect())).collect()
}
/// Characteristic polynomial det(xI - A), coefficients from x^n downwards (Faddeev-LeVerrier, exact).
pub fn charpoly(a: &IM) -> Vec<i128> {
    let n = a.len();
    let mut c = vec![1i128];
    let mut m = vec![vec![0i128; n]; n];
    for k in 1..=n {
        let ck = c[k - 1];
        let mut t = vec![vec![0i128; n]; n];
        for i in 0..n { for j in 0..n { let mut s = 0; for l in 0..n { s += a[i][l] * m[l][j]; } t[i][j] = s; } t[i][i] += ck; }
        m = t;
        let mut trc = 0;
        for i in 0..n { for l in 0..n { trc += a[i][l] * m[l][i]; } }
        c.push(-trc / k as i128);
    }
    c
}
/// (negative, zero, positive) eigenvalue counts of a symmetric integer matrix, exactly: the
/// characteristic polynomial is real-rooted, so Descartes' rule of signs is an equality.
pub fn inertia(a: &IM) -> (usize, usize, usize) {
    let p = charpoly(a);
    let n = a.len();
    let zero = p.iter().rev().take_while(|x| **x == 0).count();
    let var = |p: &[i128]| {
        let nz: Vec<i128> = p.iter().copied().filter(|x| *x != 0).collect();
        nz.windows(2).filter(|w| (w[0] > 0) != (w[1] > 0)).count()
    };
    let pos = var(&p);
    let neg = n - zero - pos;
    (neg, zero, pos)
}

/// Orthonormal basis of the column space (Gram-Schmidt with reorthogonalisation); columns with
/// relative remainder below `rel` are dropped.
pub fn orth_basis(a: &A2, rel: f64) -> A2 {
    let (n, k) = a.dim();
    let mut q: Vec<Vec<f64>> = vec![];
    for j in 0..k {
        let mut v: Vec<f64> = (0..n).map(|i| a[(i, j)]).collect();
        let n0 = v.iter().map(|x| x * x).sum::<f64>().sqrt();
        if n0 == 0.0 { continue; }
        for _ in 0..3 {
            for u in &q {
                let d: f64 = u.iter().zip(&v).map(|(x, y)| x * y).sum();
                for (x, y) in v.iter_mut().zip(u) { *x -= d * y; }
            }
        }
        let n1 = v.iter().map(|x| x * x).sum::<f64>().sqrt();
        if n1 <= rel * n0 { continue; }
        for x in v.iter_mut() { *x /= n1; }
        q.push(v);
    }
    let mut o = A2::zeros((n, q.len()));
    for (j, v) in q.iter().enumerate() { for i in 0..n { o[(i, j)] = v[i]; } }
    o
}
