//! Small reference linear algebra, independent of the code under check.
pub fn solve_real(a: &[f64], b: &[f64], n: usize) -> Option<Vec<f64>> {
    let mut m = a.to_vec();
    let mut x = b.to_vec();
    for c in 0..n {
        let mut p = c;
        for r in c..n {
            if m[r * n + c].abs() > m[p * n + c].abs() {
                p = r;
            }
        }
        let pv = m[p * n + c];
        if pv == 0.0 || !pv.is_finite() {
            return None;
        }
        if p != c {
            for j in 0..n {
                m.swap(p * n + j, c * n + j);
            }
            x.swap(p, c);
        }
        for r in c + 1..n {
            let f = m[r * n + c] / m[c * n + c];
            if f != 0.0 {
                for j in c..n {
                    m[r * n + j] -= f * m[c * n + j];
                }
                x[r] -= f * x[c];
            }
        }
    }
    for c in (0..n).rev() {
        let mut s = x[c];
        for j in c + 1..n {
            s -= m[c * n + j] * x[j];
        }
        x[c] = s / m[c * n + c];
    }
    Some(x)
}

/// Complex system as a real system of twice the size.
pub fn solve_complex(ar: &[f64], ai: &[f64], br: &[f64], bi: &[f64], n: usize) -> Option<(Vec<f64>, Vec<f64>)> {
    let m = 2 * n;
    let mut a = vec![0.0; m * m];
    let mut b = vec![0.0; m];
    for i in 0..n {
        for j in 0..n {
            a[i * m + j] = ar[i * n + j];
            a[i * m + n + j] = -ai[i * n + j];
            a[(n + i) * m + j] = ai[i * n + j];
            a[(n + i) * m + n + j] = ar[i * n + j];
        }
        b[i] = br[i];
        b[n + i] = bi[i];
    }
    let x = solve_real(&a, &b, m)?;
    Some((x[..n].to_vec(), x[n..].to_vec()))
}
