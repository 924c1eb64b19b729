//! Linear algebra, Jacobian, builder, iterator and robustness cases.
#![allow(unused_imports)]
use crate::case::*;
use crate::ctx::*;
use crate::problems::*;
use crate::rng::Rng;
use crate::run::Alg;
use cyphus_diffeq::dorm_prince::dp5::DormandPrince5;
use cyphus_diffeq::prelude::*;
use cyphus_diffeq::radau::Radau5;
use ndarray::prelude::*;
use std::cell::RefCell;

// ---------------------------------------------------------------- linear algebra

type C = (f64, f64);
fn cmul(a: C, b: C) -> C {
    (a.0 * b.0 - a.1 * b.1, a.0 * b.1 + a.1 * b.0)
}

#[derive(Debug)]
struct Mat {
    n: usize,
    lb: usize,
    re: Vec<f64>,
    im: Vec<f64>,
}

/// Random matrix with a mix of structures; `lb >= n` means dense.
fn gen_mat(r: &mut Rng, cplx: bool, banded: bool, integer: bool) -> Mat {
    let n = match r.below(6) {
        0 => 1,
        1 => 2,
        2 => 3,
        _ => 2 + r.below(7),
    };
    let lb = if banded { 1 + r.below(n) } else { n };
    let style = r.below(6);
    let mut re = vec![0.0; n * n];
    let mut im = vec![0.0; n * n];
    let density = r.pick(&[3usize, 5, 8, 10, 10]);
    for i in 0..n {
        for j in 0..n {
            if i > j + lb {
                continue;
            }
            let mut draw = |r: &mut Rng| -> f64 {
                if r.below(10) >= density {
                    return 0.0;
                }
                if integer {
                    return (r.below(7) as f64) - 3.0;
                }
                match style {
                    0 | 1 => r.range(-1.0, 1.0),
                    2 => r.range(-1.0, 1.0) * 10f64.powi(r.below(7) as i32 - 3),
                    3 => (r.below(5) as f64) - 2.0,
                    4 => r.range(-1.0, 1.0) * 10f64.powi(2 * (i as i32) - n as i32),
                    _ => r.range(0.5, 1.5),
                }
            };
            re[i * n + j] = draw(r);
            if cplx {
                match r.below(5) {
                    0 => {}
                    1 => {
                        im[i * n + j] = draw(r);
                        re[i * n + j] = 0.0;
                    }
                    _ => im[i * n + j] = draw(r),
                }
            }
        }
    }
    match r.below(6) {
        0 => {
            // diagonally dominated like the iteration matrices
            for i in 0..n {
                re[i * n + i] += if integer { 4.0 } else { r.logu(1.0, 1e4) };
            }
        }
        1 => {
            // a permuted matrix needs pivoting
            for i in 0..n {
                re[i * n + i] = 0.0;
                im[i * n + i] = 0.0;
            }
        }
        2 if integer && n > 1 => {
            // make one row a combination of others where the band allows it
            let (a, b) = (r.below(n), r.below(n));
            if a > b || lb >= n {
                for j in 0..n {
                    if a <= j + lb {
                        re[a * n + j] = re[b * n + j];
                        im[a * n + j] = im[b * n + j];
                    }
                }
            }
        }
        3 if integer => {
            // a zero column
            let c = r.below(n);
            for i in 0..n {
                re[i * n + c] = 0.0;
                im[i * n + c] = 0.0;
            }
        }
        _ => {}
    }
    Mat { n, lb, re, im }
}

struct Fact {
    ret: usize,
    re: Array2<f64>,
    im: Array2<f64>,
    ip: Array1<i32>,
}

#[cfg(feature = "linalg")]
fn factor(m: &Mat, cplx: bool, banded: bool) -> Fact {
    use cyphus_diffeq::verif_hooks::linalg as la;
    let n = m.n;
    let mut re = Array2::from_shape_vec((n, n), m.re.clone()).unwrap();
    let mut im = Array2::from_shape_vec((n, n), m.im.clone()).unwrap();
    let mut ip = Array1::<i32>::zeros(n);
    let ret = match (cplx, banded) {
        (false, false) => la::dec(n, re.view_mut(), ip.view_mut()),
        (false, true) => la::dech(n, re.view_mut(), m.lb, ip.view_mut()),
        (true, false) => la::decc(n, re.view_mut(), im.view_mut(), ip.view_mut()),
        (true, true) => la::dechc(n, re.view_mut(), im.view_mut(), m.lb, ip.view_mut()),
    };
    Fact { ret, re, im, ip }
}
#[cfg(feature = "linalg")]
fn solve(m: &Mat, f: &Fact, b: &[C], cplx: bool, banded: bool) -> Vec<C> {
    use cyphus_diffeq::verif_hooks::linalg as la;
    let n = m.n;
    let mut br = Array1::from(b.iter().map(|x| x.0).collect::<Vec<_>>());
    let mut bi = Array1::from(b.iter().map(|x| x.1).collect::<Vec<_>>());
    match (cplx, banded) {
        (false, false) => la::sol(n, f.re.view(), br.view_mut(), f.ip.view()),
        (false, true) => la::solh(n, f.re.view(), m.lb, br.view_mut(), f.ip.view()),
        (true, false) => la::solc(n, f.re.view(), f.im.view(), br.view_mut(), bi.view_mut(), f.ip.view()),
        (true, true) => la::solhc(n, f.re.view(), f.im.view(), m.lb, br.view_mut(), bi.view_mut(), f.ip.view()),
    }
    (0..n).map(|i| (br[i], bi[i])).collect()
}

#[cfg(feature = "linalg")]
pub fn lin(ctx: &mut Ctx, r: &mut Rng, case: u64) {
    let (cplx, banded) = match ctx.prop.as_str() {
        "C01" => (false, false),
        "C02" => (true, false),
        "C03" => (r.chance(1, 2), true),
        _ => (r.chance(1, 2), r.chance(1, 2)),
    };
    let singular = ctx.wants("C04");
    let integer = singular || r.chance(1, 5);
    let m = gen_mat(r, cplx, banded, integer);
    let n = m.n;
    ctx.begin("lin", case, format!("n={} lb={} complex={} re={:?} im={:?}", n, m.lb, cplx, m.re, m.im));
    let f = factor(&m, cplx, banded);
    if singular {
        let fail = exact_stage(&m);
        ctx.nontrivial += (fail != 0) as u64;
        if let Some(stage) = fail_known(fail) {
            ctx.check(&["C04"], (stage == 0) == (f.ret == 0), || {
                format!("factoring returned {} but exact elimination {}", f.ret, if stage == 0 { "succeeds".to_string() } else { format!("finds no pivot at stage {}", stage) })
            });
            if stage != 0 && f.ret != 0 {
                ctx.check(&["C04"], f.ret == stage, || format!("failure stage {} reported, exact elimination stops at {}", f.ret, stage));
            }
        }
        return;
    }
    if f.ret != 0 {
        // exactly representable zero pivots only
        ctx.skipped += 1;
        return;
    }
    let pivmin = (0..n).fold(f64::INFINITY, |a, i| a.min(f.re[[i, i]].abs() + f.im[[i, i]].abs()));
    let pivmax = (0..n).fold(0.0f64, |a, i| a.max(f.re[[i, i]].abs() + f.im[[i, i]].abs()));
    if !(pivmin > 1e-10 * pivmax) {
        ctx.skipped += 1;
        return;
    }
    ctx.nontrivial += 1;
    if !cplx && !banded {
        for k in 0..n {
            for i in k + 1..n {
                ctx.check(&["C01"], f.re[[i, k]].abs() <= 1.0 + 1e-12, || {
                    format!("multiplier [{},{}] = {:e} exceeds one", i, k, f.re[[i, k]])
                });
            }
        }
    }
    // right-hand sides: a known solution, a unit vector, random
    for kind in 0..3 {
        let b: Vec<C> = match kind {
            0 => {
                let x: Vec<C> = (0..n).map(|_| (r.range(-1.0, 1.0), if cplx { r.range(-1.0, 1.0) } else { 0.0 })).collect();
                mulvec(&m, &x)
            }
            1 => {
                let k = r.below(n);
                (0..n).map(|i| if i == k { (1.0, 0.0) } else { (0.0, 0.0) }).collect()
            }
            _ => (0..n).map(|_| (r.range(-3.0, 3.0), if cplx { r.range(-3.0, 3.0) } else { 0.0 })).collect(),
        };
        let x = solve(&m, &f, &b, cplx, banded);
        // backward error: |A x - b| <= c eps (growth) |x|
        let ax = mulvec(&m, &x);
        let xm = x.iter().fold(0.0f64, |a, v| a.max(v.0.abs() + v.1.abs()));
        let am = m.re.iter().chain(m.im.iter()).fold(0.0f64, |a, v| a.max(v.abs()));
        let bm = b.iter().fold(0.0f64, |a, v| a.max(v.0.abs() + v.1.abs()));
        let growth = 2f64.powi(n as i32);
        let tol = 1e-13 * growth * (n as f64) * (am * xm + bm);
        for i in 0..n {
            let d = (ax[i].0 - b[i].0).abs().max((ax[i].1 - b[i].1).abs());
            ctx.check(&["C01", "C02", "C03"], d <= tol, || {
                format!("residual {:e} in equation {} (allowed {:e}); b={:?} x={:?}", d, i, tol, b, x)
            });
        }
    }
}

fn mulvec(m: &Mat, x: &[C]) -> Vec<C> {
    let n = m.n;
    (0..n)
        .map(|i| {
            let mut s = (0.0, 0.0);
            for j in 0..n {
                let p = cmul((m.re[i * n + j], m.im[i * n + j]), x[j]);
                s = (s.0 + p.0, s.1 + p.1);
            }
            s
        })
        .collect()
}

const UNKNOWN: usize = usize::MAX;
fn fail_known(x: usize) -> Option<usize> {
    if x == UNKNOWN {
        None
    } else {
        Some(x)
    }
}

/// First stage (counted from one) at which exact elimination finds a zero pivot column, 0 if none.
/// Integer matrices only, via minors: stage s fails iff the first s columns are linearly dependent
/// while the first s-1 are not.
fn exact_stage(m: &Mat) -> usize {
    let n = m.n;
    // The code works in floating point: with elimination by non-integers a zero may be missed by
    // rounding, so only cases where floating elimination is exact are decided: run it in rationals
    // and in f64 side by side.
    let cols: Vec<Vec<(i128, i128)>> = (0..n)
        .map(|j| (0..n).map(|i| (m.re[i * n + j] as i128, m.im[i * n + j] as i128)).collect())
        .collect();
    for s in 1..=n {
        if rank(&cols[..s], n) < s {
            // is the f64 outcome forced? only when the zero column is reached without rounding
            return if forced(m, s) { s } else { UNKNOWN };
        }
    }
    0
}

/// Rank over the Gaussian rationals, computed modulo the prime 2^61 - 1. The minors of these small
/// matrices are below the prime, so the result is exact.
fn rank(cols: &[Vec<(i128, i128)>], n: usize) -> usize {
    const P: i128 = (1 << 61) - 1;
    let mul = |a: (i128, i128), b: (i128, i128)| {
        ((a.0 * b.0 - a.1 * b.1).rem_euclid(P), (a.0 * b.1 % P + a.1 * b.0 % P).rem_euclid(P))
    };
    let mut v: Vec<Vec<(i128, i128)>> = cols
        .iter()
        .map(|c| c.iter().map(|x| (x.0.rem_euclid(P), x.1.rem_euclid(P))).collect())
        .collect();
    let mut rk = 0;
    let mut row = 0;
    while row < n && rk < v.len() {
        if let Some(p) = (rk..v.len()).find(|&c| v[c][row] != (0, 0)) {
            v.swap(rk, p);
            for c in rk + 1..v.len() {
                let (a, b) = (v[rk][row], v[c][row]);
                if b == (0, 0) {
                    continue;
                }
                for i in 0..n {
                    let (x, y) = (mul(a, v[c][i]), mul(b, v[rk][i]));
                    v[c][i] = ((x.0 - y.0).rem_euclid(P), (x.1 - y.1).rem_euclid(P));
                }
            }
            rk += 1;
        }
        row += 1;
    }
    rk
}

/// Structural singularities survive rounding: an all-zero column, two equal rows/columns or n <= 2
/// with exact arithmetic. Decide by eliminating in f64 with every multiplier a dyadic rational.
fn forced(m: &Mat, s: usize) -> bool {
    let n = m.n;
    let c = s - 1;
    // zero column from the start
    if (0..n).all(|i| m.re[i * n + c] == 0.0 && m.im[i * n + c] == 0.0) {
        return true;
    }
    // elimination in f64 with largest pivots where all divisions are exact
    let mut a: Vec<C> = (0..n * n).map(|k| (m.re[k], m.im[k])).collect();
    for k in 0..c {
        let mut p = k;
        for i in k..n {
            if a[i * n + k].0.abs() + a[i * n + k].1.abs() > a[p * n + k].0.abs() + a[p * n + k].1.abs() {
                p = i;
            }
        }
        let pv = a[p * n + k];
        let den = pv.0 * pv.0 + pv.1 * pv.1;
        if den == 0.0 || den.log2().fract() != 0.0 {
            return false;
        }
        for j in 0..n {
            a.swap(p * n + j, k * n + j);
        }
        let inv = (pv.0 / den, -pv.1 / den);
        for i in k + 1..n {
            let l = cmul(a[i * n + k], inv);
            for j in k..n {
                let q = cmul(l, a[k * n + j]);
                a[i * n + j] = (a[i * n + j].0 - q.0, a[i * n + j].1 - q.1);
                if a[i * n + j].0.abs() > 1e6 || a[i * n + j].1.abs() > 1e6 {
                    return false;
                }
            }
        }
    }
    (c..n).all(|i| a[i * n + c] == (0.0, 0.0))
}

/// Without the hook: drive the dense solvers through the implicit integrator on linear problems.
#[cfg(not(feature = "linalg"))]
pub fn lin(ctx: &mut Ctx, _r: &mut Rng, case: u64) {
    ctx.begin("lin", case, "hook unavailable".into());
    ctx.skipped += 1;
}

// ---------------------------------------------------------------- Jacobians

/// Largest and smallest difference increment with small truncation and rounding errors.
#[cfg(feature = "jacobian")]
fn increments(x: f64) -> (f64, f64) {
    let d = (f64::EPSILON * x.abs().max(1e-5)).sqrt();
    (d.max(f64::EPSILON.sqrt() * x.abs()), d.max(1e-10 * x.abs()))
}

#[cfg(feature = "jacobian")]
pub fn jac(ctx: &mut Ctx, r: &mut Rng, case: u64) {
    use cyphus_diffeq::verif_hooks::jacobian as jh;
    let n = if r.chance(1, 4) { 1 } else { 1 + r.below(6) };
    let wide = r.chance(1, 3);
    let mag = |r: &mut Rng| -> f64 {
        match r.below(6) {
            0 => 0.0,
            1 => r.sign() * r.logu(1e-9, 1e-4),
            2 => r.sign() * r.logu(1e2, 1e7),
            3 if wide => r.sign() * r.logu(1e8, 1e20),
            _ => r.range(-3.0, 3.0),
        }
    };
    let u: Vec<f64> = (0..n).map(|_| mag(r)).collect();
    let t = mag(r);
    let a: Vec<f64> = (0..n * n).map(|_| r.range(-2.0, 2.0)).collect();
    let q: Vec<f64> = (0..n * n).map(|_| if r.chance(1, 2) { 0.0 } else { r.range(-0.5, 0.5) }).collect();
    let (c, d, e): (Vec<f64>, Vec<f64>, Vec<f64>) = (
        (0..n).map(|_| r.range(-2.0, 2.0)).collect(),
        (0..n).map(|_| r.range(-2.0, 2.0)).collect(),
        (0..n).map(|_| r.range(-0.5, 0.5)).collect(),
    );
    let user = r.chance(1, 3);
    ctx.begin("jac", case, format!("n={} t={:e} u={:?} supplied={}", n, t, u, user));
    ctx.nontrivial += 1;
    // f_i = sum_j a_ij u_j + q_ij u_j^2/2 + c_i + d_i t + e_i t^2/2
    let eval = |u: &[f64], t: f64| -> Vec<f64> {
        (0..n)
            .map(|i| {
                let mut s = c[i] + d[i] * t + e[i] * t * t / 2.0;
                for j in 0..n {
                    s += a[i * n + j] * u[j] + q[i * n + j] * u[j] * u[j] / 2.0;
                }
                s
            })
            .collect()
    };
    let size = |i: usize| -> f64 {
        let mut s = c[i].abs() + (d[i] * t).abs() + (e[i] * t * t).abs();
        for j in 0..n {
            s += (a[i * n + j] * u[j]).abs() + (q[i * n + j] * u[j] * u[j]).abs();
        }
        s
    };
    let calls = RefCell::new(vec![]);
    let f = |mut du: ArrayViewMut1<f64>, uu: ArrayView1<f64>, tt: f64, _: &()| {
        let v = eval(&uu.to_vec(), tt);
        calls.borrow_mut().push((tt, uu.to_vec()));
        for i in 0..n {
            du[i] = v[i];
        }
    };
    let asked = RefCell::new(vec![]);
    let marks: Vec<f64> = (0..n * n).map(|k| 100.0 + k as f64).collect();
    let uj = |mut df: ArrayViewMut2<f64>, uu: ArrayView1<f64>, tt: f64, _: &()| {
        asked.borrow_mut().push((tt, uu.to_vec()));
        for i in 0..n {
            for j in 0..n {
                df[[i, j]] = marks[i * n + j];
            }
        }
    };
    let ut = |mut df: ArrayViewMut1<f64>, uu: ArrayView1<f64>, tt: f64, _: &()| {
        asked.borrow_mut().push((tt, uu.to_vec()));
        for i in 0..n {
            df[i] = marks[i];
        }
    };
    let ua = Array1::from(u.clone());
    let mut df = Array2::<f64>::from_elem((n, n), 7.5);
    let mut dt = Array1::<f64>::from_elem(n, 7.5);
    if user {
        jh::jacobian_u(&f, Some(&uj), df.view_mut(), ua.view(), t);
        jh::jacobian_t(&f, Some(&ut), dt.view_mut(), ua.view(), t);
        for i in 0..n {
            for j in 0..n {
                ctx.check(&["C13"], df[[i, j]] == marks[i * n + j], || format!("supplied Jacobian entry [{},{}] came out as {:e}", i, j, df[[i, j]]));
            }
            ctx.check(&["C13"], dt[i] == marks[i], || format!("supplied time derivative [{}] came out as {:e}", i, dt[i]));
        }
        let ok = asked.borrow().len() == 2 && asked.borrow().iter().all(|(tt, uu)| *tt == t && uu.iter().zip(&u).all(|(x, y)| x == y));
        ctx.check(&["C13"], ok, || format!("supplied Jacobians asked at {:?}", asked.borrow()));
    } else {
        jh::jacobian_u(&f, None, df.view_mut(), ua.view(), t);
        for j in 0..n {
            let (big, del) = increments(u[j]);
            for i in 0..n {
                let ex = a[i * n + j] + q[i * n + j] * u[j];
                let tol = 4.0 * q[i * n + j].abs() * big
                    + 64.0 * f64::EPSILON * (size(i) + 1.0) / del
                    + ex.abs() * 8.0 * f64::EPSILON * (u[j].abs() + del) / del
                    + 1e-12;
                ctx.check(&["C13"], close(df[[i, j]], ex, tol), || {
                    format!("d f_{} / d u_{} = {:e}, exact {:e} (allowed {:e})", i, j, df[[i, j]], ex, tol)
                });
            }
        }
        jh::jacobian_t(&f, None, dt.view_mut(), ua.view(), t);
        let (big, del) = increments(t);
        for i in 0..n {
            let ex = d[i] + e[i] * t;
            let tol = 4.0 * e[i].abs() * big
                + 64.0 * f64::EPSILON * (size(i) + 1.0) / del
                + ex.abs() * 8.0 * f64::EPSILON * (t.abs() + del) / del
                + 1e-12;
            ctx.check(&["C13"], close(dt[i], ex, tol), || {
                format!("d f_{} / d t = {:e}, exact {:e} (allowed {:e})", i, dt[i], ex, tol)
            });
        }
    }
    ctx.check(&["C13"], ua.to_vec() == u, || "the state changed".into());
}
#[cfg(not(feature = "jacobian"))]
pub fn jac(ctx: &mut Ctx, _r: &mut Rng, case: u64) {
    ctx.begin("jac", case, "hook unavailable".into());
    ctx.skipped += 1;
}

// ---------------------------------------------------------------- builder

fn defaults(radau: bool) -> OdeIntegratorOpts_ {
    let mut o = OdeIntegratorOpts_ {
        reltol: 1e-3,
        abstol: 1e-7,
        dense: false,
        dtstart: 1e-6,
        dtmax: f64::INFINITY,
        max_steps: 100000,
        max_newt_iter: 7,
        max_stiff: 1000,
        modern_pred: true,
        safe: 0.9,
        facr: 10.0,
        facl: 0.2,
        quot1: 0.0,
        quot2: 0.0,
        beta: 0.04,
        fnewt: 0.0,
        use_ext_col: true,
        hess: false,
        theta: 0.0,
    };
    if radau {
        o.facr = 0.125;
        o.facl = 5.0;
        o.quot1 = 1.0;
        o.quot2 = 1.2;
        o.beta = 0.0;
        o.theta = 0.001;
    }
    o
}

pub fn builder(ctx: &mut Ctx, r: &mut Rng, case: u64) {
    if r.chance(1, 2) {
        builder_for::<Radau5>(ctx, r, case, true)
    } else {
        builder_for::<DormandPrince5>(ctx, r, case, false)
    }
}

fn builder_for<A: Alg>(ctx: &mut Ctx, r: &mut Rng, case: u64, radau: bool) {
    let n = 1 + r.below(5);
    let u0: Vec<f64> = (0..n).map(|_| r.range(-2.0, 2.0)).collect();
    let (t0, t1) = (r.range(-3.0, 3.0), r.range(-3.0, 3.0));
    let pars = Pars { scale: r.range(0.5, 2.0), tag: r.next() };
    let mut want = defaults(radau);
    let calls = RefCell::new(vec![]);
    let used = std::cell::Cell::new(0usize);
    let cbs = std::cell::Cell::new(0usize);
    let f = |mut du: ArrayViewMut1<f64>, u: ArrayView1<f64>, t: f64, p: &Pars| {
        calls.borrow_mut().push((t, u.to_vec(), p.clone()));
        for i in 0..n {
            du[i] = -u[i];
        }
    };
    let j = |mut df: ArrayViewMut2<f64>, _u: ArrayView1<f64>, _t: f64, _p: &Pars| {
        used.set(used.get() + 1);
        for i in 0..n {
            for k in 0..n {
                df[[i, k]] = if i == k { -1.0 } else { 0.0 };
            }
        }
    };
    let jt = |mut df: ArrayViewMut1<f64>, _u: ArrayView1<f64>, _t: f64, _p: &Pars| {
        for i in 0..n {
            df[i] = 0.0;
        }
    };
    let cb = |_i: &mut OdeIntegrator<Pars, A>| cbs.set(cbs.get() + 1);
    let mut b = OdeIntegratorBuilder::default(&f, Array1::from(u0.clone()), (t0, t1), A::make(), pars.clone());
    let mut trace = vec![];
    let mut dt = 1e-6f64;
    let (mut withjac, mut withcb) = (false, false);
    for _ in 0..r.below(14) {
        let x = if r.chance(1, 4) { r.logu(1e-20, 1e-6) } else { r.logu(1e-6, 10.0) };
        let k = r.below(500);
        let q = r.chance(1, 2);
        macro_rules! fl {
            ($f:ident) => {{
                b = b.$f(x);
                want.$f = x;
                trace.push(format!("{}({:e})", stringify!($f), x));
            }};
        }
        macro_rules! us {
            ($f:ident) => {{
                b = b.$f(k);
                want.$f = k;
                trace.push(format!("{}({})", stringify!($f), k));
            }};
        }
        macro_rules! bo {
            ($f:ident) => {{
                b = b.$f(q);
                want.$f = q;
                trace.push(format!("{}({})", stringify!($f), q));
            }};
        }
        match r.below(21) {
            0 => fl!(reltol),
            1 => fl!(abstol),
            2 => bo!(dense),
            3 => {
                fl!(dtstart);
                dt = x;
            }
            4 => fl!(dtmax),
            5 => us!(max_steps),
            6 => us!(max_newt_iter),
            7 => us!(max_stiff),
            8 => bo!(modern_pred),
            9 => fl!(safe),
            10 => fl!(facr),
            11 => fl!(facl),
            12 => fl!(quot1),
            13 => fl!(quot2),
            14 => fl!(beta),
            15 => fl!(fnewt),
            16 => bo!(use_ext_col),
            17 => bo!(hess),
            18 => {
                b = b.dfdu(&j);
                withjac = true;
                trace.push("dfdu".into());
            }
            19 => {
                b = b.dfdt(&jt);
                trace.push("dfdt".into());
            }
            _ => {
                b = b.callback(&cb);
                withcb = true;
                trace.push("callback".into());
            }
        }
    }
    ctx.begin("builder", case, format!("radau={} n={} t={}..{} {}", radau, n, t0, t1, trace.join(".")));
    ctx.nontrivial += 1;
    let it = b.build();
    if radau {
        let ratio = want.abstol / want.reltol;
        want.reltol = 0.1 * want.reltol.powf(2.0 / 3.0);
        want.abstol = want.reltol * ratio;
        if want.fnewt <= 0.0 {
            want.fnewt = (10.0 * f64::EPSILON / want.reltol).max(0.03f64.min(want.reltol.sqrt()));
        }
    }
    let got = opts_of(&it.opts);
    macro_rules! cmp {
        ($($f:ident),*) => { $(
            ctx.check(&["C14"], eqv(&got.$f, &want.$f), || format!("option {} is {:?}, expected {:?}", stringify!($f), got.$f, want.$f));
        )* };
    }
    cmp!(
        reltol, abstol, dense, dtstart, dtmax, max_steps, max_newt_iter, max_stiff, modern_pred, safe,
        facr, facl, quot1, quot2, beta, fnewt, use_ext_col, hess, theta
    );
    ctx.check(&["C14"], it.u.to_vec() == u0 && it.t == t0 && it.tfinal == t1, || format!("problem data became u={:?} t={} tfinal={}", it.u, it.t, it.tfinal));
    ctx.check(&["C14"], it.params == pars, || "parameters changed".into());
    let ex = dt.min(want.dtmax).copysign(t1 - t0);
    ctx.check(&["C14"], it.dt == ex, || format!("first step {:e}, expected {:e}", it.dt, ex));
    ctx.check(&["C14"], (it.callback.is_some()) == withcb, || "callback not taken over".into());
    if radau {
        ctx.check(&["C14"], (used.get() > 0) == withjac, || format!("supplied Jacobian used {} times", used.get()));
    }
    let (ft, fu, fp) = calls.borrow()[0].clone();
    ctx.check(&["C14"], ft == t0 && fu == u0 && fp == pars, || "right-hand side called with other data".into());
    let s = &it.stats;
    ctx.check(&["C14", "C16"], s.steps + s.accepts + s.rejects == 0, || "counters do not start at zero".into());
}

trait Eqv {
    fn eqv(&self, o: &Self) -> bool;
}
impl Eqv for f64 {
    fn eqv(&self, o: &f64) -> bool {
        self == o || (self - o).abs() <= 1e-13 * o.abs()
    }
}
impl Eqv for bool {
    fn eqv(&self, o: &bool) -> bool {
        self == o
    }
}
impl Eqv for usize {
    fn eqv(&self, o: &usize) -> bool {
        self == o
    }
}
fn eqv<T: Eqv>(a: &T, b: &T) -> bool {
    a.eqv(b)
}

// ---------------------------------------------------------------- iterators

pub fn iter(ctx: &mut Ctx, r: &mut Rng, case: u64) {
    let mut c = if r.chance(1, 6) { gen_case(r, &FAULTY) } else { gen_case(r, &ANY) };
    c.set.max_steps = Some(c.set.max_steps.unwrap_or(150).min(150));
    if r.chance(1, 4) {
        c.cb = r.pick(&[Cb::Observe, Cb::ScaleU(0.9), Cb::Stop(3)]);
    }
    ctx.begin("iter", case, c.describe());
    if c.radau {
        iter_for::<Radau5>(ctx, &c)
    } else {
        iter_for::<DormandPrince5>(ctx, &c)
    }
}

fn iter_for<A: Alg>(ctx: &mut Ctx, case: &Case) {
    let log = RefCell::new(Log::default());
    let f = rhs(case, &log);
    let j = jacfn(case, &log);
    let count = std::cell::Cell::new(0usize);
    let cbf = |i: &mut OdeIntegrator<Pars, A>| {
        count.set(count.get() + 1);
        match case.cb {
            Cb::ScaleU(x) => {
                for k in 0..i.u.len() {
                    i.u[k] = i.u[k] * x;
                }
            }
            Cb::Stop(k) => {
                if count.get() >= k {
                    i.sol.retcode = OdeRetCode::Failure;
                }
            }
            _ => {}
        }
    };
    macro_rules! mk {
        () => {{
            count.set(0);
            log.borrow_mut().total = 0;
            log.borrow_mut().calls.clear();
            let b = OdeIntegratorBuilder::default(&f, Array1::from(case.u0.clone()), (case.t0, case.t1), A::make(), case.pars.clone());
            let mut b = apply(b, &case.set);
            if case.user_jac {
                b = b.dfdu(&j);
            }
            if case.cb != Cb::None {
                b = b.callback(&cbf);
            }
            b.build()
        }};
    }
    // reference: explicit stepping
    let mut want: Vec<(f64, Vec<f64>)> = vec![];
    let mut it = mk!();
    loop {
        let np = it.sol.ts.len();
        let more = it.step().is_some();
        if it.sol.ts.len() > np {
            want.push((it.t, it.u.to_vec()));
        }
        if !more {
            break;
        }
    }
    let total = log.borrow().total;
    let (ts, us): (Vec<f64>, Vec<Vec<f64>>) = (it.sol.ts.clone(), it.sol.us.iter().map(|v| v.to_vec()).collect());
    ctx.nontrivial += (want.len() > 1) as u64;
    let bit = |a: &[(f64, Vec<f64>)], b: &[(f64, Vec<f64>)]| {
        a.len() == b.len()
            && a.iter().zip(b).all(|(x, y)| x.0.to_bits() == y.0.to_bits() && x.1.iter().zip(&y.1).all(|(p, q)| p.to_bits() == q.to_bits()) && x.1.len() == y.1.len())
    };
    let cap = want.len() + 3;
    let got: Vec<(f64, Vec<f64>)> = mk!().into_iter().take(cap).map(|(t, u)| (t, u.to_vec())).collect();
    ctx.check(&["C15"], bit(&got, &want), || format!("iterating by value gives {} items, stepping gives {}; first {:?} last {:?}", got.len(), want.len(), got.first(), got.last()));
    // one step per item
    let mut vi = mk!().into_iter();
    let mut k = 0;
    while let Some((t, u)) = vi.next() {
        if k >= want.len() {
            break;
        }
        k += 1;
        let one = vi.integrator.sol.ts.len() == 1 + k;
        ctx.check(&["C15"], one && vi.integrator.t == t && vi.integrator.u.to_vec().iter().zip(u.iter()).all(|(a, b)| a.to_bits() == b.to_bits()), || {
            format!("item {} belongs to t={:e}, integrator is at {:e} with {} points", k, t, vi.integrator.t, vi.integrator.sol.ts.len())
        });
    }
    let again = vi.next().is_none();
    ctx.check(&["C15"], again, || "the iterator starts again after its end".into());
    let mut m = mk!();
    let got: Vec<(f64, Vec<f64>)> = {
        let mr: &mut OdeIntegrator<Pars, A> = unsafe { &mut *(&mut m as *mut _) };
        mr.into_iter().take(cap).map(|(t, u)| (t, u.to_vec())).collect()
    };
    ctx.check(&["C15"], bit(&got, &want), || format!("iterating by mutable reference gives {} items, stepping gives {}", got.len(), want.len()));
    ctx.check(&["C15"], m.sol.ts.len() == ts.len(), || "iterating by reference left a different trajectory".into());
    let _ = total;
    // solutions
    let pairs: Vec<(f64, Vec<f64>)> = ts.iter().cloned().zip(us.iter().cloned()).collect();
    let got: Vec<(f64, Vec<f64>)> = (&mut m.sol).into_iter().map(|(t, u)| (*t, u.to_vec())).collect();
    ctx.check(&["C15"], bit(&got, &pairs), || format!("borrowing solution iterator gives {} pairs of {}", got.len(), pairs.len()));
    ctx.check(&["C15"], m.sol.ts.len() == ts.len() && m.sol.us.len() == us.len(), || "borrowing iterator changed the solution".into());
    let got: Vec<(f64, Vec<f64>)> = it.sol.into_iter().map(|(t, u)| (t, u.to_vec())).collect();
    ctx.check(&["C15"], bit(&got, &pairs), || format!("consuming solution iterator gives {} pairs of {}", got.len(), pairs.len()));
}

// ---------------------------------------------------------------- robustness

pub fn gen_extreme(r: &mut Rng) -> Case {
    let mut c = match r.below(3) {
        0 => gen_case(r, &FAULTY),
        _ => gen_case(r, &ANY),
    };
    if !matches!(c.prob.kind, Kind::VdP | Kind::Robertson) {
        c.prob = Problem::gen(r, c.prob.kind, 9);
        c.u0 = c.prob.init(r);
    }
    let s = &mut c.set;
    s.max_steps = Some(r.pick(&[0, 1, 2, 3, 7, 60]));
    if r.chance(1, 2) {
        s.max_newt_iter = Some(r.pick(&[0, 1, 2, 3, 30]));
    }
    if r.chance(1, 2) {
        s.max_stiff = Some(r.pick(&[0, 1, 2, 3]));
    }
    if r.chance(1, 2) {
        s.dense = Some(true);
    }
    if r.chance(1, 6) {
        s.hess = Some(true);
    }
    if r.chance(1, 4) {
        s.dtstart = Some(r.pick(&[0.0, -0.1, 1e-300, 1e300, 1e-3]));
    }
    if r.chance(1, 5) {
        s.dtmax = Some(r.pick(&[0.0, 1e-12, 1e300]));
    }
    if r.chance(1, 6) {
        s.facl = Some(r.pick(&[0.0, 0.5, 1.0, 2.0]));
    }
    if r.chance(1, 6) {
        s.facr = Some(r.pick(&[0.0, 0.5, 1.0, 2.0]));
    }
    if r.chance(1, 6) {
        s.reltol = Some(r.pick(&[0.0, 1e-16, 1.0, 1e3]));
    }
    if r.chance(1, 6) {
        s.abstol = Some(r.pick(&[0.0, 1e-300, 1.0, 1e3]));
    }
    if r.chance(1, 6) {
        s.quot1 = Some(r.pick(&[0.0, 1.0, 2.0]));
    }
    if r.chance(1, 8) {
        s.fnewt = Some(r.pick(&[0.0, -1.0, 1e-300, 1e300]));
    }
    if r.chance(1, 10) {
        c.t1 = c.t0;
    }
    if r.chance(1, 5) {
        c.cb = r.pick(&[Cb::Observe, Cb::ScaleU(-2.0), Cb::SetDt(0.5)]);
    }
    c.max_calls = 20_000;
    c
}

pub fn robust(ctx: &mut Ctx, case: &Case) {
    fn go<A: Alg>(ctx: &mut Ctx, case: &Case) {
        let log = RefCell::new(Log::default());
        let f = rhs(case, &log);
        let j = jacfn(case, &log);
        let cbf = |i: &mut OdeIntegrator<Pars, A>| match case.cb {
            Cb::ScaleU(x) => i.u[0] = i.u[0] * x,
            Cb::SetDt(x) => i.dt = i.dt * x,
            _ => {}
        };
        let b = OdeIntegratorBuilder::default(&f, Array1::from(case.u0.clone()), (case.t0, case.t1), A::make(), case.pars.clone());
        let mut b = apply(b, &case.set);
        if case.user_jac {
            b = b.dfdu(&j);
        }
        if case.cb != Cb::None {
            b = b.callback(&cbf);
        }
        let mut it = b.build();
        let mut k = 0;
        while k < 80 && it.step().is_some() {
            k += 1;
            log.borrow_mut().calls.clear();
            if case.set.dense == Some(true) {
                let (t, h) = (it.t, it.dtprev);
                let _ = A::extension(&mut it, t, h);
            }
        }
        for _ in 0..3 {
            it.step();
        }
        ctx.check(&["C18"], it.sol.ts.len() >= 1, || "no point".into());
        ctx.nontrivial += (k > 0) as u64;
    }
    if case.radau {
        go::<Radau5>(ctx, case)
    } else {
        go::<DormandPrince5>(ctx, case)
    }
}

#[cfg(feature = "linalg")]
pub fn robust_lin(ctx: &mut Ctx, r: &mut Rng, case: u64) {
    let (cplx, banded) = (r.chance(1, 2), r.chance(1, 2));
    let mut m = gen_mat(r, cplx, banded, r.clone().chance(1, 2));
    if r.chance(1, 10) {
        let k = r.below(m.re.len());
        m.re[k] = r.pick(&[f64::NAN, f64::INFINITY, 1e300, 1e-300]);
    }
    ctx.begin("robust-lin", case, format!("n={} lb={} complex={} re={:?} im={:?}", m.n, m.lb, cplx, m.re, m.im));
    let f = factor(&m, cplx, banded);
    if f.ret == 0 {
        ctx.nontrivial += 1;
        let b: Vec<C> = (0..m.n).map(|_| (r.range(-1.0, 1.0), 0.0)).collect();
        let x = solve(&m, &f, &b, cplx, banded);
        ctx.check(&["C18"], x.len() == m.n, || "wrong length".into());
    } else {
        ctx.check(&["C18"], f.ret <= m.n, || format!("stage {} of {}", f.ret, m.n));
    }
}
#[cfg(not(feature = "linalg"))]
pub fn robust_lin(ctx: &mut Ctx, _r: &mut Rng, case: u64) {
    ctx.begin("robust-lin", case, "hook unavailable".into());
    ctx.skipped += 1;
}
