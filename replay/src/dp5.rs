//! Independent reading of the Dormand-Prince contract, checked against what the real step did.
use crate::case::*;
use crate::ctx::*;
use crate::rng::Rng;
use cyphus_diffeq::dorm_prince::dp5::DormandPrince5;
use cyphus_diffeq::prelude::*;
use ndarray::prelude::*;
use std::cell::RefCell;

pub const C: [f64; 7] = [0.0, 0.2, 0.3, 0.8, 8.0 / 9.0, 1.0, 1.0];
pub const A: [[f64; 6]; 7] = [
    [0.0; 6],
    [0.2, 0.0, 0.0, 0.0, 0.0, 0.0],
    [3.0 / 40.0, 9.0 / 40.0, 0.0, 0.0, 0.0, 0.0],
    [44.0 / 45.0, -56.0 / 15.0, 32.0 / 9.0, 0.0, 0.0, 0.0],
    [19372.0 / 6561.0, -25360.0 / 2187.0, 64448.0 / 6561.0, -212.0 / 729.0, 0.0, 0.0],
    [9017.0 / 3168.0, -355.0 / 33.0, 46732.0 / 5247.0, 49.0 / 176.0, -5103.0 / 18656.0, 0.0],
    [35.0 / 384.0, 0.0, 500.0 / 1113.0, 125.0 / 192.0, -2187.0 / 6784.0, 11.0 / 84.0],
];
pub const E: [f64; 7] = [
    71.0 / 57600.0,
    0.0,
    -71.0 / 16695.0,
    71.0 / 1920.0,
    -17253.0 / 339200.0,
    22.0 / 525.0,
    -1.0 / 40.0,
];

pub struct Shadow {
    pub k1: Vec<f64>,
    pub facold: f64,
    pub synced: bool,
}

/// What an analysed step did, for the property-specific checks.
pub struct Outcome {
    pub attempts: usize,
    pub dt_used: f64,
    pub k_first: Vec<f64>,
    pub k_last: Vec<f64>,
    pub rejected: usize,
    pub followed: bool,
}

/// Compare one step with the contract. `mid` is the state after the step, before any callback.
pub fn analyze(
    ctx: &mut Ctx,
    case: &Case,
    sh: &mut Shadow,
    pre: &Snap,
    mid: &Snap,
    calls: &[Call],
) -> Outcome {
    let n = case.prob.n;
    let eps = f64::EPSILON;
    let (t, tdir) = (pre.t, pre.tdir);
    let o = &pre.opts;
    let cb = case.cb != Cb::None;
    let l10: &[&str] = if cb { &["C10", "C17"] } else { &["C10"] };
    let l8: &[&str] = if cb { &["C08", "C17"] } else { &["C08"] };
    let l9: &[&str] = if cb { &["C09", "C17"] } else { &["C09"] };
    let mut idx = 0;
    let mut out = Outcome {
        attempts: 0,
        dt_used: mid.dtprev,
        k_first: vec![],
        k_last: vec![],
        rejected: 0,
        followed: false,
    };
    if case.cb != Cb::None {
        let ok = calls.len() > 0
            && calls[0].t == t
            && (0..n).all(|i| close(calls[0].u[i], pre.u[i], 0.0));
        ctx.check(&["C10", "C17"], ok, || {
            format!("step with a callback does not begin from the derivative at the current state: calls={}", calls.len())
        });
        if !ok {
            return out;
        }
        sh.k1 = calls[0].out.clone();
        idx = 1;
    }
    let mut dt = pre.dt;
    let lastm = (t + 1.01 * dt - pre.tfinal) * tdir;
    let mut last = lastm > 0.0;
    if lastm.abs() < 1e-12 * (t.abs() + pre.tfinal.abs()) {
        return out; // too close to call
    }
    if last {
        dt = pre.tfinal - t;
    }
    let mut reject = false;
    if !last && calls.len() == idx && dt.abs() <= (t.abs() * eps).max(f64::MIN_POSITIVE) && mid.code == "DtLessThanMin" {
        out.followed = true;
        return out;
    }
    loop {
        if idx + 6 > calls.len() {
            ctx.check(l10, false, || {
                format!("attempt {} evaluates {} stages instead of 6", out.attempts, calls.len() - idx)
            });
            return out;
        }
        let mut k: Vec<&[f64]> = vec![&sh.k1];
        let mut un = vec![0.0; n];
        let mut un_scale = vec![0.0; n];
        for s in 1..7 {
            let c = &calls[idx + s - 1];
            let te = t + C[s] * dt;
            let okt = close(c.t, te, 8.0 * eps * (t.abs() + dt.abs()));
            let slack = 8.0 * eps * (t.abs() + dt.abs());
            let inside = (c.t - t) * tdir >= -slack && (c.t - (t + dt)) * tdir <= slack;
            ctx.check(&["C19"], inside, || {
                format!("evaluation at time {:e} outside the attempted step {:e} + {:e}", c.t, t, dt)
            });
            ctx.check(l10, okt, || {
                format!("stage {} evaluated at time {:e}, expected {:e} (t={:e}, step={:e})", s + 1, c.t, te, t, dt)
            });
            let mut okall = c.u.len() == n;
            for i in 0..n.min(c.u.len()) {
                let mut v = 0.0;
                let mut sc = 0.0;
                for j in 0..s.min(6) {
                    v += A[s][j] * k[j][i];
                    sc += (A[s][j] * k[j][i]).abs();
                }
                let ex = pre.u[i] + dt * v;
                let scale = pre.u[i].abs() + dt.abs() * sc;
                let ok = close(c.u[i], ex, 64.0 * eps * scale + 1e-300)
                    || (!ex.is_finite() && !c.u[i].is_finite());
                ctx.check(l10, ok, || {
                    format!("stage {} argument [{}]={:e}, expected {:e} (t={:e}, step={:e})", s + 1, i, c.u[i], ex, t, dt)
                });
                okall &= ok;
                un[i] = ex;
                un_scale[i] = scale;
            }
            if !okall || !okt {
                return out;
            }
            k.push(&c.out);
        }
        idx += 6;
        out.attempts += 1;
        // scaled error
        let mut e2 = 0.0;
        let mut noise2 = 0.0;
        for i in 0..n {
            let sk = o.abstol + o.reltol * pre.u[i].abs().max(un[i].abs());
            let mut v = 0.0;
            let mut sc = 0.0;
            for j in 0..7 {
                v += E[j] * k[j][i];
                sc += (E[j] * k[j][i]).abs();
            }
            e2 += (dt * v / sk).powi(2);
            noise2 += (dt.abs() * sc * 32.0 * eps / sk).powi(2);
        }
        let err = (e2 / n as f64).sqrt();
        let noise = (noise2 / n as f64).sqrt() + 1e-13;
        let more = idx < calls.len();
        let actual_accept = !more && mid.ts.len() > pre.ts.len();
        let tie = (err - 1.0).abs() <= noise * (1.0 + err);
        let accept = if tie { actual_accept } else { err <= 1.0 };
        let okacc = accept == actual_accept;
        ctx.check(l8, okacc, || {
            format!(
                "scaled error {:e} but the step was {} (t={:e}, step={:e}, abstol={:e}, reltol={:e})",
                err,
                if actual_accept { "accepted" } else { "rejected" },
                t, dt, o.abstol, o.reltol
            )
        });
        if !okacc {
            return out;
        }
        let expo1 = 0.2 - o.beta * 0.75;
        let law = |e: f64, rej: bool| -> f64 {
            let fac11 = e.powf(expo1);
            if accept {
                let fac = fac11 / sh.facold.powf(o.beta) / o.safe;
                let fac = (1.0 / o.facr).max((1.0 / o.facl).min(fac));
                let mut d = dt / fac;
                if d.abs() > o.dtmax {
                    d = tdir * o.dtmax;
                }
                if rej {
                    d = tdir * d.abs().min(dt.abs());
                }
                d
            } else {
                dt / (1.0 / o.facl).min(fac11 / o.safe)
            }
        };
        let d1 = law((err - noise).max(0.0), reject);
        let d2 = law(err + noise, reject);
        let dnew = law(err, reject);
        let (lo, hi) = (d1.abs().min(d2.abs()) * (1.0 - 1e-10), d1.abs().max(d2.abs()) * (1.0 + 1e-10));
        if accept {
            let ok = if dnew.is_nan() { true } else { mid.dt.abs() >= lo && mid.dt.abs() <= hi && mid.dt * tdir > 0.0 };
            ctx.check(l9, ok, || {
                format!("next step {:e}, controller law gives {:e} (err={:e}, previous err={:e}, step={:e})", mid.dt, dnew, err, sh.facold, dt)
            });
            for i in 0..n {
                let ok = close(mid.u[i], un[i], 64.0 * eps * un_scale[i] + 1e-300);
                ctx.check(l10, ok, || {
                    format!("new state [{}]={:e}, expected {:e}", i, mid.u[i], un[i])
                });
            }
            ctx.check(&["C06"], close(mid.t, t + dt, 4.0 * eps * (t.abs() + dt.abs())), || {
                format!("time advanced from {:e} to {:e} with step {:e}", t, mid.t, dt)
            });
            out.dt_used = dt;
            out.k_first = sh.k1.clone();
            out.k_last = calls[idx - 1].out.clone();
            sh.k1 = calls[idx - 1].out.clone();
            sh.facold = err.max(1e-4);
            out.followed = true;
            if last {
                ctx.check(&["C06", "C07"], mid.code == "Success", || {
                    format!("final time reached but status is {}", mid.code)
                });
            } else {
                ctx.check(&["C06", "C07"], mid.code != "Success", || {
                    format!("status Success at t={:e}, final time {:e}", mid.t, pre.tfinal)
                });
            }
            return out;
        }
        // rejected
        out.rejected += 1;
        reject = true;
        last = false;
        if more {
            // the retry must be strictly smaller, in the same direction
            let d = calls[(idx + 5).min(calls.len() - 1)].t - t;
            if dt.abs() > 1e4 * eps * t.abs() && idx + 6 <= calls.len() {
                ctx.check(&["C08"], d.abs() < dt.abs() && d * tdir > 0.0, || {
                    format!("retry with step {:e} after rejected step {:e}", d, dt)
                });
                let okl = dnew.is_nan()
                    || (d.abs() >= lo - 16.0 * eps * t.abs() && d.abs() <= hi + 16.0 * eps * t.abs());
                ctx.check(l9, okl, || {
                    format!("retry with step {:e} after rejected step {:e}, law gives {:e} (err {:e})", d, dt, dnew, err)
                });
                if !okl {
                    return out;
                }
            }
            dt = dnew;
            if dt.abs() <= (t.abs() * eps).max(f64::MIN_POSITIVE) * 0.999 {
                ctx.check(&["C07"], false, || "retries although the step is below the minimum".to_string());
                return out;
            }
        } else {
            dt = dnew;
            let tiny = dt.abs() <= (t.abs() * eps).max(f64::MIN_POSITIVE) * 1.001 || dt.is_nan();
            ctx.check(&["C07", "C08"], tiny && mid.code == "DtLessThanMin", || {
                format!("gave up after a rejected attempt with status {} at step {:e}", mid.code, dt)
            });
            out.followed = true;
            return out;
        }
    }
}

/// What the controller makes of one step, however its law looks: was the first attempt accepted, and
/// the length it goes on with.
fn reaction(ks: &[f64; 7], u0: f64, dt: f64, abstol: f64) -> (bool, f64) {
    let times = RefCell::new(vec![]);
    let arg = |s: usize| u0 + dt * (0..6).map(|j| A[s][j] * ks[j]).sum::<f64>();
    let (u6, u7) = (arg(5), arg(6));
    let f = |mut du: ArrayViewMut1<f64>, u: ArrayView1<f64>, t: f64, _p: &()| {
        times.borrow_mut().push(t);
        let mut s = 0;
        for j in 0..6 {
            if (t - C[j] * dt).abs() < (t - C[s] * dt).abs() {
                s = j;
            }
        }
        if s == 5 && (u[0] - u7).abs() < (u[0] - u6).abs() {
            s = 6;
        }
        du[0] = ks[s];
    };
    let mut it = OdeIntegratorBuilder::default(&f, array![u0], (0.0, 1e3 * dt), DormandPrince5, ())
        .abstol(abstol)
        .reltol(0.0)
        .beta(0.0)
        .facl(1e-3)
        .facr(1e3)
        .dtmax(1e9)
        .dtstart(dt.abs())
        .build();
    times.borrow_mut().clear();
    it.step();
    let times = times.borrow().clone();
    let accepted = it.stats.accepts == 1 && times.len() == 6;
    let next = if accepted { it.dt } else { times.get(6).map_or(f64::NAN, |t| t / C[1]) };
    (accepted, next)
}

/// The estimate must be the published combination of the stages: right-hand sides with different stage
/// values and the same published estimate must be treated alike.
pub fn estimate(ctx: &mut Ctx, r: &mut Rng, case: u64) {
    let err = if r.chance(1, 2) { r.range(0.05, 0.9) } else { r.range(1.2, 20.0) };
    ctx.begin("estimate", case, format!("published scaled error {:e}", err));
    let mut got: Vec<(bool, f64, [f64; 7], f64, f64)> = vec![];
    while got.len() < 2 {
        let dt = 0.25 * r.sign() * r.logu(0.1, 10.0);
        let abstol = r.logu(1e-8, 1e-3);
        let mut ks = [0.0; 7];
        for k in &mut ks {
            *k = if r.chance(1, 4) { 0.0 } else { r.range(-1.0, 1.0) };
        }
        if r.chance(1, 2) {
            // one stage carries the estimate alone
            let j = r.pick(&[0, 2, 3, 4, 5, 6]);
            ks = [0.0; 7];
            ks[j] = r.sign();
        }
        let e: f64 = (0..7).map(|j| E[j] * ks[j]).sum();
        let m: f64 = (0..7).map(|j| (E[j] * ks[j]).abs()).sum();
        if e.abs() < 0.1 * m || m == 0.0 {
            continue;
        }
        let sc = err * abstol / (dt * e).abs();
        for k in &mut ks {
            *k *= sc;
        }
        let u0 = 0.0;
        let arg = |s: usize| dt * (0..6).map(|j| A[s][j] * ks[j]).sum::<f64>();
        if ks[5] != ks[6] && (arg(5) - arg(6)).abs() <= 1e-6 * (arg(5).abs() + arg(6).abs()) {
            continue;
        }
        let (a, d) = reaction(&ks, u0, dt, abstol);
        got.push((a, d / dt, ks, dt, abstol));
    }
    let (x, y) = (&got[0], &got[1]);
    let ok = x.0 == y.0 && (x.1 == y.1 || (x.1 - y.1).abs() <= 1e-8 * x.1.abs().max(y.1.abs()));
    ctx.check(&["C10"], ok, || {
        format!(
            "stages {:?} with step {:e}, abstol {:e} and {:?} with step {:e}, abstol {:e} have the same published scaled error but were {} and {}, and change the step by {:e} and {:e}",
            x.2, x.3, x.4, y.2, y.3, y.4,
            if x.0 { "accepted" } else { "rejected" }, if y.0 { "accepted" } else { "rejected" },
            x.1, y.1
        )
    });
}
