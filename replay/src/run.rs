//! Drive the real integrator and evaluate the generic postconditions of every step.
use crate::case::*;
use crate::ctx::*;
use crate::problems::*;
use crate::rng::Rng;
use crate::{dp5, radau};
use cyphus_diffeq::dorm_prince::dp5::DormandPrince5;
use cyphus_diffeq::prelude::*;
use cyphus_diffeq::radau::Radau5;
use std::cell::RefCell;

pub trait Alg: OdeAlgorithm + Sized {
    fn make() -> Self;
    /// Continuous extension of the last step of length `h` at `t`.
    fn extension(i: &mut OdeIntegrator<Pars, Self>, t: f64, h: f64) -> Option<Vec<f64>>;
}
impl Alg for DormandPrince5 {
    fn make() -> Self {
        DormandPrince5
    }
    #[allow(unused_variables)]
    fn extension(i: &mut OdeIntegrator<Pars, Self>, t: f64, h: f64) -> Option<Vec<f64>> {
        #[cfg(feature = "dense")]
        return Some(cyphus_diffeq::verif_hooks::dense::dormand_prince5(i, t, h).to_vec());
        #[cfg(not(feature = "dense"))]
        None
    }
}
impl Alg for Radau5 {
    fn make() -> Self {
        Radau5
    }
    #[allow(unused_variables)]
    fn extension(i: &mut OdeIntegrator<Pars, Self>, t: f64, _h: f64) -> Option<Vec<f64>> {
        #[cfg(feature = "dense")]
        return Some(cyphus_diffeq::verif_hooks::dense::radau5(i, t).to_vec());
        #[cfg(not(feature = "dense"))]
        None
    }
}

pub fn gen(r: &mut Rng, prop: &str) -> Case {
    let mut c = match prop {
        "C07" => {
            if r.chance(1, 2) {
                gen_case(r, &FAULTY)
            } else {
                gen_case(r, &ANY)
            }
        }
        "C10" => gen_case_for(r, &ANY, false),
        "C11" => gen_case_for(r, &SMOOTH, true),
        "C12" => {
            if r.chance(1, 2) {
                gen_case(r, &[Kind::PolyT])
            } else {
                gen_case(r, &SMOOTH)
            }
        }
        _ => {
            if r.chance(1, 30) {
                gen_singular(r)
            } else {
                gen_case(r, &ANY)
            }
        }
    };
    if c.radau && r.chance(1, 12) {
        // few Newton iterations allowed, first attempt reaches for the end
        c.set.max_newt_iter = Some(1 + r.below(3));
        c.set.dtstart = Some(r.range(0.5, 2.0) * (c.t1 - c.t0).abs());
    }
    let n = c.prob.n;
    match prop {
        "C07" => {
            c.max_calls = 3_000_000;
            if c.set.max_steps.is_none() {
                c.set.max_steps = Some(r.pick(&[1, 2, 3, 5, 10, 50, 300]));
            }
            if r.chance(1, 8) {
                c.cb = Cb::Stop(1 + r.below(4));
            }
            if r.chance(1, 3) {
                // faulty from the very start
                c.prob.tc = -1.0;
            }
            if !c.radau && r.chance(1, 4) {
                c.set.facl = Some(r.range(0.5, 0.95));
            }
        }
        "C11" => {
            c.set.reltol = c.set.reltol.map(|x| x.min(1e-2));
            c.set.abstol = c.set.abstol.map(|x| x.min(1e-3));
            if c.prob.kind == Kind::Robertson {
                c.set.abstol = Some(c.set.abstol.unwrap_or(1e-6).min(1e-5));
            }
            if r.chance(2, 3) {
                c.set.fnewt = Some(r.logu(1e-9, 1e-6));
                c.set.max_newt_iter = Some(7 + r.below(8));
            }
            if r.chance(1, 4) {
                c.cb = r.pick(&[Cb::Observe, Cb::ScaleU(0.8), Cb::SetDt(0.7), Cb::Param(1.3)]);
            }
        }
        "C12" => {
            c.set.dense = Some(true);
            if c.prob.kind == Kind::PolyT {
                // solutions of degree at most four (explicit) or three (implicit)
                for i in 0..n {
                    c.prob.c[5 * i + 4] = 0.0;
                    if c.radau {
                        c.prob.c[5 * i + 3] = 0.0;
                    }
                }
            }
            if r.chance(1, 2) {
                c.set.dtstart = Some(r.range(0.05, 0.5));
            }
            if c.radau {
                c.set.fnewt = Some(1e-9);
                c.set.max_newt_iter = Some(12);
            }
        }
        "C17" => {
            c.cb = match r.below(8) {
                0 => Cb::Observe,
                1 | 2 => Cb::ScaleU(r.pick(&[-1.0, 0.5, 3.0])),
                3 => Cb::SetDt(r.pick(&[0.3, 0.6, 1.5])),
                4 => Cb::Param(r.pick(&[0.7, -1.0, 1.6])),
                5 => Cb::Stop(1 + r.below(4)),
                _ => Cb::ShiftT(r.pick(&[0.25, -0.5])),
            };
            if c.radau && r.chance(1, 2) {
                c.set.fnewt = Some(1e-8);
                c.set.max_newt_iter = Some(12);
            }
        }
        "C10" => {
            if c.prob.kind == Kind::PolyT && r.chance(1, 2) {
                c.set.dtstart = Some(0.4);
                c.set.reltol = Some(0.5);
            }
            if r.chance(1, 5) {
                c.cb = Cb::Observe;
            }
        }
        "C08" | "C09" => {
            // provoke rejections
            if r.chance(2, 3) {
                c.set.dtstart = Some(r.logu(0.1, 4.0) * (c.t1 - c.t0).abs());
            }
            if r.chance(1, 10) {
                c.cb = Cb::Observe;
            }
        }
        _ => {
            if r.chance(1, 8) {
                c.cb = r.pick(&[Cb::Observe, Cb::ScaleU(0.9), Cb::SetDt(0.8)]);
            }
        }
    }
    if r.chance(1, 40) {
        // many steps
        c.analysed = if r.chance(1, 10) { 1200 } else { 300 };
        if r.chance(1, 2) {
            c.set.dtmax = Some((c.t1 - c.t0).abs() / r.range(70.0, 900.0));
        }
    }
    c
}

pub fn run_case(ctx: &mut Ctx, case: &Case) {
    if case.radau {
        run::<Radau5>(ctx, case)
    } else {
        run::<DormandPrince5>(ctx, case)
    }
}

fn same(a: &[f64], b: &[f64]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.to_bits() == y.to_bits())
}

fn run<A: Alg>(ctx: &mut Ctx, case: &Case) {
    let log = RefCell::new(Log::default());
    let f = rhs(case, &log);
    let j = jacfn(case, &log);
    let steps_done = std::cell::Cell::new(0usize);
    let cbf = |i: &mut OdeIntegrator<Pars, A>| {
        steps_done.set(steps_done.get() + 1);
        let s = snap(i);
        let go = s.code == "Continue";
        log.borrow_mut().mids.push(s);
        match case.cb {
            Cb::None | Cb::Observe => {}
            Cb::ScaleU(x) => {
                if go {
                    for k in 0..i.u.len() {
                        if (k + steps_done.get()) % 2 == 0 {
                            i.u[k] = i.u[k] * x;
                        }
                    }
                }
            }
            Cb::SetDt(x) => {
                if go {
                    i.dt = i.dt * x;
                }
            }
            Cb::Param(x) => {
                if go {
                    i.params.scale = i.params.scale * x;
                }
            }
            Cb::ShiftT(x) => {
                let t = i.t + x * (i.t - i.tprev);
                if go && (i.tfinal - t) * i.tdir > 1e-3 * (case.t1 - case.t0).abs() {
                    i.t = t;
                }
            }
            Cb::Stop(k) => {
                if steps_done.get() >= k {
                    i.sol.retcode = OdeRetCode::Failure;
                }
            }
        }
    };
    let n = case.prob.n;
    let u0 = ndarray::Array1::from(case.u0.clone());
    let b = OdeIntegratorBuilder::default(&f, u0, (case.t0, case.t1), A::make(), case.pars.clone());
    let mut b = apply(b, &case.set);
    if case.user_jac {
        b = b.dfdu(&j);
    }
    if case.cb != Cb::None {
        b = b.callback(&cbf);
    }
    let mut it = b.build();
    let bs = snap(&it);
    let bcalls = std::mem::take(&mut log.borrow_mut().calls);
    // --- state right after building
    ctx.check(&["C05"], bs.ts.len() == 1 && bs.us.len() == 1 && same(&bs.ts, &[case.t0]) && same(&bs.us[0], &case.u0), || {
        format!("trajectory after building is {:?} {:?}, expected the initial point", bs.ts, bs.us)
    });
    ctx.check(&["C05"], same(&bs.u, &case.u0) && bs.t == case.t0 && bs.tfinal == case.t1, || {
        format!("state after building t={} u={:?}", bs.t, bs.u)
    });
    ctx.check(&["C06"], bs.tdir == (case.t1 - case.t0).signum(), || format!("direction is {}", bs.tdir));
    let dts = case.set.dtstart.unwrap_or(1e-6).abs().min(case.set.dtmax.unwrap_or(f64::INFINITY));
    ctx.check(&["C09"], bs.dt.abs() == dts, || format!("first step {:e}, requested {:e} capped", bs.dt, dts));
    ctx.check(&["C06", "C09"], bs.dt * (case.t1 - case.t0) > 0.0, || {
        format!("first step {:e} does not point from {} to {}", bs.dt, case.t0, case.t1)
    });
    let st = &bs.stats;
    ctx.check(&["C16"], st.steps + st.accepts + st.rejects + st.decompositions + st.linear_solves == 0, || {
        format!("counters after building: {:?}", (st.steps, st.accepts, st.rejects, st.decompositions, st.linear_solves))
    });
    ctx.check(&["C16"], st.function_evals <= bcalls.len() && st.jacobian_evals <= case.radau as usize, || {
        format!("{} evaluations and {} Jacobians counted while building made {} calls", st.function_evals, st.jacobian_evals, bcalls.len())
    });
    for c in &bcalls {
        ctx.check(&["C19"], c.t == case.t0 && c.u.len() == n && c.out_len == n && c.pars == case.pars, || {
            format!("evaluation while building at t={:e}, lengths {}/{}", c.t, c.u.len(), c.out_len)
        });
    }
    ctx.check(&["C19"], bs.pars == case.pars, || "parameters changed while building".into());
    let bj = log.borrow().jacs.clone();
    for (t, u) in &bj {
        ctx.check(&["C13", "C19"], *t == case.t0 && same(u, &case.u0), || {
            format!("Jacobian while building requested at t={:e} u={:?}", t, u)
        });
    }
    if case.user_jac && case.radau {
        ctx.check(&["C13", "C14"], bj.len() >= 1, || "the supplied Jacobian was not used when building".into());
    }
    if bs.ts.len() != 1 || bs.u.len() != n || bs.us.len() != 1 {
        return;
    }
    let mut k1 = vec![0.0; n];
    case.prob.eval(bs.t, &bs.u, &bs.pars, &mut k1);
    let mut dsh = dp5::Shadow { k1, facold: 1e-4, synced: true };
    let mut rsh = radau::Shadow::new(case, &bs, &bcalls);
    let mut pre = bs.clone();
    let mut performed = 0usize;
    let mut attempts = 0usize;
    let mut nontrivial = false;
    while pre.code == "Continue" && performed < case.analysed {
        {
            let mut l = log.borrow_mut();
            l.calls.clear();
            l.jacs.clear();
            l.mids.clear();
        }
        let ret = it.step();
        performed += 1;
        let post = snap(&it);
        let (calls, jacs, mids) = {
            let mut l = log.borrow_mut();
            (std::mem::take(&mut l.calls), std::mem::take(&mut l.jacs), std::mem::take(&mut l.mids))
        };
        // --- callback discipline
        if case.cb != Cb::None {
            ctx.check(&["C17"], mids.len() == 1, || format!("callback ran {} times in one step", mids.len()));
            if mids.len() != 1 {
                return;
            }
            if mids[0].code == "Continue" || mids[0].code == "Success" {
                ctx.check(&["C17"], mids[0].ts.len() == pre.ts.len() + 1 && mids[0].ts.last() == Some(&mids[0].t), || {
                    "callback ran before the step's result was recorded".into()
                });
            }
        }
        let mid = if mids.len() == 1 { mids[0].clone() } else { post.clone() };
        let accepted = mid.ts.len() > pre.ts.len();
        // --- trajectory
        let lens = mid.ts.len() == mid.us.len();
        ctx.check(&["C05"], lens, || format!("{} times but {} states", mid.ts.len(), mid.us.len()));
        let grown = mid.ts.len() <= pre.ts.len() + 1 && mid.ts.len() >= pre.ts.len();
        ctx.check(&["C05"], grown, || format!("trajectory went from {} to {} points in one step", pre.ts.len(), mid.ts.len()));
        if !lens || !grown {
            return;
        }
        let np = pre.ts.len();
        let prefix = same(&mid.ts[..np], &pre.ts) && (0..np).all(|i| same(&mid.us[i], &pre.us[i]));
        ctx.check(&["C05"], prefix, || "an earlier point of the trajectory changed".into());
        ctx.check(&["C05", "C07"], accepted || mid.code != "Continue", || {
            "a step call neither accepted a step nor ended the integration".into()
        });
        if accepted {
            ctx.check(&["C05"], mid.ts[np] == mid.t && same(&mid.us[np], &mid.u), || {
                format!("newest point ({:e}, {:?}) is not the current state ({:e}, {:?})", mid.ts[np], mid.us[np], mid.t, mid.u)
            });
            ctx.check(&["C05"], mid.tprev == pre.t && same(&mid.uprev, &pre.u), || {
                format!("previous state ({:e}, {:?}), but the step started from ({:e}, {:?})", mid.tprev, mid.uprev, pre.t, pre.u)
            });
            ctx.check(&["C06"], (mid.t - pre.t) * pre.tdir > 0.0, || format!("time went from {:e} to {:e}", pre.t, mid.t));
        } else {
            ctx.check(&["C05", "C08"], mid.t == pre.t && same(&mid.u, &pre.u), || {
                format!("a step that was not accepted changed the state from t={:e} to t={:e}", pre.t, mid.t)
            });
        }
        let slack = 8.0 * f64::EPSILON * (pre.t.abs() + pre.tfinal.abs());
        let over = (mid.t - pre.tfinal) * pre.tdir;
        ctx.check(&["C06"], over <= slack, || format!("time {:e} passed the final time {:e}", mid.t, pre.tfinal));
        ctx.check(&["C06"], mid.tfinal == pre.tfinal && mid.tdir == pre.tdir, || "final time or direction changed".into());
        if mid.code == "Success" {
            ctx.check(&["C06"], over.abs() <= slack, || format!("success at t={:e}, final time {:e}", mid.t, pre.tfinal));
        } else if accepted {
            ctx.check(&["C06"], over < 0.0, || format!("final time {:e} reached with status {}", pre.tfinal, mid.code));
        }
        // --- status
        ctx.check(&["C07"], ret.is_some() == (post.code == "Continue"), || {
            format!("step returned {:?} with status {}", ret, post.code)
        });
        let known = ["Continue", "Success", "MaxIters", "DtLessThanMin", "SingularMatrix"].contains(&mid.code.as_str());
        ctx.check(&["C07"], known, || format!("status {}", mid.code));
        ctx.check(&["C07"], mid.code != "Continue" || mid.stats.steps < pre.opts.max_steps, || {
            format!("{} steps counted with a budget of {} and still continuing", mid.stats.steps, pre.opts.max_steps)
        });
        ctx.check(&["C07"], mid.code != "MaxIters" || mid.stats.steps >= pre.opts.max_steps, || {
            format!("budget of {} reported exhausted after {} steps", pre.opts.max_steps, mid.stats.steps)
        });
        ctx.check(&["C07"], mid.ts.len() - 1 <= pre.opts.max_steps.max(1), || {
            format!("{} accepted steps with a budget of {}", mid.ts.len() - 1, pre.opts.max_steps)
        });
        ctx.check(&["C14"], mid.opts == pre.opts, || "stepping changed the options".into());
        // --- evaluation discipline
        let lim = {
            let a = pre.dt.abs() * 1.0102;
            pre.t + pre.tdir * a
        };
        for c in &calls {
            let s = 8.0 * f64::EPSILON * (pre.t.abs() + pre.dt.abs());
            let inside = (c.t - pre.t) * pre.tdir >= -s
                && (c.t - lim) * pre.tdir <= s
                && (c.t - pre.tfinal) * pre.tdir <= s + slack;
            ctx.check(&["C19"], inside, || {
                format!("evaluation at time {:e} while stepping from {:e} by {:e} (final time {:e})", c.t, pre.t, pre.dt, pre.tfinal)
            });
            ctx.check(&["C19"], c.u.len() == n && c.out_len == n, || {
                format!("evaluation with lengths {}/{}, dimension {}", c.u.len(), c.out_len, n)
            });
            ctx.check(&["C19"], c.pars == pre.pars, || format!("evaluation with parameters {:?}", c.pars));
        }
        ctx.check(&["C19"], mid.pars == pre.pars, || "stepping changed the parameters".into());
        for (t, u) in &jacs {
            let at = *t == pre.t && same(u, &pre.u) || *t == mid.t && same(u, &mid.u);
            ctx.check(&["C13", "C19"], at, || format!("Jacobian requested at t={:e} u={:?}, state is t={:e} u={:?}", t, u, pre.t, pre.u));
        }
        if calls.iter().any(|c| c.u.len() != n || c.out_len != n) {
            return;
        }
        // --- counters
        let d = |a: usize, b: usize| a as i64 - b as i64;
        let fe = d(mid.stats.function_evals, pre.stats.function_evals);
        let je = d(mid.stats.jacobian_evals, pre.stats.jacobian_evals);
        let ac = d(mid.stats.accepts, pre.stats.accepts);
        let rj = d(mid.stats.rejects, pre.stats.rejects);
        let de = d(mid.stats.decompositions, pre.stats.decompositions);
        let ls = d(mid.stats.linear_solves, pre.stats.linear_solves);
        ctx.check(&["C16"], ac == accepted as i64, || format!("accepted-step count went up by {} for {} new points", ac, accepted as i64));
        let fd = if case.user_jac || !case.radau { 0 } else { (n as i64 + 1) * je };
        ctx.check(&["C16"], fe + fd == calls.len() as i64, || {
            format!("{} evaluations and {} Jacobians counted, {} calls made (dimension {})", fe, je, calls.len(), n)
        });
        if case.user_jac || !case.radau {
            ctx.check(&["C16"], je == jacs.len() as i64, || format!("{} Jacobians counted, {} evaluated", je, jacs.len()));
        }
        if case.radau {
            let steps = mid.stats.steps - pre.stats.steps;
            attempts += steps;
            let o = radau::analyze(ctx, case, &mut rsh, &pre, &mid, &calls);
            nontrivial |= o.followed;
            if o.followed {
                if !case.user_jac {
                    ctx.check(&["C16"], fe == o.method_calls as i64, || format!("{} evaluations counted, the method made {}", fe, o.method_calls));
                }
                ctx.check(&["C16"], ls == o.newton_iters as i64, || format!("{} linear solves counted, {} Newton iterations", ls, o.newton_iters));
                ctx.check(&["C16"], de == o.decomps as i64, || format!("{} factorizations counted, {} performed", de, o.decomps));
                let want = if pre.stats.accepts >= 1 { o.rejected } else { 0 };
                ctx.check(&["C16"], rj == want as i64, || format!("{} rejections counted, {} made", rj, want));
                if mid.code != "MaxIters" {
                    ctx.check(&["C07"], o.attempts <= steps, || format!("{} attempts but {} steps counted", o.attempts, steps));
                }
            }
            if accepted {
                collocate(ctx, case, &pre, &mid, &mut it, &post);
            }
        } else {
            ctx.check(&["C16"], ls == 0 && de == 0, || "linear algebra counted by the explicit solver".into());
            let o = dp5::analyze(ctx, case, &mut dsh, &pre, &mid, &calls);
            nontrivial |= o.followed;
            if o.followed {
                let want = if pre.stats.accepts >= 1 { o.rejected } else { 0 };
                ctx.check(&["C16"], rj == want as i64, || format!("{} rejections counted, {} made", rj, want));
            } else {
                // pick up again from the true state
                let mut k1 = vec![0.0; n];
                case.prob.eval(mid.t, &mid.u, &mid.pars, &mut k1);
                if accepted && calls.last().map_or(false, |c| same(&c.u, &mid.u)) {
                    dsh.k1 = calls.last().unwrap().out.clone();
                } else {
                    dsh.k1 = k1;
                }
                // the previous error is unknown now
                return;
            }
            attempts += 1;
            if mid.code == "MaxIters" {
                ctx.check(&["C07"], accepted && mid.ts.len() - 1 >= pre.opts.max_steps, || {
                    format!("budget {} reported exhausted after {} steps", pre.opts.max_steps, mid.ts.len() - 1)
                });
            }
            if accepted && case.cb == Cb::None {
                extension5(ctx, case, &pre, &mid, &mut it, &o);
            }
            if accepted && case.prob.kind == Kind::PolyT {
                // degree at most four in time: integrated exactly
                let (q0, q1) = (case.prob.clone(), pre.pars.clone());
                let mut scale = 0.0f64;
                let mut ex = vec![0.0; n];
                for i in 0..n {
                    let mut s = 0.0;
                    for q in 0..5 {
                        let c = q1.scale * q0.c[5 * i + q] / (q as f64 + 1.0);
                        let (a, b) = (mid.t.powi(q as i32 + 1), pre.t.powi(q as i32 + 1));
                        s += c * (a - b);
                        scale = scale.max((c * a).abs()).max((c * b).abs());
                    }
                    ex[i] = pre.u[i] + s;
                    scale = scale.max(pre.u[i].abs());
                }
                for i in 0..n {
                    ctx.check(&["C10"], close(mid.u[i], ex[i], 1e-12 * scale + 64.0 * f64::EPSILON * scale), || {
                        format!("polynomial right-hand side integrated to {:e}, exact value {:e}", mid.u[i], ex[i])
                    });
                }
            }
        }
        if case.radau {
            ctx.check(&["C07"], attempts <= pre.opts.max_steps.max(1), || {
                format!("{} attempts with a budget of {}", attempts, pre.opts.max_steps)
            });
        }
        // --- generic step-size limits
        if accepted && mid.code == "Continue" {
            let used = mid.t - pre.t;
            let (lo, hi) = if case.radau {
                (1.0 / pre.opts.facl, 1.0 / pre.opts.facr)
            } else {
                (pre.opts.facl, pre.opts.facr)
            };
            let rel = 1e-9 + 8.0 * f64::EPSILON * pre.t.abs() / used.abs();
            let toend = (mid.dt - (mid.tfinal - mid.t)).abs() <= slack;
            ctx.check(&["C09"], mid.dt * pre.tdir > 0.0, || format!("next step {:e} points the wrong way", mid.dt));
            ctx.check(&["C09"], mid.dt.abs() <= pre.opts.dtmax * (1.0 + 1e-12) || toend && case.radau && mid.dt.abs() <= pre.opts.dtmax * (1.0 + 1e-9) / pre.opts.quot1.min(1.0), || {
                format!("next step {:e} exceeds the maximum {:e}", mid.dt, pre.opts.dtmax)
            });
            let ratio = mid.dt / used;
            let capped = (mid.dt.abs() - pre.opts.dtmax).abs() <= 1e-9 * pre.opts.dtmax;
            ctx.check(&["C09"], ratio <= hi * (1.0 + rel) || toend && case.radau, || {
                format!("step grew from {:e} to {:e}, limit factor {:e}", used, mid.dt, hi)
            });
            ctx.check(&["C09"], ratio >= lo * (1.0 - rel) || toend || capped, || {
                format!("step shrank from {:e} to {:e}, limit factor {:e}", used, mid.dt, lo)
            });
        }
        pre = post;
    }
    if nontrivial {
        ctx.nontrivial += 1;
    }
    let tail = ctx.wants("C06") || ctx.wants("C07") || ctx.wants("C05");
    if pre.code == "Continue" && tail {
        let mut guard = 0usize;
        loop {
            {
                let mut l = log.borrow_mut();
                l.calls.clear();
                l.jacs.clear();
                l.mids.clear();
            }
            let (r, t) = (it.step(), it.t);
            guard += 1;
            let c = it.sol.retcode == OdeRetCode::Continue;
            ctx.check(&["C07"], r.is_some() == c, || format!("step returned {:?}", r));
            ctx.check(&["C05"], it.sol.ts.len() == it.sol.us.len(), || "times and states differ in number".into());
            let _ = t;
            if !c {
                break;
            }
            if guard > case.set.max_steps.unwrap_or(100_000) + 5 {
                ctx.check(&["C07"], false, || format!("still running after {} further steps", guard));
                return;
            }
        }
        let fin = snap(&it);
        let slack = 8.0 * f64::EPSILON * (case.t0.abs() + fin.tfinal.abs());
        for w in fin.ts.windows(2) {
            let ok = (w[1] - w[0]) * fin.tdir > 0.0 || matches!(case.cb, Cb::ShiftT(_));
            if !ok {
                ctx.check(&["C06"], ok, || format!("recorded times {:e}, {:e} out of order", w[0], w[1]));
                break;
            }
        }
        if fin.code == "Success" {
            ctx.check(&["C06"], (fin.t - fin.tfinal).abs() <= slack, || format!("success at {:e}", fin.t));
        } else {
            ctx.check(&["C06"], (fin.t - fin.tfinal) * fin.tdir < 0.0, || format!("status {} at final time", fin.code));
        }
        ctx.check(&["C07"], ["Success", "MaxIters", "DtLessThanMin", "SingularMatrix", "Failure"].contains(&fin.code.as_str()), || fin.code.clone());
        pre = fin;
    }
    if pre.code != "Continue" {
        // stepping after the end
        let ncb = steps_done.get();
        let r = it.step();
        it.integrate();
        let p2 = snap(&it);
        let same_state = r.is_none()
            && p2.code == pre.code
            && p2.t == pre.t
            && same(&p2.u, &pre.u)
            && same(&p2.ts, &pre.ts)
            && p2.us.len() == pre.us.len()
            && (p2.dt == pre.dt || p2.dt.is_nan())
            && p2.tprev == pre.tprev;
        ctx.check(&["C07"], same_state, || format!("stepping after the end (status {}) changed the state: t {:e} -> {:e}, {} -> {} points, returned {:?}", pre.code, pre.t, p2.t, pre.ts.len(), p2.ts.len(), r));
        ctx.check(&["C17"], steps_done.get() == ncb, || "callback ran although no step was performed".into());
    }
}

/// Dense output of the explicit solver.
fn extension5<A: Alg>(ctx: &mut Ctx, case: &Case, pre: &Snap, mid: &Snap, it: &mut OdeIntegrator<Pars, A>, o: &dp5::Outcome) {
    if !ctx.wants("C12") || case.set.dense != Some(true) {
        return;
    }
    let n = case.prob.n;
    let h = mid.dtprev;
    let used = o.dt_used;
    if !((h - used).abs() <= 1e-12 * used.abs()) {
        ctx.check(&["C12"], false, || format!("step length {:e} exposed, {:e} used", h, used));
        return;
    }
    let xs: Vec<f64> = (0..5).map(|k| k as f64 / 4.0).collect();
    let mut ys = vec![];
    for x in &xs {
        match A::extension(it, pre.t + x * h, h) {
            Some(y) => ys.push(y),
            None => return,
        }
    }
    let eps = f64::EPSILON;
    // relative error of the abscissa from rounding in t
    let arg = 8.0 * eps * (pre.t.abs() + h.abs()) / h.abs();
    let kmax = |i: usize| o.k_first[i].abs().max(o.k_last[i].abs());
    for i in 0..n {
        let mut range = (mid.u[i] - pre.u[i]).abs() + h.abs() * kmax(i);
        for y in &ys {
            range = range.max((y[i] - pre.u[i]).abs());
        }
        let tol = 200.0 * eps * (mid.u[i].abs() + pre.u[i].abs() + range) + 20.0 * arg * range;
        ctx.check(&["C12"], close(ys[0][i], pre.u[i], tol), || {
            format!("extension at the start of the step gives {:e}, state was {:e}", ys[0][i], pre.u[i])
        });
        ctx.check(&["C12"], close(ys[4][i], mid.u[i], tol), || {
            format!("extension at the end of the step gives {:e}, state is {:e}", ys[4][i], mid.u[i])
        });
        // derivative of the quartic through the five points
        let d0 = (-25.0 * ys[0][i] + 48.0 * ys[1][i] - 36.0 * ys[2][i] + 16.0 * ys[3][i] - 3.0 * ys[4][i]) / 3.0;
        let d1 = (25.0 * ys[4][i] - 48.0 * ys[3][i] + 36.0 * ys[2][i] - 16.0 * ys[1][i] + 3.0 * ys[0][i]) / 3.0;
        let told = 100.0 * tol;
        ctx.check(&["C12"], close(d0, h * o.k_first[i], told), || {
            format!("extension's derivative at the start {:e}, right-hand side gives {:e}", d0 / h, o.k_first[i])
        });
        ctx.check(&["C12"], close(d1, h * o.k_last[i], told), || {
            format!("extension's derivative at the end {:e}, right-hand side gives {:e}", d1 / h, o.k_last[i])
        });
    }
    if case.prob.kind == Kind::PolyT {
        poly_inside(ctx, case, pre, h, it, 3, 1e-11);
    }
    let _ = it;
}

/// Compare the extension with the exact polynomial solution inside the step.
fn poly_inside<A: Alg>(ctx: &mut Ctx, case: &Case, pre: &Snap, h: f64, it: &mut OdeIntegrator<Pars, A>, deg: usize, rel: f64) {
    let n = case.prob.n;
    for i in 0..n {
        for q in deg + 1..5 {
            if case.prob.c[5 * i + q] != 0.0 {
                return;
            }
        }
    }
    for k in 1..8 {
        let t = pre.t + h * k as f64 / 8.0;
        let y = match A::extension(it, t, h) {
            Some(y) => y,
            None => return,
        };
        for i in 0..n {
            let mut s = pre.u[i];
            let mut sc = pre.u[i].abs() + 1.0;
            for q in 0..=deg {
                let c = pre.pars.scale * case.prob.c[5 * i + q] / (q as f64 + 1.0);
                s += c * (t.powi(q as i32 + 1) - pre.t.powi(q as i32 + 1));
                sc = sc.max(c.abs() * t.abs().powi(q as i32 + 1));
            }
            let tol = rel * sc;
            ctx.check(&["C12"], close(y[i], s, tol), || {
                format!("extension at {:.3} of the step gives {:e}, polynomial solution is {:e}", k as f64 / 8.0, y[i], s)
            });
        }
    }
}

/// Compare an implicit step with an independent solution of the collocation equations.
fn collocate<A: Alg>(ctx: &mut Ctx, case: &Case, pre: &Snap, mid: &Snap, it: &mut OdeIntegrator<Pars, A>, post: &Snap) {
    if !(ctx.wants("C11") || ctx.wants("C12") || ctx.wants("C17")) {
        return;
    }
    let n = case.prob.n;
    let h = mid.t - pre.t;
    let hrel = 4.0 * f64::EPSILON * (pre.t.abs() + mid.t.abs()) / h.abs();
    if hrel > 1e-7 {
        return;
    }
    let (u1, z, _) = match radau::collocation(case, &pre.pars, &pre.u, pre.t, h, &mid.u) {
        Some(x) => x,
        None => return,
    };
    let lin = case.prob.is_linear() && !matches!(case.cb, Cb::Param(_));
    let mut worst = 0.0f64;
    let mut tols = vec![0.0; n];
    for i in 0..n {
        let big = (0..n).fold(0.0f64, |m, k| {
            m.max(pre.u[k].abs()).max(mid.u[k].abs()).max(z[0][k].abs()).max(z[1][k].abs())
        });
        let sc = pre.opts.abstol + pre.opts.reltol * pre.u[i].abs();
        let scm = (0..n).fold(sc, |m, k| m.max(pre.opts.abstol + pre.opts.reltol * pre.u[k].abs()));
        let arith = 1e-8 * big + 100.0 * hrel * big;
        // a parameter change leaves Newton with a Jacobian of other parameters
        let slow = if matches!(case.cb, Cb::Param(_)) { 1e6 } else { 5000.0 };
        let newton = slow * pre.opts.fnewt * scm;
        tols[i] = if lin && case.user_jac { arith } else { arith + newton };
        let dev = (mid.u[i] - u1[i]).abs();
        worst = worst.max(dev / tols[i]);
        if std::env::var("VERIF_CAL").is_ok() {
            println!("CAL {} {:e} {:e} {:?}", lin, dev / tols[i], dev, case.prob.kind);
        }
        ctx.check(&["C11", "C17"], dev <= tols[i], || {
            format!(
                "step {:e} from t={:e}: new state [{}]={:e}, collocation solution {:e} (allowed {:e})",
                h, pre.t, i, mid.u[i], u1[i], tols[i]
            )
        });
    }
    if ctx.wants("C12") && case.set.dense == Some(true) && post.code == mid.code && case.cb == Cb::None {
        let c = radau::nodes();
        let arg = 16.0 * f64::EPSILON * (pre.t.abs() + mid.t.abs()) / h.abs();
        let y0 = match A::extension(it, pre.t, h) {
            Some(y) => y,
            None => return,
        };
        let y1 = A::extension(it, mid.t, h).unwrap();
        for i in 0..n {
            let big = pre.u[i].abs() + mid.u[i].abs() + (0..3).fold(0.0f64, |m, s| m.max(z[s][i].abs()));
            let tol = 1e-12 * big + 50.0 * arg * big;
            ctx.check(&["C12"], close(y0[i], pre.u[i], tol), || {
                format!("extension at the start of the step gives {:e}, state was {:e}", y0[i], pre.u[i])
            });
            ctx.check(&["C12"], close(y1[i], mid.u[i], tol), || {
                format!("extension at the end of the step gives {:e}, state is {:e}", y1[i], mid.u[i])
            });
        }
        for s in 0..2 {
            let y = A::extension(it, pre.t + c[s] * h, h).unwrap();
            for i in 0..n {
                let big = pre.u[i].abs() + mid.u[i].abs() + (0..3).fold(0.0f64, |m, s| m.max(z[s][i].abs()));
                let tol = tols[i] + 50.0 * arg * big + 1e-11 * big;
                ctx.check(&["C12"], close(y[i], pre.u[i] + z[s][i], tol), || {
                    format!("extension at collocation point {} gives {:e}, collocation value {:e}", s + 1, y[i], pre.u[i] + z[s][i])
                });
            }
        }
        if case.prob.kind == Kind::PolyT {
            poly_inside(ctx, case, pre, h, it, 2, 1e-9);
        }
    }
}
