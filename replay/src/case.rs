//! Generated integration cases: problem, configuration and logging of what the real code did.
use crate::problems::*;
use crate::rng::Rng;
use cyphus_diffeq::prelude::*;
use ndarray::prelude::*;
use std::cell::RefCell;

#[derive(Clone, Debug, Default)]
pub struct Setters {
    pub reltol: Option<f64>,
    pub abstol: Option<f64>,
    pub dense: Option<bool>,
    pub dtstart: Option<f64>,
    pub dtmax: Option<f64>,
    pub max_steps: Option<usize>,
    pub max_newt_iter: Option<usize>,
    pub max_stiff: Option<usize>,
    pub modern_pred: Option<bool>,
    pub safe: Option<f64>,
    pub facr: Option<f64>,
    pub facl: Option<f64>,
    pub quot1: Option<f64>,
    pub quot2: Option<f64>,
    pub beta: Option<f64>,
    pub fnewt: Option<f64>,
    pub use_ext_col: Option<bool>,
    pub hess: Option<bool>,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cb {
    None,
    Observe,
    ScaleU(f64),
    SetDt(f64),
    Param(f64),
    Stop(usize),
    ShiftT(f64),
}

#[derive(Clone, Debug)]
pub struct Case {
    pub radau: bool,
    pub prob: Problem,
    pub pars: Pars,
    pub u0: Vec<f64>,
    pub t0: f64,
    pub t1: f64,
    pub set: Setters,
    pub user_jac: bool,
    pub cb: Cb,
    pub max_calls: usize,
    /// steps looked at one by one
    pub analysed: usize,
}

impl Case {
    pub fn describe(&self) -> String {
        format!(
            "{} {:?} n={} w={:e} tc={:.3} scale={} u0={:?} t={}..{} userjac={} cb={:?} opts={}",
            if self.radau { "Radau5" } else { "DormandPrince5" },
            self.prob.kind,
            self.prob.n,
            self.prob.w,
            self.prob.tc,
            self.pars.scale,
            self.u0,
            self.t0,
            self.t1,
            self.user_jac,
            self.cb,
            format!("{:?}", self.set)
                .split(|c| c == '{' || c == '}' || c == ',')
                .filter(|s| s.contains("Some"))
                .collect::<Vec<_>>()
                .join(",")
        )
    }
}

/// Random but valid option values.
pub fn gen_setters(r: &mut Rng, radau: bool, span: f64) -> Setters {
    let mut s = Setters::default();
    if r.chance(3, 4) {
        s.reltol = Some(r.logu(1e-8, 1e-2));
    }
    if r.chance(3, 4) {
        s.abstol = Some(r.logu(1e-10, 1e-3));
    }
    if r.chance(1, 2) {
        s.dense = Some(r.chance(1, 2));
    }
    if r.chance(3, 4) {
        s.dtstart = Some(r.logu(1e-5, 2.0) * span.abs());
    }
    if r.chance(1, 4) {
        s.dtmax = Some(r.logu(0.02, 0.5) * span.abs());
    }
    if r.chance(1, 8) {
        s.max_steps = Some(2 + r.below(12));
    }
    if r.chance(1, 5) {
        s.max_stiff = Some(r.pick(&[0, 1, 2, 3, 10]));
    }
    if r.chance(1, 4) {
        s.safe = Some(r.range(0.6, 0.95));
    }
    if radau {
        if r.chance(1, 4) {
            s.facl = Some(r.range(1.5, 8.0));
        }
        if r.chance(1, 4) {
            s.facr = Some(r.range(0.1, 0.6));
        }
        if r.chance(1, 4) {
            s.max_newt_iter = Some(1 + r.below(10));
        }
        if r.chance(1, 4) {
            s.modern_pred = Some(r.chance(1, 2));
        }
        if r.chance(1, 4) {
            s.use_ext_col = Some(r.chance(1, 2));
        }
        if r.chance(1, 3) {
            s.fnewt = Some(r.logu(1e-7, 1e-2));
        }
        if r.chance(1, 5) {
            s.quot1 = Some(r.range(0.7, 1.0));
        }
        if r.chance(1, 4) {
            s.quot2 = Some(r.range(1.05, 2.5));
        }
    } else {
        if r.chance(1, 3) {
            s.facl = Some(r.range(0.1, 0.7));
        }
        if r.chance(1, 3) {
            s.facr = Some(r.range(1.2, 12.0));
        }
        if r.chance(1, 3) {
            s.beta = Some(r.pick(&[0.0, 0.02, 0.04, 0.08, 0.1]));
        }
    }
    s
}

pub fn gen_case(r: &mut Rng, kinds: &[Kind]) -> Case {
    let radau = r.chance(1, 2);
    gen_case_for(r, kinds, radau)
}

pub fn gen_case_for(r: &mut Rng, kinds: &[Kind], radau: bool) -> Case {
    let kind = r.pick(kinds);
    let prob = Problem::gen(r, kind, 5);
    let pars = Pars {
        scale: r.pick(&[1.0, 1.0, 0.5, 2.0]),
        tag: r.next(),
    };
    let t0 = match kind {
        Kind::NanAfter | Kind::InfAfter => 0.0,
        _ => r.pick(&[0.0, 0.0, 1.0, -2.0, 0.5]) * r.range(0.5, 1.0),
    };
    // A decaying problem explodes backward in time: keep those forward or short.
    let fwd = match kind {
        Kind::StiffLin | Kind::Robertson | Kind::VdP | Kind::NanNeg => true,
        _ => r.chance(1, 2),
    };
    let len = match kind {
        Kind::Robertson => 0.3,
        Kind::VdP => 0.5,
        _ => r.pick(&[0.3, 1.0, 2.0]),
    };
    let t1 = if fwd { t0 + len } else { t0 - len };
    let u0 = prob.init(r);
    let mut set = gen_setters(r, radau, len);
    if r.chance(1, 10) {
        let low = if radau { 1e-8 } else { 1e-11 };
        set.reltol = Some(r.logu(low, 1e-1));
        set.abstol = Some(r.logu(1e-2 * low, 1e-1));
    }
    Case {
        radau,
        prob,
        pars,
        u0,
        t0,
        t1,
        set,
        user_jac: r.chance(1, 2),
        cb: Cb::None,
        max_calls: 60_000,
        analysed: 50,
    }
}

/// Implicit case whose first iteration matrix (real or complex) is singular: an eigenvalue of the Jacobian
/// times the first step is an eigenvalue of the inverse coefficient matrix.
pub fn gen_singular(r: &mut Rng) -> Case {
    let mut c = gen_case_for(r, &[Kind::Linear], true);
    c.user_jac = true;
    c.set.dtmax = None;
    let span = c.t1 - c.t0;
    let d = r.pick(&[0.05, 0.25, 1.0, 2.0]) * span.abs();
    c.set.dtstart = Some(d);
    let dt = if d < 0.9 * span.abs() { d.copysign(span) } else { span };
    let n = c.prob.n;
    if r.chance(1, 2) || n < 2 {
        for i in 0..n {
            c.prob.a[i * n] = 0.0;
        }
        c.prob.a[0] = 3.637834252744496 / dt / c.pars.scale;
    } else {
        for i in 0..n {
            c.prob.a[i * n] = 0.0;
            c.prob.a[i * n + 1] = 0.0;
        }
        let (al, be) = (2.681082873627752 / dt / c.pars.scale, 3.050430199247411 / dt / c.pars.scale);
        c.prob.a[0] = al;
        c.prob.a[n + 1] = al;
        c.prob.a[1] = -be;
        c.prob.a[n] = be;
    }
    c
}

#[derive(Clone, Debug)]
pub struct Call {
    pub t: f64,
    pub u: Vec<f64>,
    pub out: Vec<f64>,
    pub out_len: usize,
    pub pars: Pars,
}

#[derive(Default)]
pub struct Log {
    pub calls: Vec<Call>,
    pub jacs: Vec<(f64, Vec<f64>)>,
    pub total: usize,
    pub mids: Vec<Snap>,
}

/// Public state of an integrator.
#[derive(Clone, Debug)]
pub struct Snap {
    pub u: Vec<f64>,
    pub t: f64,
    pub dt: f64,
    pub uprev: Vec<f64>,
    pub tprev: f64,
    pub dtprev: f64,
    pub tdir: f64,
    pub tfinal: f64,
    pub opts: OdeIntegratorOpts_,
    pub stats: OdeStatistics,
    pub ts: Vec<f64>,
    pub us: Vec<Vec<f64>>,
    pub code: String,
    pub pars: Pars,
}

#[derive(Clone, Debug, PartialEq)]
pub struct OdeIntegratorOpts_ {
    pub reltol: f64,
    pub abstol: f64,
    pub dense: bool,
    pub dtstart: f64,
    pub dtmax: f64,
    pub max_steps: usize,
    pub max_newt_iter: usize,
    pub max_stiff: usize,
    pub modern_pred: bool,
    pub safe: f64,
    pub facr: f64,
    pub facl: f64,
    pub quot1: f64,
    pub quot2: f64,
    pub beta: f64,
    pub fnewt: f64,
    pub use_ext_col: bool,
    pub hess: bool,
    pub theta: f64,
}

pub fn opts_of(o: &OdeIntegratorOpts) -> OdeIntegratorOpts_ {
    OdeIntegratorOpts_ {
        reltol: o.reltol,
        abstol: o.abstol,
        dense: o.dense,
        dtstart: o.dtstart,
        dtmax: o.dtmax,
        max_steps: o.max_steps,
        max_newt_iter: o.max_newt_iter,
        max_stiff: o.max_stiff,
        modern_pred: o.modern_pred,
        safe: o.safe,
        facr: o.facr,
        facl: o.facl,
        quot1: o.quot1,
        quot2: o.quot2,
        beta: o.beta,
        fnewt: o.fnewt,
        use_ext_col: o.use_ext_col,
        hess: o.hess,
        theta: o.theta,
    }
}

pub fn snap<A: OdeAlgorithm>(i: &OdeIntegrator<Pars, A>) -> Snap {
    Snap {
        u: i.u.to_vec(),
        t: i.t,
        dt: i.dt,
        uprev: i.uprev.to_vec(),
        tprev: i.tprev,
        dtprev: i.dtprev,
        tdir: i.tdir,
        tfinal: i.tfinal,
        opts: opts_of(&i.opts),
        stats: i.stats.clone(),
        ts: i.sol.ts.clone(),
        us: i.sol.us.iter().map(|v| v.to_vec()).collect(),
        code: format!("{:?}", i.sol.retcode),
        pars: i.params.clone(),
    }
}

pub const BUDGET: &str = "VERIF-BUDGET";

pub fn rhs<'a>(
    case: &'a Case,
    log: &'a RefCell<Log>,
) -> impl Fn(ArrayViewMut1<f64>, ArrayView1<f64>, f64, &Pars) + 'a {
    move |mut du: ArrayViewMut1<f64>, u: ArrayView1<f64>, t: f64, p: &Pars| {
        let uv = u.to_vec();
        let n = case.prob.n;
        let mut out = vec![0.0; n];
        if uv.len() == n {
            case.prob.eval(t, &uv, p, &mut out);
        }
        let mut l = log.borrow_mut();
        l.total += 1;
        let len = du.len();
        for i in 0..len.min(n) {
            du[i] = out[i];
        }
        l.calls.push(Call { t, u: uv, out, out_len: len, pars: p.clone() });
        if l.total > case.max_calls {
            drop(l);
            panic!("{}", BUDGET);
        }
    }
}

pub fn jacfn<'a>(
    case: &'a Case,
    log: &'a RefCell<Log>,
) -> impl Fn(ArrayViewMut2<f64>, ArrayView1<f64>, f64, &Pars) + 'a {
    move |mut df: ArrayViewMut2<f64>, u: ArrayView1<f64>, t: f64, p: &Pars| {
        let n = case.prob.n;
        let uv = u.to_vec();
        let mut j = vec![0.0; n * n];
        case.prob.jac(t, &uv, p, &mut j);
        for i in 0..n {
            for k in 0..n {
                df[[i, k]] = j[i * n + k];
            }
        }
        let mut l = log.borrow_mut();
        l.total += 1;
        l.jacs.push((t, uv));
        if l.total > case.max_calls {
            drop(l);
            panic!("{}", BUDGET);
        }
    }
}

pub fn apply<'a, A: OdeAlgorithm>(
    mut b: OdeIntegratorBuilder<'a, Pars, A>,
    s: &Setters,
) -> OdeIntegratorBuilder<'a, Pars, A> {
    macro_rules! ap {
        ($($f:ident),*) => { $( if let Some(v) = s.$f { b = b.$f(v); } )* };
    }
    ap!(
        reltol, abstol, dense, dtstart, dtmax, max_steps, max_newt_iter, max_stiff, modern_pred,
        safe, facr, facl, quot1, quot2, beta, fnewt, use_ext_col, hess
    );
    b
}
