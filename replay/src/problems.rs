//! Right-hand sides used to replay contracts on the real code.
use crate::rng::Rng;

/// Parameters handed through the integrator to the right-hand side.
#[derive(Clone, Debug, PartialEq)]
pub struct Pars {
    pub scale: f64,
    pub tag: u64,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind {
    Linear,
    PolyT,
    Nonlin,
    VdP,
    StiffLin,
    Jump,
    NanAfter,
    InfAfter,
    Robertson,
    Logistic,
    Rotation,
    BlowUp,
    NanNeg,
}

#[derive(Clone, Debug)]
pub struct Problem {
    pub kind: Kind,
    pub n: usize,
    pub a: Vec<f64>,
    pub b: Vec<f64>,
    pub c: Vec<f64>,
    pub w: f64,
    pub tc: f64,
}

pub const SMOOTH: [Kind; 8] = [
    Kind::Linear,
    Kind::PolyT,
    Kind::Nonlin,
    Kind::VdP,
    Kind::StiffLin,
    Kind::Logistic,
    Kind::Rotation,
    Kind::Robertson,
];
pub const ANY: [Kind; 10] = [
    Kind::Linear,
    Kind::PolyT,
    Kind::Nonlin,
    Kind::VdP,
    Kind::StiffLin,
    Kind::Logistic,
    Kind::Rotation,
    Kind::Robertson,
    Kind::Jump,
    Kind::Jump,
];
pub const FAULTY: [Kind; 4] = [Kind::NanAfter, Kind::InfAfter, Kind::BlowUp, Kind::NanNeg];

impl Problem {
    pub fn gen(r: &mut Rng, kind: Kind, maxn: usize) -> Problem {
        let n = match kind {
            Kind::VdP => 2,
            Kind::Robertson => 3,
            _ => 1 + r.below(maxn),
        };
        let amp = r.pick(&[0.3, 1.0, 3.0]);
        let a = (0..n * n).map(|_| amp * r.range(-1.0, 1.0)).collect();
        let b = (0..n).map(|_| r.range(-1.0, 1.0)).collect();
        let c = (0..5 * n).map(|_| r.range(-1.0, 1.0)).collect();
        let w = match kind {
            Kind::VdP => r.logu(0.5, 50.0),
            Kind::StiffLin => r.logu(1.0, 1e4),
            Kind::Rotation => r.logu(1.0, 40.0),
            _ => r.range(0.5, 6.0),
        };
        let tc = r.range(0.1, 0.8);
        Problem { kind, n, a, b, c, w, tc }
    }
    /// Initial state suited to the problem.
    pub fn init(&self, r: &mut Rng) -> Vec<f64> {
        match self.kind {
            Kind::Robertson => vec![1.0, 0.0, 0.0],
            Kind::Logistic => (0..self.n).map(|_| r.range(0.05, 1.5)).collect(),
            Kind::BlowUp => (0..self.n).map(|_| r.range(1.0, 3.0)).collect(),
            Kind::NanNeg => (0..self.n).map(|_| r.range(0.5, 2.0)).collect(),
            _ => {
                let m = r.pick(&[1.0, 1.0, 10.0]);
                (0..self.n).map(|_| m * r.range(-1.0, 1.0)).collect()
            }
        }
    }
    /// tt: time relative to the start of the span, measured along the direction of integration.
    pub fn eval(&self, t: f64, u: &[f64], p: &Pars, du: &mut [f64]) {
        let n = self.n;
        for i in 0..n {
            let v = match self.kind {
                Kind::Linear => {
                    let mut s = self.b[i] + self.c[i] * t;
                    for j in 0..n {
                        s += self.a[i * n + j] * u[j];
                    }
                    s
                }
                Kind::PolyT => {
                    let mut s = 0.0;
                    for q in (0..5).rev() {
                        s = s * t + self.c[5 * i + q];
                    }
                    s
                }
                Kind::Nonlin => {
                    self.b[i] * u[(i + 1) % n].sin() - self.c[i].abs() * u[i]
                        + self.c[n + i] * (self.w * t).cos()
                }
                Kind::VdP => {
                    if i == 0 {
                        u[1]
                    } else {
                        self.w * (1.0 - u[0] * u[0]) * u[1] - u[0]
                    }
                }
                Kind::StiffLin => -self.w * (1.0 + i as f64) * (u[i] - t.cos()),
                Kind::Jump => {
                    let s = if (self.w * t + self.c[0]).sin() >= 0.0 { 3.0 } else { -3.0 };
                    s * (1.0 + self.b[i]) - u[i]
                }
                Kind::NanAfter => {
                    if t.abs() > self.tc {
                        f64::NAN
                    } else {
                        self.b[i] - u[i]
                    }
                }
                Kind::InfAfter => {
                    if t.abs() > self.tc {
                        f64::INFINITY
                    } else {
                        self.b[i] - u[i]
                    }
                }
                Kind::Robertson => match i {
                    0 => -0.04 * u[0] + 1e4 * u[1] * u[2],
                    1 => 0.04 * u[0] - 1e4 * u[1] * u[2] - 3e7 * u[1] * u[1],
                    _ => 3e7 * u[1] * u[1],
                },
                Kind::Logistic => (1.0 + self.c[i].abs()) * u[i] * (1.0 - u[i]),
                Kind::Rotation => {
                    if n % 2 == 1 && i == n - 1 {
                        -u[i]
                    } else if i % 2 == 0 {
                        self.w * u[i + 1]
                    } else {
                        -self.w * u[i - 1]
                    }
                }
                Kind::BlowUp => u[i] * u[i],
                Kind::NanNeg => -(u[i]).sqrt() - 1.0,
            };
            du[i] = p.scale * v;
        }
    }
    /// Analytic Jacobian, row-major: j[i*n+k] = d f_i / d u_k.
    pub fn jac(&self, _t: f64, u: &[f64], p: &Pars, j: &mut [f64]) {
        let n = self.n;
        for x in j.iter_mut() {
            *x = 0.0;
        }
        for i in 0..n {
            match self.kind {
                Kind::Linear => {
                    for k in 0..n {
                        j[i * n + k] = self.a[i * n + k];
                    }
                }
                Kind::PolyT => {}
                Kind::Nonlin => {
                    j[i * n + (i + 1) % n] += self.b[i] * u[(i + 1) % n].cos();
                    j[i * n + i] -= self.c[i].abs();
                }
                Kind::VdP => {
                    if i == 0 {
                        j[1] = 1.0;
                    } else {
                        j[2] = -2.0 * self.w * u[0] * u[1] - 1.0;
                        j[3] = self.w * (1.0 - u[0] * u[0]);
                    }
                }
                Kind::StiffLin => j[i * n + i] = -self.w * (1.0 + i as f64),
                Kind::Jump | Kind::NanAfter | Kind::InfAfter => j[i * n + i] = -1.0,
                Kind::Robertson => match i {
                    0 => {
                        j[0] = -0.04;
                        j[1] = 1e4 * u[2];
                        j[2] = 1e4 * u[1];
                    }
                    1 => {
                        j[3] = 0.04;
                        j[4] = -1e4 * u[2] - 6e7 * u[1];
                        j[5] = -1e4 * u[1];
                    }
                    _ => j[7] = 6e7 * u[1],
                },
                Kind::Logistic => {
                    j[i * n + i] = (1.0 + self.c[i].abs()) * (1.0 - 2.0 * u[i]);
                }
                Kind::Rotation => {
                    if n % 2 == 1 && i == n - 1 {
                        j[i * n + i] = -1.0;
                    } else if i % 2 == 0 {
                        j[i * n + i + 1] = self.w;
                    } else {
                        j[i * n + i - 1] = -self.w;
                    }
                }
                Kind::BlowUp => j[i * n + i] = 2.0 * u[i],
                Kind::NanNeg => j[i * n + i] = -0.5 / u[i].sqrt(),
            }
        }
        for x in j.iter_mut() {
            *x *= p.scale;
        }
    }
    pub fn is_linear(&self) -> bool {
        matches!(
            self.kind,
            Kind::Linear | Kind::PolyT | Kind::StiffLin | Kind::Rotation
        )
    }
}
