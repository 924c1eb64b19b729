//! Bookkeeping of executable contract checks.
use std::cell::RefCell;
use std::sync::atomic::{AtomicU64, Ordering};

pub static CASE_START: AtomicU64 = AtomicU64::new(0);
pub static CASE_ID: AtomicU64 = AtomicU64::new(0);

pub fn now_ms() -> u64 {
    std::time::SystemTime::now()
        .duration_since(std::time::UNIX_EPOCH)
        .unwrap()
        .as_millis() as u64
}

#[derive(Clone, Debug)]
pub struct Failure {
    pub case: u64,
    pub group: String,
    pub msg: String,
    pub desc: String,
}

pub struct Ctx {
    pub prop: String,
    pub evals: u64,
    pub cases: u64,
    pub nontrivial: u64,
    pub skipped: u64,
    pub fails: Vec<Failure>,
    pub samples: Vec<String>,
    pub case: u64,
    pub group: String,
    pub desc: String,
}

impl Ctx {
    pub fn new(prop: &str) -> Ctx {
        Ctx {
            prop: prop.to_string(),
            evals: 0,
            cases: 0,
            nontrivial: 0,
            skipped: 0,
            fails: vec![],
            samples: vec![],
            case: 0,
            group: String::new(),
            desc: String::new(),
        }
    }
    pub fn begin(&mut self, group: &str, case: u64, desc: String) {
        self.group = group.to_string();
        self.case = case;
        if self.samples.len() < 3 && case % 7 == 3 || self.samples.is_empty() {
            self.samples.push(format!("{} case {}: {}", group, case, desc));
        }
        self.desc = desc;
        self.cases += 1;
        CASE_ID.store(case, Ordering::SeqCst);
        CASE_START.store(now_ms(), Ordering::SeqCst);
    }
    pub fn wants(&self, p: &str) -> bool {
        self.prop == p
    }
    /// Evaluate one executable postcondition for the listed properties.
    pub fn check<F: FnOnce() -> String>(&mut self, props: &[&str], ok: bool, msg: F) -> bool {
        if props.iter().any(|p| *p == self.prop) {
            self.evals += 1;
            if !ok {
                self.fail(msg());
            }
        }
        ok
    }
    pub fn fail(&mut self, msg: String) {
        if self.fails.len() < 8 {
            self.fails.push(Failure {
                case: self.case,
                group: self.group.clone(),
                msg,
                desc: self.desc.clone(),
            });
        } else {
            self.fails.push(Failure {
                case: self.case,
                group: String::new(),
                msg: String::new(),
                desc: String::new(),
            });
        }
    }
}

thread_local! {
    pub static QUIET: RefCell<bool> = RefCell::new(true);
}

pub fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o
}

/// a and b agree to `tol` absolutely, or are both NaN, or are equal infinities.
pub fn close(a: f64, b: f64, tol: f64) -> bool {
    if a.is_nan() || b.is_nan() {
        return a.is_nan() && b.is_nan();
    }
    if a.is_infinite() || b.is_infinite() {
        return a == b;
    }
    (a - b).abs() <= tol
}
