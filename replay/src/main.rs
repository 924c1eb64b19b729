//! Evaluate the executable form of the contracts on the real crate.
//! usage: replay run <PROP> <seed> <seconds> <max-cases> <out.json> [from-case]
//!        replay one <PROP> <seed> <group> <case>
mod case;
mod ctx;
mod dp5;
mod lin;
mod other;
mod problems;
mod radau;
mod rng;
mod run;

use ctx::*;
use rng::Rng;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::Ordering;

fn groups(prop: &str) -> &'static [&'static str] {
    match prop {
        "C01" | "C02" | "C03" | "C04" => &["lin"],
        "C10" => &["integ", "integ", "integ", "estimate"],
        "C13" => &["jac", "jac", "jac", "integ"],
        "C14" => &["builder", "builder", "builder", "integ"],
        "C15" => &["iter"],
        "C18" => &["robust", "robust", "robust-lin", "integ"],
        _ => &["integ"],
    }
}

fn case_rng(prop: &str, seed: u64, group: &str, case: u64) -> Rng {
    let mut h = seed.wrapping_mul(0x2545F4914F6CDD1D) ^ case.wrapping_mul(0xD6E8FEB86659FD93);
    for b in prop.bytes().chain(group.bytes()) {
        h = (h ^ b as u64).wrapping_mul(0x100000001B3);
    }
    Rng::new(h)
}

fn do_case(ctx: &mut Ctx, seed: u64, group: &str, case: u64) {
    let prop = ctx.prop.clone();
    let mut r = case_rng(&prop, seed, group, case);
    match group {
        "lin" => other::lin(ctx, &mut r, case),
        "jac" => other::jac(ctx, &mut r, case),
        "builder" => other::builder(ctx, &mut r, case),
        "iter" => other::iter(ctx, &mut r, case),
        "robust" => {
            let c = other::gen_extreme(&mut r);
            ctx.begin("robust", case, c.describe());
            other::robust(ctx, &c);
        }
        "estimate" => dp5::estimate(ctx, &mut r, case),
        "robust-lin" => other::robust_lin(ctx, &mut r, case),
        _ => {
            let c = run::gen(&mut r, &prop);
            ctx.begin("integ", case, c.describe());
            run::run_case(ctx, &c);
        }
    }
}

fn guarded(ctx: &mut Ctx, seed: u64, group: &str, case: u64) {
    let before = ctx.fails.len();
    let res = catch_unwind(AssertUnwindSafe(|| do_case(ctx, seed, group, case)));
    CASE_START.store(0, Ordering::SeqCst);
    if let Err(e) = res {
        let msg = if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else {
            "panic".to_string()
        };
        if msg.contains(case::BUDGET) {
            if ctx.wants("C07") {
                ctx.fail("integration does not stop: evaluation budget exceeded".into());
            } else {
                ctx.skipped += 1;
            }
        } else if matches!(ctx.prop.as_str(), "C01" | "C02" | "C03" | "C04" | "C07" | "C12" | "C13" | "C14" | "C15" | "C18") {
            ctx.evals += 1;
            ctx.fail(format!("panicked: {}", msg));
        } else {
            ctx.skipped += 1;
        }
    }
    if ctx.fails.len() > before {
        for f in &mut ctx.fails[before..] {
            f.case = case;
        }
    }
}

fn report(ctx: &Ctx, seed: u64, next: u64, secs: f64, hang: Option<u64>) -> String {
    let mut s = String::new();
    s.push_str(&format!(
        "{{\"property\":\"{}\",\"seed\":{},\"cases\":{},\"evaluations\":{},\"nontrivial\":{},\"skipped\":{},\"next\":{},\"seconds\":{:.2},\"nfail\":{},\"hang\":{},\"failures\":[",
        ctx.prop, seed, ctx.cases, ctx.evals, ctx.nontrivial, ctx.skipped, next, secs, ctx.fails.len(),
        hang.map_or("null".to_string(), |h| h.to_string())
    ));
    let fs: Vec<String> = ctx
        .fails
        .iter()
        .filter(|f| !f.msg.is_empty())
        .map(|f| {
            format!(
                "{{\"group\":\"{}\",\"case\":{},\"message\":\"{}\",\"input\":\"{}\"}}",
                f.group, f.case, esc(&f.msg), esc(&f.desc)
            )
        })
        .collect();
    s.push_str(&fs.join(","));
    s.push_str("],\"samples\":[");
    let ss: Vec<String> = ctx.samples.iter().map(|x| format!("\"{}\"", esc(&x.chars().take(600).collect::<String>()))).collect();
    s.push_str(&ss.join(","));
    s.push_str("]}\n");
    s
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    let mode = a[1].as_str();
    let prop = a[2].clone();
    let seed: u64 = a[3].parse().unwrap();
    if mode == "one" {
        let mut ctx = Ctx::new(&prop);
        let case: u64 = a[5].parse().unwrap();
        guarded(&mut ctx, seed, &a[4], case);
        println!("{}", ctx.desc);
        for f in &ctx.fails {
            println!("FAIL {}", f.msg);
        }
        println!("{} evaluations, {} failures", ctx.evals, ctx.fails.len());
        std::process::exit(if ctx.fails.is_empty() { 0 } else { 1 });
    }
    let secs: f64 = a[4].parse().unwrap();
    let maxc: u64 = a[5].parse().unwrap();
    let out = a[6].clone();
    let from: u64 = a.get(7).map_or(0, |x| x.parse().unwrap());
    let limit: u64 = std::env::var("VERIF_CASE_MS").ok().and_then(|x| x.parse().ok()).unwrap_or(30_000);
    {
        // watchdog for cases that never come back
        let (p2, o2) = (prop.clone(), out.clone());
        std::thread::spawn(move || loop {
            std::thread::sleep(std::time::Duration::from_millis(200));
            let st = CASE_START.load(Ordering::SeqCst);
            if st != 0 && now_ms() > st + limit {
                let id = CASE_ID.load(Ordering::SeqCst);
                let mut f = std::fs::File::create(&o2).unwrap();
                let _ = write!(
                    f,
                    "{{\"property\":\"{}\",\"seed\":{},\"cases\":{},\"evaluations\":0,\"nontrivial\":0,\"skipped\":0,\"next\":{},\"seconds\":0,\"nfail\":0,\"hang\":{},\"failures\":[],\"samples\":[]}}\n",
                    p2, seed, id + 1 - from, id + 1, id
                );
                std::process::exit(3);
            }
        });
    }
    let start = std::time::Instant::now();
    let mut ctx = Ctx::new(&prop);
    let gs = groups(&prop);
    let mut k = from;
    while k < maxc && start.elapsed().as_secs_f64() < secs && ctx.fails.len() < 8 {
        guarded(&mut ctx, seed, gs[(k % gs.len() as u64) as usize], k);
        k += 1;
    }
    let s = report(&ctx, seed, k, start.elapsed().as_secs_f64(), None);
    std::fs::write(&out, s).unwrap();
    std::process::exit(if ctx.fails.is_empty() { 0 } else { 1 });
}
