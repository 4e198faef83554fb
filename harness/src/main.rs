//! Bounded companion of the proofs: replays histories on the real crate and on a map model.
//!
//! harness run SECONDS SEED PROPS   explore; prints `FOUND <props> <scenario> <detail>`
//! harness replay SCENARIO          repeat one scenario verbosely
mod bundles;
mod comps;
mod diff;
mod layouts;
mod model;
mod other;
mod queries;

use model::Rng;
use std::sync::atomic::{AtomicBool, Ordering::Relaxed};
use std::sync::Mutex;
use std::time::{Duration, Instant};

static VERBOSE: AtomicBool = AtomicBool::new(false);
static PHASE: Mutex<(Vec<&'static str>, String)> = Mutex::new((Vec::new(), String::new()));
static PANIC: Mutex<(String, String)> = Mutex::new((String::new(), String::new()));
static WHERE: Mutex<Vec<&'static str>> = Mutex::new(Vec::new());

pub fn phase(tags: &[&'static str], what: &str) {
    let mut p = PHASE.lock().unwrap_or_else(|e| e.into_inner());
    if p.0 != tags {
        p.0 = tags.to_vec();
    }
    if VERBOSE.load(Relaxed) {
        println!("PHASE {} {what}", tags.join(","));
    }
}
pub fn phase_tags() -> Vec<&'static str> {
    PHASE.lock().unwrap_or_else(|e| e.into_inner()).0.clone()
}
pub fn trace(s: &str) {
    if VERBOSE.load(Relaxed) {
        println!("  {s}");
    }
}
pub fn panic_msg() -> String {
    let p = PANIC.lock().unwrap_or_else(|e| e.into_inner());
    format!("{} at {}", p.1.lines().next().unwrap_or(""), p.0)
}
/// The properties whose code the last panic passed through.
pub fn panic_tags() -> Vec<&'static str> {
    WHERE.lock().unwrap_or_else(|e| e.into_inner()).clone()
}
fn tags_of(location: &str, trace: &str) -> Vec<&'static str> {
    let mut v = vec![];
    for f in std::iter::once(location).chain(trace.lines()) {
        if f.contains("storage_mask") || f.contains("group_mask") {
            v.extend(["L01", "G01"]);
        } else if f.contains("component::group::") || f.contains("component/group") {
            v.push("G01");
        } else if f.contains("entity::entity_") || f.contains("entity/entity_") {
            v.extend(["E02", "E03"]);
        }
    }
    v.sort();
    v.dedup();
    v
}
pub fn canon(k: usize, v: u64) -> u64 {
    use comps::Comp;
    with_comp!(k, C => C::canon(v))
}

pub struct Found {
    pub tags: Vec<&'static str>,
    pub detail: String,
}

fn scenario(kind: &str, seed: u64) -> (usize, Vec<queries::Fail>) {
    comps::reset_tracking();
    let mut rng = Rng(seed ^ 0x5AC5_E11A_0000_0000);
    rng.next();
    match kind {
        "diff" => {
            let steps = 10 + rng.below(70);
            let target = *rng.pick(&[3, 6, 12, 30]);
            let mut d = diff::Diff::new(rng);
            let mut n = 0;
            for i in 0..steps {
                n += 1;
                if !d.step(target) {
                    break;
                }
                if i % 8 == 7 {
                    d.query_all(false, Some(8));
                }
                if !d.fails.is_empty() {
                    break;
                }
            }
            // lookups through a view may be wrong while the world is right: then the queries are asked all the same
            if d.fails.iter().all(|(t, _)| t.iter().all(|p| matches!(*p, "E05" | "C01" | "C02" | "G02"))) {
                d.query_all(seed % 4 == 0, None);
            }
            (n, d.finish())
        }
        "big" => {
            let mut d = diff::Diff::new(rng);
            let mut n = 0;
            for _ in 0..120 {
                n += 1;
                if !d.step(150) {
                    break;
                }
            }
            if d.fails.is_empty() {
                d.query_all(true, None);
            }
            (n, d.finish())
        }
        "layout" => layouts::run(rng),
        "limits" => layouts::limits(rng),
        "threads" => other::threads(rng),
        "entities" => other::entities(rng),
        "order" => other::order(rng),
        "register" => other::register(rng),
        "par" => other::par(rng),
        _ => panic!("unknown scenario {kind}"),
    }
}

fn kinds(prop: &str) -> &'static [(&'static str, usize)] {
    match prop {
        "E01" | "E03" => &[("entities", 6), ("diff", 2), ("threads", 1)],
        "E02" => &[("entities", 4), ("diff", 4), ("big", 1)],
        "E04" => &[("threads", 6), ("entities", 1)],
        "E05" => &[("diff", 8), ("entities", 1), ("big", 1)],
        "O01" => &[("order", 1)],
        "L01" | "L02" => &[("layout", 6), ("limits", 1), ("diff", 1)],
        "R01" => &[("register", 4), ("diff", 4), ("layout", 1)],
        "Q05" => &[("par", 1), ("diff", 4), ("big", 1)],
        _ => &[("diff", 8), ("big", 1)],
    }
}

fn main() {
    std::panic::set_hook(Box::new(|i| {
        let mut p = PANIC.lock().unwrap_or_else(|e| e.into_inner());
        p.0 = i.location().map_or(String::new(), |l| format!("{}:{}", l.file(), l.line()));
        p.1 = i.payload().downcast_ref::<String>().cloned().or(i.payload().downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        let t = tags_of(&p.0, &std::backtrace::Backtrace::force_capture().to_string());
        if VERBOSE.load(Relaxed) {
            println!("PANIC {} {} at {}", if t.is_empty() { "-".to_string() } else { t.join(",") }, p.1, p.0);
        }
        *WHERE.lock().unwrap_or_else(|e| e.into_inner()) = t;
    }));
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(String::as_str) {
        Some("run") => {
            let secs: f64 = args[2].parse().unwrap();
            let seed: u64 = args[3].parse().unwrap();
            let prop = args[4].as_str();
            let max: usize = args.get(5).map_or(usize::MAX, |s| s.parse().unwrap());
            let ks = kinds(prop);
            let total: usize = ks.iter().map(|k| k.1).sum();
            let end = Instant::now() + Duration::from_secs_f64(secs);
            let (mut runs, mut steps, mut i) = (0usize, 0usize, 0u64);
            let mut by: std::collections::BTreeMap<&str, usize> = Default::default();
            while Instant::now() < end && runs < max {
                let mut x = (i % total as u64) as usize;
                let kind = ks.iter().find(|k| { if x < k.1 { true } else { x -= k.1; false } }).unwrap().0;
                let s = seed.wrapping_mul(1_000_003).wrapping_add(i);
                i += 1;
                println!("S {kind}:{s}");
                let (n, fails) = scenario(kind, s);
                runs += 1;
                steps += n;
                *by.entry(kind).or_default() += 1;
                for (t, d) in &fails {
                    let d: String = d.chars().take(600).collect();
                    println!("FOUND {} {kind}:{s} {d}", t.join(","));
                }
                if fails.iter().any(|(t, _)| t.contains(&prop)) {
                    break;
                }
            }
            println!("DONE runs={runs} steps={steps} {by:?}");
        }
        Some("replay") => {
            VERBOSE.store(true, Relaxed);
            let (kind, seed) = args[2].split_once(':').unwrap();
            let (_, fails) = scenario(kind, seed.parse().unwrap());
            for (t, d) in &fails {
                println!("FOUND {} {kind}:{seed} {d}", t.join(","));
            }
            println!("DONE");
            std::process::exit(i32::from(!fails.is_empty()));
        }
        _ => panic!("usage"),
    }
}
