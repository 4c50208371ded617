//! Runtime monitors for up4: runs the real code on generated workloads and checks every
//! observation against an independent reference.  See /verif/DESIGN.md.
mod checks;
mod data;
mod geo;
#[cfg(feature = "data")]
mod h5;
mod rec;
mod rng;

use rec::{json, Case, Fail, Totals, R};
use std::cell::RefCell;
use std::sync::atomic::{AtomicU64, Ordering};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::Instant;

thread_local! {
    static PANIC: RefCell<Option<(String, String)>> = RefCell::new(None);
}

fn arg(args: &[String], name: &str) -> Option<String> {
    args.iter().position(|a| a == name).and_then(|i| args.get(i + 1).cloned())
}

pub struct Spec {
    pub id: &'static str,
    pub run: fn(&mut Case) -> R,
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    /// minimum share of cases that must be non-trivial, and events that must have been seen,
    /// for the run to count as having observed anything
    pub must_see: &'static [&'static str],
}

enum Outcome {
    Ok,
    Violation(Fail),
    Harness(String),
}

fn run_case(spec: &Spec, seed: u64, idx: u64, thorough: bool, tot: &mut Totals) -> (Outcome, String) {
    let mut case = Case {
        rng: rng::Rng::new(seed, spec.id, idx),
        idx,
        tier_thorough: thorough,
        desc: String::new(),
        nontrivial: false,
        tot,
    };
    PANIC.with(|p| *p.borrow_mut() = None);
    let res = catch_unwind(AssertUnwindSafe(|| (spec.run)(&mut case)));
    let desc = std::mem::take(&mut case.desc);
    let nontrivial = case.nontrivial;
    let h = rec::hash(&desc);
    tot.evaluations += 1;
    tot.distinct.insert(h);
    if nontrivial && tot.nontrivial.insert(h) && tot.samples.len() < 3 && desc.len() < 3000 {
        tot.samples.push(desc.clone());
    }
    let out = match res {
        Ok(Ok(())) => Outcome::Ok,
        Ok(Err(f)) => Outcome::Violation(f),
        Err(_) => {
            let (msg, loc) = PANIC
                .with(|p| p.borrow_mut().take())
                .unwrap_or(("panic".into(), "?".into()));
            if (loc.starts_with("src/") || loc.contains("harness/src/") || loc.contains("/stubs/")) && !msg.starts_with("MONITOR") {
                Outcome::Harness(format!("{msg} at {loc}"))
            } else {
                Outcome::Violation(Fail {
                    key: format!("{}:panic", spec.id),
                    msg: format!("the code under test panicked: {msg} at {loc}"),
                })
            }
        }
    };
    (out, desc)
}

static CASE: AtomicU64 = AtomicU64::new(0);
static CASE_START: AtomicU64 = AtomicU64::new(u64::MAX);
static CASE_CPU: AtomicU64 = AtomicU64::new(0);
/// a case takes milliseconds, the longest ones seconds; one still running after this much processor time does not
/// terminate (processor time: a busy machine must not look like a hang)
const HANG_SECS: u64 = 120;
/// nor does one that waits this long (a deadlock uses no processor time)
const WAIT_SECS: u64 = 500;

fn start_secs() -> u64 {
    std::time::SystemTime::now()
        .duration_since(std::time::UNIX_EPOCH)
        .map(|d| d.as_secs())
        .unwrap_or(0)
}

fn cpu_secs() -> u64 {
    extern "C" {
        fn clock() -> std::os::raw::c_long;
    }
    (unsafe { clock() }.max(0) / 1_000_000) as u64
}

/// Termination monitor: reports the running case when it exceeds HANG_SECS or WAIT_SECS.
fn watchdog(id: &'static str, seed: u64, tier: &str) {
    let tier = tier.to_string();
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_secs(1));
        let began = CASE_START.load(Ordering::Relaxed);
        let cpu = CASE_CPU.load(Ordering::Relaxed);
        if began != u64::MAX && (cpu_secs() > cpu + HANG_SECS || start_secs() > began.saturating_add(WAIT_SECS)) {
            let i = CASE.load(Ordering::Relaxed);
            let path = format!("replays/{id}-seed{seed}-case{i}.json");
            let _ = std::fs::create_dir_all("replays");
            let _ = std::fs::write(&path, format!(
                "{{\n \"property\": {}, \"seed\": {}, \"tier\": {}, \"case\": {},\n \"replay\": {},\n \"observed\": \"did not terminate within {} s of processor time\"\n}}\n",
                json(id), seed, json(&tier), i,
                json(&format!("VERIF_SEED={seed} VERIF_TIER={tier} ./run.sh {id} --case {i}")), HANG_SECS));
            println!("case {i}: {id}:hang -- did not terminate within {HANG_SECS} s of processor time");
            println!("VIOLATION property={id} replay={path}");
            std::process::exit(1);
        }
    });
}

/// (property, key) of recorded, unrepaired findings
fn known_findings() -> Vec<(String, String)> {
    let text = std::fs::read_to_string("known_findings.txt").unwrap_or_default();
    text.lines()
        .filter_map(|l| {
            let l = l.trim();
            let rest = l.strip_prefix("known: property=")?;
            let mut w = rest.split_whitespace();
            let p = w.next()?.to_string();
            let k = w.next()?.strip_prefix("key=")?.to_string();
            Some((p, k))
        })
        .collect()
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let id = args.get(1).cloned().unwrap_or_default();
    let seed: u64 = arg(&args, "--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = arg(&args, "--tier").unwrap_or("quick".into());
    let thorough = tier == "thorough";
    let specs = checks::all();
    let spec = match specs.iter().find(|s| s.id == id) {
        Some(s) => s,
        None => {
            eprintln!("no check {id}");
            std::process::exit(2);
        }
    };
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = Some((msg, loc)));
    }));
    let start = Instant::now();
    let mut tot = Totals::default();
    let one: Option<u64> = arg(&args, "--case").and_then(|s| s.parse().ok());
    let cases: u64 = arg(&args, "--cases")
        .and_then(|s| s.parse().ok())
        .unwrap_or(if thorough { spec.thorough } else { spec.quick });
    let range = match one {
        Some(i) => i..i + 1,
        None => 0..cases,
    };
    let known = known_findings();
    let mut known_seen: std::collections::BTreeMap<String, (u64, String)> = Default::default();
    let mut violation: Option<(u64, Fail, String)> = None;
    let limit = if thorough { 600.0 } else { 240.0 };
    watchdog(spec.id, seed, &tier);
    let mut truncated = false;
    for i in range {
        CASE.store(i, Ordering::Relaxed);
        CASE_CPU.store(cpu_secs(), Ordering::Relaxed);
        CASE_START.store(start_secs(), Ordering::Relaxed);
        let (out, desc) = run_case(spec, seed, i, thorough, &mut tot);
        match out {
            Outcome::Ok => {}
            Outcome::Violation(f) => {
                if known.iter().any(|(p, k)| p == spec.id && *k == f.key) {
                    let e = known_seen.entry(f.key.clone()).or_insert((0, f.msg.clone()));
                    e.0 += 1;
                } else {
                    violation = Some((i, f, desc));
                    break;
                }
            }
            Outcome::Harness(m) => {
                eprintln!("HARNESS ERROR in case {i}: {m}\n{desc}");
                std::process::exit(2);
            }
        }
        if start.elapsed().as_secs_f64() > limit {
            truncated = true;
            break;
        }
    }
    CASE_START.store(u64::MAX, Ordering::Relaxed);
    let wall = start.elapsed().as_secs_f64();
    if one.is_none() {
        let counters = tot
            .counters
            .iter()
            .map(|(k, v)| format!("{}: {}", json(k), v))
            .collect::<Vec<_>>()
            .join(", ");
        let samples = tot
            .samples
            .iter()
            .map(|s| json(s))
            .collect::<Vec<_>>()
            .join(",\n   ");
        let assumptions = spec.assumptions.iter().map(|s| json(s)).collect::<Vec<_>>().join(", ");
        let ev = format!(
            "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"distinct\": {},\n  \"rule\": {},\n  \"observed\": {{{}}},\n  \"stopped_by_time_limit\": {},\n  \"exhaustive\": false,\n  \"samples\": [\n   {}\n  ]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
            json(spec.id), json(&tier), seed, tot.evaluations, tot.nontrivial.len(), tot.distinct.len(),
            json(spec.rule), counters, truncated, samples, assumptions, wall,
            violation.is_some() as u32,
        );
        let _ = std::fs::create_dir_all("evidence");
        if let Err(e) = std::fs::write(format!("evidence/{}.json", spec.id), ev) {
            eprintln!("cannot write evidence: {e}");
            std::process::exit(2);
        }
    }
    for (k, (n, m)) in &known_seen {
        println!("KNOWN-FINDING: property={} {} ({} cases) {}", spec.id, k, n, m);
    }
    if let Some((i, f, desc)) = violation {
        let path = format!("replays/{}-seed{}-case{}.json", spec.id, seed, i);
        let _ = std::fs::create_dir_all("replays");
        let _ = std::fs::write(
            &path,
            format!(
                "{{\n \"property\": {}, \"seed\": {}, \"tier\": {}, \"case\": {},\n \"replay\": {},\n \"key\": {},\n \"observed\": {},\n \"input\": {}\n}}\n",
                json(spec.id), seed, json(&tier), i,
                json(&format!("VERIF_SEED={} VERIF_TIER={} ./run.sh {} --case {}", seed, tier, spec.id, i)),
                json(&f.key), json(&f.msg), json(&desc)
            ),
        );
        println!("case {}: {} -- {}", i, f.key, f.msg);
        println!("VIOLATION property={} replay={}", spec.id, path);
        std::process::exit(1);
    }
    if one.is_none() {
        for m in spec.must_see {
            if tot.counters.get(*m).copied().unwrap_or(0) == 0 {
                eprintln!("the workload never produced {m:?}: nothing was observed for it");
                std::process::exit(2);
            }
        }
    }
    println!(
        "{}: held on {} cases ({} distinct, {} non-trivial) in {:.1} s{}",
        spec.id, tot.evaluations, tot.distinct.len(), tot.nontrivial.len(), wall,
        if truncated { " (time limit)" } else { "" }
    );
}
