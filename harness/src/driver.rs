//! CLI: `refmon check <ID>`, `refmon replay <file>`, `refmon list`.
use crate::checks;
use crate::report::Report;
use crate::util::*;
use crate::world::{Codes, ViewFail};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub struct Env<'a> { pub codes: &'a Codes, pub tier: &'a str, pub story: &'a mut Vec<String>, pub rep: &'a mut Report, pub known: &'a Known }

/// Recorded findings: a violation whose signature is listed is reported as KNOWN-FINDING and does not fail the check.
#[derive(Default)]
pub struct Known { pub sigs: BTreeMap<String, String> }
impl Known {
    pub fn load(prop: &str) -> Known {
        let mut k = Known::default();
        if let Ok(s) = std::fs::read_to_string("/verif/known-findings.jsonl") {
            for l in s.lines().filter(|l| !l.trim().is_empty()) {
                let v: Value = serde_json::from_str(l).expect("known-findings.jsonl");
                if v["property"] == json!(prop) && v["status"] == json!("known") { k.sigs.insert(v["signature"].as_str().unwrap().into(), v["what"].as_str().unwrap().into()); }
            }
        }
        k
    }
    pub fn has(&self, sig: &str) -> bool { self.sigs.contains_key(sig) }
}

enum Out { Ok, Violation(String, Vec<String>), Setup(String), Crash(String) }

fn one(c: &checks::Check, codes: &Codes, tier: &str, seed: u64, ep: u64, rep: &mut Report, known: &Known) -> Out {
    let mut story = vec![];
    let r = catch_unwind(AssertUnwindSafe(|| {
        let rng = Rng::new(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ ep.wrapping_mul(0xD1B54A32D192ED03) ^ hash64(c.id.as_bytes()));
        let mut env = Env { codes, tier, story: &mut story, rep, known };
        (c.f)(&mut env, rng, ep)
    }));
    match r {
        Ok(Ok(())) => Out::Ok,
        Ok(Err(m)) => Out::Violation(m, story),
        Err(p) => {
            if let Some(v) = p.downcast_ref::<ViewFail>() { return Out::Violation(v.0.clone(), story); }
            let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_else(|| "panic".into());
            if m.starts_with("setup:") { Out::Setup(m) } else { Out::Crash(m) }
        }
    }
}

fn load() -> Codes {
    let dir = std::env::var("REFMON_WASM").unwrap_or_else(|_| "/verif/.build/wasm-out".into());
    let f = |n: &str| { let b = std::fs::read(format!("{}/{}", dir, n)).unwrap_or_else(|e| { eprintln!("{}/{}: {}", dir, n, e); std::process::exit(3) }); (crate::vm::cached(&b).expect("compile"), Arc::new(b)) };
    let ((ex, ex_bytes), (farm, farm_bytes)) = (f("ref_exchange.wasm"), f("ref_farming.wasm"));
    Codes { ex, farm, ex_bytes, farm_bytes }
}

pub fn main() {
    std::panic::set_hook(Box::new(|i| { if std::env::var("REFMON_DEBUG").is_ok() { eprintln!("{}", i); } }));
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("list") => for c in checks::all() { println!("{}", c.id); },
        Some("check") => std::process::exit(check(&a[2])),
        Some("replay") => std::process::exit(replay(&a[2])),
        _ => { eprintln!("usage: refmon check <ID> | replay <file> | list"); std::process::exit(3) }
    }
}

fn replay(path: &str) -> i32 {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(path).expect("replay file")).expect("json");
    let id = v["property"].as_str().unwrap();
    let c = checks::all().into_iter().find(|c| c.id == id).expect("property");
    let codes = load();
    let mut rep = Report::default();
    let known = Known::default();
    match one(&c, &codes, v["tier"].as_str().unwrap_or("quick"), v["seed"].as_u64().unwrap(), v["episode"].as_u64().unwrap(), &mut rep, &known) {
        Out::Violation(m, story) => { for l in story { println!("{}", l); } println!("VIOLATION property={} replay={}\n{}", id, path, m); 1 }
        Out::Ok => { println!("no violation on replay"); 0 }
        Out::Setup(m) | Out::Crash(m) => { println!("inconclusive: {}", m); 2 }
    }
}

fn check(id: &str) -> i32 {
    let t0 = Instant::now();
    let c = match checks::all().into_iter().find(|c| c.id == id) { Some(c) => c, None => { eprintln!("unknown property {}", id); return 3; } };
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let tier = if tier == "thorough" { "thorough" } else { "quick" };
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let secs: u64 = std::env::var("REFMON_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(if tier == "thorough" { 600 } else { c.quick_secs });
    let threads: usize = std::env::var("REFMON_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    let codes = load();
    let known = Known::load(id);
    let next = AtomicU64::new(std::env::var("REFMON_EP").ok().and_then(|s| s.parse().ok()).unwrap_or(0));
    let stop = AtomicBool::new(false);
    let total = Mutex::new(Report::default());
    let viol: Mutex<Option<(u64, String, Vec<String>)>> = Mutex::new(None);
    let setup = Mutex::new((0u64, String::new()));
    let crash: Mutex<Option<(u64, String)>> = Mutex::new(None);
    let episodes = AtomicU64::new(0);
    let deadline = t0 + Duration::from_secs(secs);
    std::thread::scope(|sc| {
        for _ in 0..threads {
            sc.spawn(|| {
                let mut rep = Report::default();
                loop {
                    if stop.load(Ordering::Relaxed) || Instant::now() >= deadline { break; }
                    let ep = next.fetch_add(1, Ordering::Relaxed);
                    match one(&c, &codes, tier, seed, ep, &mut rep, &known) {
                        Out::Ok => { episodes.fetch_add(1, Ordering::Relaxed); }
                        Out::Violation(m, st) => { let mut v = viol.lock().unwrap(); if v.as_ref().map_or(true, |x| ep < x.0) { *v = Some((ep, m, st)); } stop.store(true, Ordering::Relaxed); }
                        Out::Setup(m) => { let mut s = setup.lock().unwrap(); s.0 += 1; s.1 = m; }
                        Out::Crash(m) => { *crash.lock().unwrap() = Some((ep, m)); stop.store(true, Ordering::Relaxed); }
                    }
                }
                total.lock().unwrap().merge(rep);
            });
        }
    });
    let rep = total.into_inner().unwrap();
    let viol = viol.into_inner().unwrap();
    let setup = setup.into_inner().unwrap();
    let crash = crash.into_inner().unwrap();
    let eps = episodes.load(Ordering::Relaxed);
    let ev = json!({
        "property": id, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": { "evaluations": rep.evals, "distinct_nontrivial": rep.distinct.len(), "rule": c.rule, "samples": rep.samples, "episodes": eps, "oracle_counts": rep.counters, "episodes_with_rejected_setup": setup.0, "known_findings_seen": rep.known },
        "assumptions": checks::ASSUMPTIONS, "wall_s": t0.elapsed().as_secs_f64(), "violations": if viol.is_some() { 1 } else { 0 }
    });
    let _ = std::fs::create_dir_all("/verif/evidence");
    if let Err(e) = std::fs::write(format!("/verif/evidence/{}.json", id), serde_json::to_string_pretty(&ev).unwrap()) { eprintln!("evidence: {}", e); return 3; }
    for (sig, what) in &known.sigs { println!("KNOWN-FINDING: property={} {}", id, what); if rep.known.get(sig).is_none() { println!("  (not re-observed in this run: {})", sig); } }
    println!("{}: {} episodes, {} evaluations, {} distinct, {:.1}s", id, eps, rep.evals, rep.distinct.len(), t0.elapsed().as_secs_f64());
    for (k, v) in &rep.counters { println!("   {:<44} {}", k, v); }
    if setup.0 > 0 { println!("   rejected setups: {} ({})", setup.0, setup.1); }
    if let Some((ep, m, st)) = viol {
        let _ = std::fs::create_dir_all("/verif/replay");
        let p = format!("/verif/replay/{}-s{}-e{}.json", id, seed, ep);
        let _ = std::fs::write(&p, serde_json::to_string_pretty(&json!({"property":id,"tier":tier,"seed":seed,"episode":ep,"message":m,"trace":st})).unwrap());
        println!("{}", m);
        println!("VIOLATION property={} replay={}", id, p);
        return 1;
    }
    if let Some((ep, m)) = crash { println!("harness error in episode {}: {}", ep, m); return 2; }
    if eps == 0 || setup.0 > eps { println!("inconclusive: setup rejected in most episodes"); return 2; }
    if (rep.evals as u64) < c.min_evals / 3 { println!("inconclusive: only {} evaluations", rep.evals); return 2; }
    0
}
