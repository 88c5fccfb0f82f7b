mod core;
mod cv;
mod engine;
mod fresh;
mod pool;
mod gen;
mod props;
mod refmodel;
mod isect;
mod shapes;

use crate::core::*;
use engine::*;
use serde_json::{json, Value};
use std::collections::BTreeMap;

fn known_findings(root: &str) -> Vec<Value> {
    let p = format!("{root}/known_findings.json");
    match std::fs::read_to_string(&p) {
        Ok(s) => serde_json::from_str::<Value>(&s).expect("known_findings.json").as_array().cloned().unwrap_or_default(),
        Err(_) => vec![],
    }
}

fn choices_of(v: &Value) -> Vec<u64> {
    v["choices"].as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap()).collect()).unwrap_or_default()
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into());
    unsafe { sim_init() };
    install_panic_hook();
    init_shared();
    let props = props::all();
    let props: &'static [Prop] = Box::leak(props.into_boxed_slice());
    let find = |id: &str| props.iter().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("unknown property {id}");
        std::process::exit(2)
    });
    let workers = std::env::var("VERIF_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or(8u64);
    match args.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let p = find(&args[2]);
            let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
            let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            std::process::exit(check(p, seed, thorough, &root, workers));
        }
        Some("list") => {
            for p in props {
                println!("{} quick={} thorough={}", p.id, p.quick, p.thorough);
            }
        }
        Some("replay") => {
            let v: Value = serde_json::from_str(&std::fs::read_to_string(&args[2]).unwrap()).unwrap();
            let p = find(v["property"].as_str().unwrap());
            let r = run_once(p, Input::Choices(choices_of(&v)), true, v["tier_thorough"] == true);
            println!("fingerprint {} (recorded {})", r.fp, v["fingerprint"].as_str().unwrap_or("?"));
            match r.fail {
                Some(f) => {
                    println!("{}: {}", f.kind, f.msg);
                    println!("VIOLATION property={} replay={}", p.id, args[2]);
                    std::process::exit(1);
                }
                None => println!("no violation"),
            }
        }
        Some("one") => {
            // one ID INDEX: run one seed verbosely
            let p = find(&args[2]);
            let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            let r = run_once(p, Input::Seed(run_seed(seed, p.id, args[3].parse().unwrap())), true, false);
            println!("fp {} steps {} faults {:?} probes {:?} fail {:?}", r.fp, r.steps, r.faults, r.probes, r.fail);
        }
        Some("min") => {
            let p = find(&args[2]);
            let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            let r = run_once(p, Input::Seed(run_seed(seed, p.id, args[3].parse().unwrap())), false, false);
            let Some(f) = r.fail.clone() else { println!("passes"); return };
            let (m, n) = minimise(p, &r, &f.kind, false, 60.);
            println!("{} evals, {} -> {} choices", n, r.choices.len(), m.choices.len());
            let r = run_once(p, Input::Choices(m.choices.clone()), true, false);
            println!("{:?}\n{:?}", m.choices, r.fail);
        }
        Some("soak") => {
            // soak ID FIRST N: keep going, tally violation kinds
            let p = find(&args[2]);
            let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            let first: u64 = args[3].parse().unwrap();
            let n: u64 = args[4].parse().unwrap();
            let s = sweep(p, seed, first, n, false, 1e9, workers, true, &|_| false);
            if std::env::var("VERIF_LIST").is_ok() {
                for (i, f) in &s.fails {
                    println!("{i}: {}: {}", f.kind, f.msg.chars().take(300).collect::<String>());
                }
            }
            let mut kinds: BTreeMap<String, (u64, u64, String)> = BTreeMap::new();
            for (i, f) in &s.fails {
                let e = kinds.entry(f.kind.clone()).or_insert((0, *i, f.msg.clone()));
                e.0 += 1;
            }
            println!("{} runs {} distinct {} nontrivial {:.1}s {:.0} steps/run; rechecked {} nondet {:?}", s.done, s.distinct, s.nontrivial_distinct, s.wall, s.steps as f64 / s.done as f64, s.rechecked, &s.nondeterministic);
            println!("faults {:?}\nprobes {:?}", s.faults, s.probes);
            for (k, v) in kinds {
                println!("FAIL {} x{} first idx {}: {}", k, v.0, v.1, &v.2.chars().take(400).collect::<String>());
            }
        }
        _ => {
            eprintln!("usage: curvosim check ID | replay FILE | one ID IDX | soak ID FIRST N | list");
            std::process::exit(2);
        }
    }
}

fn check(p: &'static Prop, seed: u64, thorough: bool, root: &str, workers: u64) -> i32 {
    let t0 = real_ns();
    let known: Vec<Value> = known_findings(root).into_iter().filter(|k| k["property"] == p.id && k["status"] == "known").collect();
    // 1. regression inputs of every recorded finding, fixed or known
    let mut violation: Option<(u64, RunRes, u64, usize)> = None;
    let mut replayed = 0u64;
    let mut shown = std::collections::BTreeSet::new();
    for k in known_findings(root).into_iter().filter(|k| k["property"] == p.id && k["choices"].is_array()) {
        replayed += 1;
        let r = run_once(p, Input::Choices(choices_of(&k)), false, k["tier_thorough"] == true);
        match (&r.fail, k["status"].as_str()) {
            (Some(f), Some("known")) if known.iter().any(|e| matches_known(e, f)) => {
                let e = known.iter().find(|e| matches_known(e, f)).unwrap();
                if shown.insert(e["what"].to_string()) {
                    println!("KNOWN-FINDING: property={} {}", p.id, e["what"].as_str().unwrap_or(&f.msg));
                }
            }
            (Some(_), _) => {
                let n = r.choices.len();
                violation = violation.or(Some((u64::MAX, r, 0, n)));
            }
            (None, _) => {}
        }
    }
    let n = std::env::var("VERIF_RUNS").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { p.thorough } else { p.quick });
    let cap = if thorough { 3000. } else { 420. };
    let isknown = |f: &Fail| known.iter().any(|e| matches_known(e, f));
    let s = sweep(p, seed, 0, n, thorough, cap, workers, false, &isknown);
    let mut suppressed = 0u64;
    for (i, f) in &s.fails {
        if isknown(f) {
            suppressed += 1;
            let e = known.iter().find(|e| matches_known(e, f)).unwrap();
            if shown.insert(e["what"].to_string()) {
                println!("KNOWN-FINDING: property={} {}", p.id, e["what"].as_str().unwrap_or(&f.msg));
            }
            continue;
        }
        if violation.is_none() {
            let r = run_once(p, Input::Seed(run_seed(seed, p.id, *i)), false, thorough);
            let Some(f2) = r.fail.clone() else {
                // not reproducible in a fresh process: still report, with the seed's own trace
                let mut r = r;
                r.fail = Some(f.clone());
                let n = r.choices.len();
                violation = Some((*i, r, 0, n));
                continue;
            };
            let (m, ev) = minimise(p, &r, &f2.kind, thorough, 60.);
            violation = Some((*i, m, ev, r.choices.len()));
        }
    }
    let wall = (real_ns() - t0) as f64 / 1e9;
    let mut rc = 0;
    let mut viol = 0;
    if let Some((i, r, ev, orig)) = &violation {
        rc = 1;
        viol = 1;
        let path = format!("{root}/replays/{}-{}.json", p.id, if *i == u64::MAX { "regression".to_string() } else { i.to_string() });
        let v = replay_json(p, seed, if *i == u64::MAX { 0 } else { *i }, r, *orig, *ev, thorough);
        write_file(&path, &serde_json::to_string_pretty(&v).unwrap());
        for e in &r.events {
            println!("  {e}");
        }
        let f = r.fail.clone().unwrap();
        println!("  {}: {}", f.kind, f.msg);
        println!("VIOLATION property={} replay={}", p.id, path);
    }
    if !s.nondeterministic.is_empty() {
        eprintln!("WARNING: runs {:?} did not repeat identically", &s.nondeterministic[..s.nondeterministic.len().min(5)]);
    }
    let ev = json!({
        "property": p.id,
        "tier": if thorough { "thorough" } else { "quick" },
        "seed": seed,
        "level": "exploration",
        "wall_s": wall,
        "violations": viol,
        "assumptions": p.assumptions,
        "coverage": {
            "evaluations": s.done,
            "distinct_nontrivial": s.nontrivial_distinct,
            "rule": p.rule,
            "samples": s.samples.iter().map(|(i, e)| json!({"run": i, "run_seed": run_seed(seed, p.id, *i).to_string(), "trace": e.iter().take(40).collect::<Vec<_>>()})).collect::<Vec<_>>(),
            "simulated_runs": s.done,
            "planned_runs": n,
            "seeds_per_hour": (s.done as f64 / s.wall.max(1e-3) * 3600.) as u64,
            "simulated_seconds": s.sim_ns as f64 / 1e9,
            "basic_blocks_executed_in_library_calls": s.steps as u64,
            "distinct_code_edges_reached": unsafe { sim_cov_count() },
            "code_edges_instrumented": unsafe { sim_nguards },
            "distinct_executions": s.distinct,
            "distinct_interleavings": s.interleavings,
            "interleaving_measure": "hash of the (basic-block step, thread) sequence of every switch in a run",
            "faults_injected": s.faults,
            "situations_reached": s.probes,
            "runs_repeated_for_determinism": s.rechecked,
            "repeats_that_differed": s.nondeterministic.len(),
            "finding_inputs_replayed": replayed,
            "suppressed_known_findings": suppressed,
            "components_real": p.real,
            "components_stubbed": p.stub,
        }
    });
    write_file(&format!("{root}/evidence/{}.json", p.id), &serde_json::to_string_pretty(&ev).unwrap());
    println!("{}: {} runs, {} distinct non-trivial, {:.1}s, violations {}", p.id, s.done, s.nontrivial_distinct, wall, viol);
    rc
}

fn matches_known(e: &Value, f: &Fail) -> bool {
    e["kind"].as_str() == Some(f.kind.as_str()) && e["match"].as_str().is_none_or(|m| f.msg.contains(m))
}
