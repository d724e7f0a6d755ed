//! Command line, evidence and the registry of properties.
#[cfg(verif_hooks_reg)]
pub mod admm;
pub mod calc;
pub mod common;
pub mod deletion;
pub mod fitting;
pub mod meta;
pub mod spec;
pub mod stats;
#[cfg(feature = "stats")]
pub mod tails;
use crate::engine::*;
use crate::smt;
use serde_json::{Value, json};
use std::collections::{BTreeSet, HashMap};
use std::sync::atomic::Ordering::Relaxed;
use std::time::{Duration, Instant};

pub struct Prop {
    pub scens: Vec<Scenario>,
    pub functions: Vec<&'static str>,
    pub bounds: String,
    pub assumptions: Vec<&'static str>,
}
pub const COMMON_ASSUMPTIONS: [&str; 4] = [
    "exact real arithmetic: floating-point rounding, overflow and underflow are outside the claim unless the property says otherwise",
    "LAPACK is represented by its contract (exact inverse/solution, failure when singular); the stand-ins are compared with the real routines by `gv selftest`",
    "transcendental functions are uninterpreted beyond exp(a+b)=exp(a)exp(b), ln(exp a)=a, exp(ln a)=a, ln(ab)=ln a+ln b and sign/monotonicity facts; denominators met on a path are non-zero and exact ties between generic symbolic reals are excluded (counted as generic_ties)",
    "sizes (observations, features) are those listed in bounds",
];
pub fn prop(id: &str, thorough: bool) -> Option<Prop> {
    match id {
        "G01" => Some(calc::g01(thorough)),
        "G02" => Some(calc::g02(thorough)),
        "G03" => Some(calc::g03(thorough)),
        "G11" => Some(calc::g11(thorough)),
        "G12" => Some(calc::g12(thorough)),
        "G14" => Some(calc::g14(thorough)),
        "G13" => Some(stats::g13(thorough)),
        #[cfg(verif_hooks_reg)]
        "G15" => Some(admm::g15(thorough)),
        "G16" => Some(stats::g16(thorough)),
        "G17" => Some(stats::g17(thorough)),
        "G18" => Some(stats::g18(thorough)),
        "G19" => Some(stats::g19(thorough)),
        "G20" => Some(deletion::g20(thorough)),
        "G21" => Some(deletion::g21(thorough)),
        "G22" => Some(stats::g22(thorough)),
        "G23" => Some(stats::g23(thorough)),
        "G24" => Some(stats::g24(thorough)),
        "G25" => Some(stats::g25(thorough)),
        "G04" => Some(fitting::g04(thorough)),
        "G05" => Some(fitting::g05(thorough)),
        "G06" => Some(fitting::g06(thorough)),
        "G07" => Some(meta::g07(thorough)),
        "G08" => Some(meta::g08(thorough)),
        "G09" => Some(meta::g09(thorough)),
        "G10" => Some(meta::g10(thorough)),
        "G26" => Some(meta::g26(thorough)),
        "G29" => Some(spec::g29(thorough)),
        "G30" => Some(spec::g30(thorough)),
        "G27" => Some(meta::g27(thorough)),
        #[cfg(feature = "stats")]
        "G32" => Some(tails::g32(thorough)),
        #[cfg(feature = "stats")]
        "G33" => Some(tails::g33(thorough)),
        _ => None,
    }
}
fn root() -> std::path::PathBuf {
    std::env::var("GV_ROOT").map(Into::into).unwrap_or("/verif".into())
}
/// the inputs under /repo/src this run encoded
fn source_hash() -> String {
    fn walk(p: &std::path::Path, v: &mut Vec<std::path::PathBuf>) {
        if let Ok(d) = std::fs::read_dir(p) {
            for e in d.flatten() {
                let p = e.path();
                if p.is_dir() { walk(&p, v) } else { v.push(p) }
            }
        }
    }
    let mut v = vec![];
    walk(std::path::Path::new("/repo/src"), &mut v);
    v.sort();
    let mut h = 0xcbf29ce484222325u64;
    for p in v {
        for b in std::fs::read(&p).unwrap_or_default() {
            h = (h ^ b as u64).wrapping_mul(0x100000001b3);
        }
    }
    format!("{h:016x}")
}
struct Known {
    scenario: String,
    label: String,
    what: String,
}
fn glob(pat: &str, s: &str) -> bool {
    // '*' matches any run of characters
    let parts: Vec<&str> = pat.split('*').collect();
    if parts.len() == 1 {
        return pat == s;
    }
    let mut rest = s;
    for (i, p) in parts.iter().enumerate() {
        if i == 0 {
            if !rest.starts_with(p) {
                return false;
            }
            rest = &rest[p.len()..];
        } else if i == parts.len() - 1 {
            return rest.ends_with(p);
        } else {
            match rest.find(p) {
                Some(k) => rest = &rest[k + p.len()..],
                None => return false,
            }
        }
    }
    true
}
fn known(id: &str) -> Vec<Known> {
    let Ok(t) = std::fs::read_to_string(root().join("known_findings.json")) else { return vec![] };
    let v: Value = serde_json::from_str(&t).expect("known_findings.json");
    v["findings"]
        .as_array()
        .unwrap()
        .iter()
        .filter(|f| f["property"] == id && f["status"] == "known")
        .map(|f| Known { scenario: f["scenario"].as_str().unwrap().into(), label: f["label"].as_str().unwrap().into(), what: f["what"].as_str().unwrap().into() })
        .collect()
}
fn check(id: &str, tier: &str, seed: u64, filter: Option<&str>) -> i32 {
    let t0 = Instant::now();
    let thorough = tier == "thorough";
    let Some(mut p) = prop(id, thorough) else {
        eprintln!("unknown property {id}");
        return 2;
    };
    if let Some(f) = filter {
        p.scens.retain(|s| s.name.contains(f));
    }
    let budget = Duration::from_secs(std::env::var("GV_BUDGET").ok().and_then(|x| x.parse().ok()).unwrap_or(if thorough { 3000 } else { 150 }));
    let each = Duration::from_secs(if thorough { 600 } else { 60 });
    let reports = run_all(&p.scens, seed, thorough, t0 + budget, each);
    let kn = known(id);
    let mut violations = vec![];
    let mut known_hits: BTreeSet<String> = BTreeSet::new();
    for r in &reports {
        for (l, d, inp) in &r.violations {
            if let Some(k) = kn.iter().find(|k| glob(&k.scenario, &r.name) && glob(&k.label, l)) {
                known_hits.insert(k.what.clone());
                continue;
            }
            violations.push((r.name.clone(), l.clone(), d.clone(), inp.clone()));
        }
    }
    for k in &known_hits {
        println!("KNOWN-FINDING: property={id} {k}");
    }
    let sum = |f: &dyn Fn(&Report) -> usize| -> usize { reports.iter().map(f).sum() };
    let proved = sum(&|r| r.proved);
    let undecided: Vec<Value> = reports.iter().flat_map(|r| r.undecided.iter().map(|u| json!([r.name, u.0, u.1]))).collect();
    let aborted: Vec<Value> = reports.iter().flat_map(|r| r.aborted.iter().map(|u| json!([r.name, u]))).collect();
    let mismatch: Vec<Value> = reports.iter().flat_map(|r| r.mismatch.iter().map(|u| json!([r.name, u]))).collect();
    let unwitnessed: Vec<Value> = reports.iter().filter(|r| !r.witnessed).map(|r| json!(r.name)).collect();
    let wall = t0.elapsed().as_secs_f64();
    let ev = json!({
        "property": id, "tier": tier, "seed": seed, "level": "other", "wall_s": wall, "violations": violations.len(),
        "coverage": {
            "explanation": "symbolic execution of the unmodified generic Rust code of /repo over an expression-building scalar; every path condition and negated assertion is decided by the SMT solver (z3, QF_NRA) for all values of the symbolic inputs within the bounds; solver counterexamples are replayed on the concrete scalar before being reported",
            "functions_encoded": p.functions,
            "bounds": p.bounds,
            "source_hash": source_hash(),
            "scenarios": reports.len(),
            "scenarios_complete": reports.iter().filter(|r| r.complete && r.undecided.is_empty() && r.mismatch.is_empty()).count(),
            "paths": sum(&|r| r.paths), "infeasible_paths": sum(&|r| r.dead), "branch_decisions": sum(&|r| r.forks),
            "obligations_discharged": proved,
            "obligations_undecided": undecided.len(),
            "undecided": undecided.iter().take(40).collect::<Vec<_>>(),
            "paths_not_completed": aborted.iter().take(40).collect::<Vec<_>>(),
            "encoding_mismatches": mismatch,
            "scenarios_without_concrete_witness": unwitnessed,
            "queries": smt::QUERIES.load(Relaxed), "unsat": smt::UNSAT.load(Relaxed), "sat": smt::SAT.load(Relaxed), "unknown": smt::UNKNOWN.load(Relaxed),
            "solver_seconds": smt::MICROS.load(Relaxed) as f64 / 1e6, "solver": solver_exe(),
            "query_bytes": smt::BYTES.load(Relaxed),
            "dag_nodes": sum(&|r| r.nodes), "numeric_checks_of_normal_forms": sum(&|r| r.nfcheck),
            "generic_ties": sum(&|r| r.generic_ne), "syntactically_identical": sum(&|r| r.n_ident), "nonsingular_assumptions": sum(&|r| r.det_assumed),
            "concrete_replays": sum(&|r| r.replays), "values_validated_against_concrete_run": sum(&|r| r.validated),
            "known_findings_seen": known_hits.len(),
            "samples": reports.iter().filter_map(|r| r.sample.clone()).take(3).collect::<Vec<_>>(),
        },
        "assumptions": COMMON_ASSUMPTIONS.iter().chain(p.assumptions.iter()).collect::<Vec<_>>(),
    });
    let dir = root().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    if filter.is_none() {
        std::fs::write(dir.join(format!("{id}.json")), serde_json::to_string_pretty(&ev).unwrap()).expect("evidence");
    }
    println!(
        "{id} {tier}: {} scenarios, {} paths, {} obligations discharged, {} undecided, {} queries ({} unsat, {} sat, {} unknown), solver {:.1}s, wall {:.1}s",
        reports.len(),
        sum(&|r| r.paths),
        proved,
        undecided.len(),
        smt::QUERIES.load(Relaxed),
        smt::UNSAT.load(Relaxed),
        smt::SAT.load(Relaxed),
        smt::UNKNOWN.load(Relaxed),
        smt::MICROS.load(Relaxed) as f64 / 1e6,
        wall
    );
    for u in undecided.iter().take(8) {
        println!("  undecided: {u}");
    }
    for u in aborted.iter().take(8) {
        println!("  incomplete: {u}");
    }
    for u in mismatch.iter().take(8) {
        println!("  encoding mismatch: {u}");
    }
    for u in unwitnessed.iter().take(8) {
        println!("  no concrete witness: {u}");
    }
    if !violations.is_empty() {
        let rd = root().join("replays");
        let _ = std::fs::create_dir_all(&rd);
        for (k, (s, l, d, inp)) in violations.iter().enumerate().take(20) {
            let path = rd.join(format!("{id}-{k}.json"));
            let v = json!({"property": id, "tier": tier, "scenario": s, "label": l, "detail": d, "case": inp, "command": format!("/verif/check.sh replay {}", path.display())});
            std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap()).expect("replay file");
            println!("  {s} :: {l}: {d}");
            println!("VIOLATION property={id} replay={}", path.display());
        }
        return 1;
    }
    if proved == 0 && known_hits.is_empty() {
        eprintln!("{id}: nothing could be decided");
        return 2;
    }
    0
}
fn replay(path: &str) -> i32 {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(path).expect("replay file")).expect("json");
    let id = v["property"].as_str().unwrap();
    let thorough = v["tier"] == "thorough";
    let p = prop(id, thorough).expect("property");
    let s = p.scens.iter().find(|s| s.name == v["scenario"].as_str().unwrap()).expect("scenario");
    let inputs: HashMap<String, f64> = v["case"]["inputs"].as_object().unwrap().iter().map(|(k, x)| (k.clone(), x.as_f64().unwrap())).collect();
    let mut w = World::new_nat(v["case"]["seed"].as_u64().unwrap(), v["case"]["k"].as_u64().unwrap() as usize, Some(inputs), thorough);
    run_nat(s, &mut w);
    println!("scenario: {}\ninputs: {:?}", s.name, w.used);
    let mut bad = 0;
    for x in &w.viol {
        println!("violated: {}: {}", x.label, x.detail);
        bad = 1;
    }
    bad
}
pub fn main(args: &[String]) -> i32 {
    let env_seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1u64);
    match args.first().map(|s| s.as_str()) {
        Some("check") => {
            let tier = args.get(2).cloned().unwrap_or("quick".into());
            let f = args.get(3).map(|s| s.as_str());
            check(&args[1], &tier, env_seed, f)
        }
        Some("replay") => {
            let a = args[1].clone();
            std::thread::Builder::new().stack_size(512 << 20).spawn(move || replay(&a)).unwrap().join().unwrap_or(2)
        }
        Some("list") => {
            for s in prop(&args[1], args.get(2).map(|x| x == "thorough").unwrap_or(false)).unwrap().scens {
                println!("{}", s.name);
            }
            0
        }
        _ => {
            eprintln!("usage: gv check ID [quick|thorough] [scenario-filter] | replay FILE | list ID | selftest");
            2
        }
    }
}
