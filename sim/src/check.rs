//! The search: many seeds on all cores, then reporting, shrinking and evidence.
use crate::gen::{case_plan, profile, with_faults};
use crate::plan::*;
use crate::rng::mix;
use crate::run::{run, Outcome};
use crate::shrink::Shrinker;
use crate::world::Violation;
use serde::{Deserialize, Serialize};
use serde_json::json;
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Serialize, Deserialize)]
pub struct Replay {
    pub plan: Plan,
    pub violation: Violation,
    pub trace: u64,
    pub steps: u64,
    /// how it was found
    pub found: String,
    /// what happened, step by step
    #[serde(default)]
    pub narrative: Vec<String>,
}

pub fn prop_tag(p: &str) -> u64 {
    p.bytes().fold(7, |a, b| mix(a ^ b as u64))
}

#[derive(Default)]
struct Totals {
    seeds: u64,
    runs: u64,
    fault_free: u64,
    faulty: u64,
    nontrivial: HashSet<u64>,
    interleavings: HashSet<u64>,
    steps: u64,
    switches: u64,
    accesses: u64,
    sim_us: u64,
    evals: u64,
    target_evals: u64,
    faults: BTreeMap<&'static str, u64>,
    runs_with_fault: BTreeMap<&'static str, u64>,
    probes: BTreeMap<&'static str, u64>,
    foreign: BTreeMap<String, u64>,
    foreign_first: BTreeMap<String, String>,
    samples: Vec<serde_json::Value>,
    twice: u64,
    differences: u64,
    max_steps: u64,
}

struct Found {
    order: (u64, u64),
    plan: Plan,
    out: Outcome,
}

/// Fault variants tried per seed.
const VARIANTS: u64 = 3;

fn sample(p: &Plan, o: &Outcome, variant: u64) -> serde_json::Value {
    json!({
        "seed": p.seed, "variant": variant, "hasher": if p.sim_hasher {"sim"} else {"sha256"},
        "keys": p.keys.len(), "start_version": p.start,
        "log": p.stages.iter().take(6).map(|s| format!("{}{} updates, {} deletes", if s.append {"append "} else {""}, s.ups.len(), s.ups.iter().filter(|u| u.1.is_none()).count())).collect::<Vec<_>>(),
        "stages": p.stages.len(),
        "nodes": p.nodes.iter().map(|n| json!({"restore": n.restore.is_some(), "tasks": n.tasks.iter().map(|t| t.iter().map(|o| format!("{:?}", o.k)).collect::<Vec<_>>().join(" ")).collect::<Vec<_>>(), "groups": n.groups.iter().map(|g| format!("n{} api{}{}{}", g.n, g.api, if g.sync {" sync"} else {""}, if g.twice {" twice"} else {""})).collect::<Vec<_>>()})).collect::<Vec<_>>(),
        "clients": p.clients.iter().map(|t| t.iter().map(|o| format!("{:?}", o.k)).collect::<Vec<_>>().join(" ")).collect::<Vec<_>>(),
        "faults": p.faults.iter().map(|f| format!("{:?} at access {} of task {}", f.kind, f.nth, f.task)).collect::<Vec<_>>(),
        "schedule": format!("{:?}", p.sched),
        "steps": o.steps, "task_switches": o.switches, "simulated_us": o.sim_us,
        "oracle_evaluations_of_this_property": o.target_evals,
        "trace": format!("{:016x}", o.trace),
    })
}

pub struct Args {
    pub prop: String,
    pub seed: u64,
    pub tier: String,
    pub budget: Duration,
    pub workers: usize,
    pub state: Option<std::fs::File>,
    pub root: std::path::PathBuf,
    pub level: String,
}

pub const LEVEL: &str = "exploration";

pub fn replay_path(root: &std::path::Path, prop: &str, seed: u64, variant: u64) -> std::path::PathBuf {
    root.join("replays").join(format!("{prop}-{seed:016x}-{variant}.json"))
}

/// Plans kept because they once showed something, or aim at something rare.
pub fn corpus(root: &std::path::Path, prop: &str) -> Vec<(String, Plan)> {
    let mut v = vec![];
    if let Ok(d) = std::fs::read_dir(root.join("sim/corpus")) {
        for e in d.flatten() {
            let name = e.file_name().to_string_lossy().to_string();
            if !name.ends_with(".json") {
                continue;
            }
            if let Ok(s) = std::fs::read_to_string(e.path()) {
                if let Ok(r) = serde_json::from_str::<Replay>(&s) {
                    let mut p = r.plan;
                    if p.prop == prop && !p.strict {
                        p.prop = prop.to_string();
                        v.push((name, p));
                    }
                }
            }
        }
    }
    v.sort_by(|a, b| a.0.cmp(&b.0));
    v
}

pub fn check(a: Args) -> i32 {
    let t0 = Instant::now();
    let deadline = t0 + a.budget;
    let stop = AtomicBool::new(false);
    let next = AtomicU64::new(0);
    let totals = Mutex::new(Totals::default());
    let found: Mutex<Option<Found>> = Mutex::new(None);
    let internal: Mutex<Option<String>> = Mutex::new(None);
    let prof = profile(&a.prop);
    let kept = corpus(&a.root, &a.prop);
    let n_kept = kept.len() as u64;
    let base = mix(a.seed ^ prop_tag(&a.prop));
    let beats: Vec<AtomicU64> = (0..a.workers).map(|_| AtomicU64::new(0)).collect();
    let current: Vec<Mutex<Option<(Plan, u64, Instant)>>> = (0..a.workers).map(|_| Mutex::new(None)).collect();
    let done = AtomicU64::new(0);

    std::thread::scope(|s| {
        for wi in 0..a.workers {
            let (a, stop, next, totals, found, internal, prof, kept, beats, current, done) =
                (&a, &stop, &next, &totals, &found, &internal, &prof, &kept, &beats, &current, &done);
            s.spawn(move || {
                let mut t = Totals::default();
                'cases: while !stop.load(Ordering::Relaxed) && Instant::now() < deadline {
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    let from_corpus = kept.get(i as usize);
                    let seed = mix(base.wrapping_add(i));
                    let mut acc = Default::default();
                    t.seeds += 1;
                    let clean = from_corpus.map(|x| x.1.clone()).unwrap_or_else(|| case_plan(&a.prop, seed, i));
                    let variants = if from_corpus.is_some() || clean.huge > 0 {
                        0
                    } else if (mix(seed ^ 0xfa) % 100) < prof.faulty as u64 || prof.clients.0 > 0 && !prof.mock {
                        VARIANTS
                    } else {
                        0
                    };
                    for v in 0..=variants {
                        if v > 0 && (stop.load(Ordering::Relaxed) || Instant::now() >= deadline) {
                            break;
                        }
                        let plan = if v == 0 { clean.clone() } else { with_faults(&clean, &acc, v) };
                        if let Some(f) = &a.state {
                            use std::os::unix::fs::FileExt;
                            let mut b = [0u8; 16];
                            b[..8].copy_from_slice(&i.to_le_bytes());
                            b[8..].copy_from_slice(&v.to_le_bytes());
                            let _ = f.write_all_at(&b, wi as u64 * 16);
                        }
                        *current[wi].lock().unwrap() = Some((plan.clone(), v, Instant::now()));
                        let o = run(&plan, false, Some(&beats[wi]));
                        *current[wi].lock().unwrap() = None;
                        t.runs += 1;
                        if plan.faults.is_empty() && !plan.net_faults {
                            t.fault_free += 1;
                        } else {
                            t.faulty += 1;
                        }
                        if let Some(e) = &o.internal {
                            *internal.lock().unwrap() = Some(format!("case {i} variant {v}: {e}"));
                            stop.store(true, Ordering::Relaxed);
                            break 'cases;
                        }
                        if o.target_evals > 0 {
                            t.nontrivial.insert(o.trace);
                        }
                        t.interleavings.insert(o.interleaving);
                        t.steps += o.steps;
                        t.max_steps = t.max_steps.max(o.steps);
                        t.switches += o.switches;
                        t.accesses += o.n_access;
                        t.sim_us += o.sim_us;
                        t.evals += o.evals;
                        t.target_evals += o.target_evals;
                        for (k, n) in &o.faults {
                            *t.faults.entry(k).or_default() += n;
                            *t.runs_with_fault.entry(k).or_default() += 1;
                        }
                        for (k, n) in &o.probes {
                            *t.probes.entry(k).or_default() += n;
                        }
                        for (k, n) in &o.foreign {
                            *t.foreign.entry(k.clone()).or_default() += n;
                            if let Some(f) = &o.foreign_first {
                                t.foreign_first.entry(k.clone()).or_insert_with(|| format!("seed {seed} variant {v}: {f}"));
                            }
                        }
                        if (i % 97 == 3 && t.samples.len() < 2) || (v == 2 && t.samples.is_empty()) {
                            t.samples.push(sample(&plan, &o, v));
                        }
                        if o.violation.is_some() {
                            let mut f = found.lock().unwrap();
                            if f.as_ref().map_or(true, |x| (i, v) < x.order) {
                                *f = Some(Found { order: (i, v), plan, out: o });
                            }
                            stop.store(true, Ordering::Relaxed);
                            break 'cases;
                        }
                        // The simulator repeats itself exactly.
                        if i < 24 && v < 2 {
                            let o2 = run(&plan, false, None);
                            t.twice += 1;
                            if (o2.trace, o2.steps, o2.evals, o2.n_access) != (o.trace, o.steps, o.evals, o.n_access) {
                                // Keep searching: state that outlives a run may well break a property.
                                *internal.lock().unwrap() = Some(format!("case {i} variant {v} (seed {seed}) is not repeatable"));
                                t.differences += 1;
                            }
                        }
                        acc = o.accesses;
                    }
                }
                let mut g = totals.lock().unwrap();
                merge(&mut g, t);
                done.fetch_add(1, Ordering::Relaxed);
            });
        }
        // Watch for runs that make no progress at all: not even a storage access.
        let (current, done, found) = (&current, &done, &found);
        let a = &a;
        s.spawn(move || {
            while done.load(Ordering::Relaxed) < a.workers as u64 {
                std::thread::sleep(Duration::from_millis(200));
                for c in current {
                    let g = c.lock().unwrap();
                    if let Some((plan, v, since)) = &*g {
                        let limit = if plan.huge > 0 { 450 } else { 150 };
                        if since.elapsed() > Duration::from_secs(limit) {
                            let viol = Violation {
                                prop: a.prop.clone(),
                                kind: "hang".into(),
                                detail: format!("a call into the library does not return (run not finished after {limit} s)"),
                            };
                            let path = replay_path(&a.root, &a.prop, plan.seed, *v);
                            write_replay(&path, plan, &viol, 0, 0, "watchdog", vec![]);
                            println!("VIOLATION property={} replay={}", a.prop, path.display());
                            println!("  hang: {}", viol.detail);
                            let _ = found;
                            std::process::exit(1);
                        }
                    }
                }
            }
        });
    });

    let t = totals.into_inner().unwrap();
    let found = found.into_inner().unwrap();
    let internal = internal.into_inner().unwrap();
    let search_s = t0.elapsed().as_secs_f64();
    let mut code = 0;
    let mut violations = 0;
    if let Some(f) = found {
        violations = 1;
        code = 1;
        let v0 = f.out.violation.clone().unwrap();
        let seed = f.plan.seed;
        let variant = f.order.1;
        let mut s = Shrinker {
            prop: v0.prop.clone(),
            kind: v0.kind.clone(),
            until: Instant::now() + if a.tier == "thorough" { Duration::from_secs(120) } else { Duration::from_secs(25) },
            best: f.plan.clone(),
            out: f.out.clone(),
            tried: 0,
        };
        let size0 = f.plan.size();
        s.shrink();
        let o = run(&s.best, true, None);
        let v = o.violation.clone().unwrap_or(v0);
        let path = replay_path(&a.root, &a.prop, seed, variant);
        let how = format!(
            "VERIF_SEED={} case {} variant {} (run seed {seed}); size {size0} reduced to {} in {} runs",
            a.seed,
            f.order.0,
            variant,
            s.best.size(),
            s.tried
        );
        write_replay(&path, &s.best, &v, o.trace, o.steps, &how, o.notes);
        // A fresh process must see the same.
        let again = std::env::current_exe()
            .ok()
            .and_then(|exe| std::process::Command::new(exe).arg("replay").arg(&path).arg("--quiet").output().ok())
            .map(|o| o.status.code() == Some(1))
            .unwrap_or(false);
        println!("VIOLATION property={} replay={}", a.prop, path.display());
        println!("  {}: {}", v.kind, v.detail);
        println!("  found with {how}; replayed in a fresh process: {}", if again { "identical" } else { "NOT REPRODUCED" });
    } else if let Some(e) = &internal {
        eprintln!("SIMULATOR ERROR: {e}");
        code = 3;
    }
    let wall = t0.elapsed().as_secs_f64();
    let hours = (search_s / 3600.0).max(1e-9);
    let ev = json!({
        "property": a.prop,
        "tier": a.tier,
        "seed": a.seed,
        "level": a.level,
        "wall_s": wall,
        "violations": violations,
        "assumptions": assumptions(&a.prop),
        "coverage": {
            "evaluations": t.runs,
            "distinct_nontrivial": t.nontrivial.len(),
            "rule": "An evaluation is one simulated run: a generated log of updates executed by the real tree on simulated nodes under one seeded schedule (and, for fault variants, one seeded set of faults). It is non-trivial if at least one oracle of this property was evaluated in it, and distinct if the hash of its schedule, storage events, faults and observed results differs from all others.",
            "samples": t.samples.iter().take(4).collect::<Vec<_>>(),
            "seeds": t.seeds,
            "corpus_plans": n_kept,
            "runs_fault_free": t.fault_free,
            "runs_with_faults_enabled": t.faulty,
            "runs_per_hour": (t.runs as f64 / hours) as u64,
            "seeds_per_hour": (t.seeds as f64 / hours) as u64,
            "simulated_seconds": t.sim_us as f64 / 1e6,
            "scheduler_steps": t.steps,
            "longest_run_steps": t.max_steps,
            "task_switches": t.switches,
            "storage_accesses": t.accesses,
            "oracle_evaluations": t.evals,
            "oracle_evaluations_of_this_property": t.target_evals,
            "distinct_interleavings": t.interleavings.len(),
            "interleaving_measure": "distinct hashes of the full sequence of tasks chosen by the scheduler",
            "faults_injected": t.faults,
            "runs_with_fault_kind": t.runs_with_fault,
            "reached": t.probes,
            "repeatability": { "runs_executed_twice": t.twice, "differences": t.differences },
            "oracles_of_other_properties_that_failed": t.foreign,
            "real_components": real_components(&a.prop),
            "stubbed_components": stub_components(&a.prop),
        }
    });
    let dir = a.root.join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    if let Err(e) = std::fs::write(dir.join(format!("{}.json", a.prop)), serde_json::to_string_pretty(&ev).unwrap()) {
        eprintln!("cannot write evidence: {e}");
        code = if code == 0 { 3 } else { code };
    }
    println!(
        "{}: {} runs ({} seeds, {} with faults) in {:.1} s, {} oracle evaluations of this property, {} distinct interleavings{}",
        a.prop,
        t.runs,
        t.seeds,
        t.faulty,
        wall,
        t.target_evals,
        t.interleavings.len(),
        if t.foreign.is_empty() { String::new() } else { format!("; other oracles that failed: {:?}", t.foreign) }
    );
    if std::env::var("SIM_FOREIGN").is_ok() {
        for (k, v) in &t.foreign_first {
            println!("  foreign {k}: {v}");
        }
    }
    code
}

fn real_components(p: &str) -> Vec<&'static str> {
    let mut v = vec![
        "jmt::JellyfishMerkleTree (all update, read and proof paths)",
        "jmt::TreeCache and its frozen batches",
        "node, key, proof encodings (borsh, serde)",
    ];
    match p {
        "C13" | "C14" | "C16" => v.push("jmt::restore::JellyfishMerkleRestore"),
        "C17" => v.push("jmt::mock::MockTreeStore (its lock type replaced by one that is a scheduling point)"),
        "C11" => v.push("jmt ICS23 proof construction and the ics23 crate's verifier"),
        "C12" => v.push("jmt::JellyfishMerkleIterator"),
        _ => {}
    }
    v.push("proof verifiers (SparseMerkleProof, UpdateMerkleProof, SparseMerkleRangeProof)");
    v
}
fn stub_components(p: &str) -> Vec<&'static str> {
    let mut v = vec![
        "task scheduler and clock (simulated)",
        "hash-map seeds (getrandom replaced by the run's seed)",
    ];
    if p != "C17" {
        v.push("disk (in-memory key-value store with atomic batches, sync, crash loss)");
        v.push("network between clients and nodes (simulated)");
        v.push("the node process around the library (committer, pruner, state-sync receiver loops of the harness)");
    }
    v.push("in runs marked hasher=sim, SHA-256 of 32-byte inputs (identity there, so that keys can be placed); node hashes stay SHA-256");
    v
}
fn assumptions(p: &str) -> Vec<&'static str> {
    let mut v = vec![
        "a batch handed to the store is applied atomically and in order; crashes lose whole unsynced batches only",
        "one writer per store; versions are committed in order",
        "SHA-256 is collision resistant",
    ];
    if p == "C17" {
        v[0] = "users of the in-memory store are interleaved at its calls (each call holds its lock throughout)";
    }
    v
}

fn merge(g: &mut Totals, t: Totals) {
    g.seeds += t.seeds;
    g.runs += t.runs;
    g.fault_free += t.fault_free;
    g.faulty += t.faulty;
    g.nontrivial.extend(t.nontrivial);
    g.interleavings.extend(t.interleavings);
    g.steps += t.steps;
    g.max_steps = g.max_steps.max(t.max_steps);
    g.switches += t.switches;
    g.accesses += t.accesses;
    g.sim_us += t.sim_us;
    g.evals += t.evals;
    g.target_evals += t.target_evals;
    for (k, n) in t.faults {
        *g.faults.entry(k).or_default() += n;
    }
    for (k, n) in t.runs_with_fault {
        *g.runs_with_fault.entry(k).or_default() += n;
    }
    for (k, n) in t.probes {
        *g.probes.entry(k).or_default() += n;
    }
    for (k, n) in t.foreign {
        *g.foreign.entry(k).or_default() += n;
    }
    for (k, n) in t.foreign_first {
        g.foreign_first.entry(k).or_insert(n);
    }
    g.samples.extend(t.samples);
    g.twice += t.twice;
    g.differences += t.differences;
}

pub fn write_replay(path: &std::path::Path, plan: &Plan, v: &Violation, trace: u64, steps: u64, found: &str, narrative: Vec<String>) {
    if let Some(d) = path.parent() {
        let _ = std::fs::create_dir_all(d);
    }
    let keep = 4000;
    let narrative = if narrative.len() > keep { narrative[narrative.len() - keep..].to_vec() } else { narrative };
    let r = Replay {
        plan: plan.clone(),
        violation: v.clone(),
        trace,
        steps,
        found: found.to_string(),
        narrative,
    };
    let _ = std::fs::write(path, serde_json::to_string_pretty(&r).unwrap());
}

/// Exit 1 if the recorded violation happens again, exactly as recorded.
pub fn replay(path: &str, quiet: bool) -> i32 {
    let s = match std::fs::read_to_string(path) {
        Ok(s) => s,
        Err(e) => {
            eprintln!("{path}: {e}");
            return 3;
        }
    };
    let r: Replay = match serde_json::from_str(&s) {
        Ok(r) => r,
        Err(e) => {
            eprintln!("{path}: {e}");
            return 3;
        }
    };
    let o = run(&r.plan, true, None);
    if !quiet {
        for n in &o.notes {
            println!("{n}");
        }
    }
    match &o.violation {
        Some(v) if v.kind == r.violation.kind && v.prop == r.violation.prop => {
            let exact = o.trace == r.trace && o.steps == r.steps;
            println!("VIOLATION property={} replay={path}", v.prop);
            println!("  {}: {}", v.kind, v.detail);
            println!("  same violation as recorded; execution {}", if exact { "identical step by step" } else { "differs from the recorded one (the code has changed, or the file)" });
            if quiet && !exact {
                return 4;
            }
            1
        }
        Some(v) => {
            println!("another violation: {} {}: {}", v.prop, v.kind, v.detail);
            1
        }
        None => {
            println!("no violation ({} steps){}", o.steps, o.internal.map_or(String::new(), |e| format!("; simulator error {e}")));
            0
        }
    }
}
