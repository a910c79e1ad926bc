//! Executes one plan.
use crate::engine::{Engine, StepResult};
use crate::hashers::{Hs, SimHasher};
use crate::plan::*;
use crate::tasks::*;
use crate::world::*;
use std::collections::BTreeMap;
use std::rc::Rc;

pub const STEP_CAP: u64 = 4_000_000;

#[derive(Clone)]
pub struct Outcome {
    pub violation: Option<Violation>,
    /// the simulator itself failed
    pub internal: Option<String>,
    pub decisions: Vec<u8>,
    pub steps: u64,
    pub switches: u64,
    pub sim_us: u64,
    /// hash of the sequence of task switches
    pub interleaving: u64,
    /// hash of everything that happened
    pub trace: u64,
    pub accesses: Accesses,
    pub n_access: u64,
    pub probes: BTreeMap<&'static str, u64>,
    pub faults: BTreeMap<&'static str, u64>,
    pub evals: u64,
    pub target_evals: u64,
    pub foreign: BTreeMap<String, u64>,
    pub foreign_first: Option<String>,
    pub notes: Vec<String>,
}

pub fn static_prop(p: &str) -> P {
    const ALL: [&str; 22] = [
        "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16",
        "C17", "C18", "C19", "C20", "C21", "C22",
    ];
    ALL.iter().find(|x| **x == p).copied().unwrap_or("C00")
}

fn execute<H: Hs>(plan: Plan, target: P, verbose: bool, progress: &dyn Fn(u64)) -> Outcome {
    let sched = plan.sched.clone();
    let w = World::<H>::new(plan, target, verbose);
    let mut eng = Engine::new(w.sh.clone(), &sched);
    for n in 0..w.nodes.len() {
        start_node(&w, n, false);
    }
    if w.plan.huge > 0 {
        let w2 = w.clone();
        spawn(&w, None, 7_900, "huge", 0, move || crate::huge::life(&w2));
    }
    let mock = if w.plan.mock && w.plan.huge == 0 { Some(crate::mocksim::new_mock(&w)) } else { None };
    for i in 0..w.plan.clients.len() {
        let w2 = w.clone();
        match &mock {
            Some(m) => {
                let m = m.clone();
                if crate::linmock::active(&w) {
                    spawn(&w, None, 7_000 + i as u32, "user", 0, move || crate::linmock::user(&w2, &m, i));
                    continue;
                }
                spawn(&w, None, 7_000 + i as u32, "user", 0, move || crate::mocksim::user(&w2, &m, i));
            }
            None => spawn(&w, None, 6_000 + i as u32, "client", 0, move || crate::net::client(&w2, i)),
        }
    }
    let mut internal = None;
    loop {
        if w.sh.stop.get() {
            break;
        }
        let steps = w.sh.steps.get();
        if steps % 4096 == 0 {
            progress(steps);
        }
        if steps > STEP_CAP {
            w.fail(&[target], "no-progress", format!("still running after {STEP_CAP} steps: {:?}", eng.task_names()));
            break;
        }
        match eng.step() {
            StepResult::Ran => {}
            StepResult::Done => break,
            StepResult::Stuck => {
                internal = Some(format!("stuck: {:?}", eng.task_names()));
                break;
            }
        }
    }
    let decisions = std::mem::take(&mut eng.decisions);
    let stopped = w.sh.stop.get();
    eng.kill_all();
    w.close_all();
    if let Some(p) = w.sh.panicked.borrow().clone() {
        // Outside every guarded call.
        if p.contains("/repo/") {
            w.fail(&[target], "panic", p);
        } else {
            internal = Some(p);
        }
    }
    if !stopped && internal.is_none() {
        for n in 0..w.nodes.len() {
            if !w.nodes[n].done.get() && w.plan.stages.len() > 0 {
                let p = if w.plan.nodes[n].restore.is_some() { w.ctx(n, &["C13", "C01"]) } else { w.ctx(n, &["C01", "C05"]) };
                w.fail(&p, "no-progress", format!("node {n} did not reach the end of the log although faults have stopped"));
            }
            check_all_versions(&w, n, "at the end");
        }
        if let Some(m) = &mock {
            if crate::linmock::active(&w) {
                crate::linmock::settle(&w, m);
            } else {
                crate::mocksim::agree_fully(&w, m, &[]);
            }
        }
    }
    let st = w.stats.borrow();
    let out = Outcome {
        violation: w.viol.borrow().clone(),
        internal,
        decisions,
        steps: w.sh.steps.get(),
        switches: eng.switches,
        sim_us: w.sh.now.get(),
        interleaving: eng.trace,
        trace: crate::rng::mix(eng.trace ^ w.trace.get()),
        accesses: w.accesses(),
        n_access: st.accesses,
        probes: st.probes.clone(),
        faults: st.faults.clone(),
        evals: st.evals,
        target_evals: st.target_evals,
        foreign: w.foreign.borrow().clone(),
        foreign_first: w.foreign_first.borrow().clone(),
        notes: st.notes.clone(),
    };
    drop(st);
    drop(mock);
    // The world is held in cycles only by conditions of dead tasks, which are gone.
    let _ = Rc::strong_count(&w);
    out
}

/// Runs a plan in a thread of its own, so that the seeds of the standard hash maps (which the
/// library iterates over) follow from the run's seed.
pub fn run(plan: &Plan, verbose: bool, beat: Option<&std::sync::atomic::AtomicU64>) -> Outcome {
    let plan = plan.clone();
    let target = static_prop(&plan.prop);
    std::thread::scope(|s| {
        let h = std::thread::Builder::new()
            .stack_size(8 << 20)
            .spawn_scoped(s, move || {
                crate::seed_entropy(crate::rng::mix(plan.seed ^ 0xe7a0));
                let progress = |n: u64| {
                    if let Some(b) = beat {
                        b.store(n, std::sync::atomic::Ordering::Relaxed);
                    }
                };
                if plan.sim_hasher {
                    execute::<SimHasher>(plan, target, verbose, &progress)
                } else {
                    execute::<sha2::Sha256>(plan, target, verbose, &progress)
                }
            })
            .expect("thread");
        match h.join() {
            Ok(o) => o,
            Err(p) => {
                let t = panic_text(&p);
                Outcome {
                    violation: None,
                    internal: Some(format!("run thread panicked: {t}")),
                    decisions: vec![],
                    steps: 0,
                    switches: 0,
                    sim_us: 0,
                    interleaving: 0,
                    trace: 0,
                    accesses: Default::default(),
                    n_access: 0,
                    probes: Default::default(),
                    faults: Default::default(),
                    evals: 0,
                    target_evals: 0,
                    foreign: Default::default(),
                    foreign_first: None,
                    notes: vec![],
                }
            }
        }
    })
}
