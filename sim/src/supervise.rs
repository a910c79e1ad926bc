//! Keeps a dying process from ending a check without an answer: the search runs in a child, and if
//! a signal ends it, the cases it was working on are run again, each in a process of its own.
use crate::check::{self, replay_path, Replay};
use crate::gen::{case_plan, with_faults};
use crate::rng::mix;
use crate::run::run;
use crate::world::Violation;
use std::os::unix::process::ExitStatusExt;
use std::path::Path;
use std::process::Command;
use std::time::{Duration, Instant};

fn me() -> std::path::PathBuf {
    std::env::current_exe().expect("own path")
}

fn base(prop: &str, seed: u64) -> u64 {
    mix(seed ^ check::prop_tag(prop))
}

pub fn check(prop: &str, seed: u64, root: &Path) -> i32 {
    let mut code = 0;
    let known = known(root, prop);
    let state = std::env::temp_dir().join(format!("jmtsim-{}-{prop}.state", std::process::id()));
    let st = Command::new(me()).arg("check-child").arg(prop).arg(&state).status();
    match st {
        Ok(st) if st.code().is_some() => code = st.code().unwrap(),
        Ok(st) => {
            println!("the simulating process died: signal {:?}", st.signal());
            code = post_mortem(prop, seed, root, &state);
        }
        Err(e) => {
            eprintln!("cannot start the search: {e}");
            code = code.max(3);
        }
    }
    let _ = std::fs::remove_file(&state);
    for (kind, file, text) in known {
        let hit = std::fs::read_to_string(root.join(&file))
            .ok()
            .and_then(|s| serde_json::from_str::<Replay>(&s).ok())
            .map(|r| run(&r.plan, false, None))
            .and_then(|o| o.violation)
            .map_or(false, |v| v.prop == prop && v.kind == kind);
        if hit {
            println!("KNOWN-FINDING: property={prop} {text}");
        } else {
            println!("known finding no longer seen: property={prop} {text}");
        }
    }
    code
}

/// Lines `finding: property=C kind=K replay=F text` of the known-findings file.
fn known(root: &Path, prop: &str) -> Vec<(String, String, String)> {
    let mut v = vec![];
    for l in std::fs::read_to_string(root.join("known-findings.txt")).unwrap_or_default().lines() {
        let Some(l) = l.strip_prefix("finding: ") else { continue };
        let f: Vec<&str> = l.splitn(4, ' ').collect();
        if f.len() == 4 && f[0].strip_prefix("property=") == Some(prop) {
            if let (Some(k), Some(r)) = (f[1].strip_prefix("kind="), f[2].strip_prefix("replay=")) {
                v.push((k.to_string(), r.to_string(), f[3].to_string()));
            }
        }
    }
    v
}

fn post_mortem(prop: &str, seed: u64, root: &Path, state: &Path) -> i32 {
    let bytes = std::fs::read(state).unwrap_or_default();
    let mut cases: Vec<(u64, u64)> = bytes
        .chunks_exact(16)
        .map(|c| (u64::from_le_bytes(c[..8].try_into().unwrap()), u64::from_le_bytes(c[8..].try_into().unwrap())))
        .collect();
    cases.sort();
    for (i, v) in cases {
        let run_seed = mix(base(prop, seed).wrapping_add(i));
        let path = replay_path(root, prop, run_seed, v);
        let Ok(mut ch) = Command::new(me())
            .arg("case")
            .arg(prop)
            .args([seed.to_string(), i.to_string(), v.to_string()])
            .arg(&path)
            .spawn()
        else {
            continue;
        };
        let t0 = Instant::now();
        let sig = loop {
            match ch.try_wait() {
                Ok(Some(st)) => break st.signal(),
                Ok(None) if t0.elapsed() < Duration::from_secs(60) => std::thread::sleep(Duration::from_millis(20)),
                _ => {
                    let _ = ch.kill();
                    let _ = ch.wait();
                    break None;
                }
            }
        };
        match sig {
            Some(sig) => {
                println!("VIOLATION property={prop} replay={}", path.display());
                println!("  process-dies: the process dies of signal {sig} (stack or memory exhausted, or an abort)");
                println!("  found with VERIF_SEED={seed} case {i} variant {v} (run seed {run_seed}); not reduced");
                return 1;
            }
            None => {
                let _ = std::fs::remove_file(&path);
            }
        }
    }
    eprintln!("SIMULATOR ERROR: the process died, but none of its cases does it again");
    3
}

pub fn case(prop: &str, seed: u64, i: u64, variant: u64, file: &str, root: &Path) -> i32 {
    let kept = check::corpus(root, prop);
    let run_seed = mix(base(prop, seed).wrapping_add(i));
    let mut acc = Default::default();
    let clean = kept.get(i as usize).map(|x| x.1.clone()).unwrap_or_else(|| case_plan(prop, run_seed, i));
    for v in 0..=variant {
        let plan = if v == 0 { clean.clone() } else { with_faults(&clean, &acc, v) };
        if v == variant {
            let viol = Violation {
                prop: prop.into(),
                kind: "process-dies".into(),
                detail: "the process dies".into(),
            };
            check::write_replay(Path::new(file), &plan, &viol, 0, 0, &format!("VERIF_SEED={seed} case {i} variant {v}"), vec![]);
        }
        let o = run(&plan, false, None);
        acc = o.accesses;
    }
    0
}

/// Replays in a child, since the recorded violation may be that the process dies.
pub fn replay(file: &str, quiet: bool) -> i32 {
    let mut c = Command::new(me());
    c.arg("replay-child").arg(file);
    if quiet {
        c.arg("--quiet");
    }
    match c.status() {
        Ok(st) => match st.code() {
            Some(c) => c,
            None => {
                let prop = std::fs::read_to_string(file)
                    .ok()
                    .and_then(|s| serde_json::from_str::<Replay>(&s).ok())
                    .map_or("?".into(), |r| r.violation.prop);
                println!("VIOLATION property={prop} replay={file}");
                println!("  process-dies: signal {:?}", st.signal());
                1
            }
        },
        Err(e) => {
            eprintln!("{e}");
            3
        }
    }
}
