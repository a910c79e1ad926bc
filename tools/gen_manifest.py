#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os, subprocess
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
COMMON = ("Seeded search over simulated runs; no guarantee beyond the runs explored. Assumes atomic ordered write "
          "batches, one writer per store and a collision-resistant hash. The library code runs unmodified; the "
          "scheduler, clock, disk, network and process around it are simulated.")
N = {
"C01": "Crash, lost-unsynced-batch, write-error and ambiguous-acknowledgement faults at any storage access; durable state after restart compared with the reference model version by version.",
"C02": "Readers interleaved with committers and pruners at each storage access; every answer compared with the reference model of that version.",
"C03": "Pruning in chunks at random horizons, interrupted by crashes; every remaining version fully re-read and reachability recomputed after each prune.",
"C04": "Exact reachability sets computed independently from the stored nodes after each prune and commit.",
"C05": "Replicas of one log through different APIs, groupings, hash-map seeds, retries and restores; roots compared with an independent reference hash of the contents.",
"C06": "Every proof is checked by the library's verifier and by an independent re-implementation of the documented format, locally and after an unreliable network.",
"C07": "Adversary that recombines, truncates, extends and re-encodes honest material, and corrupted disks and messages; accepted claims compared with the model.",
"C08": "Light clients follow the chain through update proofs; every honest proof must verify to exactly the model's root, and both update paths must store the same tree.",
"C09": "Adversary that knows every tree and picks the new root from what the verifier computes; accepted transitions compared with the model.",
"C10": "Neighbours compared with the ordered reference map for every queried key.",
"C11": "Verified by the ics23 crate with the published spec; forged, spliced and misrouted proofs must be rejected.",
"C12": "Iterators interleaved with commits and prunes, with failing reads; items compared with the ordered reference map.",
"C13": "State-sync with crashes at any access, write errors, resumption, then further commits; the result compared node by node with the model.",
"C14": "Malicious sources (23 kinds of misbehaviour) mixed with honest chunks and crashes; everything that reaches storage is checked.",
"C15": "Sweeps that fail every single storage read of an operation in turn, plus random failing reads in every task.",
"C16": "Structured and byte-level malformed input to every decoder and verifier; overflow checks and debug assertions are on; oversized allocations, aborts and hangs are noticed.",
"C17": "Several users of one store interleaved at its calls (the store locks per call, which makes that every interleaving), against a reference store.",
"C18": "Histories with appends, crashes, retries and pruning against the model. One known finding (known-findings.txt).",
"C19": "Leaf counts of every version and node, and statistics of every batch, recounted independently.",
"C20": "Everything that reaches disk or network is re-encoded and compared; damaged copies must not panic, and what decodes must re-encode to the same bytes.",
}
hook = subprocess.run(["git","-C","/repo","log","--format=%H","--grep=^jmt_sim hook"],capture_output=True,text=True).stdout.split()
m = {
 "version": 1,
 "setup_cmd": "./check.sh build",
 "hooks": {"guard": "jmt_sim", "enable": 'RUSTFLAGS="--cfg jmt_sim" (set by check.sh)', "source_commits": hook},
 "checks": [{
   "property": p,
   "quick_cmd": f"./check.sh {p}",
   "thorough_cmd": f"./check.sh {p} thorough",
   "technique": "deterministic simulation with fault injection",
   "level": "exploration",
   "level_note": N[p] + " " + COMMON,
 } for p in sorted(N)],
 "not_applicable": [
  {"property":"C21","reason":"A finite set of fixed vectors through pure functions: no schedule, time, I/O or fault for it to depend on, and the existing tests already run every vector. (C05 compares every simulated root with an independent implementation of the same hash.)"},
  {"property":"C22","reason":"Pure functions of one key without any concurrency, time, I/O or multi-party behaviour; simulation adds nothing to plain property testing or proof. (Wrong paths show up in C02, C05, C10 and C12.)"},
 ],
 "notes": "Search time: 45 s quick, 720 s thorough per check (SIM_SECONDS overrides). Replays: sim/target/release/jmtsim replay FILE. Known findings: known-findings.txt.",
}
json.dump(m, open(os.path.join(root,"MANIFEST.json"),"w"), indent=1)
