//! State synchronisation: a node rebuilds a version from chunks that honest or faulty sources
//! supply, crashing and resuming on the way.
use crate::disk::DiskOp;
use crate::engine::{suspend, Wait};
use crate::hashers::Hs;
use crate::model::*;
use crate::plan::*;
use crate::rng::Rng;
use crate::tasks::*;
use crate::world::*;
use jmt::proof::SparseMerkleRangeProof;
use jmt::restore::{JellyfishMerkleRestore, StateSnapshotReceiver};
use jmt::storage::{Node, NodeBatch};
use jmt::{KeyHash, OwnedValue, RootHash};
use std::collections::BTreeSet;
use std::sync::Arc;

/// The stage a node restores: always the last one of its version.
pub fn target_stage<H: Hs>(w: &World<H>, n: usize) -> Option<usize> {
    let rp = w.plan.nodes[n].restore.as_ref()?;
    let sealed: Vec<usize> = w.ver_stage.values().copied().collect();
    Some(sealed[rp.stage as usize % sealed.len()])
}

/// Every batch the receiver writes must consist of true values and canonical nodes.
pub fn check_restore_batch<H: Hs>(w: &World<H>, n: usize, b: &NodeBatch) {
    let Some(ti) = target_stage(w, n) else { return };
    let t = &w.stages[ti];
    let nodes = t.nodes::<H>();
    w.eval(&["C14", "C13"]);
    let bad = |d: String| w.fail(&["C14", "C13"], "false-restore-write", d);
    for (k, node) in b.nodes() {
        let path = nk_path(k);
        if k.version() != t.version {
            return bad(format!("node {k:?} written while restoring version {}", t.version));
        }
        let ok = match (node, nodes.get(&path)) {
            (Node::Null, Some(RefNode::Null)) => true,
            (Node::Leaf(l), Some(RefNode::Leaf(key, vh))) => {
                l.key_hash().0 == *key && l.hash::<H>() == leaf_hash::<H>(key, vh)
            }
            (Node::Internal(i), Some(RefNode::Internal { count, children, .. })) => {
                let got: Vec<_> = i.children_sorted().collect();
                if i.leaf_count() != *count {
                    w.fail(&["C19", "C13"], "leaf-count", format!("restored node {k:?} counts {} leaves, holds {count}", i.leaf_count()));
                }
                got.len() == children.len()
                    && got.iter().all(|(nb, c)| {
                        children.get(&u8::from(*nb)).map_or(false, |r| {
                            r.hash == c.hash && r.leaf == c.is_leaf() && c.version == t.version
                        })
                    })
            }
            _ => false,
        };
        if !ok {
            return bad(format!("node {k:?} is written but is not part of version {}", t.version));
        }
    }
    for ((v, k), val) in b.values() {
        let want = t.state.get(&k.0).map(|x| (**x).clone());
        if *v != t.version || want.is_none() || want != *val {
            return bad(format!("value of {} at {v} is written but is not part of version {}", short(&k.0), t.version));
        }
    }
}

type Pairs = Vec<(KeyHash, OwnedValue)>;

fn pairs_of(t: &StageTruth, from: usize, to: usize) -> Pairs {
    t.leaves[from..to]
        .iter()
        .map(|l| (KeyHash(l.0), (*t.state[&l.0]).clone()))
        .collect()
}

pub fn range_proof<H: Hs>(sibs: &[PSib]) -> SparseMerkleRangeProof<H> {
    borsh::from_slice(&borsh::to_vec(&sibs.to_vec()).unwrap()).expect("range proof layout")
}

/// What a faulty source supplies instead of the honest chunk.
fn evil_chunk<H: Hs>(w: &World<H>, t: &StageTruth, pos: usize, end: usize, c: &Chunk) -> (Pairs, Vec<PSib>) {
    let mut r = Rng::sub(c.c, 0xe11);
    let n = t.leaves.len();
    let mut pairs = pairs_of(t, pos.min(n), end.min(n));
    let last = pairs.last().map(|p| p.0 .0).unwrap_or([0x55; 32]);
    let mut sibs = if pairs.is_empty() {
        t.leaves.last().map_or(vec![], |l| ref_range::<H>(&t.leaves, &l.0))
    } else {
        ref_range::<H>(&t.leaves, &last)
    };
    let other: Vec<&StageTruth> = w.stages.iter().filter(|s| !s.leaves.is_empty() && s.root != t.root).collect();
    match c.evil {
        1 => {
            if let Some(p) = pairs.get_mut(0) {
                if p.1.is_empty() {
                    p.1.push(1)
                } else {
                    p.1[0] ^= 1
                }
            }
        }
        2 => {
            if pairs.len() > 1 {
                let i = r.below(pairs.len() - 1);
                pairs.remove(i);
            } else {
                sibs.reverse();
            }
        }
        3 => {
            // skip some leaves entirely
            if n > 0 {
                let a = (pos + 1 + r.below(3)).min(n);
                let b = (a + 1 + r.below(3)).min(n);
                pairs = pairs_of(t, a, b);
                if let Some(p) = pairs.last() {
                    sibs = ref_range::<H>(&t.leaves, &p.0 .0);
                }
            }
        }
        4 => {
            // a pair that does not exist, between or after the true ones
            let mut k = last;
            for x in k.iter_mut().rev() {
                *x = x.wrapping_add(1);
                if *x != 0 {
                    break;
                }
            }
            pairs.push((KeyHash(k), b"bogus".to_vec()));
        }
        5 => {
            if pairs.len() > 1 {
                let l = pairs.len();
                pairs.swap(l - 1, r.below(l - 1));
            } else {
                sibs.push(PSib::Null);
            }
        }
        6 => {
            if let Some(p) = pairs.last().cloned() {
                pairs.push(p);
            }
        }
        7 => {
            // an earlier chunk again
            if pos > 0 {
                let a = r.below(pos);
                pairs = pairs_of(t, a, pos);
                sibs = ref_range::<H>(&t.leaves, &pairs.last().unwrap().0 .0);
            } else {
                pairs.reverse();
            }
        }
        8 => pairs.clear(),
        9 => {
            if n > 0 {
                sibs = ref_range::<H>(&t.leaves, &t.leaves[r.below(n)].0);
            }
        }
        10 => {
            let k = r.below(sibs.len() + 1);
            if r.chance(1, 2) {
                sibs.truncate(k);
            } else {
                sibs.drain(..k);
            }
        }
        11 => {
            let k = *r.pick(&[1usize, 2, 16, 120, 257, 300]);
            for _ in 0..k {
                sibs.insert(0, if r.chance(1, 2) { PSib::Null } else { PSib::Internal { l: r.arr32(), r: r.arr32() } });
            }
        }
        12 => {
            if !sibs.is_empty() {
                let i = r.below(sibs.len());
                sibs[i] = match r.below(3) {
                    0 => PSib::Null,
                    1 => PSib::Internal { l: r.arr32(), r: r.arr32() },
                    _ => PSib::Leaf { key: r.arr32(), vh: r.arr32() },
                };
            } else if let Some(p) = pairs.last_mut() {
                p.1.push(7);
            }
        }
        13 => {
            // everything from another version
            if !other.is_empty() {
                let o = *r.pick(&other);
                let m = o.leaves.len();
                let a = pos.min(m - 1);
                pairs = pairs_of(o, a, (a + (end - pos).max(1)).min(m));
                sibs = ref_range::<H>(&o.leaves, &pairs.last().unwrap().0 .0);
            } else {
                pairs.clear();
            }
        }
        14 => {
            // a dropped tail hidden behind a proof that ends the tree early
            sibs.retain(|s| !matches!(s, PSib::Internal { .. }));
        }
        15 => r.shuffle(&mut sibs),
        16 => {
            // a key under a part of the tree that is already complete
            let mut k = if pos > 0 { t.leaves[pos - 1].0 } else { last };
            let i = r.below(32);
            for x in k.iter_mut().skip(i) {
                *x = 0xff;
            }
            pairs = vec![(KeyHash(k), b"bogus".to_vec())];
            if r.chance(1, 2) {
                pairs.push((KeyHash([0xff; 32]), b"bogus".to_vec()));
            }
        }
        17 => {
            if !pairs.is_empty() {
                let i = r.below(pairs.len());
                let b = r.below(256);
                pairs[i].0 .0[b / 8] ^= 0x80 >> (b % 8);
            }
        }
        18 => {
            let k = 1 + r.below(4);
            pairs = (0..k).map(|_| (KeyHash(r.arr32()), val_bytes(r.below(99) as u32, 4))).collect();
            if r.chance(1, 2) {
                pairs.sort();
            }
        }
        19 => {
            // one value replaced by that of another version
            if let Some(p) = pairs.iter_mut().rev().find(|p| other.iter().any(|o| o.state.get(&p.0 .0).map_or(false, |v| **v != p.1))) {
                let o = other.iter().find(|o| o.state.get(&p.0 .0).map_or(false, |v| **v != p.1)).unwrap();
                p.1 = (*o.state[&p.0 .0]).clone();
            } else {
                sibs.insert(0, PSib::Null);
            }
        }
        20 => {
            // the last pair withheld but its proof kept
            pairs.pop();
        }
        21 => {
            // a false pair before the true ones
            if let Some(f) = pairs.first().cloned() {
                let mut k = f.0 .0;
                for x in k.iter_mut().rev() {
                    let z = *x == 0;
                    *x = x.wrapping_sub(1);
                    if !z {
                        break;
                    }
                }
                pairs.insert(0, (KeyHash(k), b"bogus".to_vec()));
            }
        }
        _ => {
            let k = 1 + r.below(200);
            sibs = (0..k).map(|_| PSib::Internal { l: r.arr32(), r: r.arr32() }).collect();
        }
    }
    (pairs, sibs)
}

pub const EVIL_KINDS: usize = 23;

fn true_pair(t: &StageTruth, p: &(KeyHash, OwnedValue)) -> bool {
    t.state.get(&p.0 .0).map_or(false, |v| **v == p.1)
}

/// Retries a metadata write until it is applied.
fn must_write<H: Hs>(w: &W<H>, n: usize, op: DiskOp, done: impl Fn() -> bool) -> bool {
    for _ in 0..60 {
        let _ = w.write(n, &[op.clone()]);
        if done() {
            return true;
        }
        suspend(Wait::Until(w.sh.now.get() + 300));
    }
    false
}

/// Asks another node for the next chunk of the target version.
fn live_chunk<H: Hs>(w: &W<H>, n: usize, t: &StageTruth, from: Option<Key>, cnt: usize, fate: u32) -> Option<(Pairs, Vec<u8>, bool)> {
    let src = (0..w.nodes.len()).find(|m| *m != n && w.plan.nodes[*m].restore.is_none())?;
    let v = t.version;
    let reply = crate::net::rpc(
        w,
        90 + n as u32,
        src,
        "chunk",
        fate,
        std::rc::Rc::new(move |w: &W<H>, m: usize, s: &Lease<H>| {
            let (lo, hi) = w.readable(m)?;
            if v < lo || v > hi {
                return None;
            }
            let tree = &s.tree;
            let it = match call(|| jmt::JellyfishMerkleIterator::new(s.store.clone(), v, from.map_or(KeyHash([0; 32]), |k| KeyHash(k)))) {
                Out::Ok(i) => i,
                _ => return None,
            };
            let mut pairs: Pairs = vec![];
            for item in it {
                let (k, val) = item.ok()?;
                if Some(k.0) == from {
                    continue;
                }
                pairs.push((k, val));
                if pairs.len() >= cnt {
                    break;
                }
            }
            let proof = match pairs.last() {
                None => return None,
                Some(p) => match call(|| tree.get_range_proof(p.0, v)) {
                    Out::Ok(p) => crate::net::enc(w.plan.seed as u32, &p)?,
                    _ => return None,
                },
            };
            borsh::to_vec(&(pairs.into_iter().map(|(k, v)| (k.0, v)).collect::<Vec<_>>(), proof)).ok()
        }),
    )?;
    let (pairs, proof): (Vec<([u8; 32], Vec<u8>)>, Vec<u8>) = borsh::from_slice(&reply.bytes).ok()?;
    Some((pairs.into_iter().map(|(k, v)| (KeyHash(k), v)).collect(), proof, reply.clean))
}

pub fn restorer<H: Hs>(w: &W<H>, n: usize) {
    let rp = w.plan.nodes[n].restore.clone().unwrap();
    let Some(ti) = target_stage(w, n) else { return };
    let t = &w.stages[ti];
    let root = RootHash(t.root);
    let node = &w.nodes[n];
    if !node.disk.borrow().meta.restoring && !must_write(w, n, DiskOp::Restoring, || node.disk.borrow().meta.restoring) {
        return;
    }
    w.note(|| format!("node {n} restores version {} ({} pairs)", t.version, t.leaves.len()));
    if w.plan.seed % 8 == 3 {
        crate::binding::binding(w, w.plan.seed);
    }
    'receiver: for attempt in 0..400 {
        if w.sh.stop.get() {
            return;
        }
        let store = Arc::new(NodeStore::new(w, n));
        let root_stored = node.disk.borrow().nodes.contains_key(&nk_bytes(&node_key(t.version, &[])));
        if root_stored {
            w.probe("restore_over_finished");
        }
        // Now and then a read fails while the receiver looks at what is stored.
        let mut r = Rng::sub(w.plan.seed ^ ((attempt as u64) << 32) ^ n as u64, 0x2e57);
        let me = w.sh.cur_key.get();
        if r.below(if w.target == "C15" { 2 } else { 5 }) == 0 {
            w.armed.borrow_mut().insert(me, r.skewed(24) as u32);
        }
        let out = call(|| {
            if rp.overwrite {
                JellyfishMerkleRestore::<H>::new_overwrite(store.clone(), t.version, root)
            } else {
                JellyfishMerkleRestore::<H>::new(store.clone(), t.version, root)
            }
        });
        w.armed.borrow_mut().remove(&me);
        // A failed read that the receiver kept to itself.
        let hidden = store.inj.get() > 0;
        if hidden {
            w.eval(&["C15"]);
        }
        let x13: &[P] = if hidden { &["C15", "C13"] } else { &["C13"] };
        let x134: &[P] = if hidden { &["C15", "C13", "C14"] } else { &["C13", "C14"] };
        let mut rec = match out {
            Out::Ok(r) => r,
            Out::Panic(p) => {
                let pr: &[P] = if store.inj.get() > 0 { &["C15", "C13"] } else { &["C13"] };
                w.fail(pr, "restore-new-panics", format!("attempt {attempt}, root stored {root_stored}: {p}"));
                w.sh.stop.set(true);
                return;
            }
            Out::Err(e) => {
                if store.inj.get() == 0 {
                    w.fail(&["C13"], "restore-new-fails", format!("attempt {attempt}, root stored {root_stored}: {e:#}"));
                    w.sh.stop.set(true);
                    return;
                }
                continue;
            }
        };
        // What the receiver starts from.
        let (mut have, mut pos) = (BTreeSet::<Key>::new(), 0usize);
        if !rp.overwrite {
            if let Some((_, l)) = greatest_leaf(&node.disk.borrow()) {
                let k = l.key_hash().0;
                pos = t.leaves.partition_point(|x| x.0 <= k);
                have.extend(t.leaves[..pos].iter().map(|l| l.0));
                w.probe("restore_resumed");
            }
        }
        let mut clean = true;
        let mut early = false;
        let mut wrote_err = false;
        let mut lied = false;
        loop {
            if w.sh.stop.get() {
                return;
            }
            let ci = node.next_chunk.get();
            let planned = rp.chunks.get(ci).copied();
            if pos >= t.leaves.len() && planned.map_or(true, |c| c.evil == 0) {
                break;
            }
            node.next_chunk.set(ci + 1);
            let c = planned.unwrap_or(Chunk { n: 64, evil: 0, c: 0, after: 0 });
            let end = (pos + 1 + c.n as usize).min(t.leaves.len());
            let mut honest = c.evil == 0;
            let (pairs, proof): (Pairs, SparseMerkleRangeProof<H>);
            if c.evil as usize >= EVIL_KINDS {
                early = true;
                break;
            }
            if honest {
                let mut got = None;
                if rp.live {
                    let from = if pos == 0 { None } else { Some(t.leaves[pos - 1].0) };
                    if let Some((p, proof, ok)) = live_chunk(w, n, t, from, 1 + c.n as usize, (c.c % 97) as u32) {
                        match guard(|| crate::net::dec::<SparseMerkleRangeProof<H>>(w.plan.seed as u32, &proof)) {
                            Ok(Ok(proof)) => {
                                w.probe("restore_live_chunk");
                                if ok {
                                    let want = pairs_of(t, pos, pos + p.len().min(t.leaves.len() - pos));
                                    if p != want {
                                        w.fail(&["C12", "C13"], "served-wrong-chunk", format!("{} pairs served from position {pos} differ from the version", p.len()));
                                    }
                                } else {
                                    honest = false;
                                }
                                got = Some((p, proof));
                            }
                            Ok(Err(e)) => {
                                if ok {
                                    w.fail(&["C20", "C13"], "decode", format!("a range proof does not decode: {e}"));
                                }
                            }
                            Err(p) => w.fail(&["C16", "C20"], "decode-panics", p),
                        }
                    }
                }
                (pairs, proof) = match got {
                    Some(x) => x,
                    None => {
                        let p = pairs_of(t, pos, end);
                        let s = range_proof::<H>(&ref_range::<H>(&t.leaves, &p.last().unwrap().0 .0));
                        (p, s)
                    }
                };
            } else {
                let (p, s) = evil_chunk::<H>(w, t, pos, end, &c);
                *w.stats.borrow_mut().faults.entry("byzantine_chunk").or_default() += 1;
                (pairs, proof) = (p, range_proof::<H>(&s));
            }
            // What an exact receiver answers.
            let mut sorted = !pairs.is_empty();
            for i in 1..pairs.len() {
                sorted &= pairs[i - 1].0 < pairs[i].0;
            }
            let mut supplied = have.clone();
            supplied.extend(pairs.iter().filter(|p| true_pair(t, p)).map(|p| p.0 .0));
            let all_true = pairs.iter().all(|p| true_pair(t, p));
            let complete = pairs.last().map_or(false, |l| {
                let k = t.leaves.partition_point(|x| x.0 <= l.0 .0);
                t.leaves[..k].iter().all(|x| supplied.contains(&x.0))
            });
            let acceptable = sorted && all_true && complete;
            let last = pairs.last().map(|p| p.0 .0);
            let np = pairs.len();
            let before = store.inj.get();
            let out = call(|| rec.add_chunk(pairs, proof));
            let hit = store.inj.get() > before;
            w.eval(&["C13", "C14", "C16"]);
            match out {
                Out::Panic(p) => {
                    if hit {
                        w.fail(&["C15"], "panic-on-write-error", p);
                    } else if honest && clean {
                        w.fail(x13, "honest-chunk-panics", format!("{np} pairs at {pos}: {p}"));
                    } else {
                        w.fail(&["C16", "C14"], "chunk-panics", format!("evil kind {} after {pos} pairs: {p}", c.evil));
                    }
                    if w.sh.stop.get() {
                        return;
                    }
                    continue 'receiver;
                }
                Out::Ok(()) => {
                    if hit {
                        w.fail(&["C15", "C13"], "write-error-hidden", "a chunk was accepted although its write failed".into());
                    }
                    if !acceptable {
                        w.fail(
                            &["C14"],
                            "false-chunk-accepted",
                            format!("evil kind {} after {pos} pairs: {np} pairs (sorted {sorted}, true {all_true}, complete {complete})", c.evil),
                        );
                        return;
                    }
                    w.probe(if honest { "chunk_accepted" } else { "harmless_evil_chunk_accepted" });
                    have = supplied;
                    pos = t.leaves.partition_point(|x| Some(x.0) <= last);
                    if attempt < 40 && r.below(8) == 0 {
                        // The receiver is given up and made anew.
                        w.probe("restore_receiver_replaced");
                        continue 'receiver;
                    }
                }
                Out::Err(e) => {
                    if hit {
                        w.probe("restore_write_failed");
                        have = supplied;
                        if acceptable {
                            wrote_err = true;
                        }
                        if c.after == 1 && acceptable {
                            // Keep going with the same receiver.
                            pos = t.leaves.partition_point(|x| Some(x.0) <= last);
                            clean = false;
                            continue;
                        }
                        continue 'receiver;
                    }
                    if honest && clean {
                        w.fail(x13, "honest-chunk-rejected", format!("{np} pairs at {pos}: {e:#}"));
                        if w.sh.stop.get() {
                            return;
                        }
                        continue 'receiver;
                    }
                    w.probe("evil_chunk_rejected");
                    clean = false;
                    lied = true;
                    have = supplied;
                    match c.after {
                        1 => continue,
                        2 => {
                            early = true;
                            break;
                        }
                        _ => continue 'receiver,
                    }
                }
            }
        }
        // Finish.
        let all = have.len() == t.leaves.len();
        let before = store.inj.get();
        let out = call(|| if attempt % 2 == 0 { rec.finish() } else { Box::new(rec).finish_box() });
        let hit = store.inj.get() > before;
        w.eval(&["C13", "C14"]);
        match out {
            Out::Ok(()) => {
                let r = w.fsck_stage(n, t.version, t);
                if let Err((k, d)) = r {
                    // With nothing but failed writes in between, it is their harm that lasted.
                    let p: &[P] = if clean && all && !early {
                        x134
                    } else if wrote_err && !lied {
                        &["C14", "C15", "C13"]
                    } else {
                        &["C14"]
                    };
                    w.fail(p, k, format!("finish succeeded (all pairs {all}, clean {clean}): {d}"));
                    w.sh.stop.set(true);
                    return;
                }
            }
            Out::Panic(p) => {
                if clean && all && !early && !hit {
                    w.fail(x13, "finish-panics", format!("{} pairs: {p}", t.leaves.len()));
                    w.sh.stop.set(true);
                    return;
                }
                w.fail(if hit { &["C15"] } else { &["C16", "C14"] }, "finish-panics", format!("clean {clean}, all {all}: {p}"));
                if w.sh.stop.get() {
                    return;
                }
                continue 'receiver;
            }
            Out::Err(e) => {
                if hit {
                    w.probe("restore_write_failed");
                } else if clean && all && !early {
                    w.fail(x13, "finish-fails", format!("{} pairs: {e:#}", t.leaves.len()));
                    w.sh.stop.set(true);
                    return;
                } else {
                    w.probe("early_finish_rejected");
                }
                continue 'receiver;
            }
        }
        w.probe(if t.leaves.is_empty() { "restored_empty" } else if t.leaves.len() == 1 { "restored_single" } else { "restored" });
        break;
    }
    if w.sh.stop.get() {
        return;
    }
    if !node.disk.borrow().nodes.contains_key(&nk_bytes(&node_key(t.version, &[]))) {
        w.fail(&["C13"], "restore-stuck", "the restore did not finish".into());
        w.sh.stop.set(true);
        return;
    }
    if rp.redo && !rp.overwrite {
        redo(w, n, t, &rp);
        if w.sh.stop.get() {
            return;
        }
    }
    // Preimages travel outside the tree.
    let pres: Vec<DiskOp> = t.state.keys().filter_map(|k| w.key_pre.get(k).map(|p| DiskOp::PutPre(*k, p.clone()))).collect();
    for _ in 0..60 {
        let mut ops = pres.clone();
        ops.push(DiskOp::Restored(t.version, ti + 1));
        let _ = w.write(n, &ops);
        if node.disk.borrow().meta.restored_at.is_some() {
            break;
        }
        suspend(Wait::Until(w.sh.now.get() + 300));
    }
    if node.disk.borrow().meta.restored_at.is_none() {
        return;
    }
    check_all_versions(w, n, "after restore");
    w.sync(n);
    committer(w, n);
}

/// A new receiver over a finished restore.
fn redo<H: Hs>(w: &W<H>, n: usize, t: &StageTruth, rp: &RestorePlan) {
    let node = &w.nodes[n];
    let mut r = Rng::sub(rp.stage as u64 ^ ((rp.chunks.len() as u64) << 8), 0x2ed0);
    let snapshot = || {
        let d = node.disk.borrow();
        (d.nodes.clone(), d.values.clone())
    };
    let before = snapshot();
    w.eval(&["C13", "C14"]);
    for round in 0..3 {
        let store = Arc::new(NodeStore::new(w, n));
        let wrong = round == 1;
        let root = if wrong { RootHash(r.arr32()) } else { RootHash(t.root) };
        let out = call(|| JellyfishMerkleRestore::<H>::new(store.clone(), t.version, root));
        let rec = match out {
            Out::Ok(r) => Some(r),
            Out::Panic(p) => {
                w.fail(&["C13", "C14"], "redo-panics", format!("new over a finished restore: {p}"));
                return;
            }
            Out::Err(e) => {
                if store.inj.get() == 0 && !wrong {
                    w.fail(&["C13"], "redo-fails", format!("new over a finished restore: {e:#}"));
                    return;
                }
                None
            }
        };
        let Some(mut rec) = rec else { continue };
        if round == 2 {
            // A false pair must not get in now either.
            let k = [0xffu8; 32];
            if !t.state.contains_key(&k) {
                let out = call(|| rec.add_chunk(vec![(KeyHash(k), b"late".to_vec())], range_proof::<H>(&[])));
                match out {
                    Out::Ok(()) => {
                        w.fail(&["C14"], "false-chunk-accepted", "after the restore had finished".into());
                        return;
                    }
                    Out::Panic(p) => {
                        w.fail(&["C16", "C14"], "chunk-panics", format!("after the restore had finished: {p}"));
                        return;
                    }
                    _ => {}
                }
                continue;
            }
        }
        match call(|| rec.finish()) {
            Out::Ok(()) => {
                if wrong {
                    w.fail(&["C14"], "wrong-root-finished", "finish succeeded for another root hash".into());
                    return;
                }
                w.probe("restore_redone");
            }
            Out::Panic(p) => {
                w.fail(if wrong { &["C14", "C16"] } else { &["C13"] }, "redo-panics", format!("finish over a finished restore: {p}"));
                return;
            }
            Out::Err(e) => {
                if !wrong && store.inj.get() == 0 {
                    w.fail(&["C13"], "redo-fails", format!("finish over a finished restore: {e:#}"));
                    return;
                }
            }
        }
    }
    if snapshot() != before {
        w.fail(&["C13", "C14"], "redo-changes", "a restore over a finished one changed the store".into());
    }
}
