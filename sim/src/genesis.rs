//! Trees that continue from a restored one in ways the nodes' own lives do not show: a new genesis
//! on top of an existing state (a tree restored at the version before all others, `u64::MAX`, that
//! updates at version 0 continue), and a store with history that is restored anew at a later
//! version. They live in a store of their own, whose reads fail where the run's seed says.
use crate::hashers::Hs;
use crate::disk::{DiskOp, SimDisk};
use crate::model::*;
use crate::rng::Rng;
use crate::tasks::{call, check_honest_proof, Out, W};
use crate::world::*;
use anyhow::anyhow;
use jmt::restore::{JellyfishMerkleRestore, StateSnapshotReceiver};
use jmt::storage::{LeafNode, Node, NodeBatch, NodeKey, TreeReader, TreeUpdateBatch, TreeWriter};
use jmt::{JellyfishMerkleIterator, JellyfishMerkleTree, KeyHash, OwnedValue, RootHash};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

const PRE: u64 = u64::MAX;

#[derive(Default)]
pub struct Side {
    pub disk: std::cell::RefCell<SimDisk>,
    /// The read with this number fails.
    fail: std::cell::Cell<Option<u64>>,
    reads: std::cell::Cell<u64>,
}

impl Side {
    fn read(&self) -> anyhow::Result<()> {
        let i = self.reads.get();
        self.reads.set(i + 1);
        if self.fail.get() == Some(i) {
            return Err(anyhow!("simulated read error"));
        }
        Ok(())
    }
    pub fn commit(&self, b: &TreeUpdateBatch) {
        let mut ops = batch_ops(&b.node_batch);
        ops.extend(b.stale_node_index_batch.iter().map(|s| DiskOp::AddStale(s.stale_since_version, nk_bytes(&s.node_key))));
        self.disk.borrow_mut().apply(&ops);
    }
    pub fn node(&self, k: &NodeKey) -> Option<Node> {
        self.disk.borrow().nodes.get(&nk_bytes(k)).and_then(|b| borsh::from_slice(b).ok())
    }
    /// Every node that a version is made of.
    fn reach(&self, version: u64) -> Result<BTreeSet<Vec<u8>>, String> {
        let mut out = BTreeSet::new();
        let mut todo = vec![(version, vec![])];
        while let Some((v, p)) = todo.pop() {
            let k = node_key(v, &p);
            let n = self.node(&k).ok_or_else(|| format!("no node at version {v} path {}", hex(&p)))?;
            out.insert(nk_bytes(&k));
            if let Node::Internal(i) = n {
                for (nb, c) in i.children_sorted() {
                    let mut q = p.clone();
                    q.push(u8::from(nb));
                    todo.push((c.version, q));
                }
            }
        }
        Ok(out)
    }
}

impl TreeReader for Side {
    fn get_node_option(&self, k: &NodeKey) -> anyhow::Result<Option<Node>> {
        self.read()?;
        Ok(self.node(k))
    }
    /// The version before all others comes first.
    fn get_value_option(&self, max: u64, key: KeyHash) -> anyhow::Result<Option<OwnedValue>> {
        self.read()?;
        let d = self.disk.borrow();
        let late = if max == PRE { None } else { d.values.range((key.0, 0)..=(key.0, max)).next_back().map(|x| x.1) };
        Ok(late.or_else(|| d.values.get(&(key.0, PRE))).cloned().flatten())
    }
    fn get_rightmost_leaf(&self) -> anyhow::Result<Option<(NodeKey, LeafNode)>> {
        self.read()?;
        Ok(greatest_leaf(&self.disk.borrow()))
    }
}

impl TreeWriter for Side {
    fn write_node_batch(&self, b: &NodeBatch) -> anyhow::Result<()> {
        self.disk.borrow_mut().apply(&batch_ops(b));
        Ok(())
    }
}

/// Stage `i` and those after it, as updates on top of the restored stage before `i`.
pub fn new_genesis<H: Hs>(w: &W<H>, n: usize, i: usize, seed: u64) {
    let base = w.before(i);
    if base.leaves.len() > 300 || w.plan.stages[i].append {
        return;
    }
    let mut r = Rng::sub(seed, 0x9e57);
    #[allow(clippy::arc_with_non_send_sync)]
    let side = Arc::new(Side::default());
    // The version to restore, and what the store holds before that.
    let old = w.stages[..i].iter().position(|s| s.version < base.version).filter(|_| i > 1).map(|_| {
        let n = w.stages[..i].iter().take_while(|s| s.version < base.version).count();
        &w.stages[r.below(n)]
    });
    let old = old.filter(|o| !o.leaves.is_empty() && o.leaves.len() <= 300 && r.below(2) == 0 && base.version < PRE - 4);
    let at = if old.is_some() { base.version } else { PRE };
    w.probe(if old.is_some() { "restored_over_history" } else { "new_genesis" });
    if let Some(o) = old {
        let all: Vec<_> = o.state.iter().map(|(k, v)| (KeyHash(*k), Some(v.to_vec()))).collect();
        match call(|| JellyfishMerkleTree::<_, H>::new(&*side).put_value_set(all, o.version)) {
            Out::Ok((x, b)) if x.0 == o.root => side.commit(&b),
            Out::Ok(_) => return w.fail(&["C05"], "wrong-root", format!("all of version {} at once", o.version)),
            Out::Err(e) => return w.fail(&["C05", "C01"], "put-fails", format!("all of version {} at once: {e:#}", o.version)),
            Out::Panic(e) => return w.fail(&["C05", "C01"], "put-panics", format!("all of version {} at once: {e}", o.version)),
        }
    }
    // Restore.
    let root = RootHash(base.root);
    let again = old.is_some() && base.leaves.len() > 1 && r.below(2) == 0;
    let restore = |r: &mut Rng, stop: usize| {
        let mut rec = if old.is_some() {
            JellyfishMerkleRestore::<H>::new_overwrite(side.clone(), at, root)?
        } else {
            JellyfishMerkleRestore::<H>::new(side.clone(), at, root)?
        };
        let mut from = 0;
        while from < base.leaves.len() {
            let to = (from + 1 + r.skewed(40) as usize).min(base.leaves.len());
            let pairs: Vec<_> = base.leaves[from..to].iter().map(|l| (KeyHash(l.0), base.state[&l.0].to_vec())).collect();
            let proof = crate::restore::range_proof::<H>(&ref_range::<H>(&base.leaves, &pairs.last().unwrap().0 .0));
            rec.add_chunk(pairs, proof)?;
            from = to;
            if from >= stop {
                return Ok(());
            }
        }
        rec.finish()
    };
    let done = call(|| {
        if again {
            // Given up part of the way.
            let stop = 1 + r.below(base.leaves.len() - 1);
            restore(&mut r, stop)?;
        }
        restore(&mut r, usize::MAX)
    });
    w.eval(&["C13"]);
    match done {
        Out::Ok(()) => {}
        Out::Err(e) => return w.fail(&["C13"], "honest-chunk-rejected", format!("restoring version {at} over {:?}: {e:#}", old.map(|o| o.version))),
        Out::Panic(e) => return w.fail(&["C13"], "honest-chunk-panics", format!("restoring version {at} over {:?}: {e}", old.map(|o| o.version))),
    }
    let _ = n;
    let mut version = at.wrapping_add(1);
    let mut dead: BTreeMap<Vec<u8>, u64> = BTreeMap::new();
    for st in i..w.stages.len().min(i + 3) {
        if w.plan.stages[st].append {
            break;
        }
        let t = &w.stages[st];
        let ups = w.updates(st);
        let api = r.below(3);
        let api = if api == 2 && (ups.iter().any(|u| u.1.is_none()) || ups.is_empty()) { 0 } else { api };
        let put = || {
            call(|| {
                let tree = JellyfishMerkleTree::<_, H>::new(&*side);
                let ups = ups.clone();
                match api {
                    1 => tree.put_value_set_with_proof(ups, version).map(|(r, p, b)| (r, Some(p), b)),
                    2 => tree
                        .batch_put_value_sets(vec![ups.into_iter().map(|(k, v)| (k, v.unwrap())).collect()], None, version)
                        .map(|(r, b)| (r[0], None, b)),
                    _ => tree.put_value_set(ups, version).map(|(r, b)| (r, None, b)),
                }
            })
        };
        let what = format!("version {version} on top of {} pairs, api {api}, {} updates", base.leaves.len(), ups.len());
        side.reads.set(0);
        w.eval(&["C01", "C05", "C04"]);
        let (root, proof, batch) = match put() {
            Out::Ok(x) => x,
            Out::Err(e) => return w.fail(&["C05", "C01"], "put-fails", format!("{what}: {e:#}")),
            Out::Panic(e) => return w.fail(&["C05", "C01"], "put-panics", format!("{what}: {e}")),
        };
        let reads = side.reads.get();
        if root.0 != t.root {
            return w.fail(&["C05"], "wrong-root", what);
        }
        if let Some(p) = proof {
            w.eval(&["C08"]);
            if let Out::Err(e) = call(|| p.verify_update(RootHash(w.before(st).root), root, ups.clone())) {
                return w.fail(&["C08"], "update-proof-rejected", format!("{what}: {e:#}"));
            }
        }
        // A read that fails must be reported, or make no difference.
        if reads > 0 {
            w.eval(&["C15"]);
            side.reads.set(0);
            side.fail.set(Some(if r.below(2) == 0 { 0 } else { r.below(reads as usize) as u64 }));
            let out = put();
            side.fail.set(None);
            match out {
                Out::Ok((r2, _, b2)) => {
                    if r2 != root || b2.node_batch != batch.node_batch || b2.stale_node_index_batch != batch.stale_node_index_batch {
                        return w.fail(&["C15"], "error-hidden", format!("{what}: a failed read changed the update"));
                    }
                }
                Out::Panic(e) => return w.fail(&["C15"], "panic-on-read-error", format!("{what}: {e}")),
                Out::Err(_) => {}
            }
        }
        let prev = side.reach(version.wrapping_sub(1));
        side.commit(&batch);
        let (prev, now) = match (prev, side.reach(version)) {
            (Ok(a), Ok(b)) => (a, b),
            (_, Err(e)) => return w.fail(&["C01", "C02", "C05"], "version-incomplete", format!("{what}: {e}")),
            (Err(e), _) => return w.fail(&["C13"], "version-incomplete", format!("{what}: the version before: {e}")),
        };
        // What the update replaced is what it records as stale.
        for s in &batch.stale_node_index_batch {
            let k = nk_bytes(&s.node_key);
            if now.contains(&k) || s.stale_since_version != version {
                return w.fail(&["C03", "C04"], "live-node-stale", format!("{what}: {:?}", s));
            }
            dead.insert(k, s.stale_since_version);
        }
        if let Some(k) = prev.difference(&now).find(|k| !dead.contains_key(*k)) {
            return w.fail(&["C04"], "leaked", format!("{what}: node {} is not recorded as stale", hex(k)));
        }
        // With what is stale gone, the version reads as it should.
        let prune = r.below(2) == 0;
        if prune {
            let ops: Vec<_> = dead.keys().map(|k| DiskOp::DelNode(k.clone())).collect();
            side.disk.borrow_mut().apply(&ops);
        }
        let tree = JellyfishMerkleTree::<_, H>::new(&*side);
        w.eval(&["C02", "C03", "C12", "C19"]);
        let p: &[P] = if prune { &["C03", "C02"] } else { &["C02"] };
        match call(|| tree.get_root_hash(version)) {
            Out::Ok(x) if x.0 == t.root => {}
            _ => return w.fail(p, "root-differs", what),
        }
        #[allow(deprecated)]
        match call(|| tree.get_leaf_count(version)) {
            Out::Ok(x) if x == t.leaves.len() => {}
            _ => return w.fail(&["C19"], "count-differs", what),
        }
        let mut keys: BTreeSet<Key> = ups.iter().map(|u| u.0 .0).collect();
        for _ in 0..6 {
            keys.insert(w.keys[r.below(w.keys.len())]);
        }
        for k in keys {
            let want = t.state.get(&k);
            match call(|| tree.get_with_proof(kh(&k), version)) {
                Out::Ok((v, proof)) => {
                    if v.as_ref() != want.map(|x| &**x) {
                        return w.fail(p, "wrong-value", format!("{what}: key {}", short(&k)));
                    }
                    check_honest_proof(w, n, &proof, RootHash(t.root), &k, want.map(|v| &v[..]), &["C06"]);
                }
                Out::Err(e) => return w.fail(p, "read-fails", format!("{what}: key {}: {e:#}", short(&k))),
                Out::Panic(e) => return w.fail(p, "read-panics", format!("{what}: key {}: {e}", short(&k))),
            }
        }
        match call(|| JellyfishMerkleIterator::new(side.clone(), version, KeyHash([0; 32]))?.collect::<anyhow::Result<Vec<_>>>()) {
            Out::Ok(pairs) => {
                if pairs.len() != t.leaves.len() || pairs.iter().zip(&t.leaves).any(|(a, b)| a.0 .0 != b.0 || a.1 != *t.state[&b.0]) {
                    return w.fail(&["C12"], "iteration-differs", what);
                }
            }
            Out::Err(e) => return w.fail(&["C12"], "iteration-fails", format!("{what}: {e:#}")),
            Out::Panic(e) => return w.fail(&["C12"], "iteration-panics", format!("{what}: {e}")),
        }
        version += 1;
        if prune {
            dead.clear();
        }
    }
    // The history is what it was.
    if let Some(o) = old {
        w.eval(&["C02"]);
        let tree = JellyfishMerkleTree::<_, H>::new(&*side);
        let got = call(|| {
            let root = tree.get_root_hash(o.version)?;
            Ok((root, JellyfishMerkleIterator::new(side.clone(), o.version, KeyHash([0; 32]))?.collect::<anyhow::Result<Vec<_>>>()?))
        });
        match got {
            Out::Ok((x, pairs)) => {
                if x.0 != o.root || pairs.len() != o.leaves.len() || pairs.iter().zip(&o.leaves).any(|(a, b)| a.0 .0 != b.0 || a.1 != *o.state[&b.0]) {
                    w.fail(&["C02", "C13"], "history-changed", format!("version {} after version {at} was restored", o.version));
                }
            }
            Out::Err(e) => w.fail(&["C02", "C13"], "history-lost", format!("version {} after version {at} was restored: {e:#}", o.version)),
            Out::Panic(e) => w.fail(&["C02", "C13"], "history-lost", format!("version {} after version {at} was restored: {e}", o.version)),
        }
    }
}
