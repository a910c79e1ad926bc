//! What runs on a node: the committer, readers, pruners and the state-sync receiver, with the
//! oracles that watch them.
use crate::disk::DiskOp;
use crate::engine::{suspend, Spawn, Wait};
use crate::hashers::{Hs, IcsHost};
use crate::model::*;
use crate::plan::*;
use crate::rng::{mix, Rng};
use crate::world::*;
use jmt::proof::{SparseMerkleProof, SparseMerkleRangeProof, UpdateMerkleProof};
use jmt::storage::{NibblePath, Node, NodeBatch, NodeKey, TreeUpdateBatch};
use jmt::{
    JellyfishMerkleIterator, JellyfishMerkleTree, KeyHash, MissingRootError, OwnedValue, RootHash,
};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::cell::{Cell, RefCell};
use std::rc::Rc;
use std::sync::Arc;

pub type W<H> = Rc<World<H>>;

pub enum Out<T> {
    Ok(T),
    Err(anyhow::Error),
    Panic(String),
}

pub fn call<T>(f: impl FnOnce() -> anyhow::Result<T>) -> Out<T> {
    match guard(f) {
        Ok(Ok(v)) => Out::Ok(v),
        Ok(Err(e)) => Out::Err(e),
        Err(p) => Out::Panic(p),
    }
}

pub fn plus(a: &[P], b: &[P]) -> Vec<P> {
    let mut v = a.to_vec();
    v.extend_from_slice(b);
    v
}

// ------------------------------------------------------------------------------ processes

pub fn spawn<H: Hs>(
    w: &W<H>,
    node: Option<usize>,
    key: u32,
    name: &'static str,
    start_at: u64,
    f: impl FnOnce() + 'static,
) {
    w.sh.spawn.borrow_mut().push(Spawn {
        key,
        node,
        name,
        start_at,
        f: Box::new(f),
    });
}

pub fn start_node<H: Hs>(w: &W<H>, n: usize, restarted: bool) {
    let node = &w.nodes[n];
    node.up.set(true);
    let np = &w.plan.nodes[n];
    let at = if restarted {
        0
    } else {
        np.delay as u64 * 50
    };
    let meta = node.disk.borrow().meta.clone();
    if restarted {
        w.note(|| format!("RESTART node {n} with {} stages", meta.stages));
        w.probe("restarted");
        check_recovered(w, n);
    }
    let base = n as u32 * 100;
    let (w1, w2) = (w.clone(), w.clone());
    if np.restore.is_some() && meta.restored_at.is_none() {
        spawn(w, Some(n), base + 2, "restorer", at, move || {
            crate::restore::restorer(&w1, n)
        });
    } else {
        spawn(w, Some(n), base + 1, "committer", at, move || {
            committer(&w2, n)
        });
    }
    for i in 0..np.tasks.len() {
        let w = w.clone();
        spawn(&w.clone(), Some(n), base + 10 + i as u32, "actor", at, move || {
            actor(&w, n, i)
        });
    }
}

/// After a restart: everything acknowledged is there, and every readable version is whole.
fn check_recovered<H: Hs>(w: &W<H>, n: usize) {
    let node = &w.nodes[n];
    let meta = node.disk.borrow().meta.clone();
    w.eval(&["C01"]);
    if meta.stages < node.acked.get() {
        w.fail(
            &["C01"],
            "acked-lost",
            format!("{} stages acknowledged, {} after the crash", node.acked.get(), meta.stages),
        );
    }
    if meta.stages > 0 {
        check_all_versions(w, n, "after restart");
        // Nothing of a later version is visible.
        let next = w.stages[meta.stages - 1].version;
        let later = node
            .disk
            .borrow()
            .nodes
            .keys()
            .filter_map(|k| borsh::from_slice::<NodeKey>(k).ok())
            .find(|k| k.version() > next && k.version() != u64::MAX);
        if let Some(k) = later {
            w.fail(
                &["C01"],
                "partial-version",
                format!("node {k:?} is stored although the last committed version is {next}"),
            );
        }
    }
}

pub fn fsck_props(kind: &str) -> Vec<P> {
    match kind {
        "leaf-count" => vec!["C19"],
        "value" => vec!["C02", "C01"],
        "undecodable" => vec!["C20", "C02", "C01"],
        "missing-node" => vec!["C01", "C02"],
        _ => vec!["C05", "C01", "C02"],
    }
}

pub fn fsck_report<H: Hs>(w: &W<H>, n: usize, r: Result<(), (&'static str, String)>, when: &str) -> bool {
    match r {
        Ok(()) => true,
        Err((kind, d)) => {
            let p = w.ctx(n, &fsck_props(kind));
            w.fail(&p, kind, format!("node {n} {when}: {d}"));
            false
        }
    }
}

/// Checks every version that must be readable on node `n`.
pub fn check_all_versions<H: Hs>(w: &W<H>, n: usize, when: &str) -> bool {
    let Some((lo, hi)) = w.readable(n) else {
        return true;
    };
    let mut v = lo;
    loop {
        if w.ver_stage.contains_key(&v) {
            w.eval(&["C01", "C02", "C03", "C05", "C13", "C18", "C19"]);
            if !fsck_report(w, n, w.fsck(n, v), when) {
                return false;
            }
        }
        if v == hi {
            return true;
        }
        v += 1;
    }
}

// ------------------------------------------------------------------------------ committer

pub struct Computed<H: Hs> {
    pub roots: Vec<RootHash>,
    pub batch: TreeUpdateBatch,
    pub proofs: Option<Vec<UpdateMerkleProof<H>>>,
}

pub type Updates = Vec<(KeyHash, Option<OwnedValue>)>;

fn batchable(sets: &[Updates]) -> bool {
    sets.iter()
        .all(|s| !s.is_empty() && s.iter().all(|u| u.1.is_some()))
}

/// Hash caches for the batch interface: the hash of every node of each resulting version.
fn hash_caches<H: Hs>(truths: &[&StageTruth]) -> Vec<HashMap<NibblePath, [u8; 32]>> {
    truths
        .iter()
        .map(|t| {
            t.nodes::<H>()
                .iter()
                .map(|(p, x)| {
                    let h = match x {
                        RefNode::Null => PLACEHOLDER,
                        RefNode::Leaf(k, vh) => leaf_hash::<H>(k, vh),
                        RefNode::Internal { hash, .. } => *hash,
                    };
                    (nibble_path(p), h)
                })
                .collect()
        })
        .collect()
}

/// One call of an update interface of the real tree.
pub fn compute_once<H: Hs>(
    tree: &JellyfishMerkleTree<'_, NodeStore<H>, H>,
    sets: &[Updates],
    version: u64,
    api: u8,
    append: bool,
    caches: &[HashMap<NibblePath, [u8; 32]>],
) -> Out<Computed<H>> {
    let sets: Vec<Updates> = sets.to_vec();
    call(|| {
        if append {
            let (r, batch) = tree.append_value_set(sets.into_iter().next().unwrap(), version)?;
            return Ok(Computed {
                roots: vec![r],
                batch,
                proofs: None,
            });
        }
        match api {
            1 if sets.len() == 1 => {
                let (r, p, batch) =
                    tree.put_value_set_with_proof(sets.into_iter().next().unwrap(), version)?;
                Ok(Computed {
                    roots: vec![r],
                    batch,
                    proofs: Some(vec![p]),
                })
            }
            1 => {
                let (rp, batch) = tree.put_value_sets_with_proof(sets, version)?;
                let (roots, proofs) = rp.into_iter().unzip();
                Ok(Computed {
                    roots,
                    batch,
                    proofs: Some(proofs),
                })
            }
            2 | 3 => {
                let sets = sets
                    .into_iter()
                    .map(|s| s.into_iter().map(|(k, v)| (k, v.unwrap())).collect())
                    .collect();
                let hashes = if api == 3 {
                    Some(caches.iter().collect())
                } else {
                    None
                };
                let (roots, batch) = tree.batch_put_value_sets(sets, hashes, version)?;
                Ok(Computed {
                    roots,
                    batch,
                    proofs: None,
                })
            }
            _ if sets.len() == 1 => {
                let (r, batch) = tree.put_value_set(sets.into_iter().next().unwrap(), version)?;
                Ok(Computed {
                    roots: vec![r],
                    batch,
                    proofs: None,
                })
            }
            _ => {
                let (roots, batch) = tree.put_value_sets(sets, version)?;
                Ok(Computed {
                    roots,
                    batch,
                    proofs: None,
                })
            }
        }
    })
}

/// Properties a failing or wrong update computation breaks.
fn put_props<H: Hs>(w: &W<H>, n: usize, api: u8, append: bool) -> Vec<P> {
    let mut p = w.ctx(n, &["C05"]);
    if api == 1 && !append {
        p.push("C08");
    }
    if append {
        p.push("C18");
    }
    p
}

/// Computes the update for `cnt` stages from `st`, retrying while storage reads fail.
fn compute<H: Hs>(w: &W<H>, n: usize, st: usize, cnt: usize, api: u8, append: bool) -> Option<Computed<H>> {
    let sets: Vec<Updates> = (st..st + cnt).map(|i| w.updates(i)).collect();
    let truths: Vec<&StageTruth> = (st..st + cnt).map(|i| &w.stages[i]).collect();
    // The batch interface takes insertions only, on top of a stored version (or at version 0).
    let rooted = st > 0 || w.plan.start == 0;
    let api = if (api == 2 || api == 3) && (!rooted || !batchable(&sets)) {
        0
    } else {
        api
    };
    let caches = if api == 3 { hash_caches::<H>(&truths) } else { vec![] };
    let v = w.stages[st].version;
    if append && !append_allowed(w, n, st) {
        w.probe("append_precondition_unmet");
        return None;
    }
    for _ in 0..60 {
        let h = w.open(n);
        let out = compute_once(&h.tree, &sets, v, api, append, &caches);
        let inj = h.store.inj.get();
        if !base_readable(w, n, st) {
            // Pruned while this was computed (re-execution only).
            return None;
        }
        if let Some(c) = judge_put(w, n, out, inj, &truths, api, append, "commit") {
            return Some(c);
        }
        if inj == 0 || w.sh.stop.get() {
            return None;
        }
    }
    None
}

/// The append interface works on trees whose greatest leaf was written at the latest version
/// (it says so with an error otherwise).
fn append_allowed<H: Hs>(w: &W<H>, n: usize, st: usize) -> bool {
    let v = w.stages[st].version;
    let d = w.nodes[n].disk.borrow();
    match rightmost(&d, w.stages[d.meta.stages - 1].version) {
        Some((k, _)) => k.version() == v,
        None => false,
    }
}

/// Judges the outcome of an update computation against the expected roots.
#[allow(clippy::too_many_arguments)]
pub fn judge_put<H: Hs>(
    w: &W<H>,
    n: usize,
    out: Out<Computed<H>>,
    inj: u64,
    truths: &[&StageTruth],
    api: u8,
    append: bool,
    what: &str,
) -> Option<Computed<H>> {
    let mut props = put_props(w, n, api, append);
    let v = truths[0].version;
    if inj > 0 {
        props.push("C15");
        w.eval(&["C15"]);
    }
    match out {
        Out::Panic(p) => {
            let props: Vec<P> = if inj > 0 { vec!["C15"] } else { props };
            w.fail(
                &props,
                if inj > 0 { "panic-on-read-error" } else { "put-panics" },
                format!("{what} api {api} at version {v}: {p}"),
            );
            None
        }
        Out::Err(e) => {
            if inj == 0 {
                w.fail(&props, "put-fails", format!("{what} api {api} at version {v}: {e:#}"));
            }
            None
        }
        Out::Ok(c) => {
            if inj > 0 {
                w.probe("update_ok_despite_read_error");
            }
            w.eval(&["C05"]);
            if c.roots.len() != truths.len() {
                w.fail(&props, "root-count", format!("{what}: {} roots for {} versions", c.roots.len(), truths.len()));
                return Some(c);
            }
            for (i, t) in truths.iter().enumerate() {
                if c.roots[i].0 != t.root {
                    w.fail(
                        &props,
                        "wrong-root",
                        format!(
                            "{what} api {api} append {append}: root of version {} is {}, expected {}",
                            t.version,
                            short(&c.roots[i].0),
                            short(&t.root)
                        ),
                    );
                    break;
                }
            }
            Some(c)
        }
    }
}

/// Checks a computed batch before it is written.
fn check_batch<H: Hs>(w: &W<H>, n: usize, st: usize, cnt: usize, append: bool, redo: bool, c: &Computed<H>) {
    let first = w.stages[st].version;
    let last = w.stages[st + cnt - 1].version;
    let d = w.nodes[n].disk.borrow();
    let b = &c.batch;
    let ctx = w.ctx(n, &["C01", "C02"]);
    w.eval(&["C01", "C02"]);
    // (a) nothing that is stored changes
    for (k, node) in b.node_batch.nodes() {
        if k.version() < first || k.version() > last {
            w.fail(&ctx, "foreign-version", format!("the batch of versions {first}..={last} writes node {k:?}"));
            return;
        }
        let kb = nk_bytes(k);
        if let (false, Some(old)) = (append, d.nodes.get(&kb)) {
            if *old != borsh::to_vec(node).expect("borsh") {
                let p = if redo { plus(&ctx, &["C05"]) } else { ctx.clone() };
                w.fail(&p, "overwrites", format!("the batch for version {first} overwrites stored node {k:?} with other contents (redo {redo})"));
                return;
            }
        }
    }
    // (b) exactly the values of the updates
    let mut want: BTreeMap<(u64, [u8; 32]), Option<OwnedValue>> = BTreeMap::new();
    for i in st..st + cnt {
        for (k, v) in w.updates(i) {
            want.insert((w.stages[i].version, k.0), v);
        }
    }
    let got: BTreeMap<(u64, [u8; 32]), Option<OwnedValue>> = b
        .node_batch
        .values()
        .iter()
        .map(|((v, k), x)| ((*v, k.0), x.clone()))
        .collect();
    if want != got {
        w.fail(&ctx, "batch-values", format!("the batch for versions {first}..={last} holds {} values, expected {} (or others)", got.len(), want.len()));
    }
    // (c) statistics
    w.eval(&["C19"]);
    if b.node_stats.len() != cnt {
        w.fail(&["C19"], "stats-count", format!("{} statistics for {cnt} versions", b.node_stats.len()));
    } else {
        let is_leaf = |k: &NodeKey| -> Option<bool> {
            // An appended batch may overwrite a node it also marks; what becomes stale is the
            // stored one.
            if let Some(x) = d.nodes.get(&nk_bytes(k)) {
                return borsh::from_slice::<Node>(x).ok().map(|x| matches!(x, Node::Leaf(_)));
            }
            b.node_batch.get_node(k).map(|x| matches!(x, Node::Leaf(_)))
        };
        for i in 0..cnt {
            let v = w.stages[st + i].version;
            let nn = b.node_batch.nodes().iter().filter(|(k, _)| k.version() == v).count();
            let nl = b
                .node_batch
                .nodes()
                .iter()
                .filter(|(k, x)| k.version() == v && matches!(x, Node::Leaf(_)))
                .count();
            let sn = b.stale_node_index_batch.iter().filter(|s| s.stale_since_version == v).count();
            let sl = b
                .stale_node_index_batch
                .iter()
                .filter(|s| s.stale_since_version == v && is_leaf(&s.node_key) == Some(true))
                .count();
            let s = &b.node_stats[i];
            let got = (s.new_nodes, s.new_leaves, s.stale_nodes, s.stale_leaves);
            if got != (nn, nl, sn, sl) {
                w.fail(
                    &["C19"],
                    "stats",
                    format!("statistics of version {v} are {got:?}, its batch has {:?} (new nodes, new leaves, stale nodes, stale leaves)", (nn, nl, sn, sl)),
                );
                break;
            }
        }
    }
    // (d) stale records
    w.eval(&["C04", "C03"]);
    let recorded: BTreeMap<&Vec<u8>, u64> = d.stale.iter().map(|(s, k)| (k, *s)).collect();
    let mut here: BTreeSet<Vec<u8>> = BTreeSet::new();
    for s in &b.stale_node_index_batch {
        let kb = nk_bytes(&s.node_key);
        let since = s.stale_since_version;
        if since < first || since > last {
            w.fail(&["C03", "C04"], "stale-version", format!("{s:?} in the batch of versions {first}..={last}"));
            return;
        }
        if s.node_key.version() > since || (!append && s.node_key.version() == since) {
            w.fail(&w.ctx(n, &["C03", "C04"]), "stale-new-node", format!("{s:?}: a node of that very version"));
            return;
        }
        if append && b.node_batch.get_node(&s.node_key).is_some() {
            w.fail(&["C18", "C03", "C04"], "stale-rewritten", format!("{s:?} is marked stale by the batch that writes it"));
            return;
        }
        if !d.nodes.contains_key(&kb) && b.node_batch.get_node(&s.node_key).is_none() {
            w.fail(&stale_props(w), "stale-missing", format!("{s:?} refers to a node that is not stored"));
            return;
        }
        let again = recorded.get(&kb).map_or(false, |old| !(redo && *old == since));
        if again || !here.insert(kb) {
            w.fail(&stale_props(w), "stale-twice", format!("{s:?}: already recorded stale since {:?}", recorded.get(&nk_bytes(&s.node_key))));
            return;
        }
    }
    if w.target == "C20" {
        check_codec_batch(w, b);
    }
}

/// A wrong stale record that damages nothing by itself.
fn stale_props<H: Hs>(w: &World<H>) -> Vec<P> {
    if w.plan.stages.iter().any(|s| s.append) {
        vec!["C04", "C18"]
    } else {
        vec!["C04"]
    }
}

fn check_codec_batch<H: Hs>(w: &W<H>, b: &TreeUpdateBatch) {
    w.eval(&["C20"]);
    let bad = |what: &str, d: String| w.fail(&["C20"], "round-trip", format!("{what}: {d}"));
    let r = guard(|| {
        let mut seen: BTreeMap<Vec<u8>, NodeKey> = BTreeMap::new();
        for (k, node) in b.node_batch.nodes() {
            let kb = borsh::to_vec(k).unwrap();
            match borsh::from_slice::<NodeKey>(&kb) {
                Ok(x) if x == *k && nk_path(&x) == nk_path(k) => {}
                x => return bad("node key", format!("{k:?} decodes as {x:?}")),
            }
            if let Some(o) = seen.insert(kb, k.clone()) {
                return bad("node key", format!("{k:?} and {o:?} have the same encoding"));
            }
            let nb = borsh::to_vec(node).unwrap();
            match borsh::from_slice::<Node>(&nb) {
                Ok(x) if x == *node => {}
                x => return bad("node", format!("{node:?} decodes as {x:?}")),
            }
            for form in 0..2 {
                match crate::net::enc(form, k).map(|b| crate::net::dec::<NodeKey>(form, &b)) {
                    Some(Ok(x)) if x == *k && nk_path(&x) == nk_path(k) => {}
                    x => return bad("node key (serde)", format!("{k:?} decodes as {x:?}")),
                }
                match crate::net::enc(form, node).map(|b| crate::net::dec::<Node>(form, &b)) {
                    Some(Ok(x)) if x == *node && borsh::to_vec(&x).ok().as_ref() == Some(&nb) => {}
                    x => return bad("node (serde)", format!("{node:?} decodes as {x:?}")),
                }
            }
        }
        for s in &b.stale_node_index_batch {
            let sb = borsh::to_vec(s).unwrap();
            match borsh::from_slice::<jmt::storage::StaleNodeIndex>(&sb) {
                Ok(x) if x == *s => {}
                x => return bad("stale record", format!("{s:?} decodes as {x:?}")),
            }
        }
        let bb = borsh::to_vec(b).unwrap();
        match borsh::from_slice::<TreeUpdateBatch>(&bb) {
            Ok(x) if x == *b => {}
            _ => return bad("batch", "a tree update batch decodes differently".into()),
        }
        let nb = borsh::to_vec(&b.node_batch).unwrap();
        match borsh::from_slice::<NodeBatch>(&nb) {
            Ok(x) if x == b.node_batch => {}
            _ => bad("batch", "a node batch decodes differently".into()),
        }
    });
    if let Err(p) = r {
        w.fail(&["C20", "C16"], "codec-panic", p);
    }
}

/// Checks of a group that is now stored.
fn check_committed<H: Hs>(
    w: &W<H>,
    n: usize,
    st: usize,
    cnt: usize,
    append: bool,
    before: Option<BTreeMap<Vec<u8>, bool>>,
) {
    for i in st..st + cnt {
        let t = &w.stages[i];
        w.eval(&["C01", "C02", "C05", "C18", "C19"]);
        if !fsck_report(w, n, w.fsck_stage(n, t.version, t), "after commit") {
            return;
        }
    }
    if !matches!(w.target, "C03" | "C04" | "C18") {
        return;
    }
    let mut prev = before;
    for i in st..st + cnt {
        let v = w.stages[i].version;
        let Ok(cur) = w.reach(n, v) else { return };
        let d = w.nodes[n].disk.borrow();
        w.eval(&["C03", "C04"]);
        for (s, k) in &d.stale {
            if *s <= v && cur.contains_key(k) {
                let k: NodeKey = borsh::from_slice(k).unwrap();
                let mut p = w.ctx(n, &["C03"]);
                if append {
                    p.push("C18");
                }
                w.fail(&p, "stale-but-live", format!("{k:?} is recorded stale since {s} but version {v} needs it"));
                return;
            }
        }
        if let Some(prev) = &prev {
            for k in prev.keys() {
                if !cur.contains_key(k) && !d.stale.contains(&(v, k.clone())) && d.nodes.contains_key(k) {
                    let k: NodeKey = borsh::from_slice(k).unwrap();
                    w.fail(&stale_props(w), "leak", format!("{k:?} is not needed from version {v} on but is not recorded stale"));
                    return;
                }
            }
        }
        prev = Some(cur);
    }
}

/// Node keys an append writes although an earlier append to the same version recorded them stale.
fn revived<H: Hs>(w: &W<H>, n: usize, c: &Computed<H>) -> Vec<(u64, Vec<u8>)> {
    let d = w.nodes[n].disk.borrow();
    d.stale
        .iter()
        .filter(|(_, k)| {
            borsh::from_slice::<NodeKey>(k).map_or(false, |k| c.batch.node_batch.get_node(&k).is_some())
        })
        .cloned()
        .collect()
}

/// The batch as a storage layer would put it together that receives it in parts, some of them sent
/// twice with newer contents: merging must give the batch, with the later contents.
fn regroup<H: Hs>(w: &World<H>, st: usize, b: &NodeBatch) -> NodeBatch {
    let mut r = Rng::sub(w.plan.seed, 0x9e0 + st as u64);
    if r.below(4) != 0 {
        return b.clone();
    }
    w.probe("batch_merged_from_parts");
    w.eval(&["C01"]);
    let out = call(|| {
        let mut parts = vec![(BTreeMap::new(), BTreeMap::new()); r.range(1, 4)];
        let last = parts.len() - 1;
        for (k, v) in b.nodes() {
            let i = r.below(last + 1);
            parts[i].0.insert(k.clone(), v.clone());
            if i > 0 && r.below(4) == 0 {
                parts[r.below(i)].0.insert(k.clone(), Node::Null);
            }
        }
        for (k, v) in b.values() {
            let i = r.below(last + 1);
            parts[i].1.insert(*k, v.clone());
            if i > 0 && r.below(4) == 0 {
                parts[r.below(i)].1.insert(*k, if v.is_some() { None } else { Some(b"older".to_vec()) });
            }
        }
        let mut all = NodeBatch::default();
        let mut sum = 0;
        for (nodes, values) in parts {
            let n = nodes.len() + values.len();
            let p = NodeBatch::new(nodes, values);
            anyhow::ensure!(p.is_empty() == (n == 0), "is_empty() is wrong for {n} items");
            sum += n;
            all.merge(p);
            anyhow::ensure!(all.is_empty() == (sum == 0), "is_empty() is wrong after a merge");
        }
        Ok(all)
    });
    match out {
        Out::Ok(all) => {
            if all.nodes() != b.nodes() || all.values() != b.values() {
                w.fail(&["C01"], "merge-differs", format!("stage {st}: the batch merged from its parts is not the batch"));
            }
            if b.nodes().iter().any(|(k, v)| all.get_node(k) != Some(v)) {
                w.fail(&["C01"], "merge-differs", format!("stage {st}: get_node() of the merged batch"));
            }
            all
        }
        Out::Err(e) => {
            w.fail(&["C01"], "merge-differs", format!("stage {st}: {e:#}"));
            b.clone()
        }
        Out::Panic(e) => {
            w.fail(&["C01"], "merge-panics", e);
            b.clone()
        }
    }
}

fn commit_ops<H: Hs>(w: &W<H>, n: usize, st: usize, cnt: usize, c: &Computed<H>) -> Vec<DiskOp> {
    let mut ops = batch_ops(&regroup(w, st, &c.batch.node_batch));
    if w.plan.stages[st].append {
        let again = revived(w, n, c);
        if w.plan.strict {
            if let Some((s, k)) = again.first() {
                let k: NodeKey = borsh::from_slice(k).unwrap();
                w.fail(&["C18"], "append-revives-stale", format!("{k:?} is written again although it is recorded stale since {s}; pruning will delete it"));
            }
        } else if !again.is_empty() {
            // Known finding: an append can create a node again that an earlier append to the same
            // version recorded stale, and the batch cannot take the record back.
            w.probe("append_revives_stale");
            ops.extend(again.into_iter().map(|(s, k)| DiskOp::DelStale(s, k)));
        }
    }
    for s in &c.batch.stale_node_index_batch {
        ops.push(DiskOp::AddStale(s.stale_since_version, nk_bytes(&s.node_key)));
    }
    for i in st..st + cnt {
        for (k, _) in &w.plan.stages[i].ups {
            let k = *k as usize % w.keys.len();
            if let Some(p) = &w.pres[k] {
                ops.push(DiskOp::PutPre(w.keys[k], p.clone()));
            }
        }
    }
    ops.push(DiskOp::Stages(st + cnt));
    ops
}

fn prunes<H: Hs>(w: &W<H>, n: usize) -> bool {
    w.plan.nodes[n].tasks.iter().flatten().any(|o| o.k == K::Prune)
}

/// The lowest version the next update still reads.
pub fn base_readable<H: Hs>(w: &W<H>, n: usize, st: usize) -> bool {
    if st == 0 {
        // Deleting from an empty tree at version 0 looks at a stored version 0 (the library's
        // tests want it so); a first version without deletions starts from an empty tree.
        return w.nodes[n].disk.borrow().meta.stages == 0 || w.plan.start > 0 || w.updates(0).iter().all(|u| u.1.is_some());
    }
    let m = w.nodes[n].disk.borrow().meta.clone();
    if let Some(r) = m.restored_at {
        if w.stages[st - 1].version < r {
            return false;
        }
    }
    w.stages[st - 1].version >= m.min_readable
}

pub fn committer<H: Hs>(w: &W<H>, n: usize) {
    let node = &w.nodes[n];
    let groups = &w.plan.nodes[n].groups;
    loop {
        if w.sh.stop.get() {
            return;
        }
        let st = node.disk.borrow().meta.stages;
        if st >= w.stages.len() {
            for _ in 0..20 {
                if w.sync(n) {
                    break;
                }
            }
            node.done.set(true);
            w.note(|| format!("node {n} reached the end of the log"));
            return;
        }
        let gi = node.next_group.get();
        node.next_group.set(gi + 1);
        let g = if groups.is_empty() {
            Group { n: 1, api: 0, sync: true, twice: false }
        } else {
            groups[gi % groups.len()]
        };
        let append = st > 0 && w.plan.stages[st].append;
        let mut cnt = 1;
        if !append {
            while cnt < g.n as usize && st + cnt < w.stages.len() && !w.plan.stages[st + cnt].append {
                cnt += 1;
            }
        }
        let before = if matches!(w.target, "C03" | "C04" | "C18") && st > 0 {
            w.reach(n, w.stages[st - 1].version).ok()
        } else {
            None
        };
        let mut r = Rng::sub(w.plan.seed ^ ((gi as u64) << 24) ^ n as u64, 0x59ec);
        if r.below(6) == 0 && base_readable(w, n, st) {
            if r.below(4) == 0 {
                misplaced_append(w, n, st, &mut r);
            } else {
                speculate(w, n, st, r.below(4) as u8, &mut r);
            }
            if w.sh.stop.get() {
                return;
            }
        }
        let Some(mut c) = compute(w, n, st, cnt, g.api, append) else {
            // Something is broken; whether it is this run's business was decided there.
            w.sh.stop.set(true);
            return;
        };
        w.note(|| format!("node {n} computed stages {st}..{} api {} append {append}", st + cnt, g.api));
        check_batch(w, n, st, cnt, append, false, &c);
        if let Some(ps) = c.proofs.take() {
            for (i, p) in ps.into_iter().enumerate() {
                check_own_update_proof(w, st + i, p);
            }
        }
        if g.twice {
            twice(w, n, st, cnt, g.api, append, &c);
        }
        // Write, riding out failures the way a careful node does.
        let ops = commit_ops(w, n, st, cnt, &c);
        let mut tries = 0;
        let mut ambiguous = false;
        loop {
            match w.write(n, &ops) {
                Ok(()) => break,
                Err(_) => {
                    let now = node.disk.borrow().meta.stages;
                    w.note(|| format!("node {n} write failed, store holds {now} stages"));
                    if now == st + cnt {
                        w.probe("ambiguous_commit");
                        ambiguous = true;
                        break;
                    }
                    tries += 1;
                    if tries > 40 {
                        w.sh.stop.set(true);
                        return;
                    }
                    suspend(Wait::Until(w.sh.now.get() + 500));
                }
            }
        }
        w.mark(mix(0xC0 ^ st as u64 ^ ((n as u64) << 32) ^ c.roots.last().map_or(0, |r| r.0[0] as u64)));
        w.probe(match (append, cnt > 1, g.api) {
            (true, _, _) => "commit_append",
            (_, true, 1) => "commit_multi_with_proof",
            (_, true, 2 | 3) => "commit_multi_batch",
            (_, true, _) => "commit_multi",
            (_, _, 1) => "commit_with_proof",
            (_, _, 2 | 3) => "commit_batch",
            _ => "commit",
        });
        check_committed(w, n, st, cnt, append, before);
        // What was just committed reads back through the tree that computed it.
        if r.below(3) == 0 {
            let v = w.stages[st + cnt - 1].version;
            if w.readable(n).map_or(false, |(lo, hi)| lo <= v && v <= hi) {
                let kind = [K::Root, K::Root, K::Count, K::Proof, K::Get][r.below(5)];
                let key = pick_key(w, r.u64() as u32, r.u64());
                read_once(w, n, kind, v, key, r.u64(), false);
                if w.sh.stop.get() {
                    return;
                }
            }
        }
        if mix(w.plan.seed ^ ((st as u64) << 20) ^ 0x6e5) % 8 == 0 {
            crate::genesis::new_genesis(w, n, st, w.plan.seed ^ ((st as u64) << 20));
        }
        // Re-execution of a group that is already stored (ambiguous acknowledgement).
        if (ambiguous || (g.twice && gi % 2 == 0)) && base_readable(w, n, st) {
            redo(w, n, st, cnt, g.api, append);
        }
        if g.sync {
            w.sync(n);
        }
    }
}

/// Computes the same group again (possibly through another interface) and compares.
fn twice<H: Hs>(w: &W<H>, n: usize, st: usize, cnt: usize, api: u8, append: bool, c: &Computed<H>) {
    let other = if append { 0 } else { [1, 0, 1, 2][api as usize % 4] };
    if !base_readable(w, n, st) {
        return;
    }
    let Some(c2) = compute(w, n, st, cnt, other, append) else {
        return;
    };
    w.probe("computed_twice");
    w.eval(&["C05", "C08"]);
    if c2.roots != c.roots {
        w.fail(&["C05", "C08"], "not-a-function", format!("stages {st}..{}: apis {api} and {other} give different roots", st + cnt));
        return;
    }
    // The plain and the proof-producing interface must store the same tree.
    if (api < 2 && other < 2) && c2.batch.node_batch != c.batch.node_batch {
        w.fail(&["C08", "C05"], "different-tree", format!("stages {st}..{}: apis {api} and {other} store different nodes or values", st + cnt));
    }
    if (api < 2 && other < 2) && c2.batch.stale_node_index_batch != c.batch.stale_node_index_batch {
        w.fail(&["C08", "C04"], "different-stale", format!("stages {st}..{}: apis {api} and {other} record different stale nodes", st + cnt));
    }
}

fn redo<H: Hs>(w: &W<H>, n: usize, st: usize, cnt: usize, api: u8, append: bool) {
    let Some(c) = compute(w, n, st, cnt, if append { 0 } else { api }, append) else {
        if base_readable(w, n, st) {
            w.sh.stop.set(true);
        }
        return;
    };
    if !base_readable(w, n, st) {
        return;
    }
    w.probe("re_executed_over_stored");
    if append {
        w.eval(&["C18"]);
    }
    check_batch(w, n, st, cnt, append, true, &c);
    if prunes(w, n) || w.sh.stop.get() {
        return;
    }
    // Nobody prunes here, so writing it once more must change nothing that matters.
    let ops = commit_ops(w, n, st, cnt, &c);
    if w.write(n, &ops).is_ok() {
        check_committed(w, n, st, cnt, append, None);
        check_all_versions(w, n, "after re-execution");
    }
}

/// A proof returned with an update must convince a client that knows only the roots.
fn check_own_update_proof<H: Hs>(w: &W<H>, i: usize, p: UpdateMerkleProof<H>) {
    w.eval(&["C08"]);
    let old = RootHash(w.before(i).root);
    let new = RootHash(w.stages[i].root);
    let ups = w.updates(i);
    if w.before(i).leaves.len() == 1 {
        w.probe("update_proof_from_single_leaf");
    }
    match call(|| p.verify_update(old, new, ups.clone())) {
        Out::Ok(()) => w.probe("update_proof_verified"),
        Out::Err(e) => w.fail(&["C08"], "update-proof-rejected", format!("stage {i} ({} updates on {} leaves): {e:#}", ups.len(), w.before(i).leaves.len())),
        Out::Panic(e) => w.fail(&["C08", "C16"], "update-proof-panics", format!("stage {i}: {e}")),
    }
}

// ------------------------------------------------------------------------------ actors

fn actor<H: Hs>(w: &W<H>, n: usize, i: usize) {
    let ops = &w.plan.nodes[n].tasks[i];
    loop {
        if w.sh.stop.get() {
            return;
        }
        let at = w.nodes[n].next_op.borrow()[i];
        let Some(op) = ops.get(at) else { return };
        suspend(Wait::Ready);
        // Wait for something to read, but not forever.
        let mut waited = 0;
        while w.readable(n).is_none() && waited < 400 && !w.sh.stop.get() {
            suspend(Wait::Until(w.sh.now.get() + 2_000));
            waited += 1;
            if w.nodes[n].done.get() {
                break;
            }
        }
        if w.readable(n).is_some() {
            // Ops with a late selector let the log grow first.
            if op.d % 3 == 2 && !w.nodes[n].done.get() {
                let st = w.nodes[n].disk.borrow().meta.stages;
                let mut t = 0;
                while !w.nodes[n].done.get() && w.nodes[n].disk.borrow().meta.stages == st && t < 50 {
                    suspend(Wait::Until(w.sh.now.get() + 700));
                    t += 1;
                }
            }
            run_op(w, n, op);
        }
        w.nodes[n].next_op.borrow_mut()[i] = at + 1;
    }
}

/// Key selector: mostly keys of the universe, sometimes neighbours of them or random ones.
pub fn pick_key<H: Hs>(w: &World<H>, b: u32, c: u64) -> Key {
    let mut r = Rng::sub(c, 0x6b);
    if w.keys.is_empty() {
        return r.arr32();
    }
    let k = w.keys[b as usize % w.keys.len()];
    match r.below(10) {
        0..=6 => k,
        7 => {
            // shares a random number of bits, then differs
            let mut k2 = k;
            let i = r.below(256);
            k2[i / 8] ^= 0x80 >> (i % 8);
            k2
        }
        8 => {
            let mut k2 = k;
            if r.chance(1, 2) {
                for x in k2.iter_mut().rev() {
                    *x = x.wrapping_add(1);
                    if *x != 0 {
                        break;
                    }
                }
            } else {
                for x in k2.iter_mut().rev() {
                    let z = *x == 0;
                    *x = x.wrapping_sub(1);
                    if !z {
                        break;
                    }
                }
            }
            k2
        }
        _ => match r.below(3) {
            0 => [0; 32],
            1 => [0xff; 32],
            _ => r.arr32(),
        },
    }
}

fn run_op<H: Hs>(w: &W<H>, n: usize, op: &Op) {
    match op.k {
        K::Prune => return crate::tasks::prune(w, n, op),
        K::Missing => return missing(w, n, op, None),
        K::Watch => return watch(w, n, op),
        K::SweepRead => return sweep_read(w, n, op),
        K::Audit => return audit(w, n, op),
        K::SweepPut => return sweep_put(w, n, op),
        K::Rest => return suspend(Wait::Until(w.sh.now.get() + 1_000 + op.c % 9_000)),
        _ => {}
    }
    let Some(v) = w.pick_version(n, op.a) else { return };
    let key = pick_key(w, op.b, op.c);
    for _ in 0..5 {
        let inj = read_once(w, n, op.k, v, key, op.c, true);
        if w.sh.stop.get() || inj == 0 {
            break;
        }
    }
    w.mark(op.k as u64 ^ (v << 8));
}

/// Every key of a version, and a key for every free place of every node, is read.
fn audit<H: Hs>(w: &W<H>, n: usize, op: &Op) {
    let Some(v) = w.pick_version(n, op.a) else { return };
    let Some(t) = w.truth(v) else { return };
    let mut r = Rng::sub(op.c, 0xaad);
    let kinds: &[K] = match w.target {
        "C02" => &[K::Get, K::Proof],
        "C03" | "C05" => &[K::Get, K::Proof, K::Excl],
        "C06" => &[K::Proof],
        "C10" => &[K::Excl],
        "C11" => &[K::Ics],
        "C12" => &[K::Iter],
        "C13" => &[K::Range, K::Get],
        _ => &[K::Get, K::Proof, K::Excl],
    };
    let here: Vec<Key> = t.state.keys().copied().collect();
    let mut all = here.clone();
    let mut deep = 0;
    for p in here.windows(2) {
        let bits = (0..256).take_while(|b| (p[0][b / 8] ^ p[1][b / 8]) << (b % 8) & 0x80 == 0).count();
        let nib = bits / 4;
        for x in 0..16u8 {
            deep = deep.max(nib);
            let mut k = if r.chance(1, 2) { p[0] } else { p[1] };
            let sh = if nib % 2 == 0 { 4 } else { 0 };
            k[nib / 2] = k[nib / 2] & !(0xf << sh) | x << sh;
            if r.chance(1, 2) {
                for b in k.iter_mut().skip(nib / 2 + 1) {
                    *b = *r.pick(&[0, 0xff, *b, r.clone().byte()]);
                }
            }
            all.push(k);
        }
    }
    all.sort();
    all.dedup();
    let mut jobs: Vec<(K, Key)> = all.iter().flat_map(|k| kinds.iter().map(move |x| (*x, *k))).collect();
    r.shuffle(&mut jobs);
    jobs.truncate(2000 / (8 + deep) / if w.target == "C12" { 4 } else { 1 });
    for (kind, key) in jobs {
        let c = r.u64();
        read_once(w, n, kind, v, key, c, true);
        if w.sh.stop.get() || w.nodes[n].disk.borrow().meta.min_readable > v {
            return;
        }
    }
    w.probe("audited");
    w.mark(0xa0d17 ^ (v << 8));
}

/// Every read of the operation fails in turn; then it must work again.
fn sweep_read<H: Hs>(w: &W<H>, n: usize, op: &Op) {
    let kinds = [K::Proof, K::Get, K::Root, K::Count, K::Excl, K::Ics, K::Range, K::Iter, K::IterIdx];
    let kind = kinds[op.d as usize % kinds.len()];
    let Some(v) = w.pick_version(n, op.a) else { return };
    let key = pick_key(w, op.b, op.c);
    for i in 0..400 {
        let me = w.sh.cur_key.get();
        w.armed.borrow_mut().insert(me, i);
        let inj = read_once(w, n, kind, v, key, op.c, true);
        let fired = w.armed.borrow_mut().remove(&me).is_none();
        if w.sh.stop.get() {
            return;
        }
        if !fired && inj == 0 {
            w.probe("read_sweep_finished");
            break;
        }
        if w.nodes[n].disk.borrow().meta.min_readable > v {
            break;
        }
    }
}

/// An update that is not in the log, on top of `base`.
fn other_update<H: Hs>(w: &W<H>, base: &StageTruth, mut v: u64, api: u8, append: bool, r: &mut Rng) -> (Vec<Updates>, Vec<StageTruth>) {
    let mut sets = vec![];
    let mut state = base.state.clone();
    let mut truths = vec![];
    for _ in 0..if append { 1 } else { r.range(1, 2) } {
        let mut ups: Updates = vec![];
        for _ in 0..r.range(1, 4) {
            let k = pick_key(w, r.u64() as u32, r.u64());
            let val = if r.chance(1, 3) && api < 2 {
                None
            } else {
                Some(val_bytes(r.below(1 << 20) as u32, r.range(1, 9) as u32))
            };
            apply(&mut state, &k, &val.clone().map(Rc::new));
            ups.push((KeyHash(k), val));
        }
        sets.push(ups);
        truths.push(StageTruth::new::<H>(v, state.clone()));
        if v >= u64::MAX - 1 {
            break;
        }
        v += 1;
    }
    (sets, truths)
}

/// An append to another version than the one the greatest leaf was written at is refused.
fn misplaced_append<H: Hs>(w: &W<H>, n: usize, st: usize, r: &mut Rng) {
    let base = w.before(st);
    let top = if st == 0 { None } else { rightmost(&w.nodes[n].disk.borrow(), base.version).map(|(k, _)| k.version()) };
    let v = match r.below(4) {
        0 => base.version.wrapping_add(1),
        1 => base.version.wrapping_sub(1),
        2 => top.unwrap_or(0).wrapping_add(1),
        _ => base.version,
    };
    if Some(v) == top {
        return;
    }
    let (sets, _) = other_update(w, base, v, 0, true, r);
    let h = w.open(n);
    w.eval(&["C18"]);
    w.probe("misplaced_append");
    match compute_once(&h.tree, &sets, v, 0, true, &[]) {
        Out::Ok(_) => w.fail(&["C18"], "misplaced-append", format!("an append to version {v} was computed, the greatest leaf is at {top:?}")),
        Out::Panic(e) => w.fail(&["C18"], "append-panics", format!("an append to version {v}, the greatest leaf is at {top:?}: {e}")),
        Out::Err(_) => {}
    }
}

/// Computes an update that will not be committed, with the tree the next one is computed with.
fn speculate<H: Hs>(w: &W<H>, n: usize, st: usize, api: u8, r: &mut Rng) {
    let base = w.before(st);
    let v = if st > 0 { base.version.checked_add(1) } else { Some(w.stages[0].version) };
    let Some(v) = v else { return };
    let api = if api >= 2 && st == 0 { 0 } else { api };
    let (sets, truths) = other_update(w, base, v, api, false, r);
    let tr: Vec<&StageTruth> = truths.iter().collect();
    let caches = if api == 3 { hash_caches::<H>(&tr) } else { vec![] };
    let h = w.open(n);
    let out = compute_once(&h.tree, &sets, v, api, false, &caches);
    if !base_readable(w, n, st) {
        return;
    }
    let inj = h.store.inj.get();
    w.probe("speculated");
    let Some(c) = judge_put(w, n, out, inj, &tr, api, false, "speculation") else { return };
    let mut before = base.root;
    for (i, p) in c.proofs.into_iter().flatten().enumerate() {
        w.eval(&["C08"]);
        if let Out::Err(e) = call(|| p.verify_update(RootHash(before), RootHash(tr[i].root), sets[i].clone())) {
            w.fail(&["C08"], "update-proof-rejected", format!("speculation at version {}: {e:#}", tr[i].version));
        }
        before = tr[i].root;
    }
}

/// Every read of an update computation on top of the latest version fails in turn.
fn sweep_put<H: Hs>(w: &W<H>, n: usize, op: &Op) {
    let mut r = Rng::sub(op.c, 0x57);
    let st = w.nodes[n].disk.borrow().meta.stages;
    if st == 0 {
        return;
    }
    let base = &w.stages[st - 1];
    // Sometimes the update is appended to the latest version instead.
    let append = op.d % 5 == 4 && rightmost(&w.nodes[n].disk.borrow(), base.version).map_or(false, |(k, _)| k.version() == base.version);
    let Some(v) = base.version.checked_add(if append { 0 } else { 1 }) else { return };
    let api = if append { 0 } else { (op.d % 5 % 4) as u8 };
    let (sets, truths) = other_update(w, base, v, api, append, &mut r);
    let tr: Vec<&StageTruth> = truths.iter().collect();
    let caches = if api == 3 { hash_caches::<H>(&tr) } else { vec![] };
    let mut spoiled: Option<Computed<H>> = None;
    for i in 0..400 {
        if w.nodes[n].disk.borrow().meta.stages != st {
            return;
        }
        let me = w.sh.cur_key.get();
        w.armed.borrow_mut().insert(me, i);
        let h = w.open(n);
        let out = compute_once(&h.tree, &sets, tr[0].version, api, append, &caches);
        let fired = w.armed.borrow_mut().remove(&me).is_none();
        if w.nodes[n].disk.borrow().meta.min_readable > base.version || w.nodes[n].disk.borrow().meta.stages != st {
            return;
        }
        let inj = h.store.inj.get();
        let c = judge_put(w, n, out, inj, &tr, api, append, "sweep");
        if w.sh.stop.get() {
            return;
        }
        if inj > 0 {
            spoiled = c.or(spoiled);
            continue;
        }
        if !fired {
            w.probe(if append { "append_sweep_finished" } else { "update_sweep_finished" });
            // A failed read that was hidden must not have changed what the update returns.
            if let (Some(a), Some(b)) = (c, spoiled) {
                w.eval(&["C15"]);
                if a.batch != b.batch {
                    w.fail(&["C15"], "spoiled-batch", format!("api {api} append {append}: an update that hid a failed read returned another batch"));
                }
            }
            return;
        }
    }
}

/// Judges the outcome of a read. `Some` when there is a result to look at.
fn judge<H: Hs, T>(
    w: &W<H>,
    n: usize,
    v: u64,
    inj: u64,
    out: Out<T>,
    props: &[P],
    what: &str,
) -> Option<T> {
    let pruned = w.nodes[n].disk.borrow().meta.min_readable > v;
    if inj > 0 {
        w.eval(&["C15"]);
    }
    match out {
        Out::Ok(t) => Some(t),
        Out::Panic(p) => {
            if inj > 0 || pruned {
                w.fail(&["C15"], "panic-on-read-error", format!("{what} at version {v}: {p}"));
            } else {
                w.fail(&w.ctx(n, props), "read-panics", format!("{what} at version {v}: {p}"));
            }
            None
        }
        Out::Err(e) => {
            let missing = e.chain().any(|c| c.downcast_ref::<MissingRootError>().is_some())
                || e.downcast_ref::<MissingRootError>().is_some();
            let stored = w.nodes[n].disk.borrow().nodes.contains_key(&nk_bytes(&node_key(v, &[])));
            if missing && stored {
                w.fail(&plus(props, &["C15"]), "reported-missing", format!("{what}: version {v} is stored but reported missing: {e:#}"));
            } else if inj == 0 && !pruned {
                w.fail(&w.ctx(n, props), "read-fails", format!("{what} at version {v}: {e:#}"));
            }
            None
        }
    }
}

/// One read operation, checked. Returns the number of read errors injected into it.
pub fn read_once<H: Hs>(w: &W<H>, n: usize, kind: K, v: u64, key: Key, sub: u64, _retry: bool) -> u64 {
    let Some(t) = w.truth(v) else { return 0 };
    let h = w.open(n);
    let (store, tree) = (&h.store, &h.tree);
    let root = RootHash(t.root);
    let want = t.state.get(&key).map(|x| (**x).clone());
    let x = |base: &[P]| -> Vec<P> {
        let mut p = w.ctx(n, base);
        if store.inj.get() > 0 {
            p.push("C15");
        }
        p
    };
    match kind {
        K::Get => {
            w.eval(&["C02"]);
            let out = call(|| tree.get(kh(&key), v));
            if let Some(got) = judge(w, n, v, store.inj.get(), out, &["C02"], "get") {
                if got != want {
                    w.fail(&x(&["C02"]), "wrong-value", format!("get {} at {v} gives {:?}, expected {:?}", short(&key), got.map(|b| short(&b)), want.as_ref().map(|b| short(b))));
                }
            }
        }
        K::Proof => {
            w.eval(&["C02", "C06"]);
            let out = call(|| tree.get_with_proof(kh(&key), v));
            if let Some((got, proof)) = judge(w, n, v, store.inj.get(), out, &["C02", "C06"], "get_with_proof") {
                if got != want {
                    w.fail(&x(&["C02", "C06"]), "wrong-value", format!("get_with_proof {} at {v} gives {:?}, expected {:?}", short(&key), got.as_ref().map(|b| short(b)), want.as_ref().map(|b| short(b))));
                } else {
                    check_honest_proof(w, n, &proof, root, &key, got.as_deref(), &x(&["C06"]));
                }
            }
        }
        K::Root => {
            w.eval(&["C02", "C05"]);
            let out = call(|| Ok((tree.get_root_hash_option(v)?, tree.get_root_hash(v)?)));
            if let Some((a, b)) = judge(w, n, v, store.inj.get(), out, &["C02", "C05"], "get_root_hash") {
                if a.is_none() {
                    w.fail(&x(&["C02", "C15"]), "reported-missing", format!("get_root_hash_option({v}) is None"));
                } else if a != Some(root) || b != root {
                    w.fail(&x(&["C02", "C05"]), "wrong-root", format!("root of version {v} read as {}, expected {}", short(&b.0), short(&t.root)));
                }
            }
        }
        K::Count => {
            w.eval(&["C19", "C02"]);
            let out = call(|| tree.get_leaf_count(v));
            if let Some(c) = judge(w, n, v, store.inj.get(), out, &["C19", "C02"], "get_leaf_count") {
                if c != t.state.len() {
                    w.fail(&x(&["C19", "C02"]), "leaf-count", format!("leaf count of version {v} is {c}, it holds {}", t.state.len()));
                }
            }
        }
        K::Excl => {
            w.eval(&["C10"]);
            let out = call(|| tree.get_with_exclusion_proof(kh(&key), v));
            if t.state.is_empty() {
                // No neighbours to name: an error is the documented answer.
                if let Out::Panic(p) = out {
                    w.fail(&["C10", "C15"], "read-panics", format!("exclusion proof on the empty version {v}: {p}"));
                }
            } else if let Some(r) = judge(w, n, v, store.inj.get(), out, &["C10"], "get_with_exclusion_proof") {
                check_exclusion(w, t, &key, r, &x(&["C10"]));
            }
        }
        K::Ics => {
            let pre = match w.key_pre.get(&key) {
                Some(p) => p.clone(),
                None if H::SIM => key.to_vec(),
                None => {
                    // an absent key: any preimage of its own
                    let mut r = Rng::sub(sub, 0x1c5);
                    let l = r.range(1, 40);
                    r.bytes(l)
                }
            };
            ics_read(w, n, v, t, pre, store, tree, sub);
        }
        K::Range => {
            w.eval(&["C13"]);
            let out = call(|| tree.get_range_proof(kh(&key), v));
            if want.is_none() {
                if let Out::Panic(p) = &out {
                    w.fail(&["C13", "C15"], "read-panics", format!("get_range_proof of an absent key: {p}"));
                }
                if let Out::Ok(_) = out {
                    w.fail(&x(&["C13", "C14"]), "range-proof-absent", format!("a range proof was made for absent key {} at {v}", short(&key)));
                }
            } else if let Some(p) = judge(w, n, v, store.inj.get(), out, &["C13"], "get_range_proof") {
                check_range_proof(w, t, &key, &p, &x(&["C13"]));
            }
        }
        K::Iter => iterate(w, n, v, t, Some(key), 0, store, sub),
        K::IterIdx => {
            let mut r = Rng::sub(sub, 0x1d);
            let idx = match r.below(8) {
                0 => t.leaves.len(),
                1 => t.leaves.len() + r.below(4) + 1,
                2 => usize::MAX,
                3 => 0,
                _ => r.below(t.leaves.len() + 1),
            };
            iterate(w, n, v, t, None, idx, store, sub)
        }
        _ => {}
    }
    store.inj.get()
}

pub fn mirror<H: Hs>(p: &SparseMerkleProof<H>) -> PProof {
    borsh::from_slice::<PProof>(&borsh::to_vec(p).expect("borsh")).expect("proof layout")
}
pub fn unmirror<H: Hs>(p: &PProof) -> SparseMerkleProof<H> {
    borsh::from_slice(&borsh::to_vec(p).expect("borsh")).expect("proof layout")
}

/// A proof the library returned for a true statement must verify, here and elsewhere.
pub fn check_honest_proof<H: Hs>(
    w: &World<H>,
    n: usize,
    proof: &SparseMerkleProof<H>,
    root: RootHash,
    key: &Key,
    val: Option<&[u8]>,
    props: &[P],
) {
    let _ = n;
    w.eval(&["C06"]);
    match call(|| proof.verify(root, kh(key), val)) {
        Out::Ok(()) => {}
        Out::Err(e) => w.fail(props, "honest-proof-rejected", format!("key {} value {:?}: {e:#}", short(key), val.map(|b| short(b)))),
        Out::Panic(e) => w.fail(&plus(props, &["C16"]), "verify-panics", e),
    }
    // A copy is as good as the original.
    let copy = call(|| {
        let c = proof.clone();
        Ok(c == *proof && format!("{c:?}") == format!("{proof:?}") && c.verify(root, kh(key), val).is_ok())
    });
    if !matches!(copy, Out::Ok(true)) && w.target == "C06" {
        if let Out::Panic(e) = copy {
            w.fail(props, "copy-panics", e);
        } else if matches!(call(|| proof.verify(root, kh(key), val)), Out::Ok(())) {
            w.fail(props, "copy-differs", format!("a copy of the proof for key {} is not the proof", short(key)));
        }
    }
    let side = match val {
        Some(v) => call(|| proof.verify_existence(root, kh(key), v)),
        None => call(|| proof.verify_nonexistence(root, kh(key))),
    };
    if let Out::Err(e) = side {
        w.fail(props, "honest-proof-rejected", format!("key {}: {e:#}", short(key)));
    }
    let m = mirror(proof);
    w.probe(match (&m.leaf, val) {
        (Some(_), Some(_)) => "proof_inclusion",
        (Some(_), None) => "proof_absence_by_leaf",
        _ if m.siblings.is_empty() => "proof_absence_empty_tree",
        _ => "proof_absence_by_gap",
    });
    if m.siblings.len() >= 128 {
        w.probe("proof_deep");
    }
    if !ref_verify::<H>(&m, &root.0, key, val.map(|v| H::h(v))) {
        w.fail(props, "not-interoperable", format!("the proof for key {} does not verify under the documented format", short(key)));
    }
    // The root a proof computes from its own leaf is the root it was made under.
    if m.leaf.is_some() {
        match call(|| Ok(proof.root_hash())) {
            Out::Ok(r) if r == root => {}
            Out::Ok(r) => w.fail(props, "computed-root", format!("the proof for key {} computes the root {:?}, not {:?}", short(key), r, root)),
            Out::Err(e) => w.fail(props, "computed-root", format!("{e:#}")),
            Out::Panic(e) => w.fail(&plus(props, &["C16"]), "root-hash-panics", e),
        }
    }
    // The opposite claims must fail.
    w.eval(&["C07"]);
    let lie = match val {
        Some(_) => call(|| proof.verify_nonexistence(root, kh(key))),
        None => call(|| proof.verify_existence(root, kh(key), b"something")),
    };
    if let Out::Ok(()) = lie {
        w.fail(&["C07"], "false-claim-accepted", format!("the proof for key {} also proves the opposite", short(key)));
    }
    if let Some(v) = val {
        let mut v2 = v.to_vec();
        if v2.is_empty() {
            v2.push(0)
        } else {
            v2[0] ^= 1;
        }
        if let Out::Ok(()) = call(|| proof.verify_existence(root, kh(key), &v2)) {
            w.fail(&["C07"], "false-claim-accepted", format!("the proof for key {} also proves another value", short(key)));
        }
    }
}

pub fn check_exclusion<H: Hs>(
    w: &World<H>,
    t: &StageTruth,
    key: &Key,
    r: Result<(OwnedValue, SparseMerkleProof<H>), jmt::ExclusionProof<H>>,
    props: &[P],
) {
    let root = RootHash(t.root);
    let want = t.state.get(key);
    let lo = t.state.range(..*key).next_back();
    let hi = t.state.range((std::ops::Bound::Excluded(*key), std::ops::Bound::Unbounded)).next();
    match r {
        Ok((val, proof)) => {
            if want.map(|v| &**v) != Some(&val) {
                w.fail(props, "wrong-value", format!("exclusion query of {} gives a value {:?}", short(key), short(&val)));
            } else {
                check_honest_proof(w, 0, &proof, root, key, Some(&val), props);
            }
        }
        Err(e) => {
            if want.is_some() {
                w.fail(props, "excluded-but-present", format!("key {} is present but excluded", short(key)));
                return;
            }
            let (l, r) = match e {
                jmt::ExclusionProof::Leftmost { leftmost_right_proof } => (None, Some(leftmost_right_proof)),
                jmt::ExclusionProof::Rightmost { rightmost_left_proof } => (Some(rightmost_left_proof), None),
                jmt::ExclusionProof::Middle { leftmost_right_proof, rightmost_left_proof } => (Some(rightmost_left_proof), Some(leftmost_right_proof)),
            };
            w.probe(match (&l, &r) {
                (Some(_), Some(_)) => "exclusion_middle",
                (None, _) => "exclusion_leftmost",
                _ => "exclusion_rightmost",
            });
            for (side, p, nb) in [("left", l, lo), ("right", r, hi)] {
                match (p, nb) {
                    (None, None) => {}
                    (Some(p), Some((nk, nv))) => {
                        let m = mirror(&p);
                        if m.leaf.as_ref().map(|l| l.key) != Some(*nk) {
                            w.fail(props, "wrong-neighbour", format!("{side} neighbour of {} is {:?}, expected {}", short(key), m.leaf.map(|l| short(&l.key)), short(nk)));
                        } else {
                            check_honest_proof(w, 0, &p, root, nk, Some(nv), props);
                        }
                    }
                    (p, nb) => w.fail(props, "wrong-sides", format!("{side} side of {}: proof {}, neighbour {}", short(key), p.is_some(), nb.is_some())),
                }
            }
        }
    }
}

pub fn check_range_proof<H: Hs>(w: &World<H>, t: &StageTruth, key: &Key, p: &SparseMerkleRangeProof<H>, props: &[P]) {
    let full = ref_proof::<H>(&t.leaves, key);
    let n = full.siblings.len();
    let left: Vec<[u8; 32]> = full
        .siblings
        .iter()
        .enumerate()
        .filter(|(i, _)| bit(key, n - 1 - i))
        .map(|(_, s)| sib_hash::<H>(s))
        .collect();
    let leaf = borsh::from_slice(&borsh::to_vec(&full.leaf.clone().unwrap()).unwrap()).unwrap();
    match call(|| p.verify(RootHash(t.root), leaf, left)) {
        Out::Ok(()) => w.probe("range_proof_verified"),
        Out::Err(e) => w.fail(props, "range-proof-rejected", format!("key {}: {e:#}", short(key))),
        Out::Panic(e) => w.fail(&plus(props, &["C16"]), "range-verify-panics", e),
    }
}

pub fn ics_ok<H: Hs>(proof: &ics23::CommitmentProof, root: &[u8; 32], key: &[u8], val: Option<&[u8]>) -> bool {
    let spec = jmt::ics23_spec();
    let root = root.to_vec();
    guard(|| match val {
        Some(v) => ics23::verify_membership::<IcsHost<H>>(proof, &spec, &root, key, v),
        None => ics23::verify_non_membership::<IcsHost<H>>(proof, &spec, &root, key),
    })
    .unwrap_or(false)
}

/// Whether ICS23 can express the answer at all (it rejects empty keys and values).
pub fn ics_expressible<H: Hs>(w: &World<H>, t: &StageTruth, key: &Key, pre: &[u8]) -> bool {
    if pre.is_empty() || t.state.is_empty() {
        return false;
    }
    if let Some(v) = t.state.get(key) {
        return !v.is_empty();
    }
    let lo = t.state.range(..*key).next_back();
    let hi = t.state.range((std::ops::Bound::Excluded(*key), std::ops::Bound::Unbounded)).next();
    [lo, hi]
        .into_iter()
        .flatten()
        .all(|(k, v)| !v.is_empty() && w.key_pre.get(k).map_or(false, |p| !p.is_empty()))
}

fn ics_read<H: Hs>(
    w: &W<H>,
    n: usize,
    v: u64,
    t: &StageTruth,
    pre: Vec<u8>,
    store: &Arc<NodeStore<H>>,
    tree: &JellyfishMerkleTree<'_, NodeStore<H>, H>,
    sub: u64,
) {
    let key = H::h(&pre);
    // The store may have lost the preimage of a neighbour that an absent key needs.
    let mut r = Rng::sub(sub, 0x1d5);
    if r.chance(1, 5) && !t.state.contains_key(&key) {
        let lo = t.state.range(..key).next_back();
        let hi = t.state.range(key..).next();
        let side = if r.chance(1, 2) { lo.or(hi) } else { hi.or(lo) };
        store.hide(side.map(|x| *x.0));
    }
    let out = call(|| tree.get_with_ics23_proof(pre.clone(), v));
    store.hide(None);
    if store.inj.get() > 0 {
        w.probe("ics_without_preimage_or_read");
    }
    if !ics_expressible(w, t, &key, &pre) {
        if let Out::Panic(p) = out {
            w.fail(&["C11", "C15"], "read-panics", format!("get_with_ics23_proof: {p}"));
        }
        return;
    }
    w.eval(&["C11"]);
    let mut props = w.ctx(n, &["C11"]);
    if let Some((val, proof)) = judge(w, n, v, store.inj.get(), out, &["C11"], "get_with_ics23_proof") {
        if store.inj.get() > 0 {
            props.push("C15");
        }
        let want = t.state.get(&key).map(|x| (**x).clone());
        if val != want {
            w.fail(&props, "wrong-value", format!("get_with_ics23_proof of {} at {v}: {:?}", short(&key), val.map(|b| short(&b))));
            return;
        }
        if !ics_ok::<H>(&proof, &t.root, &pre, val.as_deref()) {
            w.fail(&props, "ics-proof-rejected", format!("key {} ({}) at version {v} with {} leaves", short(&key), if val.is_some() { "present" } else { "absent" }, t.leaves.len()));
        } else {
            w.probe(if val.is_some() { "ics_membership" } else { "ics_non_membership" });
        }
        // and not the opposite
        if val.is_some() && ics_ok::<H>(&proof, &t.root, &pre, None) {
            w.fail(&["C11"], "ics-false-claim", format!("the membership proof of {} also proves absence", short(&key)));
        }
        if val.is_none() && ics_ok::<H>(&proof, &t.root, &pre, Some(b"v")) {
            w.fail(&["C11"], "ics-false-claim", format!("the absence proof of {} also proves a value", short(&key)));
        }
    }
}

#[allow(clippy::too_many_arguments)]
fn iterate<H: Hs>(w: &W<H>, n: usize, v: u64, t: &StageTruth, from: Option<Key>, idx: usize, store: &Arc<NodeStore<H>>, sub: u64) {
    let mut r = Rng::sub(sub, 0x17e);
    let skip = match &from {
        Some(k) => t.rank_ge(k),
        None => idx.min(t.leaves.len()),
    };
    let what = match &from {
        Some(k) => format!("iterator of version {v} from key {}", short(k)),
        None => format!("iterator of version {v} from index {idx}"),
    };
    w.eval(&["C12"]);
    let out = call(|| match from {
        Some(k) => JellyfishMerkleIterator::new(store.clone(), v, kh(&k)),
        None => JellyfishMerkleIterator::new_by_index(store.clone(), v, idx),
    });
    let Some(mut it) = judge(w, n, v, store.inj.get(), out, &["C12"], &what) else {
        return;
    };
    // Some iterations stop early, some pause while the rest of the world goes on.
    let limit = if r.chance(1, 5) { r.below(6) } else { usize::MAX };
    let mut at = skip;
    let mut errs = 0u64;
    let mut ended = false;
    for step in 0.. {
        if step >= limit || w.sh.stop.get() {
            break;
        }
        if r.chance(1, 12) {
            suspend(Wait::Until(w.sh.now.get() + 500 + r.below(5_000) as u64));
        }
        let before = store.inj.get();
        let item = guard(|| it.next());
        let hit = store.inj.get() > before;
        let pruned = w.nodes[n].disk.borrow().meta.min_readable > v;
        match item {
            Err(p) => {
                if hit || pruned {
                    w.fail(&["C15"], "panic-on-read-error", format!("{what}: {p}"));
                } else {
                    w.fail(&w.ctx(n, &["C12"]), "read-panics", format!("{what}: {p}"));
                }
                return;
            }
            Ok(Some(Err(e))) => {
                if !hit && at > skip && at == t.leaves.len() {
                    // Nothing is left to read, so nothing that happens to the store matters.
                    w.fail(&["C12"], "iterator-error-at-end", format!("{what} gives an error after its last pair: {e:#}"));
                    return;
                }
                if pruned {
                    return;
                }
                if !hit {
                    w.fail(&w.ctx(n, &["C12"]), "read-fails", format!("{what}: {e:#}"));
                    return;
                }
                errs += 1;
                w.probe("iterator_error_item");
                if errs > 60 {
                    return;
                }
            }
            Ok(None) => {
                ended = true;
                if at != t.leaves.len() {
                    let mut p = w.ctx(n, &["C12"]);
                    if store.inj.get() > 0 {
                        p.push("C15");
                    }
                    w.fail(&p, "iterator-ends-early", format!("{what} ended after {} of {} pairs ({errs} errors on the way)", at - skip, t.leaves.len() - skip));
                    return;
                }
                break;
            }
            Ok(Some(Ok((k, val)))) => {
                let exp = t.leaves.get(at);
                let good = exp.map_or(false, |l| l.0 == k.0 && *t.state[&l.0] == val);
                if !good {
                    let mut p = w.ctx(n, &["C12"]);
                    if store.inj.get() > 0 {
                        p.push("C15");
                    }
                    w.fail(
                        &p,
                        "iterator-wrong-pair",
                        format!("{what} gives {} as pair {at}, expected {:?} ({errs} errors on the way)", short(&k.0), exp.map(|l| short(&l.0))),
                    );
                    return;
                }
                at += 1;
            }
        }
    }
    if ended {
        w.probe("iterator_finished");
        // It stays ended.
        for i in 0..2 {
            if i == 1 && r.chance(1, 3) {
                suspend(Wait::Until(w.sh.now.get() + 500 + r.below(20_000) as u64));
                if w.sh.stop.get() {
                    return;
                }
            }
            match guard(|| it.next()) {
                Ok(None) => {}
                Ok(Some(Err(e))) => {
                    w.fail(&["C12"], "iterator-resumes", format!("{what} gives an error after its end: {e:#}"));
                    return;
                }
                Ok(Some(Ok((k, _)))) => {
                    w.fail(&w.ctx(n, &["C12"]), "iterator-resumes", format!("{what} gives {} after its end", short(&k.0)));
                    return;
                }
                Err(p) => {
                    let pr: &[P] = if store.inj.get() > 0 { &["C15", "C12"] } else { &["C12"] };
                    w.fail(pr, "read-panics", format!("{what} after its end: {p}"));
                    return;
                }
            }
        }
    }
}

/// Waits for the next version of the log, asking for it all the while, and reads it repeatedly
/// once it is there.
fn watch<H: Hs>(w: &W<H>, n: usize, op: &Op) {
    let mut r = Rng::sub(op.c, 0x3a7);
    let at = || {
        let m = w.nodes[n].disk.borrow().meta.stages;
        w.stages[m.min(w.stages.len() - 1)].version
    };
    let mut v = at();
    let here = |v: u64| w.readable(n).map_or(false, |(lo, hi)| v >= lo && v <= hi);
    for i in 0..r.range(4, 40) {
        if here(v) {
            break;
        }
        missing(w, n, &Op { c: op.c.wrapping_add(i as u64), ..*op }, Some(v));
        if w.sh.stop.get() {
            return;
        }
        if r.chance(1, 3) {
            suspend(Wait::Until(w.sh.now.get() + r.below(2_000) as u64));
        }
        if r.chance(1, 20) {
            v = at();
        }
    }
    if !here(v) {
        return;
    }
    w.probe("watched_version_appeared");
    let kinds = [K::Get, K::Proof, K::Root, K::Count, K::Iter, K::Excl];
    for _ in 0..r.range(2, 6) {
        if !here(v) || w.sh.stop.get() {
            return;
        }
        let (kind, sub) = (*r.pick(&kinds), r.u64());
        read_once(w, n, kind, v, pick_key(w, op.b, sub), sub, true);
        if r.chance(1, 2) {
            suspend(Wait::Until(w.sh.now.get() + r.below(9_000) as u64));
        }
    }
}

/// A version is reported missing exactly when its root is not stored.
fn missing<H: Hs>(w: &W<H>, n: usize, op: &Op, at: Option<u64>) {
    let (first, last) = (w.plan.start, w.stages.last().unwrap().version);
    let mut r = Rng::sub(op.c, 0x315);
    let v = match r.below(5) {
        _ if at.is_some() => at.unwrap_or(0),
        0 => last.saturating_add(1 + r.below(5) as u64),
        1 => first.saturating_sub(1 + r.below(5) as u64),
        2 => r.u64() >> 1,
        _ => first + r.below((last - first) as usize + 1) as u64,
    };
    let root = nk_bytes(&node_key(v, &[]));
    let stored = || w.nodes[n].disk.borrow().nodes.contains_key(&root);
    let puts = || w.nodes[n].disk.borrow().root_puts.get(&root).copied();
    let key = pick_key(w, op.b, op.c);
    let (before, puts0) = (stored(), puts());
    // Not stored, stored and gone again, all during one read.
    let moved = || stored() != before || (!before && puts() != puts0);
    let h = w.open(n);
    let (store, tree) = (&h.store, &h.tree);
    w.eval(&["C15"]);
    let which = r.below(4);
    let fail = |d: String| w.fail(&w.ctx(n, &["C15"]), "missing-version", d);
    match which {
        0 => {
            let out = call(|| tree.get_root_hash_option(v));
            if moved() {
                return;
            }
            match out {
                Out::Ok(x) if x.is_some() != before => fail(format!("get_root_hash_option({v}) is {x:?}, root stored: {before}")),
                Out::Err(e) if store.inj.get() == 0 => fail(format!("get_root_hash_option({v}): {e:#}")),
                Out::Panic(p) => fail(format!("get_root_hash_option({v}): {p}")),
                _ => {}
            }
        }
        1 | 2 => {
            let out = call(|| {
                if which == 1 {
                    tree.get_with_proof(kh(&key), v).map(|_| ())
                } else {
                    tree.get_with_exclusion_proof(kh(&key), v).map(|_| ())
                }
            });
            if before || moved() {
                return;
            }
            match out {
                Out::Ok(_) => fail(format!("a proof was returned for missing version {v}")),
                Out::Panic(p) => fail(format!("reading missing version {v}: {p}")),
                Out::Err(e) => {
                    w.probe("missing_version_reported");
                    if store.inj.get() == 0 && e.downcast_ref::<MissingRootError>().map(|m| m.version) != Some(v) {
                        fail(format!("missing version {v} gives another error: {e:#}"));
                    }
                }
            }
        }
        _ => {
            let out = call(|| {
                let a = tree.get_root_hash(v).is_ok();
                let b = tree.get_leaf_count(v).is_ok();
                let c = JellyfishMerkleIterator::new(store.clone(), v, kh(&key)).is_ok();
                Ok((a, b, c))
            });
            if before || moved() {
                return;
            }
            match out {
                Out::Ok((false, false, false)) => {}
                Out::Ok(x) => fail(format!("missing version {v} could be read: {x:?}")),
                Out::Panic(p) => fail(format!("reading missing version {v}: {p}")),
                _ => {}
            }
        }
    }
}

// ------------------------------------------------------------------------------ pruning

/// Applies the stale records up to a chosen version, in chunks, the way a pruner does.
pub fn prune<H: Hs>(w: &W<H>, n: usize, op: &Op) {
    let Some((lo, hi)) = w.readable(n) else { return };
    let mut r = Rng::sub(op.c, 0x9);
    let target = match op.a % 4 {
        0 => hi,
        _ => lo + (op.a as u64 / 4) % (hi - lo + 1),
    };
    let node = &w.nodes[n];
    // First the horizon becomes durable, then nodes go.
    for _ in 0..20 {
        let m = node.disk.borrow().meta.clone();
        if m.min_readable >= target {
            break;
        }
        if w.write(n, &[DiskOp::Horizon(target)]).is_ok() {
            break;
        }
    }
    let horizon = node.disk.borrow().meta.min_readable;
    node.pruned.set(true);
    let chunk = 1 + r.skewed(40);
    let mut fails = 0;
    let mut deleted = 0;
    loop {
        let count = Cell::new(0usize);
        let gone: RefCell<Option<Vec<u8>>> = RefCell::new(None);
        let res = w.write_with(n, || {
            let mut ops = vec![];
            let d = node.disk.borrow();
            for (s, k) in d.stale.iter() {
                if *s > horizon || ops.len() >= 2 * chunk {
                    break;
                }
                if !d.nodes.contains_key(k) {
                    *gone.borrow_mut() = Some(k.clone());
                }
                ops.push(DiskOp::DelNode(k.clone()));
                ops.push(DiskOp::DelStale(*s, k.clone()));
            }
            count.set(ops.len() / 2);
            ops
        });
        if let Some(k) = gone.take() {
            let nk: NodeKey = borsh::from_slice(&k).unwrap();
            w.fail(&stale_props(w), "stale-missing", format!("the stale record of {nk:?} refers to a node that is not stored"));
        }
        if count.get() == 0 && res.is_ok() {
            break;
        }
        match res {
            Ok(()) | Err(true) => deleted += count.get(),
            Err(false) => {
                fails += 1;
                if fails > 40 {
                    return;
                }
            }
        }
        if w.sh.stop.get() {
            return;
        }
    }
    w.note(|| format!("node {n} pruned to version {horizon}: {deleted} nodes"));
    if deleted > 0 {
        w.probe("pruned");
    }
    // No scheduling point between here and the checks.
    let d = node.disk.borrow();
    if d.stale.iter().next().map_or(false, |(s, _)| *s <= horizon) || d.meta.min_readable != horizon {
        return;
    }
    drop(d);
    w.eval(&["C03", "C04"]);
    match w.live_set(n) {
        Err(e) => w.fail(&w.ctx(n, &["C03"]), "pruned-live-node", format!("node {n} after pruning to {horizon}: {e}")),
        Ok(live) => {
            let d = node.disk.borrow();
            // A node that an append replaced waits for the horizon to reach its version.
            let waits: BTreeSet<&Vec<u8>> = if w.plan.stages.iter().any(|s| s.append) {
                d.stale.iter().map(|(_, k)| k).collect()
            } else {
                Default::default()
            };
            if let Some(k) = d.nodes.keys().find(|k| !live.contains(*k) && !waits.contains(*k)) {
                let nk: NodeKey = borsh::from_slice(k).unwrap();
                drop(d);
                w.fail(&stale_props(w), "leak", format!("node {n}: after pruning to {horizon}, {nk:?} is unreachable but still stored"));
            }
        }
    }
    check_all_versions(w, n, "after pruning");
}
