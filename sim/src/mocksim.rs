//! The in-memory store under several interleaved users, against an exact model of it.
use crate::engine::{suspend, Wait};
use crate::hashers::Hs;
use crate::model::*;
use crate::plan::*;
use crate::rng::Rng;
use crate::tasks::*;
use crate::world::*;
use jmt::mock::MockTreeStore;
use jmt::storage::{HasPreimage, LeafNode, Node, NodeBatch, NodeKey, StaleNodeIndex, TreeReader, TreeUpdateBatch, TreeWriter};
use jmt::{JellyfishMerkleIterator, JellyfishMerkleTree, KeyHash, OwnedValue, RootHash, ValueHash};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;
use std::sync::Arc;

#[derive(Default)]
pub struct Book {
    nodes: BTreeMap<NodeKey, Node>,
    values: BTreeMap<KeyHash, BTreeMap<u64, Option<OwnedValue>>>,
    stale: BTreeSet<(u64, NodeKey)>,
    pre: BTreeMap<KeyHash, Vec<u8>>,
    /// stages of the log written through the tree
    stages: usize,
    horizon: u64,
    writing: bool,
}

pub struct Mock {
    pub db: MockTreeStore,
    pub overwrite: bool,
    pub book: RefCell<Book>,
    pub hist: RefCell<crate::linmock::History>,
}

/// The store as the tree sees it: every access is a scheduling point.
pub struct Seam<H: Hs> {
    w: W<H>,
    m: Rc<Mock>,
}

impl<H: Hs> Seam<H> {
    fn pause(&self) {
        suspend(Wait::Ready);
        self.w.stats.borrow_mut().accesses += 1;
    }
}

impl<H: Hs> TreeReader for Seam<H> {
    fn get_node_option(&self, k: &NodeKey) -> anyhow::Result<Option<Node>> {
        self.pause();
        let got = self.m.db.get_node_option(k)?;
        let want = self.m.book.borrow().nodes.get(k).cloned();
        self.w.eval(&["C17"]);
        if got != want {
            self.w.fail(&["C17"], "wrong-node", format!("node {k:?} read as {got:?}, written {want:?}"));
        }
        Ok(got)
    }
    fn get_value_option(&self, max: u64, k: KeyHash) -> anyhow::Result<Option<OwnedValue>> {
        self.pause();
        let got = self.m.db.get_value_option(max, k)?;
        let want = model_value(&self.m.book.borrow(), max, &k);
        self.w.eval(&["C17"]);
        if got != want {
            self.w.fail(&["C17"], "wrong-value", format!("value of {k:?} at {max} read as {got:?}, expected {want:?}"));
        }
        Ok(got)
    }
    fn get_rightmost_leaf(&self) -> anyhow::Result<Option<(NodeKey, LeafNode)>> {
        self.pause();
        self.m.db.get_rightmost_leaf()
    }
}
impl<H: Hs> HasPreimage for Seam<H> {
    fn preimage(&self, k: KeyHash) -> anyhow::Result<Option<Vec<u8>>> {
        self.pause();
        self.m.db.preimage(k)
    }
}

fn model_value(b: &Book, max: u64, k: &KeyHash) -> Option<OwnedValue> {
    b.values.get(k).and_then(|m| m.range(..=max).next_back()).and_then(|(_, v)| v.clone())
}

pub fn new_mock<H: Hs>(w: &World<H>) -> Rc<Mock> {
    Rc::new(Mock {
        db: if w.plan.mock_overwrite { MockTreeStore::new(true) } else if w.plan.seed % 2 == 0 { MockTreeStore::default() } else { MockTreeStore::new(false) },
        overwrite: w.plan.mock_overwrite,
        book: Default::default(),
        hist: Default::default(),
    })
}

/// One user of the store. Tasks 7000+i.
pub fn user<H: Hs>(w: &W<H>, m: &Rc<Mock>, i: usize) {
    // One tree object for everything this user does, or (in the other half of the runs) one
    // for each operation.
    let seam = Arc::new(Seam { w: w.clone(), m: m.clone() });
    let tree = JellyfishMerkleTree::<_, H>::new(&*seam);
    for op in w.plan.clients[i].clone() {
        if w.sh.stop.get() {
            return;
        }
        suspend(Wait::Ready);
        if w.long_lived() > 0 {
            step(w, m, &op, &seam, &tree);
        } else {
            step(w, m, &op, &seam, &JellyfishMerkleTree::new(&*seam));
        }
        w.mark(0x4d ^ op.k as u64);
        if w.sh.stop.get() {
            return;
        }
        agree(w, m);
    }
}

/// Cheap agreement after every operation.
fn agree<H: Hs>(w: &W<H>, m: &Rc<Mock>) {
    w.eval(&["C17"]);
    let b = m.book.borrow();
    if m.db.num_nodes() != b.nodes.len() {
        w.fail(&["C17"], "node-count", format!("the store has {} nodes, {} were written", m.db.num_nodes(), b.nodes.len()));
    }
}

/// Full agreement.
pub fn agree_fully<H: Hs>(w: &W<H>, m: &Rc<Mock>, probe_keys: &[NodeKey]) {
    w.eval(&["C17"]);
    let b = m.book.borrow();
    for (k, n) in &b.nodes {
        match m.db.get_node_option(k) {
            Ok(Some(x)) if x == *n => {}
            x => return w.fail(&["C17"], "wrong-node", format!("node {k:?} read as {x:?}, written {n:?}")),
        }
    }
    for k in probe_keys {
        if !b.nodes.contains_key(k) && m.db.get_node_option(k).ok().flatten().is_some() {
            return w.fail(&["C17"], "phantom-node", format!("node {k:?} was never stored or was removed"));
        }
    }
    for (k, vs) in &b.values {
        let mut at: Vec<u64> = vec![0, u64::MAX];
        for v in vs.keys() {
            at.extend([v.saturating_sub(1), *v, v.saturating_add(1)]);
        }
        for v in at {
            let got = m.db.get_value_option(v, *k).ok().flatten();
            let want = model_value(&b, v, k);
            if got != want {
                return w.fail(&["C17"], "wrong-value", format!("value of {k:?} at {v} read as {got:?}, expected {want:?}"));
            }
        }
    }
    for (k, p) in &b.pre {
        if m.db.preimage(*k).ok().flatten().as_ref() != Some(p) {
            return w.fail(&["C17"], "wrong-preimage", format!("{k:?}"));
        }
    }
    let want = b.nodes.values().filter_map(|n| if let Node::Leaf(l) = n { Some(l.key_hash()) } else { None }).max();
    let got = match m.db.get_rightmost_leaf() {
        Ok(x) => x,
        Err(e) => return w.fail(&["C17"], "rightmost", format!("{e:#}")),
    };
    match (&got, want) {
        (None, None) => {}
        (Some((k, l)), Some(x)) if l.key_hash() == x && b.nodes.get(k) == Some(&Node::Leaf(l.clone())) => {}
        _ => w.fail(&["C17"], "rightmost", format!("rightmost leaf is {got:?}, the greatest stored key is {want:?}")),
    }
}

/// The model's answer to writing a batch: why it must be refused, if it must.
fn refusal(b: &Book, overwrite: bool, batch: &NodeBatch) -> Option<&'static str> {
    if !overwrite && batch.nodes().keys().any(|k| b.nodes.contains_key(k)) {
        return Some("overwrite");
    }
    for ((v, k), _) in batch.values() {
        if let Some(h) = b.values.get(k) {
            if h.keys().next_back().map_or(false, |last| last > v) {
                return Some("backwards");
            }
        }
    }
    None
}

fn apply_batch(b: &mut Book, batch: &NodeBatch) {
    for (k, n) in batch.nodes() {
        b.nodes.insert(k.clone(), n.clone());
    }
    for ((v, k), x) in batch.values() {
        b.values.entry(*k).or_default().insert(*v, x.clone());
    }
}

/// Writes a batch through one of the store's two entry points, with stale records if it is the
/// one that takes them.
fn write<H: Hs>(w: &W<H>, m: &Rc<Mock>, batch: &NodeBatch, stale: Option<BTreeSet<(u64, NodeKey)>>) -> bool {
    let why = refusal(&m.book.borrow(), m.overwrite, batch);
    w.eval(&["C17"]);
    let out = match &stale {
        None => call(|| m.db.write_node_batch(batch)),
        Some(st) => call(|| {
            m.db.write_tree_update_batch(TreeUpdateBatch {
                node_batch: batch.clone(),
                stale_node_index_batch: st.iter().map(|(v, k)| StaleNodeIndex { stale_since_version: *v, node_key: k.clone() }).collect(),
                node_stats: vec![],
            })
        }),
    };
    match (out, why) {
        (Out::Ok(()), None) => {
            let mut b = m.book.borrow_mut();
            apply_batch(&mut b, batch);
            if let Some(st) = stale {
                if !st.is_empty() {
                    w.probe("mock_stray_stale");
                }
                b.stale.extend(st);
            }
            w.probe("mock_write");
            true
        }
        (Out::Ok(()), Some(y)) => {
            w.fail(&["C17"], "accepted-bad-write", format!("a batch was accepted although it must be refused ({y})"));
            false
        }
        (Out::Err(e), None) => {
            w.fail(&["C17"], "refused-good-write", format!("{e:#}"));
            false
        }
        (Out::Panic(p), None) => {
            w.fail(&["C17"], "refused-good-write", p);
            false
        }
        (_, Some(y)) => {
            w.probe(if y == "overwrite" { "mock_overwrite_refused" } else { "mock_backwards_refused" });
            // A refused batch must leave everything as it was.
            let keys: Vec<NodeKey> = batch.nodes().keys().cloned().collect();
            agree_fully(w, m, &keys);
            for ((v, k), _) in batch.values() {
                let got = m.db.get_value_option(*v, *k).ok().flatten();
                let want = model_value(&m.book.borrow(), *v, k);
                if got != want {
                    w.fail(&["C17"], "partial-write", format!("a refused batch changed the value of {k:?} at {v}"));
                }
            }
            agree(w, m);
            false
        }
    }
}

fn some_node<H: Hs>(w: &World<H>, r: &mut Rng) -> (NodeKey, Node, KeyHash, Vec<u8>) {
    let key = pick_key(w, r.u64() as u32, r.u64());
    let v = r.below(6) as u64;
    let depth = r.below(6);
    let path: Vec<u8> = (0..depth).map(|i| nib(&key, i)).collect();
    let val = val_bytes(r.below(50) as u32, r.below(8) as u32);
    let n = if r.chance(1, 6) {
        Node::Null
    } else {
        Node::Leaf(LeafNode::new(KeyHash(key), ValueHash::with::<H>(&val)))
    };
    (node_key(v, &path), n, KeyHash(key), val)
}

fn step<H: Hs>(w: &W<H>, m: &Rc<Mock>, op: &Op, seam: &Arc<Seam<H>>, tree: &JellyfishMerkleTree<'_, Seam<H>, H>) {
    let mut r = Rng::sub(op.c, 0x3c);
    match op.k {
        K::MWrite => {
            let mut batch = NodeBatch::default();
            for _ in 0..r.below(4) {
                let (k, n, kh, val) = some_node(w, &mut r);
                if r.chance(1, 4) && !m.book.borrow().nodes.is_empty() {
                    // an existing key
                    let b = m.book.borrow();
                    let i = r.below(b.nodes.len());
                    let k2 = b.nodes.keys().nth(i).unwrap().clone();
                    batch.insert_node(k2, n);
                } else {
                    batch.insert_node(k.clone(), n);
                }
                if r.chance(3, 4) {
                    let v = k.version() + r.below(3) as u64;
                    // A key that has a history often gets its newest version rewritten.
                    let last = m.book.borrow().values.get(&stray(&kh)).and_then(|h| h.keys().next_back().copied());
                    let v = last.filter(|_| r.chance(1, 3)).unwrap_or(v);
                    if r.chance(1, 5) {
                        batch.extend(vec![], vec![((v, kh), None)]);
                    } else {
                        batch.insert_value(v, kh, val);
                    }
                }
            }
            // Stay clear of the tree's own keys.
            let b2 = shift(&batch);
            let stale = r.chance(1, 2).then(|| some_stale(&m.book.borrow(), &b2, &mut r));
            write(w, m, &b2, stale);
        }
        K::MPutLeaf => {
            let (k, _, kh, val) = some_node(w, &mut r);
            let k = node_key(k.version() + SHIFT, &nk_path(&k));
            let kh = stray(&kh);
            let leaf = LeafNode::new(kh, ValueHash::with::<H>(&val));
            let exists = m.book.borrow().nodes.contains_key(&k);
            let back = m.book.borrow().values.get(&kh).and_then(|h| h.keys().next_back().copied()).map_or(false, |l| l > k.version());
            w.eval(&["C17"]);
            match (call(|| m.db.put_leaf(k.clone(), leaf.clone(), val.clone())), exists || back) {
                (Out::Ok(()), false) => {
                    let mut b = m.book.borrow_mut();
                    b.nodes.insert(k.clone(), Node::Leaf(leaf));
                    b.values.entry(kh).or_default().insert(k.version(), Some(val));
                    w.probe("mock_put_leaf");
                }
                (Out::Ok(()), true) => w.fail(&["C17"], "accepted-bad-write", format!("put_leaf({k:?}) exists {exists} backwards {back}")),
                (Out::Err(_), true) => {
                    w.probe("mock_put_leaf_refused");
                    agree_fully(w, m, &[k]);
                }
                (Out::Err(e), false) => w.fail(&["C17"], "refused-good-write", format!("put_leaf({k:?}): {e:#}")),
                (Out::Panic(p), _) => w.fail(&["C17"], "put-leaf-panics", p),
            }
        }
        K::MRead => {
            let (k, _, _, _) = some_node(w, &mut r);
            let k = if r.chance(1, 2) {
                let b = m.book.borrow();
                if b.nodes.is_empty() {
                    k
                } else {
                    b.nodes.keys().nth(r.below(b.nodes.len())).unwrap().clone()
                }
            } else {
                k
            };
            let got = call(|| m.db.get_node_option(&k));
            let want = m.book.borrow().nodes.get(&k).cloned();
            w.eval(&["C17"]);
            match got {
                Out::Ok(g) if g == want => {}
                Out::Ok(g) => w.fail(&["C17"], "wrong-node", format!("node {k:?} read as {g:?}, written {want:?}")),
                Out::Err(e) => w.fail(&["C17"], "read-fails", format!("{e:#}")),
                Out::Panic(p) => w.fail(&["C17"], "read-panics", p),
            }
        }
        K::MValue => {
            let key = KeyHash(pick_key(w, op.b, r.u64()));
            let v = match r.below(4) {
                0 => r.below(12) as u64,
                1 => SHIFT + r.below(12) as u64,
                2 if r.chance(1, 4) => u64::MAX,
                2 => r.u64(),
                _ => {
                    let n = m.book.borrow().stages;
                    w.plan.start.saturating_add(r.below(12.max(n + 2)) as u64)
                }
            };
            let got = call(|| m.db.get_value_option(v, key));
            let want = model_value(&m.book.borrow(), v, &key);
            w.eval(&["C17"]);
            match got {
                Out::Ok(g) if g == want => {}
                Out::Ok(g) => w.fail(&["C17"], "wrong-value", format!("value of {key:?} at {v} read as {g:?}, expected {want:?}")),
                Out::Err(e) => w.fail(&["C17"], "read-fails", format!("{e:#}")),
                Out::Panic(p) => w.fail(&["C17"], "read-panics", p),
            }
        }
        K::MRight => agree_fully(w, m, &[]),
        K::MPre => {
            let key = KeyHash(pick_key(w, op.b, r.u64()));
            if r.chance(1, 2) {
                let n = r.below(9);
                let p = r.bytes(n);
                m.db.put_key_preimage(key, &p);
                m.book.borrow_mut().pre.insert(key, p);
            }
            w.eval(&["C17"]);
            let want = m.book.borrow().pre.get(&key).cloned();
            match m.db.preimage(key) {
                Ok(g) if g == want => {}
                g => w.fail(&["C17"], "wrong-preimage", format!("{key:?}: {g:?}")),
            }
        }
        K::MTree => tree_commit(w, m, tree),
        K::MPurge => purge(w, m, &mut r),
        K::MIter => tree_read(w, m, op, &mut r, seam, tree),
        _ => {}
    }
}

/// Stale records for stray nodes that are stored, or are written by the same batch. Each node is
/// recorded once.
fn some_stale(b: &Book, batch: &NodeBatch, r: &mut Rng) -> BTreeSet<(u64, NodeKey)> {
    let free: Vec<NodeKey> = b
        .nodes
        .keys()
        .chain(batch.nodes().keys())
        .filter(|k| k.version() >= SHIFT && !b.stale.iter().any(|(_, s)| s == *k))
        .cloned()
        .collect();
    let mut out = BTreeMap::new();
    for _ in 0..r.below(4) {
        if !free.is_empty() {
            // Also out of order, and before the node's own version.
            let v = if r.chance(1, 12) { u64::MAX } else { SHIFT + 1 + r.below(12) as u64 };
            out.insert(r.pick(&free).clone(), v);
        }
    }
    out.into_iter().map(|(k, v)| (v, k)).collect()
}

/// Versions of stray nodes, far from those of the tree.
const SHIFT: u64 = 1 << 62;

fn shift(b: &NodeBatch) -> NodeBatch {
    let mut o = NodeBatch::default();
    for (k, n) in b.nodes() {
        let v = if k.version() >= SHIFT { k.version() } else { k.version() + SHIFT };
        // Tree nodes are left alone by the strays.
        o.insert_node(node_key(v, &nk_path(k)), n.clone());
    }
    o.extend(vec![], b.values().iter().map(|((v, k), x)| ((*v, stray(k)), x.clone())));
    o
}
/// Keys of stray values are not keys of the tree.
fn stray(k: &KeyHash) -> KeyHash {
    let mut a = k.0;
    a[31] ^= 0x5a;
    a[30] ^= 0xa5;
    KeyHash(a)
}

/// Writes the next stage of the log through the real tree.
fn tree_commit<H: Hs>(w: &W<H>, m: &Rc<Mock>, tree: &JellyfishMerkleTree<'_, Seam<H>, H>) {
    // One writer at a time, as the tree requires; readers and purgers go on.
    {
        let mut b = m.book.borrow_mut();
        if b.writing || b.stages >= w.stages.len() {
            return;
        }
        b.writing = true;
    }
    let st = m.book.borrow().stages;
    let v = w.stages[st].version;
    let mut r = Rng::sub(w.plan.seed ^ ((st as u64) << 16), 0x6b1);
    // Now and then several versions at once; long logs mostly so.
    let left = w.stages.len() - st;
    let cnt = if left > 40 {
        1 + r.below(left)
    } else if r.chance(1, 4) {
        1 + r.below(left.min(4))
    } else {
        1
    };
    let out = if cnt == 1 {
        call(|| tree.put_value_set(w.updates(st), v).map(|(root, b)| (vec![root], b)))
    } else {
        w.probe("mock_tree_commit_multi");
        call(|| tree.put_value_sets((st..st + cnt).map(|i| w.updates(i)).collect::<Vec<_>>(), v))
    };
    m.book.borrow_mut().writing = false;
    let (roots, batch) = match out {
        Out::Ok(x) => x,
        Out::Err(e) => return w.fail(&["C17", "C05"], "put-fails", format!("version {v} on the in-memory store: {e:#}")),
        Out::Panic(p) => return w.fail(&["C17", "C05"], "put-panics", format!("version {v} on the in-memory store: {p}")),
    };
    w.eval(&["C05", "C17"]);
    if roots.len() != cnt || roots.iter().enumerate().any(|(i, x)| x.0 != w.stages[st + i].root) {
        return w.fail(&["C05", "C17"], "wrong-root", format!("version {v} on the in-memory store"));
    }
    let nb = batch.node_batch.clone();
    let stale: Vec<StaleNodeIndex> = batch.stale_node_index_batch.iter().cloned().collect();
    let why = refusal(&m.book.borrow(), m.overwrite, &nb);
    match (call(|| m.db.write_tree_update_batch(batch)), why) {
        (Out::Ok(()), None) => {
            let mut b = m.book.borrow_mut();
            apply_batch(&mut b, &nb);
            for s in stale {
                b.stale.insert((s.stale_since_version, s.node_key));
            }
            b.stages = st + cnt;
            w.probe("mock_tree_commit");
        }
        (Out::Ok(()), Some(y)) => w.fail(&["C17"], "accepted-bad-write", y.to_string()),
        (Out::Err(e), _) => w.fail(&["C17", "C04"], "refused-good-write", format!("{e:#}")),
        (Out::Panic(p), _) => w.fail(&["C17"], "refused-good-write", p),
    }
}

fn purge<H: Hs>(w: &W<H>, m: &Rc<Mock>, r: &mut Rng) {
    let (st, hz) = {
        let b = m.book.borrow();
        if b.writing && r.chance(1, 2) {
            return;
        }
        (b.stages, b.horizon)
    };
    let h = if r.chance(1, 5) {
        // All of the tree's retired nodes, and some of the stray ones.
        match r.below(8) {
            0 => r.u64(),
            1 => u64::MAX - r.below(2) as u64,
            _ => SHIFT + r.below(14) as u64,
        }
    } else if st == 0 {
        r.u64() >> 3
    } else {
        let last = w.stages[st - 1].version;
        let lo = hz.max(w.plan.start);
        if r.chance(1, 3) { last } else { lo.min(last) + r.below((last - lo.min(last)) as usize + 1) as u64 }
    };
    let gone: Vec<(u64, NodeKey)> = m.book.borrow().stale.iter().filter(|(s, _)| *s <= h).cloned().collect();
    w.eval(&["C17", "C03", "C04"]);
    match call(|| m.db.purge_stale_nodes(h)) {
        Out::Ok(()) => {}
        Out::Err(e) => return w.fail(&["C17", "C04"], "purge-fails", format!("purge to {h}: {e:#}")),
        Out::Panic(p) => return w.fail(&["C17"], "purge-panics", p),
    }
    {
        let mut b = m.book.borrow_mut();
        for g in &gone {
            b.nodes.remove(&g.1);
            b.stale.remove(g);
        }
        if st > 0 {
            b.horizon = b.horizon.max(h.min(w.stages[st - 1].version));
        }
    }
    if !gone.is_empty() {
        w.probe("mock_purged");
    }
    let keys: Vec<NodeKey> = gone.into_iter().map(|g| g.1).collect();
    agree_fully(w, m, &keys);
}

/// Reads of the tree over the in-memory store, interleaved with writes and purges.
fn tree_read<H: Hs>(w: &W<H>, m: &Rc<Mock>, op: &Op, r: &mut Rng, seam: &Arc<Seam<H>>, tree: &JellyfishMerkleTree<'_, Seam<H>, H>) {
    let (st, hz) = {
        let b = m.book.borrow();
        (b.stages, b.horizon)
    };
    if st == 0 {
        return;
    }
    let last = w.stages[st - 1].version;
    let lo = hz.max(w.plan.start);
    let v = lo + r.below((last - lo) as usize + 1) as u64;
    let Some(t) = w.truth(v) else { return };
    let key = pick_key(w, op.b, r.u64());
    let want = t.state.get(&key).map(|x| (**x).clone());
    let gone = || m.book.borrow().horizon > v;
    w.eval(&["C02", "C17"]);
    match r.below(3) {
        0 => match call(|| tree.get(KeyHash(key), v)) {
            Out::Ok(g) if g == want => {}
            Out::Ok(g) => w.fail(&["C02", "C17"], "wrong-value", format!("get {} at {v}: {g:?}", short(&key))),
            Out::Err(e) if !gone() => w.fail(&["C02", "C03", "C17"], "read-fails", format!("get at {v}: {e:#}")),
            Out::Panic(p) => w.fail(&["C02", "C17"], "read-panics", p),
            _ => {}
        },
        1 => match call(|| tree.get_with_proof(KeyHash(key), v)) {
            Out::Ok((g, p)) => {
                if g != want {
                    w.fail(&["C02", "C17"], "wrong-value", format!("get_with_proof {} at {v}: {g:?}", short(&key)));
                } else {
                    check_honest_proof(w, 0, &p, RootHash(t.root), &key, g.as_deref(), &["C06", "C17"]);
                }
            }
            Out::Err(e) if !gone() => w.fail(&["C02", "C03", "C17"], "read-fails", format!("get_with_proof at {v}: {e:#}")),
            Out::Panic(p) => w.fail(&["C02", "C17"], "read-panics", p),
            _ => {}
        },
        _ => {
            let it = match call(|| JellyfishMerkleIterator::new(seam.clone(), v, KeyHash(key))) {
                Out::Ok(i) => i,
                Out::Err(e) => {
                    if !gone() {
                        w.fail(&["C12", "C03", "C17"], "read-fails", format!("iterator at {v}: {e:#}"));
                    }
                    return;
                }
                Out::Panic(p) => return w.fail(&["C12", "C17"], "read-panics", p),
            };
            let mut at = t.rank_ge(&key);
            let res = guard(|| {
                for x in it {
                    match x {
                        Ok((k, val)) => {
                            let good = t.leaves.get(at).map_or(false, |l| l.0 == k.0 && *t.state[&l.0] == val);
                            if !good {
                                w.fail(&["C12", "C17"], "iterator-wrong-pair", format!("pair {at} of version {v}"));
                                return;
                            }
                            at += 1;
                        }
                        Err(e) => {
                            if !gone() {
                                w.fail(&["C12", "C03", "C17"], "read-fails", format!("iterator at {v}: {e:#}"));
                            }
                            return;
                        }
                    }
                    if w.sh.stop.get() {
                        return;
                    }
                }
                if at != t.leaves.len() && !gone() {
                    w.fail(&["C12", "C17"], "iterator-ends-early", format!("{at} of {} at version {v}", t.leaves.len()));
                }
            });
            if let Err(p) = res {
                if !gone() {
                    w.fail(&["C12", "C17"], "read-panics", p);
                }
            }
        }
    }
}
