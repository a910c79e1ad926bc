//! The life of one big tree (thousands to tens of thousands of pairs), for what depends on size:
//! counters, thresholds, buffers. It has one user; its store is the simulated disk or the
//! library's in-memory store.
use crate::disk::DiskOp;
use crate::genesis::Side;
use crate::hashers::Hs;
use crate::model::*;
use crate::rng::Rng;
use crate::tasks::{call, check_exclusion, check_honest_proof, check_range_proof, ics_ok, Out, W};
use crate::world::*;
use jmt::mock::MockTreeStore;
use jmt::restore::{JellyfishMerkleRestore, StateSnapshotReceiver};
use jmt::storage::{HasPreimage, LeafNode, Node, NodeBatch, NodeKey, TreeReader, TreeUpdateBatch, TreeWriter};
use jmt::{JellyfishMerkleIterator, JellyfishMerkleTree, KeyHash, OwnedValue, RootHash};
use std::collections::BTreeMap;
use std::rc::Rc;
use std::sync::Arc;

enum Kind {
    Disk(Side),
    Mock(MockTreeStore),
}
struct Store {
    kind: Kind,
    /// The read with this number fails.
    fail: std::cell::Cell<Option<u64>>,
    reads: std::cell::Cell<u64>,
    /// Stale records on the disk.
    stale: std::cell::RefCell<Vec<(u64, NodeKey)>>,
}

impl Store {
    fn new(mock: bool) -> Self {
        Store {
            kind: if mock { Kind::Mock(MockTreeStore::new(true)) } else { Kind::Disk(Side::default()) },
            fail: Default::default(),
            reads: Default::default(),
            stale: Default::default(),
        }
    }
    fn read(&self) -> anyhow::Result<()> {
        let i = self.reads.get();
        self.reads.set(i + 1);
        if self.fail.get() == Some(i) {
            return Err(anyhow::anyhow!("simulated read error"));
        }
        Ok(())
    }
    fn commit(&self, b: &TreeUpdateBatch) -> anyhow::Result<()> {
        match &self.kind {
            Kind::Disk(d) => {
                d.commit(b);
                self.stale.borrow_mut().extend(b.stale_node_index_batch.iter().map(|s| (s.stale_since_version, s.node_key.clone())));
                Ok(())
            }
            Kind::Mock(m) => m.write_tree_update_batch(b.clone()),
        }
    }
    fn prune(&self, horizon: u64) -> anyhow::Result<()> {
        match &self.kind {
            Kind::Disk(d) => {
                let mut s = self.stale.borrow_mut();
                let ops: Vec<_> = s.iter().filter(|x| x.0 <= horizon).map(|x| DiskOp::DelNode(nk_bytes(&x.1))).collect();
                s.retain(|x| x.0 > horizon);
                d.disk.borrow_mut().apply(&ops);
                Ok(())
            }
            Kind::Mock(m) => m.purge_stale_nodes(horizon),
        }
    }
    fn count(&self) -> usize {
        match &self.kind {
            Kind::Disk(d) => d.disk.borrow().nodes.len(),
            Kind::Mock(m) => m.num_nodes(),
        }
    }
    fn node(&self, k: &NodeKey) -> Option<Node> {
        match &self.kind {
            Kind::Disk(d) => d.node(k),
            Kind::Mock(m) => m.get_node_option(k).ok().flatten(),
        }
    }
    /// Every node that a version is made of.
    fn reach(&self, version: u64) -> Result<BTreeMap<NodeKey, Node>, String> {
        let mut out = BTreeMap::new();
        let mut todo = vec![(version, vec![])];
        while let Some((v, p)) = todo.pop() {
            let k = node_key(v, &p);
            let n = self.node(&k).ok_or_else(|| format!("no node at version {v} path {}", hex(&p)))?;
            if let Node::Internal(i) = &n {
                for (nb, c) in i.children_sorted() {
                    let mut q = p.clone();
                    q.push(u8::from(nb));
                    todo.push((c.version, q));
                }
            }
            out.insert(k, n);
        }
        Ok(out)
    }
}

impl TreeReader for Store {
    fn get_node_option(&self, k: &NodeKey) -> anyhow::Result<Option<Node>> {
        self.read()?;
        match &self.kind {
            Kind::Disk(d) => d.get_node_option(k),
            Kind::Mock(m) => m.get_node_option(k),
        }
    }
    fn get_value_option(&self, max: u64, key: KeyHash) -> anyhow::Result<Option<OwnedValue>> {
        self.read()?;
        match &self.kind {
            Kind::Disk(d) => d.get_value_option(max, key),
            Kind::Mock(m) => m.get_value_option(max, key),
        }
    }
    fn get_rightmost_leaf(&self) -> anyhow::Result<Option<(NodeKey, LeafNode)>> {
        self.read()?;
        match &self.kind {
            Kind::Disk(d) => d.get_rightmost_leaf(),
            Kind::Mock(m) => m.get_rightmost_leaf(),
        }
    }
}
impl TreeWriter for Store {
    fn write_node_batch(&self, b: &NodeBatch) -> anyhow::Result<()> {
        match &self.kind {
            Kind::Disk(d) => d.write_node_batch(b),
            Kind::Mock(m) => m.write_node_batch(b),
        }
    }
}
/// The preimage of a key is a function of the key.
impl HasPreimage for Store {
    fn preimage(&self, k: KeyHash) -> anyhow::Result<Option<Vec<u8>>> {
        Ok(Some(k.0.to_vec()))
    }
}

fn value(r: &mut Rng) -> Val {
    // ICS23 knows no empty values.
    let n = 1 + r.skewed(40);
    Rc::new(r.bytes(n))
}

type Ups = Vec<(KeyHash, Option<OwnedValue>)>;

struct Life<'a, H: Hs> {
    w: &'a W<H>,
    store: Arc<Store>,
    now: StageTruth,
    what: String,
}

impl<H: Hs> Life<'_, H> {
    fn failed(&self) -> bool {
        self.w.sh.stop.get()
    }
    fn bad<T>(&self, p: &[P], kind: &'static str, o: Out<T>) {
        let e = match o {
            Out::Ok(_) => "differs".into(),
            Out::Err(e) => format!("{e:#}"),
            Out::Panic(e) => format!("panic: {e}"),
        };
        self.w.fail(p, kind, format!("{}: {e}", self.what));
    }
    /// Executes a block; `api`: 0 plain, 1 with proof, 2 batch, 3 append to the current version.
    fn block(&mut self, r: &mut Rng, ups: Ups, api: usize) {
        let w = self.w;
        let append = api == 3;
        let version = if append { self.now.version } else { self.now.version + 1 };
        let api = if api == 2 && (ups.is_empty() || ups.iter().any(|u| u.1.is_none())) { 0 } else { api };
        self.what = format!("tree of {} pairs, version {version}, {} updates, api {api}", self.now.leaves.len(), ups.len());
        let mut state = self.now.state.clone();
        for (k, v) in &ups {
            apply(&mut state, &k.0, &v.clone().map(Rc::new));
        }
        let next = StageTruth::new::<H>(version, state);
        let store = self.store.clone();
        let put = || {
            call(|| {
                let tree = JellyfishMerkleTree::<_, H>::new(&*store);
                let ups = ups.clone();
                match api {
                    1 => tree.put_value_set_with_proof(ups, version).map(|(r, p, b)| (r, Some(p), b)),
                    2 => tree
                        .batch_put_value_sets(vec![ups.into_iter().map(|(k, v)| (k, v.unwrap())).collect()], None, version)
                        .map(|(r, b)| (r[0], None, b)),
                    3 => tree.append_value_set(ups, version).map(|(r, b)| (r, None, b)),
                    _ => tree.put_value_set(ups, version).map(|(r, b)| (r, None, b)),
                }
            })
        };
        let own: &[P] = if append { &["C18"] } else { &["C01", "C05", "C08"] };
        w.eval(&["C01", "C05", "C18"]);
        store.reads.set(0);
        let (root, proof, batch) = match put() {
            Out::Ok(x) => x,
            o => return self.bad(own, "put-fails", o),
        };
        let reads = store.reads.get();
        if root.0 != next.root {
            w.fail(if append { &["C18", "C05"] } else { &["C05", "C01"] }, "wrong-root", self.what.clone());
            return;
        }
        if let Some(p) = proof {
            w.eval(&["C08"]);
            match call(|| p.verify_update(RootHash(self.now.root), root, ups.clone())) {
                Out::Ok(()) => {}
                o => return self.bad(&["C08"], "update-proof-rejected", o),
            }
        }
        if reads > 0 && r.below(3) == 0 {
            w.eval(&["C15"]);
            store.reads.set(0);
            store.fail.set(Some(r.below(reads as usize) as u64));
            let out = put();
            store.fail.set(None);
            match out {
                Out::Ok((r2, _, b2)) if r2 == root && b2.node_batch == batch.node_batch => {}
                Out::Err(_) => {}
                o => return self.bad(&["C15"], "error-hidden", o),
            }
        }
        w.eval(&["C20"]);
        match call(|| Ok(borsh::from_slice::<TreeUpdateBatch>(&borsh::to_vec(&batch)?)?)) {
            Out::Ok(b) if b.node_batch == batch.node_batch && b.stale_node_index_batch == batch.stale_node_index_batch => {}
            o => return self.bad(&["C20"], "batch-roundtrip", o),
        }
        // What the batch says about itself.
        let nodes = batch.node_batch.nodes();
        let is_leaf = |n: &Node| matches!(n, Node::Leaf(_));
        let (nn, nl) = (nodes.len(), nodes.values().filter(|n| is_leaf(n)).count());
        let stale = &batch.stale_node_index_batch;
        let sl = stale.iter().filter(|s| store.node(&s.node_key).as_ref().map_or(false, is_leaf)).count();
        w.eval(&["C19"]);
        match &batch.node_stats[..] {
            [s] if append || (s.new_nodes, s.new_leaves, s.stale_nodes, s.stale_leaves) == (nn, nl, stale.len(), sl) => {}
            s => w.fail(&["C19"], "wrong-stats", format!("{}: {s:?} instead of {:?}", self.what, (nn, nl, stale.len(), sl))),
        }
        let prev = match store.reach(self.now.version) {
            Ok(x) => x,
            Err(e) => return w.fail(&["C02"], "version-incomplete", format!("{}: before: {e}", self.what)),
        };
        match call(|| store.commit(&batch)) {
            Out::Ok(()) => {}
            o => return self.bad(&["C17", "C04"], "batch-refused", o),
        }
        let now = match store.reach(version) {
            Ok(x) => x,
            Err(e) => return w.fail(&["C01", "C02", "C05"], "version-incomplete", format!("{}: {e}", self.what)),
        };
        w.eval(&["C04", "C03"]);
        let gone: std::collections::BTreeSet<_> = stale.iter().map(|s| &s.node_key).collect();
        if gone.len() != stale.len() {
            w.fail(&["C04"], "stale-twice", self.what.clone());
        }
        if let Some(k) = gone.iter().find(|k| now.contains_key(k)) {
            w.fail(if append { &["C18", "C03"] } else { &["C03", "C04"] }, "live-node-stale", format!("{}: {k:?}", self.what));
        }
        if !append {
            if let Some(k) = prev.keys().find(|k| !now.contains_key(k) && !gone.contains(k)) {
                w.fail(&["C04"], "leaked", format!("{}: {k:?}", self.what));
            }
            if let Some(k) = gone.iter().find(|k| !prev.contains_key(k)) {
                w.fail(&["C04"], "stale-unknown", format!("{}: {k:?}", self.what));
            }
            if let Some(k) = nodes.keys().find(|k| !now.contains_key(k)) {
                w.fail(&["C04"], "dead-node-written", format!("{}: {k:?}", self.what));
            }
        }
        self.now = next;
        self.shape(&now);
    }
    /// The stored nodes are the canonical ones.
    fn shape(&self, now: &BTreeMap<NodeKey, Node>) {
        self.w.eval(&["C05", "C19"]);
        let want = ref_nodes::<H>(&self.now.leaves);
        if want.len() != now.len() {
            return self.w.fail(&["C05"], "node-set-differs", format!("{}: {} nodes, should be {}", self.what, now.len(), want.len()));
        }
        for (k, n) in now {
            let path: Vec<u8> = k.nibble_path().nibbles().map(u8::from).collect();
            let ok = match (n, want.get(&path)) {
                (Node::Null, Some(RefNode::Null)) => true,
                (Node::Leaf(l), Some(RefNode::Leaf(key, vh))) => l.key_hash().0 == *key && l.hash::<H>() == leaf_hash::<H>(key, vh),
                (Node::Internal(i), Some(RefNode::Internal { count, children, .. })) => {
                    let ch: Vec<_> = i.children_sorted().collect();
                    let same = ch.len() == children.len()
                        && ch.into_iter().zip(children).all(|((nb, c), (rn, rc))| u8::from(nb) == *rn && c.hash == rc.hash && c.is_leaf() == rc.leaf);
                    if same && i.leaf_count() != *count {
                        return self.w.fail(&["C19"], "node-count-differs", format!("{}: {k:?} counts {} leaves of {count}", self.what, i.leaf_count()));
                    }
                    same
                }
                _ => false,
            };
            if !ok {
                return self.w.fail(&["C05"], "node-differs", format!("{}: {k:?}", self.what));
            }
        }
    }
    fn look(&self, r: &mut Rng, keys: &[Key], t: &StageTruth, full: bool) {
        let w = self.w;
        let (store, v) = (self.store.clone(), t.version);
        let tree = JellyfishMerkleTree::<_, H>::new(&*store);
        w.eval(&["C02", "C06", "C12", "C19"]);
        match call(|| tree.get_root_hash(v)) {
            Out::Ok(x) if x.0 == t.root => {}
            o => return self.bad(&["C02", "C03"], "root-differs", o),
        }
        #[allow(deprecated)]
        match call(|| tree.get_leaf_count(v)) {
            Out::Ok(x) if x == t.leaves.len() => {}
            o => return self.bad(&["C19", "C02"], "count-differs", o),
        }
        for j in 0..12 {
            let mut k = *r.pick(keys);
            if j % 3 == 2 {
                // a near neighbour of it
                k[31 - r.skewed(31)] ^= 1 << r.below(8);
            }
            let want = t.state.get(&k);
            match call(|| tree.get_with_proof(kh(&k), v)) {
                Out::Ok((x, proof)) => {
                    if x.as_ref() != want.map(|x| &**x) {
                        return w.fail(&["C02"], "wrong-value", format!("{}: key {} at {v}", self.what, short(&k)));
                    }
                    check_honest_proof(w, 0, &proof, RootHash(t.root), &k, want.map(|v| &v[..]), &["C06"]);
                }
                o => return self.bad(&["C02", "C06"], "read-fails", o),
            }
            if t.leaves.is_empty() {
                continue;
            }
            if j < 4 {
                w.eval(&["C10"]);
                match call(|| tree.get_with_exclusion_proof(kh(&k), v)) {
                    Out::Ok(x) => check_exclusion(w, t, &k, x, &["C10"]),
                    o => return self.bad(&["C10"], "read-fails", o),
                }
            }
            if H::SIM && j < 6 {
                w.eval(&["C11"]);
                match call(|| tree.get_with_ics23_proof(k.to_vec(), v)) {
                    Out::Ok((x, p)) => {
                        if x.as_ref() != want.map(|x| &**x) || !ics_ok::<H>(&p, &t.root, &k, want.map(|x| &x[..])) {
                            w.fail(&["C11"], "ics-rejected", format!("{}: key {} at {v}", self.what, short(&k)));
                        }
                    }
                    o => return self.bad(&["C11"], "read-fails", o),
                }
            }
            if j < 3 {
                let k = r.pick(&t.leaves).0;
                match call(|| tree.get_range_proof(kh(&k), v)) {
                    Out::Ok(p) => check_range_proof(w, t, &k, &p, &["C13"]),
                    o => return self.bad(&["C13"], "read-fails", o),
                }
            }
        }
        // Iteration.
        let n = t.leaves.len();
        let eq = |a: &(KeyHash, OwnedValue), b: &Leaf| a.0 .0 == b.0 && a.1 == *t.state[&b.0];
        for i in [0, 255, 256, 4096, 65535, 65536, n.saturating_sub(1), n, r.below(n + 1), r.below(n + 1)] {
            match call(|| JellyfishMerkleIterator::new_by_index(store.clone(), v, i)?.take(3).collect::<anyhow::Result<Vec<_>>>()) {
                Out::Ok(x) => {
                    let want = &t.leaves[i.min(n)..(i + 3).min(n).max(i.min(n))];
                    if x.len() != want.len() || !x.iter().zip(want).all(|(a, b)| eq(a, b)) {
                        return w.fail(&["C12", "C19"], "index-differs", format!("{}: from index {i} at {v}", self.what));
                    }
                }
                o => return self.bad(&["C12"], "iteration-fails", o),
            }
        }
        let (from, take) = if full { (0, usize::MAX) } else { (r.below(n + 1), 500) };
        let start = if from == 0 { [0; 32] } else { t.leaves[from.min(n - 1)].0 };
        let from = t.rank_ge(&start);
        match call(|| JellyfishMerkleIterator::new(store.clone(), v, KeyHash(start))?.take(take).collect::<anyhow::Result<Vec<_>>>()) {
            Out::Ok(x) => {
                let want = &t.leaves[from..from.saturating_add(take).min(n)];
                if x.len() != want.len() || !x.iter().zip(want).all(|(a, b)| eq(a, b)) {
                    w.fail(&["C12"], "iteration-differs", format!("{}: from rank {from} at {v}: {} pairs instead of {}", self.what, x.len(), want.len()));
                }
            }
            o => self.bad(&["C12"], "iteration-fails", o),
        }
    }
    /// Restores the current version into a new store, from the proofs of this one or the model's.
    fn restore(&mut self, r: &mut Rng, served: bool) {
        let w = self.w;
        let from = self.store.clone();
        let t = &self.now;
        let to = Arc::new(Store::new(r.below(2) == 0));
        self.what = format!("restoring {} pairs at version {}", t.leaves.len(), t.version);
        let over = r.below(3) == 0;
        let start = || {
            if over {
                JellyfishMerkleRestore::<H>::new_overwrite(to.clone(), t.version, RootHash(t.root))
            } else {
                JellyfishMerkleRestore::<H>::new(to.clone(), t.version, RootHash(t.root))
            }
        };
        let crashes = if over { 0 } else { r.below(3) };
        let limit = *r.pick(&[300, 3000, 100_000]);
        let n = t.leaves.len();
        w.eval(&["C13", "C15"]);
        let done = call(|| {
            let mut rec = start()?;
            let mut i = 0;
            let mut chunks = 0;
            let mut left = crashes;
            while i < n {
                // A few small chunks, then what is left in bigger ones.
                let size = if chunks > 40 { n } else { 1 + r.below(limit) };
                let j = (i + size).min(n);
                let pairs: Vec<_> = t.leaves[i..j].iter().map(|l| (KeyHash(l.0), t.state[&l.0].to_vec())).collect();
                let last = pairs.last().unwrap().0;
                let proof = if served {
                    JellyfishMerkleTree::<_, H>::new(&*from).get_range_proof(last, t.version)?
                } else {
                    crate::restore::range_proof::<H>(&ref_range::<H>(&t.leaves, &last.0))
                };
                rec.add_chunk(pairs, proof)?;
                chunks += 1;
                i = j;
                if left > 0 && r.below(4) == 0 && i < n {
                    left -= 1;
                    w.probe("huge_restore_crash");
                    drop(rec);
                    rec = start()?;
                    i = match to.get_rightmost_leaf()? {
                        Some((_, l)) => t.leaves.partition_point(|x| x.0 <= l.key_hash().0),
                        None => 0,
                    };
                }
            }
            rec.finish()
        });
        match done {
            Out::Ok(()) => {}
            o => return self.bad(&["C13"], "honest-chunk-rejected", o),
        }
        let now = match to.reach(t.version) {
            Ok(x) => x,
            Err(e) => return w.fail(&["C13"], "version-incomplete", format!("{}: {e}", self.what)),
        };
        if to.count() != now.len() {
            w.fail(&["C13", "C04"], "stray-nodes", format!("{}: {} nodes stored, {} belong to it", self.what, to.count(), now.len()));
        }
        self.store = to;
        self.shape(&now);
    }
    fn prune(&mut self) {
        let w = self.w;
        self.what = format!("pruned to version {}", self.now.version);
        let out = call(|| self.store.prune(self.now.version));
        if !matches!(out, Out::Ok(())) {
            return self.bad(&["C17", "C04"], "purge-fails", out);
        }
        w.eval(&["C03", "C04", "C17"]);
        match self.store.reach(self.now.version) {
            Ok(x) if x.len() == self.store.count() => {}
            Ok(x) => w.fail(&["C04", "C17"], "leaked", format!("{}: {} nodes stored, {} belong to it", self.what, self.store.count(), x.len())),
            Err(e) => w.fail(&["C03"], "version-damaged", format!("{}: {e}", self.what)),
        }
    }
}

pub fn life<H: Hs>(w: &W<H>) {
    let n = w.plan.huge as usize;
    let mut r = Rng::sub(w.plan.seed, 0x41e);
    w.probe("huge");
    // Keys: spread, or crowded under a few prefixes.
    let mut keys: Vec<Key> = vec![];
    let crowded = r.below(3) == 0;
    let prefixes: Vec<Key> = (0..3).map(|_| r.arr32()).collect();
    while keys.len() < n + n / 8 {
        let mut k = r.arr32();
        if crowded && r.below(2) == 0 {
            let p = r.pick(&prefixes);
            let l = *r.pick(&[1, 8, 20]);
            k[..l].copy_from_slice(&p[..l]);
        }
        keys.push(k);
    }
    let start = if w.plan.start >= u64::MAX - 10 { 0 } else { w.plan.start };
    let mut f = Life { w, store: Arc::new(Store::new(w.plan.mock || r.below(3) == 0)), now: StageTruth::new::<H>(0, State::new()), what: String::new() };
    // Genesis.
    let mut state = State::new();
    for k in &keys[..n] {
        state.insert(*k, value(&mut r));
    }
    let first: Ups = state.iter().map(|(k, v)| (KeyHash(*k), Some(v.to_vec()))).collect();
    let mode = r.below(4);
    if mode == 3 {
        f.now = StageTruth::new::<H>(start, state);
        f.restore(&mut r, false);
    } else {
        // an empty version to begin with
        f.what = "an empty version".into();
        let out = call(|| {
            let (root, b) = JellyfishMerkleTree::<_, H>::new(&*f.store).put_value_set(vec![], start)?;
            f.store.commit(&b)?;
            Ok(root)
        });
        match out {
            Out::Ok(x) if x.0 == PLACEHOLDER => {}
            o => return f.bad(&["C01", "C05"], "put-fails", o),
        }
        f.now = StageTruth::new::<H>(start, State::new());
        let mut first = first;
        r.shuffle(&mut first);
        let api = if mode == 1 && n > 20_000 { 0 } else { mode };
        f.block(&mut r, first, api);
    }
    if f.failed() {
        return;
    }
    let full = r.below(4);
    f.look(&mut r, &keys, &StageTruth::new::<H>(f.now.version, f.now.state.clone()), full == 0);
    let rounds = r.range(3, 5);
    let mut pruned_to = f.now.version;
    let mut old: Option<StageTruth> = None;
    for round in 0..rounds {
        if f.failed() {
            return;
        }
        let have: Vec<Key> = f.now.state.keys().copied().collect();
        let kind = if round + 1 == rounds && r.below(2) == 0 { 3 } else { r.below(6) };
        let mut ups: Ups = vec![];
        let mut api = r.below(3);
        match kind {
            // changes everywhere
            0 | 1 => {
                let m = 1 + r.below(if api == 1 { 2000 } else { n / 4 });
                for _ in 0..m {
                    let k = *r.pick(&keys);
                    ups.push((KeyHash(k), if api == 2 || r.below(3) > 0 { Some(value(&mut r).to_vec()) } else { None }));
                }
                if api == 2 {
                    let all: BTreeMap<_, _> = ups.drain(..).collect();
                    ups = all.into_iter().collect();
                }
            }
            // one key
            2 => ups.push((KeyHash(*r.pick(&keys)), Some(value(&mut r).to_vec()))),
            // everything is removed, or nearly everything
            3 => {
                api = if have.len() > 5000 { 0 } else { r.below(2) };
                let spare = r.skewed(have.len());
                let mut v: Vec<Key> = have.clone();
                r.shuffle(&mut v);
                ups = v[spare.min(v.len())..].iter().map(|k| (KeyHash(*k), None)).collect();
            }
            // an append
            4 => {
                let last = have.last().copied().unwrap_or(keys[0]);
                // another value, so that the greatest leaf is of this version
                let new = r.bytes(50);
                f.block(&mut r, vec![(KeyHash(last), Some(new))], 0);
                if f.failed() {
                    return;
                }
                // The greatest leaf that is stored is the one just written.
                f.prune();
                pruned_to = f.now.version;
                old = None;
                for _ in 0..1 + r.below(3000) {
                    let k = *r.pick(&keys);
                    if k <= last {
                        ups.push((KeyHash(k), Some(value(&mut r).to_vec())));
                    }
                }
                api = 3;
            }
            _ => {
                if !f.now.leaves.is_empty() {
                    f.restore(&mut r, true);
                    pruned_to = f.now.version;
                    old = None;
                }
                continue;
            }
        }
        let before = StageTruth::new::<H>(f.now.version, f.now.state.clone());
        f.block(&mut r, ups, api);
        if f.failed() {
            return;
        }
        if api != 3 {
            old = Some(before);
        }
        let all = r.below(4) == 0;
        f.look(&mut r, &keys, &StageTruth::new::<H>(f.now.version, f.now.state.clone()), all);
        if let Some(o) = &old {
            if o.version >= pruned_to && !f.failed() {
                f.look(&mut r, &keys, o, false);
            }
        }
        if r.below(2) == 0 && !f.failed() {
            f.prune();
            pruned_to = f.now.version;
        }
    }
}
