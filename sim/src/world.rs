//! The simulated world: nodes with disks, the fault injector, the oracle's books.
use crate::disk::{DiskOp, SimDisk};
use crate::engine::{suspend, CrashSignal, Shared, Spawn, Wait};
use crate::hashers::Hs;
use crate::model::*;
use crate::plan::*;
use crate::rng::{mix, Rng};
use anyhow::anyhow;
use jmt::storage::{HasPreimage, LeafNode, NibblePath, Node, NodeBatch, NodeKey, TreeReader, TreeWriter};
use jmt::{JellyfishMerkleTree, KeyHash, OwnedValue};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;
use std::sync::Arc;

pub type P = &'static str;

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct Violation {
    pub prop: String,
    pub kind: String,
    pub detail: String,
}

/// What a run did to the storage, by task: where faults can strike.
#[derive(Default, Clone)]
pub struct Accesses {
    pub total: BTreeMap<u32, u32>,
    pub writes: BTreeMap<u32, Vec<u32>>,
}

#[derive(Default)]
pub struct Stats {
    pub probes: BTreeMap<&'static str, u64>,
    pub faults: BTreeMap<&'static str, u64>,
    pub evals: u64,
    pub target_evals: u64,
    pub accesses: u64,
    pub notes: Vec<String>,
}

pub struct NodeState {
    pub disk: RefCell<SimDisk>,
    pub up: Cell<bool>,
    /// stages acknowledged (synced)
    pub acked: Cell<usize>,
    pub crashed: Cell<bool>,
    pub pruned: Cell<bool>,
    pub diskfull: Cell<u32>,
    pub next_op: RefCell<Vec<usize>>,
    pub next_group: Cell<usize>,
    pub next_chunk: Cell<usize>,
    pub inc: Cell<u32>,
    /// set while an append is rewriting the latest version in place
    pub done: Cell<bool>,
}

pub struct World<H: Hs> {
    pub target: P,
    pub plan: Plan,
    pub keys: Vec<Key>,
    pub pres: Vec<Option<Vec<u8>>>,
    pub key_pre: BTreeMap<Key, Vec<u8>>,
    pub stages: Vec<StageTruth>,
    /// version -> last stage of it
    pub ver_stage: BTreeMap<u64, usize>,
    pub empty: StageTruth,
    pub nodes: Vec<NodeState>,
    pub sh: Rc<Shared>,
    counters: RefCell<BTreeMap<u32, u32>>,
    /// access numbers that were writes or syncs, per task
    writes: RefCell<BTreeMap<u32, Vec<u32>>>,
    faults: RefCell<BTreeMap<(u32, u32), Fault>>,
    burst: RefCell<BTreeMap<u32, u32>>,
    /// per task: fail the n-th read from now
    pub armed: RefCell<BTreeMap<u32, u32>>,
    pub viol: RefCell<Option<Violation>>,
    pub foreign: RefCell<BTreeMap<String, u64>>,
    pub foreign_first: RefCell<Option<String>>,
    pub stats: RefCell<Stats>,
    pub trace: Cell<u64>,
    pub verbose: bool,
    pub net: crate::net::Net,
    /// tree objects that live as long as their process, by task and node
    handles: RefCell<BTreeMap<(u32, usize), Rc<Handle<H>>>>,
    _h: std::marker::PhantomData<H>,
}

pub fn panic_text(p: &Box<dyn std::any::Any + Send>) -> String {
    let base = if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".to_string()
    };
    let loc = LAST_PANIC.with(|l| l.borrow().clone());
    format!("{base} [{loc}]")
}

thread_local! {
    pub static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

/// Runs `f`, turning a panic of the code under test into an error text. A simulated crash
/// passes through.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => match crate::take_big_alloc() {
            None => Ok(v),
            Some(n) => Err(format!("not a panic, but it allocated {n} bytes at once")),
        },
        Err(p) => {
            if p.downcast_ref::<CrashSignal>().is_some() {
                std::panic::resume_unwind(p);
            }
            Err(panic_text(&p))
        }
    }
}

pub fn val_bytes(tag: u32, len: u32) -> Vec<u8> {
    let mut r = Rng::sub(tag as u64, 0xa1);
    r.bytes(len as usize)
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push_str(&format!("{x:02x}"));
    }
    s
}
pub fn short(b: &[u8]) -> String {
    hex(&b[..b.len().min(6)])
}
pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2)
        .map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap_or(0))
        .collect()
}

pub fn nibble_path(p: &[u8]) -> NibblePath {
    p.iter().map(|n| (*n).into()).collect()
}
pub fn node_key(version: u64, p: &[u8]) -> NodeKey {
    NodeKey::new(version, nibble_path(p))
}
pub fn nk_path(k: &NodeKey) -> Vec<u8> {
    k.nibble_path().nibbles().map(u8::from).collect()
}
pub fn nk_bytes(k: &NodeKey) -> Vec<u8> {
    borsh::to_vec(k).expect("borsh")
}
pub fn kh(k: &Key) -> KeyHash {
    KeyHash(*k)
}

impl<H: Hs> World<H> {
    pub fn new(plan: Plan, target: P, verbose: bool) -> Rc<Self> {
        let mut keys = vec![];
        let mut pres = vec![];
        let mut key_pre = BTreeMap::new();
        for k in &plan.keys {
            let pre = unhex(&k.pre);
            let key: Key = if k.raw {
                let mut a = [0u8; 32];
                for (d, s) in a.iter_mut().zip(pre.iter()) {
                    *d = *s;
                }
                a
            } else {
                H::h(&pre)
            };
            keys.push(key);
            if k.raw && !(H::SIM && pre.len() == 32) {
                pres.push(None);
            } else {
                key_pre.insert(key, pre.clone());
                pres.push(Some(pre));
            }
        }
        let mut state = State::new();
        let mut stages = vec![];
        let mut ver_stage = BTreeMap::new();
        let mut v = plan.start;
        for (i, s) in plan.stages.iter().enumerate() {
            if i > 0 && !s.append {
                v += 1;
            }
            for (k, val) in &s.ups {
                let key = keys[*k as usize % keys.len()];
                apply(&mut state, &key, &val.map(|(t, l)| Rc::new(val_bytes(t, l))));
            }
            stages.push(StageTruth::new::<H>(v, state.clone()));
            ver_stage.insert(v, i);
        }
        let nodes = plan
            .nodes
            .iter()
            .map(|n| NodeState {
                disk: Default::default(),
                up: Cell::new(true),
                acked: Cell::new(0),
                crashed: Cell::new(false),
                pruned: Cell::new(false),
                diskfull: Cell::new(0),
                next_op: RefCell::new(vec![0; n.tasks.len()]),
                next_group: Cell::new(0),
                next_chunk: Cell::new(0),
                inc: Cell::new(0),
                done: Cell::new(false),
            })
            .collect();
        let faults = plan
            .faults
            .iter()
            .map(|f| ((f.task, f.nth), *f))
            .collect();
        Rc::new(World {
            target,
            keys,
            pres,
            key_pre,
            stages,
            ver_stage,
            empty: StageTruth::new::<H>(0, State::new()),
            nodes,
            sh: Rc::new(Shared::default()),
            counters: Default::default(),
            writes: Default::default(),
            faults: RefCell::new(faults),
            burst: Default::default(),
            armed: Default::default(),
            viol: Default::default(),
            foreign: Default::default(),
            foreign_first: Default::default(),
            stats: Default::default(),
            trace: Cell::new(1),
            verbose,
            net: Default::default(),
            handles: Default::default(),
            plan,
            _h: std::marker::PhantomData,
        })
    }

    // ---------------------------------------------------------------- books

    pub fn probe(&self, k: &'static str) {
        *self.stats.borrow_mut().probes.entry(k).or_default() += 1;
    }
    /// Counts one evaluation of an oracle relevant to `props`.
    pub fn eval(&self, props: &[P]) {
        let mut s = self.stats.borrow_mut();
        s.evals += 1;
        if props.contains(&self.target) {
            s.target_evals += 1;
        }
    }
    pub fn note(&self, f: impl FnOnce() -> String) {
        if self.verbose {
            let s = format!(
                "[{:>6} t{:>4} {:>8}us] {}",
                self.sh.steps.get(),
                self.sh.cur_key.get(),
                self.sh.now.get(),
                f()
            );
            self.stats.borrow_mut().notes.push(s);
        }
    }
    pub fn mark(&self, x: u64) {
        self.trace.set(mix(self.trace.get() ^ x));
    }

    /// Reports that an oracle failed. Only the property under check stops the run.
    pub fn fail(&self, props: &[P], kind: &str, detail: String) {
        self.note(|| format!("ORACLE {props:?} {kind}: {detail}"));
        if props.contains(&self.target) {
            let mut v = self.viol.borrow_mut();
            if v.is_none() {
                *v = Some(Violation {
                    prop: self.target.to_string(),
                    kind: kind.to_string(),
                    detail,
                });
            }
            self.sh.stop.set(true);
        } else {
            *self
                .foreign
                .borrow_mut()
                .entry(format!("{}:{kind}", props.join("+")))
                .or_default() += 1;
            let mut f = self.foreign_first.borrow_mut();
            if f.is_none() {
                *f = Some(format!("{props:?} {kind}: {detail}"));
            }
        }
    }

    // ---------------------------------------------------------------- truth

    pub fn truth(&self, version: u64) -> Option<&StageTruth> {
        self.ver_stage.get(&version).map(|i| &self.stages[*i])
    }
    /// The contents before stage i.
    pub fn before(&self, i: usize) -> &StageTruth {
        if i == 0 {
            &self.empty
        } else {
            &self.stages[i - 1]
        }
    }
    pub fn updates(&self, i: usize) -> Vec<(KeyHash, Option<OwnedValue>)> {
        self.plan.stages[i]
            .ups
            .iter()
            .map(|(k, v)| {
                (
                    KeyHash(self.keys[*k as usize % self.keys.len()]),
                    v.map(|(t, l)| val_bytes(t, l)),
                )
            })
            .collect()
    }
    /// Inclusive range of versions node `n` must be able to serve.
    pub fn readable(&self, n: usize) -> Option<(u64, u64)> {
        let d = self.nodes[n].disk.borrow();
        let m = &d.meta;
        if m.stages == 0 {
            return None;
        }
        // A version that may still be appended to is not sealed.
        let mut last = m.stages - 1;
        if m.stages < self.stages.len() && self.plan.stages[m.stages].append {
            let v = self.stages[last].version;
            while self.stages[last].version == v {
                if last == 0 {
                    return None;
                }
                last -= 1;
            }
        }
        let hi = self.stages[last].version;
        let mut lo = m.min_readable.max(self.plan.start);
        if let Some(b) = m.restored_at {
            lo = lo.max(b);
        }
        if lo > hi {
            None
        } else {
            Some((lo, hi))
        }
    }
    pub fn pick_version(&self, n: usize, sel: u32) -> Option<u64> {
        let (lo, hi) = self.readable(n)?;
        if sel % 4 == 0 {
            return Some(hi);
        }
        Some(lo + (sel as u64 / 4) % (hi - lo + 1))
    }
    /// Properties at stake for an operation on node `n`, besides its own.
    pub fn ctx(&self, n: usize, base: &[P]) -> Vec<P> {
        let mut v: Vec<P> = base.to_vec();
        let s = &self.nodes[n];
        if s.crashed.get() {
            v.push("C01");
        }
        if s.pruned.get() {
            v.push("C03");
        }
        if s.disk.borrow().meta.restored_at.is_some() {
            v.push("C13");
        }
        if self.plan.stages.iter().any(|s| s.append) {
            v.push("C18");
        }
        v
    }

    // ---------------------------------------------------------------- faults

    fn inject(&self, k: &'static str) {
        *self.stats.borrow_mut().faults.entry(k).or_default() += 1;
        self.note(|| format!("FAULT {k}"));
        self.mark(0xFA ^ k.len() as u64);
    }
    /// Fault kinds that do not make an operation fail.
    fn inject_soft(&self, k: &'static str) {
        *self.stats.borrow_mut().faults.entry(k).or_default() += 1;
        self.note(|| format!("FAULT {k}"));
    }
    pub fn count_fault(&self, k: &'static str) {
        self.inject_soft(k);
    }

    fn take_fault(&self, write: bool) -> Option<Fault> {
        let key = self.sh.cur_key.get();
        let n = {
            let mut c = self.counters.borrow_mut();
            let e = c.entry(key).or_default();
            let n = *e;
            *e += 1;
            n
        };
        if write {
            self.writes.borrow_mut().entry(key).or_default().push(n);
        }
        self.faults.borrow_mut().remove(&(key, n))
    }
    pub fn accesses(&self) -> Accesses {
        Accesses {
            total: self.counters.borrow().clone(),
            writes: self.writes.borrow().clone(),
        }
    }

    /// The process of node `n` dies: unsynced batches beyond `keep` are lost, its tasks vanish,
    /// and it restarts after a while.
    pub fn crash(self: &Rc<Self>, n: usize, keep: usize) {
        let node = &self.nodes[n];
        let lost = node.disk.borrow_mut().crash(keep);
        *self.stats.borrow_mut().faults.entry("crash").or_default() += 1;
        if lost > 0 {
            *self
                .stats
                .borrow_mut()
                .faults
                .entry("lost_unsynced_batch")
                .or_default() += lost as u64;
        }
        self.note(|| format!("CRASH node {n}, {lost} unsynced batches lost"));
        self.mark(0xC0DE + n as u64);
        node.crashed.set(true);
        node.up.set(false);
        node.diskfull.set(0);
        self.handles.borrow_mut().retain(|(_, m), _| *m != n);
        node.inc.set(node.inc.get() + 1);
        self.sh.kill.borrow_mut().push(n);
        let w = self.clone();
        let inc = node.inc.get();
        let at = self.sh.now.get() + 2_000 + (mix(inc as u64) % 20_000);
        self.sh.spawn.borrow_mut().push(Spawn {
            key: 90_000 + n as u32,
            node: None,
            name: "restart",
            start_at: at,
            f: Box::new(move || crate::tasks::start_node(&w, n, true)),
        });
    }

    /// One storage access of the current task on node `n`: a scheduling point and a place where
    /// faults strike. Returns the fault to apply to the access itself.
    pub fn access(self: &Rc<Self>, n: usize, write: bool) -> Option<Fault> {
        suspend(Wait::Ready);
        self.stats.borrow_mut().accesses += 1;
        let key = self.sh.cur_key.get();
        if !write {
            let hit = {
                let mut a = self.armed.borrow_mut();
                match a.get_mut(&key) {
                    Some(0) => {
                        a.remove(&key);
                        true
                    }
                    Some(x) => {
                        *x -= 1;
                        false
                    }
                    None => false,
                }
            };
            if hit {
                self.inject("read_error_swept");
                return Some(Fault {
                    task: key,
                    nth: 0,
                    kind: FaultKind::ReadErr,
                    arg: 0,
                });
            }
            let b = {
                let mut b = self.burst.borrow_mut();
                match b.get_mut(&key) {
                    Some(0) | None => false,
                    Some(x) => {
                        *x -= 1;
                        true
                    }
                }
            };
            if b {
                self.inject("read_error");
                return Some(Fault {
                    task: key,
                    nth: 0,
                    kind: FaultKind::ReadErr,
                    arg: 0,
                });
            }
        }
        let f = self.take_fault(write)?;
        match f.kind {
            FaultKind::Crash => {
                self.crash(n, f.arg as usize);
                std::panic::resume_unwind(Box::new(CrashSignal));
            }
            FaultKind::Slow => {
                self.inject_soft("slow_disk");
                suspend(Wait::Until(self.sh.now.get() + 1_000 + f.arg as u64 * 977));
                None
            }
            FaultKind::ReadErr if !write => {
                self.inject("read_error");
                self.burst.borrow_mut().insert(key, f.arg);
                Some(f)
            }
            FaultKind::Rot if !write => Some(f),
            FaultKind::WriteErr if write => {
                self.inject("write_error");
                Some(f)
            }
            FaultKind::WriteAmbig if write => {
                self.inject("write_applied_but_reported_failed");
                Some(f)
            }
            FaultKind::DiskFull if write => {
                self.nodes[n].diskfull.set(f.arg + 1);
                None
            }
            FaultKind::SyncErr => Some(f),
            _ => None,
        }
    }

    /// An atomic batch write. `Err(true)` = reported as failed although applied.
    pub fn write(self: &Rc<Self>, n: usize, ops: &[DiskOp]) -> Result<(), bool> {
        self.write_with(n, || ops.to_vec())
    }
    /// The same, with the batch made at the moment it is written (read-modify-write).
    pub fn write_with(self: &Rc<Self>, n: usize, make: impl FnOnce() -> Vec<DiskOp>) -> Result<(), bool> {
        let f = self.access(n, true);
        let ops = &make()[..];
        let node = &self.nodes[n];
        if node.diskfull.get() > 0 {
            node.diskfull.set(node.diskfull.get() - 1);
            self.inject("disk_full");
            return Err(false);
        }
        match f.map(|f| f.kind) {
            Some(FaultKind::WriteErr) => return Err(false),
            Some(FaultKind::WriteAmbig) => {
                node.disk.borrow_mut().apply(ops);
                return Err(true);
            }
            _ => {}
        }
        node.disk.borrow_mut().apply(ops);
        Ok(())
    }

    pub fn sync(self: &Rc<Self>, n: usize) -> bool {
        let f = self.access(n, true);
        if matches!(f.map(|f| f.kind), Some(FaultKind::SyncErr)) {
            self.inject("sync_error");
            return false;
        }
        self.nodes[n].disk.borrow_mut().sync();
        let st = self.nodes[n].disk.borrow().meta.stages;
        self.nodes[n].acked.set(st);
        true
    }

    // ---------------------------------------------------------------- structure

    pub fn raw_node(&self, n: usize, key: &NodeKey) -> Option<Node> {
        let d = self.nodes[n].disk.borrow();
        let b = d.nodes.get(&nk_bytes(key))?;
        borsh::from_slice::<Node>(b).ok()
    }

    /// Node keys reachable from the root of `version`, or what is broken.
    pub fn reach(&self, n: usize, version: u64) -> Result<BTreeMap<Vec<u8>, bool>, String> {
        let mut out = BTreeMap::new();
        let mut todo = vec![(version, Vec::<u8>::new())];
        while let Some((v, path)) = todo.pop() {
            let k = node_key(v, &path);
            let Some(node) = self.raw_node(n, &k) else {
                return Err(format!("node {k:?} of version {version} is not stored"));
            };
            out.insert(nk_bytes(&k), matches!(node, Node::Leaf(_)));
            if let Node::Internal(i) = &node {
                if path.len() >= 64 {
                    return Err(format!("internal node below the key length at {k:?}"));
                }
                for (nb, c) in i.children_sorted() {
                    let mut p = path.clone();
                    p.push(u8::from(nb));
                    todo.push((c.version, p));
                }
            }
        }
        Ok(out)
    }

    /// Compares the stored tree of a version with the canonical tree of its contents.
    pub fn fsck(&self, n: usize, version: u64) -> Result<(), (&'static str, String)> {
        let Some(t) = self.truth(version) else {
            return Ok(());
        };
        self.fsck_stage(n, version, t)
    }
    pub fn fsck_stage(
        &self,
        n: usize,
        version: u64,
        t: &StageTruth,
    ) -> Result<(), (&'static str, String)> {
        let want = t.nodes::<H>();
        let mut seen = 0usize;
        let mut todo = vec![(version, Vec::<u8>::new(), None::<(bool, usize)>)];
        let d = self.nodes[n].disk.borrow();
        while let Some((v, path, via)) = todo.pop() {
            let k = node_key(v, &path);
            if v > version && v != u64::MAX {
                return Err(("shape", format!("version {version} refers to later node {k:?}")));
            }
            let Some(bytes) = d.nodes.get(&nk_bytes(&k)) else {
                return Err((
                    "missing-node",
                    format!("node {k:?} of version {version} is not stored"),
                ));
            };
            let Ok(node) = borsh::from_slice::<Node>(bytes) else {
                return Err(("undecodable", format!("node {k:?} does not decode")));
            };
            let Some(w) = want.get(&path) else {
                return Err((
                    "shape",
                    format!("version {version} has a node at {} that its contents do not", hex(&path)),
                ));
            };
            seen += 1;
            match (&node, w) {
                (Node::Null, RefNode::Null) => {}
                (Node::Leaf(l), RefNode::Leaf(key, vh)) => {
                    if l.key_hash().0 != *key || l.hash::<H>() != leaf_hash::<H>(key, vh) {
                        return Err((
                            "leaf",
                            format!("leaf at {} of version {version} differs", hex(&path)),
                        ));
                    }
                    if let Some((leaf, _)) = via {
                        if !leaf {
                            return Err(("child-type", format!("leaf {k:?} recorded as internal")));
                        }
                    }
                    match d.value_at(version, key) {
                        Some(b) if t.state.get(key).map(|v| &**v) == Some(b) => {}
                        x => {
                            return Err((
                                "value",
                                format!(
                                    "value of {} at version {version} is {:?}, expected {:?}",
                                    short(key),
                                    x.map(|b| short(b)),
                                    t.state.get(key).map(|b| short(b))
                                ),
                            ))
                        }
                    }
                }
                (
                    Node::Internal(i),
                    RefNode::Internal {
                        hash,
                        count,
                        children,
                    },
                ) => {
                    if i.leaf_count() != *count || via.map_or(false, |(_, c)| c != *count) {
                        return Err((
                            "leaf-count",
                            format!(
                                "node {k:?} counts {} leaves (parent {:?}), holds {count}",
                                i.leaf_count(),
                                via
                            ),
                        ));
                    }
                    if let Some((true, _)) = via {
                        return Err(("child-type", format!("internal {k:?} recorded as leaf")));
                    }
                    let got: Vec<_> =
                        i.children_sorted().map(|(a, c)| (u8::from(a), c)).collect();
                    if got.len() != children.len() {
                        return Err(("shape", format!("node {k:?} has {} children, expected {}", got.len(), children.len())));
                    }
                    for (nb, c) in got {
                        let Some(rc) = children.get(&nb) else {
                            return Err(("shape", format!("node {k:?} has an unexpected child {nb:x}")));
                        };
                        if c.hash != rc.hash {
                            return Err(("child-hash", format!("node {k:?} child {nb:x} hash differs")));
                        }
                        if c.is_leaf() != rc.leaf {
                            return Err(("child-type", format!("node {k:?} child {nb:x} type differs")));
                        }
                        let mut p = path.clone();
                        p.push(nb);
                        todo.push((c.version, p, Some((c.is_leaf(), c.leaf_count()))));
                    }
                    if i.hash::<H>() != *hash {
                        return Err(("node-hash", format!("node {k:?} hash differs")));
                    }
                }
                _ => {
                    return Err((
                        "shape",
                        format!("node {k:?} of version {version} is of the wrong kind"),
                    ))
                }
            }
        }
        if seen != want.len() {
            return Err(("shape", format!("version {version}: {seen} nodes, expected {}", want.len())));
        }
        // Every key of the universe, present or not.
        for key in &self.keys {
            let got = d.value_at(version, key);
            let exp = t.state.get(key).map(|v| &**v);
            if got != exp {
                return Err((
                    "value",
                    format!(
                        "value of {} at version {version} is {:?}, expected {:?}",
                        short(key),
                        got.map(|b| short(b)),
                        exp.map(|b| short(b))
                    ),
                ));
            }
        }
        Ok(())
    }

    /// All node keys that the readable versions of node `n` (unsealed ones too) need.
    pub fn live_set(&self, n: usize) -> Result<BTreeSet<Vec<u8>>, String> {
        let (lo, hi) = {
            let d = self.nodes[n].disk.borrow();
            if d.meta.stages == 0 {
                return Ok(BTreeSet::new());
            }
            let mut lo = d.meta.min_readable.max(self.plan.start);
            if let Some(b) = d.meta.restored_at {
                lo = lo.max(b);
            }
            (lo, self.stages[d.meta.stages - 1].version)
        };
        let mut out = BTreeSet::new();
        let mut v = lo;
        while v <= hi {
            out.extend(self.reach(n, v)?.into_keys());
            v += 1;
        }
        Ok(out)
    }

    pub fn wait_until(&self, t: u64) {
        suspend(Wait::Until(t));
    }
}

// -------------------------------------------------------------------- the storage seam

/// What the library sees as its storage: node `n`'s disk behind the simulator.
pub struct NodeStore<H: Hs> {
    pub w: Rc<World<H>>,
    pub n: usize,
    /// read errors (or damaged reads) this store handed out
    pub inj: PerTask,
    pub rotten: PerTask,
    /// the preimage that a task does not find in the store
    pub hidden: RefCell<BTreeMap<u32, Key>>,
}
/// A number for each task that uses the object.
pub struct PerTask {
    sh: Rc<Shared>,
    m: RefCell<BTreeMap<u32, u64>>,
}
impl PerTask {
    fn new(sh: &Rc<Shared>) -> Self {
        PerTask { sh: sh.clone(), m: Default::default() }
    }
    pub fn get(&self) -> u64 {
        self.m.borrow().get(&self.sh.cur_key.get()).copied().unwrap_or(0)
    }
    pub fn set(&self, x: u64) {
        self.m.borrow_mut().insert(self.sh.cur_key.get(), x);
    }
}
/// Whether tree objects can be shared by threads at all.
fn trees_are_sync() -> bool {
    struct Probe<T>(std::marker::PhantomData<T>);
    trait No {
        fn sync(&self) -> bool {
            false
        }
    }
    impl<T> No for &Probe<T> {}
    impl<T: Sync> Probe<T> {
        fn sync(&self) -> bool {
            true
        }
    }
    (&Probe::<JellyfishMerkleTree<'static, jmt::mock::MockTreeStore, sha2::Sha256>>(std::marker::PhantomData)).sync()
}
impl<H: Hs> NodeStore<H> {
    pub fn new(w: &Rc<World<H>>, n: usize) -> Self {
        NodeStore {
            w: w.clone(),
            n,
            inj: PerTask::new(&w.sh),
            rotten: PerTask::new(&w.sh),
            hidden: Default::default(),
        }
    }
    /// Hides a preimage from the current task, or nothing.
    pub fn hide(&self, key: Option<Key>) {
        let task = self.w.sh.cur_key.get();
        match key {
            Some(k) => self.hidden.borrow_mut().insert(task, k),
            None => self.hidden.borrow_mut().remove(&task),
        };
    }
    fn read(&self) -> anyhow::Result<Option<Fault>> {
        let f = self.w.access(self.n, false);
        match f {
            Some(f) if f.kind == FaultKind::ReadErr => {
                self.inj.set(self.inj.get() + 1);
                Err(anyhow!("simulated I/O error"))
            }
            Some(f) if f.kind == FaultKind::Rot => Ok(Some(f)),
            _ => Ok(None),
        }
    }
}

/// A tree object on a node's storage.
pub struct Handle<H: Hs> {
    pub tree: JellyfishMerkleTree<'static, NodeStore<H>, H>,
    pub store: Arc<NodeStore<H>>,
    /// the tasks that use it right now
    busy: RefCell<BTreeSet<u32>>,
}
impl<H: Hs> Handle<H> {
    fn new(w: &Rc<World<H>>, n: usize) -> Rc<Self> {
        let store = Arc::new(NodeStore::new(w, n));
        // The tree goes before the store, and the store does not move.
        let r: &'static NodeStore<H> = unsafe { &*Arc::as_ptr(&store) };
        Rc::new(Handle {
            tree: JellyfishMerkleTree::new(r),
            store,
            busy: RefCell::new([w.sh.cur_key.get()].into()),
        })
    }
}
/// A handle in use by one operation.
pub struct Lease<H: Hs>(Rc<Handle<H>>, u32);
impl<H: Hs> std::ops::Deref for Lease<H> {
    type Target = Handle<H>;
    fn deref(&self) -> &Handle<H> {
        &self.0
    }
}
impl<H: Hs> Drop for Lease<H> {
    fn drop(&mut self) {
        self.0.busy.borrow_mut().remove(&self.1);
    }
}
impl<H: Hs> World<H> {
    /// The tree the current task works with: in some runs made anew for each operation, in the
    /// others the one its process made when it started.
    pub fn open(self: &Rc<Self>, n: usize) -> Lease<H> {
        let me = self.sh.cur_key.get();
        let mode = self.long_lived();
        if mode == 0 {
            return Lease(Handle::new(self, n), me);
        }
        let k = (if mode == 2 { u32::MAX } else { me }, n);
        let mut hs = self.handles.borrow_mut();
        if let Some(h) = hs.get(&k) {
            // A tree that is not for several threads can still be used by one task after another.
            if !trees_are_sync() && !h.busy.borrow().is_empty() {
                return Lease(Handle::new(self, n), me);
            }
            if h.busy.borrow_mut().insert(me) {
                h.store.inj.set(0);
                h.store.rotten.set(0);
                return Lease(h.clone(), me);
            }
            return Lease(Handle::new(self, n), me);
        }
        let h = Handle::new(self, n);
        hs.insert(k, h.clone());
        Lease(h, me)
    }
    /// 0: tree objects live for one operation; 1: one for each task and process; 2: one for each
    /// process, shared by its tasks (one at a time unless it is for several threads).
    pub fn long_lived(&self) -> u8 {
        match mix(self.plan.seed ^ 0x7ee) & 3 {
            0 | 2 => 0,
            3 => 2,
            _ => 1,
        }
    }
    /// At the end of a run.
    pub fn close_all(&self) {
        self.handles.borrow_mut().clear();
    }
}

pub fn rot(bytes: &mut Vec<u8>, seed: u32) {
    let mut r = Rng::sub(seed as u64, 0x107);
    if bytes.is_empty() {
        return;
    }
    match r.below(4) {
        0 => {
            let i = r.below(bytes.len());
            bytes[i] ^= 1 << r.below(8);
        }
        1 => {
            let n = r.below(bytes.len());
            bytes.truncate(n);
        }
        2 => {
            for _ in 0..r.range(1, 6) {
                let i = r.below(bytes.len());
                bytes[i] = r.byte();
            }
        }
        _ => {
            let i = r.below(bytes.len());
            let j = r.below(bytes.len());
            bytes.swap(i, j);
        }
    }
}

impl<H: Hs> TreeReader for NodeStore<H> {
    fn get_node_option(&self, node_key: &NodeKey) -> anyhow::Result<Option<Node>> {
        let f = self.read()?;
        let bytes = {
            let d = self.w.nodes[self.n].disk.borrow();
            d.nodes.get(&nk_bytes(node_key)).cloned()
        };
        let Some(mut bytes) = bytes else {
            return Ok(None);
        };
        if let Some(f) = f {
            self.w.count_fault("bit_rot");
            self.rotten.set(1);
            rot(&mut bytes, f.arg);
        }
        Ok(Some(borsh::from_slice::<Node>(&bytes).map_err(|e| anyhow!("undecodable node: {e}"))?))
    }
    fn get_value_option(&self, max: u64, key: KeyHash) -> anyhow::Result<Option<OwnedValue>> {
        let f = self.read()?;
        let mut v = self.w.nodes[self.n].disk.borrow().value_at(max, &key.0).cloned();
        if let (Some(f), Some(v)) = (f, v.as_mut()) {
            self.w.count_fault("bit_rot");
            self.rotten.set(1);
            rot(v, f.arg);
        }
        Ok(v)
    }
    fn get_rightmost_leaf(&self) -> anyhow::Result<Option<(NodeKey, LeafNode)>> {
        self.read()?;
        let d = self.w.nodes[self.n].disk.borrow();
        // While restoring, all nodes are at one version; otherwise look at the latest version.
        if d.meta.restoring || d.meta.stages == 0 {
            return Ok(greatest_leaf(&d));
        }
        let v = self.w.stages[d.meta.stages - 1].version;
        Ok(rightmost(&d, v))
    }
}

/// The greatest leaf of a stored version.
pub fn rightmost(d: &SimDisk, version: u64) -> Option<(NodeKey, LeafNode)> {
    let mut v = version;
    let mut path = vec![];
    loop {
        let k = node_key(v, &path);
        match borsh::from_slice::<Node>(d.nodes.get(&nk_bytes(&k))?).ok()? {
            Node::Null => return None,
            Node::Leaf(l) => return Some((k, l)),
            Node::Internal(i) => {
                let (nb, c) = i.children_sorted().last()?;
                path.push(u8::from(nb));
                v = c.version;
            }
        }
    }
}

/// While a restore is under way all leaves belong to it: the greatest one stored.
pub fn greatest_leaf(d: &SimDisk) -> Option<(NodeKey, LeafNode)> {
    let mut best: Option<(NodeKey, LeafNode)> = None;
    for (k, v) in &d.nodes {
        if let Ok(Node::Leaf(l)) = borsh::from_slice::<Node>(v) {
            if best.as_ref().map_or(true, |b| l.key_hash() > b.1.key_hash()) {
                best = Some((borsh::from_slice::<NodeKey>(k).ok()?, l));
            }
        }
    }
    best
}

impl<H: Hs> HasPreimage for NodeStore<H> {
    fn preimage(&self, key_hash: KeyHash) -> anyhow::Result<Option<Vec<u8>>> {
        self.read()?;
        if self.hidden.borrow().get(&self.w.sh.cur_key.get()) == Some(&key_hash.0) {
            self.inj.set(self.inj.get() + 1);
            return Ok(None);
        }
        Ok(self.w.nodes[self.n].disk.borrow().pre.get(&key_hash.0).cloned())
    }
}

/// Used by the restore receiver: batches go straight to the disk, with write faults.
impl<H: Hs> TreeWriter for NodeStore<H> {
    fn write_node_batch(&self, b: &NodeBatch) -> anyhow::Result<()> {
        crate::restore::check_restore_batch(&self.w, self.n, b);
        let ops = batch_ops(b);
        match self.w.write(self.n, &ops) {
            Ok(()) => Ok(()),
            Err(_) => {
                self.inj.set(self.inj.get() + 1);
                Err(anyhow!("simulated write error"))
            }
        }
    }
}

pub fn batch_ops(b: &NodeBatch) -> Vec<DiskOp> {
    let mut ops = vec![];
    for (k, v) in b.nodes() {
        ops.push(DiskOp::PutNode(nk_bytes(k), borsh::to_vec(v).expect("borsh")));
    }
    for ((ver, k), v) in b.values() {
        ops.push(DiskOp::PutValue(k.0, *ver, v.clone()));
    }
    ops
}
