//! The simulated disk of one node: a key-value store with atomic batches, a write-ahead order,
//! an explicit sync, and crashes that lose any suffix of the batches not yet synced.
use crate::model::Key;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug)]
pub enum DiskOp {
    PutNode(Vec<u8>, Vec<u8>),
    DelNode(Vec<u8>),
    PutValue(Key, u64, Option<Vec<u8>>),
    AddStale(u64, Vec<u8>),
    DelStale(u64, Vec<u8>),
    PutPre(Key, Vec<u8>),
    /// Commit marker of an update.
    Stages(usize),
    Horizon(u64),
    Restoring,
    /// (version, stages)
    Restored(u64, usize),
}

#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Meta {
    /// Stages of the log that this node holds (0 = empty store).
    pub stages: usize,
    /// Lowest version that must be readable.
    pub min_readable: u64,
    /// The version this node was restored at, if it was.
    pub restored_at: Option<u64>,
    /// A restore has begun but not finished.
    pub restoring: bool,
}

enum Undo {
    Node(Vec<u8>, Option<Vec<u8>>),
    Value(Key, u64, Option<Option<Vec<u8>>>),
    Stale(u64, Vec<u8>, bool),
    Pre(Key, Option<Vec<u8>>),
    Meta(Meta),
}

#[derive(Default)]
pub struct SimDisk {
    pub nodes: BTreeMap<Vec<u8>, Vec<u8>>,
    pub values: BTreeMap<(Key, u64), Option<Vec<u8>>>,
    pub stale: BTreeSet<(u64, Vec<u8>)>,
    pub pre: BTreeMap<Key, Vec<u8>>,
    pub meta: Meta,
    /// how often each root was written
    pub root_puts: BTreeMap<Vec<u8>, u64>,
    undo: Vec<Vec<Undo>>,
}

impl SimDisk {
    pub fn apply(&mut self, batch: &[DiskOp]) {
        let mut u = Vec::with_capacity(batch.len());
        let root_len = crate::world::nk_bytes(&crate::world::node_key(0, &[])).len();
        for op in batch {
            match op {
                DiskOp::PutNode(k, v) => {
                    if k.len() == root_len {
                        *self.root_puts.entry(k.clone()).or_default() += 1;
                    }
                    let old = self.nodes.insert(k.clone(), v.clone());
                    u.push(Undo::Node(k.clone(), old));
                }
                DiskOp::DelNode(k) => {
                    let old = self.nodes.remove(k);
                    u.push(Undo::Node(k.clone(), old));
                }
                DiskOp::PutValue(k, ver, v) => {
                    let old = self.values.insert((*k, *ver), v.clone());
                    u.push(Undo::Value(*k, *ver, old));
                }
                DiskOp::AddStale(s, k) => {
                    let fresh = self.stale.insert((*s, k.clone()));
                    u.push(Undo::Stale(*s, k.clone(), !fresh));
                }
                DiskOp::DelStale(s, k) => {
                    let was = self.stale.remove(&(*s, k.clone()));
                    u.push(Undo::Stale(*s, k.clone(), was));
                }
                DiskOp::PutPre(k, p) => {
                    let old = self.pre.insert(*k, p.clone());
                    u.push(Undo::Pre(*k, old));
                }
                DiskOp::Stages(n) => {
                    u.push(Undo::Meta(self.meta.clone()));
                    self.meta.stages = *n;
                }
                DiskOp::Horizon(v) => {
                    u.push(Undo::Meta(self.meta.clone()));
                    self.meta.min_readable = self.meta.min_readable.max(*v);
                }
                DiskOp::Restoring => {
                    u.push(Undo::Meta(self.meta.clone()));
                    self.meta.restoring = true;
                }
                DiskOp::Restored(v, n) => {
                    u.push(Undo::Meta(self.meta.clone()));
                    self.meta.restoring = false;
                    self.meta.restored_at = Some(*v);
                    self.meta.stages = *n;
                }
            }
        }
        self.undo.push(u);
    }
    pub fn unsynced(&self) -> usize {
        self.undo.len()
    }
    pub fn sync(&mut self) {
        self.undo.clear();
    }
    /// Power loss: only the first `keep` unsynced batches survive.
    pub fn crash(&mut self, keep: usize) -> usize {
        let mut lost = 0;
        while self.undo.len() > keep {
            lost += 1;
            for u in self.undo.pop().unwrap().into_iter().rev() {
                match u {
                    Undo::Node(k, Some(v)) => {
                        self.nodes.insert(k, v);
                    }
                    Undo::Node(k, None) => {
                        self.nodes.remove(&k);
                    }
                    Undo::Value(k, s, Some(v)) => {
                        self.values.insert((k, s), v);
                    }
                    Undo::Value(k, s, None) => {
                        self.values.remove(&(k, s));
                    }
                    Undo::Stale(s, k, true) => {
                        self.stale.insert((s, k));
                    }
                    Undo::Stale(s, k, false) => {
                        self.stale.remove(&(s, k));
                    }
                    Undo::Pre(k, Some(p)) => {
                        self.pre.insert(k, p);
                    }
                    Undo::Pre(k, None) => {
                        self.pre.remove(&k);
                    }
                    Undo::Meta(m) => self.meta = m,
                }
            }
        }
        self.undo.clear();
        lost
    }
    pub fn value_at(&self, max: u64, k: &Key) -> Option<&Vec<u8>> {
        self.values
            .range((*k, 0)..=(*k, max))
            .next_back()
            .and_then(|(_, v)| v.as_ref())
    }
}
