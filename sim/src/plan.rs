//! A run is a pure function of its plan. The plan is what is shrunk and written to replay files.
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct KeySpec {
    /// Preimage, hex. The key hash is the run's hasher applied to it, unless `raw` is set.
    pub pre: String,
    pub raw: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Stage {
    /// Appended in place to the version of the previous stage.
    pub append: bool,
    /// (key index, None = delete | Some((tag, len))).
    pub ups: Vec<(u16, Option<(u32, u32)>)>,
}

/// How the committer groups and writes the next stages.
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub struct Group {
    pub n: u16,
    /// 0 put_value_set(s), 1 with proofs, 2 batch_put, 3 batch_put with hash cache
    pub api: u8,
    /// sync after this group
    pub sync: bool,
    /// compute twice and compare
    pub twice: bool,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum K {
    Get,
    Proof,
    Root,
    Count,
    Excl,
    Ics,
    Range,
    Iter,
    IterIdx,
    Missing,
    /// waits for a version to appear and keeps reading it
    Watch,
    Prune,
    Rest,
    // error sweeps: the same operation with every one of its reads failing in turn
    SweepRead,
    SweepPut,
    // clients
    QProof,
    QUpdate,
    QIcs,
    QExcl,
    ForgeMember,
    ForgeUpdate,
    ForgeIcs,
    FuzzProof,
    FuzzUpdate,
    FuzzRange,
    FuzzCodec,
    Sync,
    // in-memory store
    MWrite,
    MTree,
    MPutLeaf,
    MRead,
    MValue,
    MRight,
    MPurge,
    MPre,
    MIter,
    /// every key of a tree, and keys for every free place in it
    Audit,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub struct Op {
    pub k: K,
    /// version selector
    pub a: u32,
    /// key selector
    pub b: u32,
    /// sub-seed
    pub c: u64,
    /// fate / variant
    pub d: u32,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct NodePlan {
    pub groups: Vec<Group>,
    /// State-sync instead of executing the log from the start.
    pub restore: Option<RestorePlan>,
    /// Readers, iterators and pruners: one task per list.
    pub tasks: Vec<Vec<Op>>,
    /// Steps to wait before starting.
    pub delay: u32,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct RestorePlan {
    /// Stage to restore (selector).
    pub stage: u32,
    /// use the overwriting constructor
    pub overwrite: bool,
    /// fetch from this node through the network instead of from an archive
    pub live: bool,
    pub chunks: Vec<Chunk>,
    /// restart a new restore over the finished one
    pub redo: bool,
}

/// How the next chunk request goes.
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub struct Chunk {
    pub n: u16,
    /// 0 honest, otherwise a kind of misbehaviour
    pub evil: u8,
    pub c: u64,
    /// after a rejection: 0 start over from the store, 1 keep the same receiver, 2 finish
    pub after: u8,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum FaultKind {
    /// A read fails `arg+1` times in a row.
    ReadErr,
    /// A read returns damaged bytes.
    Rot,
    /// The node's process dies here; `arg` unsynced batches survive.
    Crash,
    /// A write fails and is not applied.
    WriteErr,
    /// A write is applied but reported as failed.
    WriteAmbig,
    /// Writes fail with a full disk `arg+1` times.
    DiskFull,
    /// A sync fails.
    SyncErr,
    /// The access stalls.
    Slow,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub struct Fault {
    pub task: u32,
    pub nth: u32,
    pub kind: FaultKind,
    pub arg: u32,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Sched {
    /// kind: 0 uniform, 1 sticky, 2 priorities with change points, 3 starvation, 4 round robin
    Policy { kind: u8, seed: u64 },
    /// Index of the chosen runnable task at each step (0 = keep running the same one).
    Explicit(Vec<u8>),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Plan {
    pub prop: String,
    pub seed: u64,
    pub sim_hasher: bool,
    pub start: u64,
    pub keys: Vec<KeySpec>,
    pub stages: Vec<Stage>,
    pub nodes: Vec<NodePlan>,
    pub clients: Vec<Vec<Op>>,
    pub mock: bool,
    pub mock_overwrite: bool,
    /// the network misbehaves
    pub net_faults: bool,
    /// directed plans of known findings: no workaround
    #[serde(default)]
    pub strict: bool,
    /// the life of one tree with this many pairs, instead of everything else
    #[serde(default)]
    pub huge: u32,
    pub faults: Vec<Fault>,
    pub sched: Sched,
}

impl Plan {
    pub fn size(&self) -> usize {
        let sched = match &self.sched {
            Sched::Policy { .. } => 10_000,
            Sched::Explicit(v) => v.iter().filter(|b| **b != 0).count() + v.len() / 1000,
        };
        self.stages.iter().map(|s| 2 + 2 * s.ups.len()).sum::<usize>()
            + self
                .nodes
                .iter()
                .map(|n| {
                    3 + n.groups.len()
                        + n.tasks.iter().map(|t| 1 + 3 * t.len()).sum::<usize>()
                        + n.restore.as_ref().map_or(0, |r| 4 + 2 * r.chunks.len())
                })
                .sum::<usize>()
            + self.clients.iter().map(|t| 1 + 3 * t.len()).sum::<usize>()
            + 3 * self.faults.len()
            + sched
            + self.keys.len()
            + self.huge as usize
    }
}
