//! The in-memory store used by several users at once, at the level of its own locks: taking one
//! is a scheduling point, so operations overlap. What they returned must be explained by some
//! order of the operations, applied one after the other to an exact model of the store, that
//! keeps operations apart which did not overlap (linearizability).
use crate::engine::{in_task, suspend, Wait};
use crate::hashers::Hs;
use crate::mocksim::Mock;
use crate::plan::*;
use crate::rng::{mix, Rng};
use crate::tasks::*;
use crate::world::*;
use jmt::storage::{HasPreimage, LeafNode, Node, NodeBatch, NodeKey, StaleNodeIndex, TreeReader, TreeUpdateBatch, TreeWriter};
use jmt::{KeyHash, OwnedValue, ValueHash};
use std::cell::Cell;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::rc::Rc;

thread_local! {
    static POINTS: Cell<bool> = const { Cell::new(false) };
    static TAKEN: Cell<u64> = const { Cell::new(0) };
}

/// Called by the stand-in for the lock crate.
#[no_mangle]
pub fn jmtsim_lock_point(wait: bool) {
    if wait && !in_task() {
        panic!("deadlock: a lock is held outside of every task");
    }
    if (wait || POINTS.with(|p| p.get())) && in_task() && !std::thread::panicking() {
        TAKEN.with(|t| t.set(t.get() + 1));
        let on = POINTS.with(|p| p.replace(false));
        suspend(Wait::Ready);
        POINTS.with(|p| p.set(on));
    }
}

type Stale = Option<BTreeSet<(u64, NodeKey)>>;

#[derive(Clone, Debug)]
pub enum Call {
    Write(NodeBatch, Stale),
    PutLeaf(NodeKey, LeafNode, Vec<u8>),
    PutPre(KeyHash, Vec<u8>),
    Purge(u64),
    Node(NodeKey),
    Value(u64, KeyHash),
    Pre(KeyHash),
    Right,
    Count,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Answer {
    Done,
    /// an error, or the panic with which overwriting is refused
    Refused,
    Node(Option<Node>),
    Value(Option<OwnedValue>),
    Right(Option<(NodeKey, LeafNode)>),
    Count(usize),
}

pub struct Event {
    user: usize,
    call: Call,
    ans: Option<Answer>,
    from: u64,
    to: u64,
}

#[derive(Default)]
pub struct History {
    events: Vec<Event>,
    clock: u64,
    /// nodes that some stale record names
    recorded: BTreeSet<NodeKey>,
    /// nodes the users wrote and have not recorded as stale, by user
    mine: BTreeMap<usize, Vec<NodeKey>>,
}

#[derive(Clone, Default)]
struct Ref {
    nodes: BTreeMap<NodeKey, Node>,
    values: BTreeMap<KeyHash, BTreeMap<u64, Option<OwnedValue>>>,
    stale: BTreeSet<(u64, NodeKey)>,
    pre: BTreeMap<KeyHash, Vec<u8>>,
}

impl Ref {
    /// Applies the call if `ans` is what it must answer now.
    fn step(&mut self, overwrite: bool, call: &Call, ans: &Option<Answer>) -> bool {
        let got = match call {
            Call::Write(b, stale) => {
                let bad = !overwrite && b.nodes().keys().any(|k| self.nodes.contains_key(k))
                    || b.values().keys().any(|(v, k)| self.newest(k).map_or(false, |l| l > *v))
                    || stale.iter().flatten().any(|s| self.stale.contains(s));
                if bad {
                    Answer::Refused
                } else {
                    self.nodes.extend(b.nodes().iter().map(|(k, n)| (k.clone(), n.clone())));
                    for ((v, k), x) in b.values() {
                        self.values.entry(*k).or_default().insert(*v, x.clone());
                    }
                    self.stale.extend(stale.iter().flatten().cloned());
                    Answer::Done
                }
            }
            Call::PutLeaf(k, l, v) => {
                let kh = l.key_hash();
                if self.nodes.contains_key(k) || self.newest(&kh).map_or(false, |x| x > k.version()) {
                    Answer::Refused
                } else {
                    self.nodes.insert(k.clone(), Node::Leaf(l.clone()));
                    self.values.entry(kh).or_default().insert(k.version(), Some(v.clone()));
                    Answer::Done
                }
            }
            Call::PutPre(k, p) => {
                self.pre.insert(*k, p.clone());
                Answer::Done
            }
            Call::Purge(h) => {
                let gone: Vec<_> = self.stale.iter().filter(|s| s.0 <= *h).cloned().collect();
                for g in gone {
                    self.nodes.remove(&g.1);
                    self.stale.remove(&g);
                }
                Answer::Done
            }
            Call::Node(k) => Answer::Node(self.nodes.get(k).cloned()),
            Call::Value(v, k) => Answer::Value(self.values.get(k).and_then(|m| m.range(..=*v).next_back()).and_then(|x| x.1.clone())),
            Call::Pre(k) => Answer::Value(self.pre.get(k).cloned()),
            Call::Right => {
                let top = self.nodes.values().filter_map(|n| if let Node::Leaf(l) = n { Some(l.key_hash()) } else { None }).max();
                return match (top, ans) {
                    (_, None) => true,
                    (None, Some(Answer::Right(None))) => true,
                    // Several nodes may hold the greatest key.
                    (Some(t), Some(Answer::Right(Some((k, l))))) => l.key_hash() == t && self.nodes.get(k) == Some(&Node::Leaf(l.clone())),
                    _ => false,
                };
            }
            Call::Count => Answer::Count(self.nodes.len()),
        };
        ans.as_ref().map_or(true, |a| *a == got)
    }
    fn newest(&self, k: &KeyHash) -> Option<u64> {
        self.values.get(k).and_then(|m| m.keys().next_back().copied())
    }
    fn digest(&self) -> u64 {
        use std::hash::{Hash, Hasher};
        #[allow(deprecated)]
        let mut h = std::hash::SipHasher::new();
        for (k, n) in &self.nodes {
            k.hash(&mut h);
            borsh::to_vec(n).expect("borsh").hash(&mut h);
        }
        self.values.iter().for_each(|(k, v)| (k.0, v).hash(&mut h));
        self.stale.hash(&mut h);
        self.pre.iter().for_each(|(k, v)| (k.0, v).hash(&mut h));
        h.finish()
    }
}

fn issue(m: &Mock, c: &Call) -> Out<Answer> {
    let db = &m.db;
    call(|| {
        let done = |r: anyhow::Result<()>| if r.is_ok() { Answer::Done } else { Answer::Refused };
        POINTS.with(|p| p.set(true));
        Ok(match c {
            Call::Write(b, None) => done(db.write_node_batch(b)),
            Call::Write(b, Some(s)) => {
                let mut u = TreeUpdateBatch::default();
                u.node_batch = b.clone();
                u.stale_node_index_batch = s.iter().map(|(v, k)| StaleNodeIndex { stale_since_version: *v, node_key: k.clone() }).collect();
                done(db.write_tree_update_batch(u))
            }
            Call::PutLeaf(k, l, v) => done(db.put_leaf(k.clone(), l.clone(), v.clone())),
            Call::PutPre(k, p) => {
                db.put_key_preimage(*k, p);
                Answer::Done
            }
            Call::Purge(h) => done(db.purge_stale_nodes(*h)),
            Call::Node(k) => Answer::Node(db.get_node_option(k)?),
            Call::Value(v, k) => Answer::Value(db.get_value_option(*v, *k)?),
            Call::Pre(k) => Answer::Value(db.preimage(*k)?),
            Call::Right => Answer::Right(db.get_rightmost_leaf()?),
            Call::Count => Answer::Count(db.num_nodes()),
        })
    })
}

fn record<H: Hs>(w: &W<H>, m: &Mock, user: usize, call: Call) -> Option<Answer> {
    let at = {
        let mut h = m.hist.borrow_mut();
        h.clock += 1;
        let from = h.clock;
        w.note(|| format!("user {user} calls {call:?}"));
        h.events.push(Event { user, call: call.clone(), ans: None, from, to: u64::MAX });
        h.events.len() - 1
    };
    let out = issue(m, &call);
    POINTS.with(|p| p.set(false));
    let ans = match out {
        Out::Ok(a) => a,
        Out::Panic(_) if matches!(call, Call::Write(..) | Call::PutLeaf(..)) && !m.overwrite => Answer::Refused,
        Out::Panic(p) => {
            w.fail(&["C17"], "panics", format!("{call:?}: {p}"));
            return None;
        }
        Out::Err(e) => {
            w.fail(&["C17"], "read-fails", format!("{call:?}: {e:#}"));
            return None;
        }
    };
    w.note(|| format!("user {user} is answered {ans:?}"));
    let mut h = m.hist.borrow_mut();
    h.clock += 1;
    h.events[at].to = h.clock;
    h.events[at].ans = Some(ans.clone());
    w.mark(mix(at as u64 ^ (h.clock << 20)));
    Some(ans)
}

pub fn active<H: Hs>(w: &World<H>) -> bool {
    w.plan.mock && mix(w.plan.seed ^ 0x10c) % 3 == 0
}

const USERS: usize = 5;
const MAX_CALLS: usize = 60;

/// A small space of keys, so that users meet.
fn key_of<H: Hs>(w: &World<H>, r: &mut Rng) -> KeyHash {
    let n = w.keys.len().min(4);
    KeyHash(w.keys[r.below(n)])
}
fn place(r: &mut Rng) -> NodeKey {
    let path = [&[][..], &[0], &[15], &[7, 3]][r.below(4)];
    node_key(r.below(4) as u64, path)
}

pub fn user<H: Hs>(w: &W<H>, m: &Rc<Mock>, i: usize) {
    if i >= USERS {
        return;
    }
    for op in w.plan.clients[i].clone() {
        if w.sh.stop.get() || m.hist.borrow().events.len() >= MAX_CALLS {
            return;
        }
        suspend(Wait::Ready);
        let mut r = Rng::sub(op.c, 0x717 + i as u64);
        let leaf = |r: &mut Rng, k: KeyHash| {
            let val = val_bytes(r.below(50) as u32, r.range(1, 5) as u32);
            (LeafNode::new(k, ValueHash::with::<H>(&val)), val)
        };
        let c = match op.k {
            K::MWrite | K::MTree => {
                let mut b = NodeBatch::default();
                for _ in 0..r.range(1, 3) {
                    let k = key_of(w, &mut r);
                    let (l, val) = leaf(&mut r, k);
                    let at = place(&mut r);
                    if r.chance(4, 5) {
                        b.insert_node(at.clone(), if r.chance(1, 6) { Node::Null } else { Node::Leaf(l) });
                    }
                    if r.chance(1, 2) {
                        let v = r.below(6) as u64;
                        if r.chance(1, 5) {
                            b.extend(vec![], vec![((v, k), None)]);
                        } else {
                            b.insert_value(v, k, val);
                        }
                    }
                }
                let stale = r.chance(2, 3).then(|| {
                    let mut h = m.hist.borrow_mut();
                    let mut free: Vec<NodeKey> = b.nodes().keys().cloned().collect();
                    free.extend(h.mine.remove(&i).unwrap_or_default());
                    let mut out = BTreeSet::new();
                    for k in free {
                        // Each node once in the whole run, and only by who wrote it.
                        if r.chance(1, 2) && !h.recorded.contains(&k) {
                            h.recorded.insert(k.clone());
                            out.insert((r.below(6) as u64, k));
                        }
                    }
                    out
                });
                Call::Write(b, stale)
            }
            K::MPutLeaf => {
                let k = key_of(w, &mut r);
                let (l, val) = leaf(&mut r, k);
                Call::PutLeaf(place(&mut r), l, val)
            }
            K::MPurge | K::MIter => Call::Purge(r.below(7) as u64),
            K::MValue => Call::Value(r.below(7) as u64, key_of(w, &mut r)),
            K::MRight => {
                if r.chance(1, 2) {
                    Call::Count
                } else {
                    Call::Right
                }
            }
            K::MPre if r.chance(1, 2) => {
                let n = r.below(9);
                Call::PutPre(key_of(w, &mut r), r.bytes(n))
            }
            K::MPre => Call::Pre(key_of(w, &mut r)),
            _ => Call::Node(place(&mut r)),
        };
        let Some(ans) = record(w, m, i, c.clone()) else { return };
        if let (Call::Write(b, _), Answer::Done) = (&c, &ans) {
            let mut h = m.hist.borrow_mut();
            let new: Vec<NodeKey> = b.nodes().keys().filter(|k| !h.recorded.contains(*k)).cloned().collect();
            h.mine.entry(i).or_default().extend(new);
        }
        if let (Call::PutLeaf(k, ..), Answer::Done) = (&c, &ans) {
            let mut h = m.hist.borrow_mut();
            if !h.recorded.contains(k) {
                h.mine.entry(i).or_default().push(k.clone());
            }
        }
    }
}

/// At the end: what is in the store, and whether the history can be explained.
pub fn settle<H: Hs>(w: &W<H>, m: &Mock) {
    let mut keys = BTreeSet::new();
    let mut hashes = BTreeMap::new();
    for e in &m.hist.borrow().events {
        match &e.call {
            Call::Write(b, _) => {
                keys.extend(b.nodes().keys().cloned());
                hashes.extend(b.values().keys().map(|(_, k)| (k.0, *k)));
            }
            Call::PutLeaf(k, l, _) => {
                keys.insert(k.clone());
                hashes.insert(l.key_hash().0, l.key_hash());
            }
            Call::PutPre(k, _) => {
                hashes.insert(k.0, *k);
            }
            _ => {}
        }
    }
    let mut audit: Vec<Call> = keys.into_iter().map(Call::Node).collect();
    for k in hashes.into_values() {
        audit.extend((0..7).map(|v| Call::Value(v, k)));
        audit.push(Call::Pre(k));
    }
    audit.extend([Call::Right, Call::Count, Call::Purge(9), Call::Count, Call::Right]);
    for c in audit {
        if record(w, m, 99, c).is_none() {
            return;
        }
    }
    w.eval(&["C17"]);
    let h = m.hist.borrow();
    *w.stats.borrow_mut().probes.entry("mock_lock_points").or_default() += TAKEN.with(|t| t.replace(0));
    let overlaps = h.events.windows(2).filter(|e| e[1].from < e[0].to).count();
    *w.stats.borrow_mut().probes.entry("mock_overlapping_calls").or_default() += overlaps as u64;
    match explain(&h.events, m.overwrite) {
        Some(true) => w.probe("mock_history_explained"),
        None => w.probe("mock_history_undecided"),
        Some(false) => {
            let list: Vec<String> = h
                .events
                .iter()
                .filter(|e| e.user != 99)
                .map(|e| format!("[{}..{}] user {} {:?} -> {:?}", e.from, e.to, e.user, e.call, e.ans))
                .collect();
            w.fail(&["C17"], "not-atomic", format!("no order of the {} calls explains what they (and a final look) returned: {}", list.len(), list.join("; ").chars().take(1500).collect::<String>()));
        }
    }
}

/// Whether some sequential order explains the history; `None` if the search was given up.
fn explain(ev: &[Event], overwrite: bool) -> Option<bool> {
    let mut seen: HashSet<(Vec<u64>, u64)> = HashSet::new();
    let mut budget = 60_000usize;
    let mut done = vec![0u64; ev.len().div_ceil(64)];
    dfs(ev, overwrite, &Ref::default(), &mut done, 0, &mut seen, &mut budget)
}

fn dfs(ev: &[Event], ow: bool, st: &Ref, done: &mut Vec<u64>, count: usize, seen: &mut HashSet<(Vec<u64>, u64)>, budget: &mut usize) -> Option<bool> {
    if count == ev.len() {
        return Some(true);
    }
    if *budget == 0 {
        return None;
    }
    *budget -= 1;
    let is = |d: &Vec<u64>, i: usize| d[i / 64] >> (i % 64) & 1 == 1;
    // A call can be next if no other open one returned before it began.
    let first_ret = (0..ev.len()).filter(|i| !is(done, *i)).map(|i| ev[i].to).min().unwrap();
    let mut unsure = false;
    for i in 0..ev.len() {
        if is(done, i) || ev[i].from > first_ret {
            continue;
        }
        let mut s = st.clone();
        if !s.step(ow, &ev[i].call, &ev[i].ans) {
            continue;
        }
        done[i / 64] |= 1 << (i % 64);
        let r = if seen.insert((done.clone(), s.digest())) { dfs(ev, ow, &s, done, count + 1, seen, budget) } else { Some(false) };
        done[i / 64] &= !(1 << (i % 64));
        match r {
            Some(true) => return Some(true),
            None => unsure = true,
            Some(false) => {}
        }
    }
    if unsure {
        None
    } else {
        Some(false)
    }
}
