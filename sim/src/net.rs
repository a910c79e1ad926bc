//! The simulated network and the light clients on it. A client knows only root hashes; servers
//! answer from their stores, and the network loses, delays, repeats, swaps and damages messages.
use crate::engine::{suspend, Wait};
use crate::hashers::Hs;
use crate::plan::*;
use crate::rng::{mix, Rng};
use crate::tasks::*;
use crate::world::*;
use jmt::proof::{SparseMerkleProof, UpdateMerkleProof};
use jmt::{KeyHash, RootHash};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::rc::Rc;

#[derive(Clone)]
pub struct Reply {
    pub at: u64,
    pub bytes: Vec<u8>,
    /// Made from intact storage and delivered intact, as the answer to this request.
    pub clean: bool,
}

#[derive(Default)]
pub struct Net {
    inbox: RefCell<BTreeMap<u64, Vec<Reply>>>,
    next: Cell<u64>,
    /// earlier replies by kind, for misrouted and stale deliveries
    pool: RefCell<BTreeMap<&'static str, Vec<Vec<u8>>>>,
    cut: RefCell<BTreeMap<usize, u64>>,
}

pub type Handler<H> = Rc<dyn Fn(&W<H>, usize, &Lease<H>) -> Option<Vec<u8>>>;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Fate {
    Clean,
    DropRequest,
    DropReply,
    Dup,
    Late,
    Corrupt,
    Truncate,
    Misroute,
    Partition,
}

fn fate_of(d: u32) -> Fate {
    match d % 16 {
        0..=5 => Fate::Clean,
        6 => Fate::DropRequest,
        7 => Fate::DropReply,
        8 => Fate::Dup,
        9 => Fate::Late,
        10 | 11 => Fate::Corrupt,
        12 => Fate::Truncate,
        13 | 14 => Fate::Misroute,
        _ => Fate::Partition,
    }
}

/// One request to a node's process, with retries. `None`: nobody answered.
pub fn rpc<H: Hs>(w: &W<H>, client: u32, node: usize, kind: &'static str, d: u32, h: Handler<H>) -> Option<Reply> {
    let mut r = Rng::sub(d as u64, client as u64 ^ mix(w.net.next.get()));
    for attempt in 0..3 {
        let fate = if !w.plan.net_faults {
            Fate::Clean
        } else if attempt == 0 {
            fate_of(d)
        } else if attempt == 1 && r.chance(1, 4) {
            fate_of(r.below(16) as u32)
        } else {
            Fate::Clean
        };
        let now = w.sh.now.get();
        if fate == Fate::Partition {
            w.count_fault("net_partition");
            w.net.cut.borrow_mut().insert(node, now + 5_000 + r.below(60_000) as u64);
        }
        let cut = w.net.cut.borrow().get(&node).map_or(false, |t| *t > now);
        let id = w.net.next.get();
        w.net.next.set(id + 1);
        let deadline = now + 120_000;
        if cut || fate == Fate::DropRequest {
            w.count_fault(if cut { "net_unreachable" } else { "net_drop_request" });
        } else {
            let copies = if fate == Fate::Dup { 2 } else { 1 };
            if copies == 2 {
                w.count_fault("net_duplicate");
            }
            for copy in 0..copies {
                let delay = 100 + r.skewed(8_000) as u64;
                let back = 100 + r.skewed(8_000) as u64 + if fate == Fate::Late { 150_000 } else { 0 };
                if fate == Fate::Late {
                    w.count_fault("net_delay");
                }
                let w2 = w.clone();
                let h = h.clone();
                let seed = r.u64();
                spawn(w, Some(node), 5_000 + client * 10 + node as u32, "rpc", now + delay, move || {
                    let _ = copy;
                    serve(&w2, node, kind, fate, id, back, seed, h)
                });
            }
        }
        let w2 = w.clone();
        suspend(Wait::Cond(Box::new(move |now| {
            now >= deadline
                || w2
                    .net
                    .inbox
                    .borrow()
                    .get(&id)
                    .map_or(false, |v| v.iter().any(|m| m.at <= now))
        })));
        let now = w.sh.now.get();
        let got = {
            let mut i = w.net.inbox.borrow_mut();
            i.remove(&id).and_then(|v| v.into_iter().find(|m| m.at <= now))
        };
        if let Some(m) = got {
            return Some(m);
        }
        w.probe("rpc_timeout");
        if w.sh.stop.get() {
            return None;
        }
    }
    None
}

#[allow(clippy::too_many_arguments)]
fn serve<H: Hs>(w: &W<H>, node: usize, kind: &'static str, fate: Fate, id: u64, back: u64, seed: u64, h: Handler<H>) {
    if !w.nodes[node].up.get() {
        return;
    }
    let lease = w.open(node);
    let store = &lease.store;
    let Some(bytes) = h(w, node, &lease) else {
        return;
    };
    let mut r = Rng::new(seed);
    let mut reply = Reply {
        at: w.sh.now.get() + back,
        bytes,
        clean: store.rotten.get() == 0,
    };
    let honest = reply.bytes.clone();
    match fate {
        Fate::DropReply => {
            w.count_fault("net_drop_reply");
            return;
        }
        Fate::Corrupt => {
            w.count_fault("net_corrupt");
            for _ in 0..r.range(1, 3) {
                rot(&mut reply.bytes, r.u64() as u32);
            }
            reply.clean = false;
        }
        Fate::Truncate => {
            w.count_fault("net_truncate");
            let n = r.below(reply.bytes.len() + 1);
            reply.bytes.truncate(n);
            reply.clean = false;
        }
        Fate::Misroute => {
            let p = w.net.pool.borrow();
            if let Some(v) = p.get(kind).filter(|v| !v.is_empty()) {
                w.count_fault("net_misroute");
                reply.bytes = r.pick(v).clone();
                reply.clean = false;
            }
        }
        _ => {}
    }
    if store.rotten.get() == 0 {
        w.net.pool.borrow_mut().entry(kind).or_default().push(honest);
    }
    w.net.inbox.borrow_mut().entry(id).or_default().push(reply);
}

// ------------------------------------------------------------------------------ clients

pub fn client<H: Hs>(w: &W<H>, i: usize) {
    for op in w.plan.clients[i].clone() {
        if w.sh.stop.get() {
            return;
        }
        suspend(Wait::Ready);
        match op.k {
            K::Rest => suspend(Wait::Until(w.sh.now.get() + 1_000 + op.c % 9_000)),
            K::QProof | K::QUpdate | K::QIcs | K::QExcl => {
                if w.nodes.is_empty() {
                    continue;
                }
                let n = op.b as usize / 7 % w.nodes.len();
                let mut waited = 0;
                while w.readable(n).is_none() && waited < 200 && !w.sh.stop.get() && !w.nodes[n].done.get() {
                    suspend(Wait::Until(w.sh.now.get() + 2_000));
                    waited += 1;
                }
                if w.readable(n).is_none() {
                    continue;
                }
                match op.k {
                    K::QProof => q_proof(w, i as u32, n, &op),
                    K::QUpdate => q_update(w, i as u32, n, &op),
                    K::QIcs => q_ics(w, i as u32, n, &op),
                    _ => q_excl(w, i as u32, n, &op),
                }
            }
            _ => crate::adversary::attack(w, &op),
        }
        w.mark(0xC1 ^ op.k as u64);
    }
}

/// The encodings a deployment may choose for what it sends: borsh, or serde with JSON or a binary
/// format.
pub fn enc<T: borsh::BorshSerialize + serde::Serialize>(form: u32, t: &T) -> Option<Vec<u8>> {
    match form % 4 {
        0 => serde_json::to_vec(t).ok(),
        1 => bincode::serialize(t).ok(),
        _ => borsh::to_vec(t).ok(),
    }
}
pub fn dec<T: borsh::BorshDeserialize + serde::de::DeserializeOwned>(form: u32, b: &[u8]) -> anyhow::Result<T> {
    Ok(match form % 4 {
        0 => serde_json::from_slice(b)?,
        1 => bincode::deserialize(b)?,
        _ => borsh::from_slice(b)?,
    })
}

/// Decodes what came from the network; reports panics and honest messages that do not decode.
fn receive<H: Hs, T>(w: &W<H>, reply: &Reply, props: &[P], what: &str, f: impl FnOnce() -> anyhow::Result<T>) -> Option<T> {
    w.eval(&["C16", "C20"]);
    match call(f) {
        Out::Ok(t) => Some(t),
        Out::Err(e) => {
            if reply.clean {
                w.fail(&plus(props, &["C20"]), "decode", format!("an intact {what} does not decode: {e:#}"));
            } else {
                w.probe("damaged_message_undecodable");
            }
            None
        }
        Out::Panic(p) => {
            w.fail(&["C16", "C20"], "decode-panics", format!("{what}: {p}"));
            None
        }
    }
}

type Msg = (Option<Vec<u8>>, Vec<u8>);

fn q_proof<H: Hs>(w: &W<H>, c: u32, n: usize, op: &Op) {
    let Some(v) = w.pick_version(n, op.a) else { return };
    let Some(t) = w.truth(v) else { return };
    let key = pick_key(w, op.b, op.c);
    let form = (op.c >> 2) as u32;
    let reply = rpc(
        w,
        c,
        n,
        "proof",
        op.d,
        Rc::new(move |_w: &W<H>, _m: usize, s: &Lease<H>| {
            let tree = &s.tree;
            match call(|| tree.get_with_proof(KeyHash(key), v)) {
                Out::Ok((val, p)) => {
                    let pb = enc(form, &p)?;
                    borsh::to_vec(&(val, pb)).ok()
                }
                _ => None,
            }
        }),
    );
    let Some(reply) = reply else { return };
    let props = w.ctx(n, &["C06"]);
    let Some((val, pb)) = receive(w, &reply, &props, "proof reply", || Ok(borsh::from_slice::<Msg>(&reply.bytes)?)) else {
        return;
    };
    let Some(proof) = receive(w, &reply, &props, "proof", || dec::<SparseMerkleProof<H>>(form, &pb)) else {
        return;
    };
    let truth = t.state.get(&key).map(|x| &**x) == val.as_ref();
    w.eval(&["C06", "C07"]);
    match call(|| proof.verify(RootHash(t.root), KeyHash(key), val.as_ref())) {
        Out::Ok(()) => {
            w.probe(if reply.clean { "client_accepted" } else { "client_accepted_damaged" });
            if !truth {
                w.fail(&["C07"], "false-claim-accepted", format!("a client accepted {:?} for key {} at version {v}", val.map(|b| short(&b)), short(&key)));
            } else if reply.clean {
                check_honest_proof(w, n, &proof, RootHash(t.root), &key, val.as_deref(), &props);
            }
        }
        Out::Err(e) => {
            if reply.clean {
                w.fail(&props, "honest-proof-rejected", format!("a client rejected an intact proof for key {} at version {v}: {e:#}", short(&key)));
            } else {
                w.probe("client_rejected_damaged");
            }
        }
        Out::Panic(p) => w.fail(&["C16"], "verify-panics", p),
    }
}

fn q_update<H: Hs>(w: &W<H>, c: u32, n: usize, op: &Op) {
    let Some((lo, hi)) = w.readable(n) else { return };
    let Some(v) = w.pick_version(n, op.a) else { return };
    // The stage that started version v.
    let Some(i) = w.stages.iter().position(|s| s.version == v) else { return };
    if i > 0 && (v == lo || v > hi || w.plan.stages[i].append) {
        return;
    }
    if i == 0 && (w.nodes[n].disk.borrow().meta.restored_at.is_some() || !crate::tasks::base_readable(w, n, 0)) {
        return;
    }
    let reply = rpc(
        w,
        c,
        n,
        "update",
        op.d,
        Rc::new(move |w: &W<H>, m: usize, s: &Lease<H>| {
            let tree = &s.tree;
            let ups = w.updates(i);
            let base = i == 0 || w.readable(m).map_or(false, |(lo, _)| lo < v);
            if !base {
                return None;
            }
            match call(|| tree.put_value_set_with_proof(ups, v)) {
                Out::Ok((root, p, _)) => {
                    // The base may have been pruned while this was computed.
                    if i > 0 && !w.readable(m).map_or(false, |(lo, _)| lo < v) {
                        return None;
                    }
                    let pb = borsh::to_vec(&p).ok()?;
                    borsh::to_vec(&(root.0, pb)).ok()
                }
                _ => None,
            }
        }),
    );
    let Some(reply) = reply else { return };
    let props = w.ctx(n, &["C08"]);
    let Some((root, pb)) = receive(w, &reply, &props, "update reply", || Ok(borsh::from_slice::<([u8; 32], Vec<u8>)>(&reply.bytes)?)) else {
        return;
    };
    let Some(proof) = receive(w, &reply, &props, "update proof", || Ok(borsh::from_slice::<UpdateMerkleProof<H>>(&pb)?)) else {
        return;
    };
    let old = RootHash(w.before(i).root);
    let truth = root == w.stages[i].root;
    w.eval(&["C08", "C09"]);
    match call(|| proof.verify_update(old, RootHash(root), w.updates(i))) {
        Out::Ok(()) => {
            w.probe(if reply.clean { "client_accepted_update" } else { "client_accepted_damaged_update" });
            if !truth {
                w.fail(&["C09"], "false-transition-accepted", format!("a client accepted root {} for version {v}, expected {}", short(&root), short(&w.stages[i].root)));
            }
        }
        Out::Err(e) => {
            if reply.clean {
                w.fail(&props, "honest-update-rejected", format!("a client rejected the intact update proof of version {v} (stage {i}): {e:#}"));
            } else {
                w.probe("client_rejected_damaged_update");
            }
        }
        Out::Panic(p) => w.fail(&["C16"], "verify-panics", p),
    }
}

fn q_ics<H: Hs>(w: &W<H>, c: u32, n: usize, op: &Op) {
    use prost::Message;
    let Some(v) = w.pick_version(n, op.a) else { return };
    let Some(t) = w.truth(v) else { return };
    let key = pick_key(w, op.b, op.c);
    let pre = match w.key_pre.get(&key) {
        Some(p) => p.clone(),
        None if H::SIM => key.to_vec(),
        None => return,
    };
    let key = H::h(&pre);
    if !ics_expressible(w, t, &key, &pre) {
        return;
    }
    let pre2 = pre.clone();
    let reply = rpc(
        w,
        c,
        n,
        "ics",
        op.d,
        Rc::new(move |_w: &W<H>, _m: usize, s: &Lease<H>| {
            let tree = &s.tree;
            match call(|| tree.get_with_ics23_proof(pre2.clone(), v)) {
                Out::Ok((val, p)) => borsh::to_vec(&(val, p.encode_to_vec())).ok(),
                _ => None,
            }
        }),
    );
    let Some(reply) = reply else { return };
    let props = w.ctx(n, &["C11"]);
    let Some((val, pb)) = receive(w, &reply, &props, "ics23 reply", || Ok(borsh::from_slice::<Msg>(&reply.bytes)?)) else {
        return;
    };
    let Some(proof) = receive(w, &reply, &props, "ics23 proof", || Ok(ics23::CommitmentProof::decode(&pb[..])?)) else {
        return;
    };
    w.eval(&["C11"]);
    let truth = t.state.get(&key).map(|x| &**x) == val.as_ref();
    let ok = ics_ok::<H>(&proof, &t.root, &pre, val.as_deref());
    if ok && !truth {
        w.fail(&["C11"], "ics-false-claim", format!("a client accepted {:?} for key {} at version {v}", val.map(|b| short(&b)), short(&key)));
    } else if !ok && reply.clean {
        w.fail(&props, "ics-proof-rejected", format!("a client rejected an intact proof for key {} at version {v} ({} leaves)", short(&key), t.leaves.len()));
    } else {
        w.probe(if ok { "client_accepted_ics" } else { "client_rejected_damaged_ics" });
    }
}

/// Exclusion proofs travel as the two neighbour proofs, with the neighbours' values.
fn q_excl<H: Hs>(w: &W<H>, c: u32, n: usize, op: &Op) {
    let Some(v) = w.pick_version(n, op.a) else { return };
    let Some(t) = w.truth(v) else { return };
    if t.state.is_empty() {
        return;
    }
    let key = pick_key(w, op.b, op.c);
    type Ex = (Option<(Vec<u8>, Vec<u8>)>, Option<Vec<u8>>, Option<Vec<u8>>);
    let reply = rpc(
        w,
        c,
        n,
        "excl",
        op.d,
        Rc::new(move |_w: &W<H>, _m: usize, s: &Lease<H>| {
            let tree = &s.tree;
            match call(|| tree.get_with_exclusion_proof(KeyHash(key), v)) {
                Out::Ok(r) => {
                    let b = |p: &SparseMerkleProof<H>| borsh::to_vec(p).ok();
                    let m: Ex = match r {
                        Ok((val, p)) => (Some((val, b(&p)?)), None, None),
                        Err(jmt::ExclusionProof::Leftmost { leftmost_right_proof }) => (None, None, b(&leftmost_right_proof)),
                        Err(jmt::ExclusionProof::Rightmost { rightmost_left_proof }) => (None, b(&rightmost_left_proof), None),
                        Err(jmt::ExclusionProof::Middle { leftmost_right_proof, rightmost_left_proof }) => {
                            (None, b(&rightmost_left_proof), b(&leftmost_right_proof))
                        }
                    };
                    borsh::to_vec(&m).ok()
                }
                _ => None,
            }
        }),
    );
    let Some(reply) = reply else { return };
    let props = w.ctx(n, &["C10"]);
    let Some((hit, l, r)) = receive(w, &reply, &props, "exclusion reply", || Ok(borsh::from_slice::<Ex>(&reply.bytes)?)) else {
        return;
    };
    w.eval(&["C10", "C07"]);
    let root = RootHash(t.root);
    let want = t.state.get(&key);
    if let Some((val, pb)) = hit {
        let Some(p) = receive(w, &reply, &props, "proof", || dec::<SparseMerkleProof<H>>(2, &pb)) else { return };
        let ok = matches!(call(|| p.verify_existence(root, KeyHash(key), &val)), Out::Ok(()));
        if ok && want.map(|v| &**v) != Some(&val) {
            w.fail(&["C07", "C10"], "false-claim-accepted", format!("value {} for key {}", short(&val), short(&key)));
        } else if !ok && reply.clean {
            w.fail(&props, "honest-proof-rejected", format!("key {} at version {v}", short(&key)));
        }
        return;
    }
    let lo = t.state.range(..key).next_back();
    let hi = t.state.range((std::ops::Bound::Excluded(key), std::ops::Bound::Unbounded)).next();
    for (side, pb, nb) in [("left", l, lo), ("right", r, hi)] {
        match (pb, nb) {
            (Some(pb), Some((nk, nv))) => {
                let Some(p) = receive(w, &reply, &props, "proof", || dec::<SparseMerkleProof<H>>(2, &pb)) else { return };
                // A neighbour claim is a membership claim; the client knows the pair it expects.
                let ok = matches!(call(|| p.verify_existence(root, KeyHash(*nk), &**nv)), Out::Ok(()));
                if reply.clean && (!ok || want.is_some()) {
                    w.fail(&props, "wrong-neighbour", format!("{side} neighbour of {} at version {v}", short(&key)));
                } else if ok {
                    w.probe("client_accepted_neighbour");
                }
            }
            (None, None) => {}
            (p, q) => {
                if reply.clean {
                    w.fail(&props, "wrong-sides", format!("{side} side of {}: proof {}, neighbour {}", short(&key), p.is_some(), q.is_some()));
                }
            }
        }
    }
}
