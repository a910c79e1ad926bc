//! A malicious peer: structured forgeries and malformed messages, judged against the truth.
//! Everything it does is a pure function of the operation's own sub-seed.
use crate::hashers::{Hs, IcsHost};
use crate::model::*;
use crate::plan::*;
use crate::rng::Rng;
use crate::tasks::*;
use crate::world::*;
use jmt::mock::MockTreeStore;
use jmt::proof::{SparseMerkleProof, SparseMerkleRangeProof, UpdateMerkleProof};
use jmt::storage::{Node, NodeBatch, NodeKey, StaleNodeIndex, TreeUpdateBatch};
use jmt::{JellyfishMerkleTree, KeyHash, RootHash};
use std::collections::BTreeMap;
use std::rc::Rc;

pub fn attack<H: Hs>(w: &W<H>, op: &Op) {
    *w.stats.borrow_mut().faults.entry("byzantine_message").or_default() += 1;
    if matches!(op.k, K::ForgeMember | K::ForgeUpdate | K::ForgeIcs) && op.c % 24 == 0 {
        crate::binding::binding(w, op.c);
        return;
    }
    match op.k {
        K::ForgeMember => forge_member(w, op),
        K::ForgeUpdate => forge_update(w, op),
        K::ForgeIcs => forge_ics(w, op),
        K::FuzzProof => fuzz_proof(w, op),
        K::FuzzUpdate => fuzz_update(w, op),
        K::FuzzRange => fuzz_range(w, op),
        K::FuzzCodec => fuzz_codec(w, op),
        _ => {}
    }
}

fn some_version<'a, H: Hs>(w: &'a World<H>, sel: u32) -> &'a StageTruth {
    let v: Vec<usize> = w.ver_stage.values().copied().collect();
    &w.stages[v[sel as usize % v.len()]]
}

fn rnd_sib(r: &mut Rng) -> PSib {
    match r.below(4) {
        0 | 1 => PSib::Null,
        2 => PSib::Internal { l: r.arr32(), r: r.arr32() },
        _ => PSib::Leaf { key: r.arr32(), vh: r.arr32() },
    }
}

/// A value claim for a key: true, stale, somebody else's, or invented.
fn claim<H: Hs>(w: &World<H>, t: &StageTruth, key: &Key, r: &mut Rng) -> Option<Vec<u8>> {
    match r.below(8) {
        0 | 1 => t.state.get(key).map(|v| (**v).clone()),
        2 | 3 => None,
        4 => {
            let o = &w.stages[r.below(w.stages.len())];
            o.state.get(key).map(|v| (**v).clone())
        }
        5 if !t.leaves.is_empty() => Some((*t.state[&t.leaves[r.below(t.leaves.len())].0]).clone()),
        6 => Some(vec![]),
        _ => Some(val_bytes(r.below(1 << 16) as u32, r.range(1, 40) as u32)),
    }
}

/// A damaged or spliced variant of a proof.
fn mutate<H: Hs>(w: &World<H>, p: &mut PProof, t: &StageTruth, key: &Key, val: &Option<Vec<u8>>, r: &mut Rng) {
    let n = p.siblings.len();
    match r.below(18) {
        0 => p.leaf = val.as_ref().map(|v| PLeaf { key: *key, vh: H::h(v) }),
        1 => p.leaf = None,
        2 => {
            let k = r.below(n + 1);
            p.siblings.drain(..k);
        }
        3 => {
            let k = r.below(n + 1);
            p.siblings.truncate(k);
        }
        4 => {
            let k = 1 + r.skewed(255);
            let s = rnd_sib(r);
            for _ in 0..k {
                p.siblings.insert(0, s);
            }
        }
        5 => {
            let k = 1 + r.skewed(300);
            for _ in 0..k {
                let s = rnd_sib(r);
                p.siblings.push(s);
            }
        }
        6 if n > 0 => p.siblings[r.below(n)] = rnd_sib(r),
        7 if n > 1 => {
            let (i, j) = (r.below(n), r.below(n));
            p.siblings.swap(i, j);
        }
        8 => {
            // leaf and siblings of another key
            if !t.leaves.is_empty() {
                let o = t.leaves[r.below(t.leaves.len())].0;
                *p = ref_proof::<H>(&t.leaves, &o);
            }
        }
        9 => {
            // the same key at another version
            let o = &w.stages[r.below(w.stages.len())];
            *p = ref_proof::<H>(&o.leaves, key);
        }
        10 => {
            let o = &w.stages[r.below(w.stages.len())];
            let q = ref_proof::<H>(&o.leaves, key);
            let k = r.below(q.siblings.len().min(n) + 1);
            p.siblings[..k].copy_from_slice(&q.siblings[..k]);
        }
        11 => p.siblings.clear(),
        12 if n > 0 => {
            // an internal sibling opened up, or two levels folded into one
            let i = r.below(n);
            if let PSib::Internal { l, r: rr } = p.siblings[i] {
                p.siblings[i] = PSib::Internal { l: rr, r: l };
            } else {
                p.siblings.remove(i);
            }
        }
        13 => {
            if let Some(l) = p.leaf.as_mut() {
                let i = r.below(256);
                if r.chance(1, 2) {
                    l.key[i / 8] ^= 0x80 >> (i % 8);
                } else {
                    l.vh[i / 8] ^= 0x80 >> (i % 8);
                }
            } else if let Some(l) = t.leaves.first() {
                p.leaf = Some(PLeaf { key: l.0, vh: l.1 });
            }
        }
        14 => {
            // a leaf disguised as the claimed key
            if let Some(l) = p.leaf.as_mut() {
                l.key = *key;
            }
        }
        15 if n > 0 => {
            // the sibling becomes the leaf
            for i in 0..n {
                if let PSib::Leaf { key: k, vh } = p.siblings[i] {
                    p.leaf = Some(PLeaf { key: k, vh });
                    p.siblings.drain(..=i);
                    break;
                }
            }
        }
        16 => {
            let want = *r.pick(&[255usize, 256, 257, 257, 258, 300, 512, 1000]);
            while p.siblings.len() < want {
                p.siblings.insert(0, PSib::Null);
            }
        }
        _ => {
            while p.siblings.first() == Some(&PSib::Null) {
                p.siblings.remove(0);
            }
        }
    }
}

fn forge_member<H: Hs>(w: &W<H>, op: &Op) {
    let mut r = Rng::sub(op.c, 0xf0e);
    let t = some_version(w, op.a);
    let key = pick_key(w, op.b, r.u64());
    let val = claim(w, t, &key, &mut r);
    let src = if r.chance(2, 3) { key } else { pick_key(w, r.u64() as u32, r.u64()) };
    let mut p = ref_proof::<H>(&t.leaves, &src);
    let rounds = r.below(4);
    for _ in 0..rounds {
        mutate(w, &mut p, t, &key, &val, &mut r);
    }
    judge_claim(w, t, &key, &val, &p, "forged");
}

/// Whatever the proof, only the truth may be accepted.
fn judge_claim<H: Hs>(w: &W<H>, t: &StageTruth, key: &Key, val: &Option<Vec<u8>>, p: &PProof, what: &str) {
    let truth = t.state.get(key).map(|v| &**v) == val.as_ref();
    let root = RootHash(t.root);
    w.eval(&["C07", "C16"]);
    let b = borsh::to_vec(p).expect("borsh");
    let proof = match call(|| Ok(borsh::from_slice::<SparseMerkleProof<H>>(&b)?)) {
        Out::Ok(p) => p,
        Out::Err(_) => return,
        Out::Panic(e) => return w.fail(&["C16", "C20"], "decode-panics", e),
    };
    let outs = [
        call(|| proof.verify(root, KeyHash(*key), val.as_ref())),
        match val {
            Some(v) => call(|| proof.verify_existence(root, KeyHash(*key), v)),
            None => call(|| proof.verify_nonexistence(root, KeyHash(*key))),
        },
    ];
    for o in outs {
        match o {
            Out::Ok(()) if !truth => {
                w.fail(
                    &["C07"],
                    "false-claim-accepted",
                    format!("{what} proof with {} siblings: key {} value {:?} in a version of {} pairs", p.siblings.len(), short(key), val.as_ref().map(|b| short(b)), t.leaves.len()),
                );
                return;
            }
            Out::Ok(()) => w.probe("true_claim_accepted_from_adversary"),
            Out::Err(_) => w.probe("forgery_rejected"),
            Out::Panic(e) => return w.fail(&["C16"], "verify-panics", format!("{} siblings: {e}", p.siblings.len())),
        }
    }
    // The root a proof leads to, for those who compare it themselves. (A helper without an error
    // to return: it takes a proof with a leaf and a possible path.)
    if p.leaf.is_some() && p.siblings.len() <= 256 {
        match guard(|| proof.root_hash()) {
            Ok(_) => {}
            Err(e) => w.fail(&["C16"], "root-hash-panics", format!("{} siblings: {e}", p.siblings.len())),
        }
    }
}

/// The root the verifier arrives at, read from its complaint about a wrong one.
fn scrape(e: &str) -> Option<[u8; 32]> {
    let i = e.find("Actual root hash")?;
    let s: String = e[i + 16..].chars().skip_while(|c| !c.is_ascii_hexdigit() || !c.is_ascii_lowercase() && !c.is_ascii_digit()).collect();
    let _ = s;
    // Take the first run of 64 hex digits.
    let b = e[i..].as_bytes();
    let mut run = 0;
    for j in 0..b.len() {
        if b[j].is_ascii_hexdigit() {
            run += 1;
            if run == 64 {
                let v = unhex(std::str::from_utf8(&b[j - 63..=j]).ok()?);
                return v.try_into().ok();
            }
        } else {
            run = 0;
        }
    }
    None
}

fn forge_update<H: Hs>(w: &W<H>, op: &Op) {
    let mut r = Rng::sub(op.c, 0xf1e);
    // The contents the client trusts.
    let idx = op.a as usize % (w.stages.len() + 1);
    let base = if idx == w.stages.len() { &w.empty } else { &w.stages[idx] };
    // The updates it is told about.
    let honest_list = idx < w.stages.len() && idx + 1 < w.stages.len() && r.chance(1, 3);
    let mut ups: Vec<(Key, Option<Vec<u8>>)> = vec![];
    if honest_list {
        ups = w.updates(idx + 1).into_iter().map(|(k, v)| (k.0, v)).collect();
        ups.truncate(6);
    } else {
        for _ in 0..r.range(1, 3) {
            let present = r.chance(1, 2) && !base.leaves.is_empty();
            let k = if present { base.leaves[r.below(base.leaves.len())].0 } else { pick_key(w, op.b.wrapping_add(r.below(50) as u32), r.u64()) };
            let v = if r.chance(1, 2) { None } else { Some(val_bytes(r.below(1 << 16) as u32, r.range(1, 12) as u32)) };
            ups.push((k, v));
        }
    }
    // The proofs the liar sends: honest ones for the running contents, then damage.
    let mut state = base.state.clone();
    let mut proofs: Vec<PProof> = vec![];
    let mut roots = vec![base.root];
    let victim = r.below(ups.len().max(1));
    let damage = r.below(5);
    for (i, (k, v)) in ups.iter().enumerate() {
        let leaves = leaves_of::<H>(&state);
        let cur = StageTruth {
            version: 0,
            root: root_of::<H>(&leaves, 0),
            leaves,
            state: state.clone(),
            nodes: Default::default(),
        };
        let mut p = ref_proof::<H>(&cur.leaves, k);
        if i == victim {
            match damage {
                0 => {}
                1 => {
                    // pretend there is nothing to prove
                    p.leaf = None;
                    p.siblings.clear();
                }
                2 => {
                    // an honest proof of some other leaf
                    if !cur.leaves.is_empty() {
                        p = ref_proof::<H>(&cur.leaves, &cur.leaves[r.below(cur.leaves.len())].0);
                    }
                }
                _ => {
                    for _ in 0..r.range(1, 2) {
                        mutate(w, &mut p, &cur, k, v, &mut r);
                    }
                }
            }
        }
        proofs.push(p);
        apply(&mut state, k, &v.clone().map(Rc::new));
        roots.push(root_of::<H>(&leaves_of::<H>(&state), 0));
    }
    let truth = *roots.last().unwrap();
    // What the client is asked to accept: the same updates, or others.
    let mut claimed = ups.clone();
    match r.below(8) {
        0 if !claimed.is_empty() => {
            claimed.remove(victim);
        }
        1 if claimed.len() > 1 => claimed.swap(0, 1),
        2 if !claimed.is_empty() => {
            let i = r.below(claimed.len());
            claimed[i].1 = match claimed[i].1 {
                Some(_) => None,
                None => Some(b"x".to_vec()),
            };
        }
        3 if !claimed.is_empty() => {
            let i = r.below(claimed.len());
            claimed[i].0 = pick_key(w, r.u64() as u32, r.u64());
        }
        4 => {
            proofs.pop();
        }
        _ => {}
    }
    let claimed_truth = {
        let mut s = base.state.clone();
        for (k, v) in &claimed {
            apply(&mut s, k, &v.clone().map(Rc::new));
        }
        root_of::<H>(&leaves_of::<H>(&s), 0)
    };
    let kup: Vec<(KeyHash, Option<Vec<u8>>)> = claimed.iter().map(|(k, v)| (KeyHash(*k), v.clone())).collect();
    let enc = borsh::to_vec(&proofs).expect("borsh");
    let make = || borsh::from_slice::<UpdateMerkleProof<H>>(&enc).expect("layout");
    let verify = |new: [u8; 32]| call(|| make().verify_update(RootHash(base.root), RootHash(new), &kup));
    let bad = |new: [u8; 32]| {
        w.fail(
            &["C09"],
            "false-transition-accepted",
            format!(
                "{} updates on {} pairs, damage {damage}: new root {} accepted, the updates give {} (old root {})",
                claimed.len(),
                base.leaves.len(),
                short(&new),
                short(&claimed_truth),
                short(&base.root)
            ),
        )
    };
    w.eval(&["C09", "C16"]);
    let mut cands = roots.clone();
    cands.push(truth);
    cands.push(PLACEHOLDER);
    cands.push(w.stages[r.below(w.stages.len())].root);
    for p in &proofs {
        if let Some(l) = &p.leaf {
            cands.push(fold_root::<H>(leaf_hash::<H>(&l.key, &l.vh), &p.siblings, &l.key));
        }
    }
    // First ask with a root that cannot be right, to learn where the proof leads.
    match verify([0xEE; 32]) {
        Out::Ok(()) => return bad([0xEE; 32]),
        Out::Panic(e) => return w.fail(&["C16"], "verify-update-panics", e),
        Out::Err(e) => {
            if let Some(x) = scrape(&format!("{e:#}")) {
                w.probe("update_root_learned");
                cands.push(x);
            }
        }
    }
    cands.sort();
    cands.dedup();
    for c in cands {
        match verify(c) {
            Out::Ok(()) => {
                if c != claimed_truth {
                    return bad(c);
                }
                w.probe("true_transition_accepted_from_adversary");
            }
            Out::Err(_) => w.probe("transition_rejected"),
            Out::Panic(e) => return w.fail(&["C16"], "verify-update-panics", e),
        }
    }
    // And the undamaged list must be accepted by anyone who follows the documented rules.
    if damage == 0 && claimed == ups && proofs.len() == ups.len() {
        if let Out::Err(e) = verify(truth) {
            w.fail(&["C08"], "honest-update-rejected", format!("proofs made independently from the contents: {e:#}"));
        }
    }
}

/// A tree of its own in the in-memory store, to obtain the proofs the library makes.
pub fn shadow<H: Hs>(w: &World<H>, t: &StageTruth) -> Option<MockTreeStore> {
    let db = MockTreeStore::new(true);
    let r = call(|| {
        let tree = JellyfishMerkleTree::<_, H>::new(&db);
        let (_, b) = tree.put_value_set(t.state.iter().map(|(k, v)| (KeyHash(*k), Some((**v).clone()))), 0)?;
        db.write_tree_update_batch(b)?;
        Ok(())
    });
    if !matches!(r, Out::Ok(())) {
        return None;
    }
    for (k, p) in &w.key_pre {
        db.put_key_preimage(KeyHash(*k), p);
    }
    Some(db)
}

fn forge_ics<H: Hs>(w: &W<H>, op: &Op) {
    use ics23::commitment_proof::Proof as Pf;
    let mut r = Rng::sub(op.c, 0xf1c);
    let t = some_version(w, op.a);
    // Every key needs a preimage and a value for ICS23 to be usable at all.
    if t.state.is_empty() || t.state.iter().any(|(k, v)| v.is_empty() || w.key_pre.get(k).map_or(true, |p| p.is_empty())) {
        return;
    }
    let Some(db) = shadow(w, t) else { return };
    let tree = JellyfishMerkleTree::<_, H>::new(&db);
    let get = |pre: &[u8]| match call(|| tree.get_with_ics23_proof(pre.to_vec(), 0)) {
        Out::Ok((_, p)) => Some(p),
        _ => None,
    };
    let pre_of = |k: &Key| w.key_pre.get(k).cloned();
    let exist = |k: &Key| -> Option<ics23::ExistenceProof> {
        match get(&pre_of(k)?)?.proof? {
            Pf::Exist(e) => Some(e),
            _ => None,
        }
    };
    let absent_pre = |r: &mut Rng| -> Vec<u8> {
        let l = r.range(1, 30);
        if H::SIM {
            r.bytes(32)
        } else {
            r.bytes(l)
        }
    };
    let n = t.leaves.len();
    let k = t.leaves[r.below(n)].0;
    let pre = pre_of(&k).unwrap();
    let val = (*t.state[&k]).clone();
    let (mut claim_pre, mut claim_val) = (pre.clone(), Some(val.clone()));
    let kind = r.below(14);
    let mut proof: Option<ics23::CommitmentProof> = None;
    let pack_ex = |e| Some(ics23::CommitmentProof { proof: Some(Pf::Exist(e)) });
    let pack_non = |key: Vec<u8>, left, right| Some(ics23::CommitmentProof { proof: Some(Pf::Nonexist(ics23::NonExistenceProof { key, left, right })) });
    match kind {
        0 | 1 => {
            // deny a present key by its true neighbours
            let i = t.rank_ge(&k);
            let l = if i > 0 { exist(&t.leaves[i - 1].0) } else { None };
            let rr = if i + 1 < n { exist(&t.leaves[i + 1].0) } else { None };
            claim_val = None;
            proof = pack_non(pre.clone(), l, rr);
        }
        2 => {
            // neighbours that are not adjacent
            let i = t.rank_ge(&k);
            let a = r.below(i + 1);
            let b = (i + r.below(n - i)).min(n - 1);
            claim_val = None;
            let l = if a < i { exist(&t.leaves[a].0) } else { None };
            let rr = if b > i { exist(&t.leaves[b].0) } else { None };
            proof = pack_non(pre.clone(), l, rr);
        }
        3 => {
            // only one side, although it is not the edge
            let i = r.below(n);
            let e = exist(&t.leaves[i].0);
            claim_val = None;
            proof = if r.chance(1, 2) { pack_non(pre.clone(), e, None) } else { pack_non(pre.clone(), None, e) };
        }
        4 => {
            // a membership proof with another value
            if let Some(mut e) = exist(&k) {
                let mut v2 = val.clone();
                v2.push(1);
                e.value = v2.clone();
                claim_val = Some(v2);
                proof = pack_ex(e);
            }
        }
        5 => {
            // another key's proof renamed
            let o = t.leaves[r.below(n)].0;
            if let Some(mut e) = exist(&o) {
                e.key = pre.clone();
                claim_val = Some(e.value.clone());
                proof = pack_ex(e);
            }
        }
        6 => {
            // an inner node passed off as a leaf
            if let Some(mut e) = exist(&k) {
                if e.path.is_empty() {
                    return;
                }
                let full = ref_proof::<H>(&t.leaves, &k);
                let i = r.below(e.path.len());
                let mut h = leaf_hash::<H>(&k, &H::h(&val));
                for j in 0..i {
                    let d = full.siblings.len() - 1 - j;
                    let s = sib_hash::<H>(&full.siblings[j]);
                    h = if bit(&k, d) { inner_hash::<H>(&s, &h) } else { inner_hash::<H>(&h, &s) };
                }
                let d = full.siblings.len() - 1 - i;
                let s = sib_hash::<H>(&full.siblings[i]);
                let (l, rr) = if bit(&k, d) { (s, h) } else { (h, s) };
                e.path.drain(..=i);
                e.key = l.to_vec();
                e.value = rr.to_vec();
                if let Some(lf) = e.leaf.as_mut() {
                    lf.prefix = b"JMT::IntrnalNode".to_vec();
                    if r.chance(1, 2) {
                        lf.prehash_key = 0;
                        lf.prehash_value = 0;
                    }
                }
                claim_pre = l.to_vec();
                claim_val = Some(rr.to_vec());
                proof = pack_ex(e);
            }
        }
        7 => {
            // a leaf passed off as an inner node, one level down
            if let Some(mut e) = exist(&k) {
                let p2 = absent_pre(&mut r);
                let v2 = b"forged".to_vec();
                e.path.insert(
                    0,
                    ics23::InnerOp {
                        hash: ics23::HashOp::Sha256.into(),
                        prefix: [b"JMT::LeafNode".to_vec(), r.bytes(32)].concat(),
                        suffix: vec![],
                    },
                );
                e.key = p2.clone();
                e.value = v2.clone();
                claim_pre = p2;
                claim_val = Some(v2);
                proof = pack_ex(e);
            }
        }
        8 => {
            // damaged operations
            if let Some(mut e) = exist(&k) {
                claim_val = Some(val_bytes(r.below(99) as u32, 5));
                e.value = claim_val.clone().unwrap();
                if !e.path.is_empty() {
                    let i = r.below(e.path.len());
                    match r.below(4) {
                        0 => e.path[i].prefix.extend(r.bytes(32)),
                        1 => e.path[i].suffix = r.bytes(32),
                        2 => e.path[i].hash = 0,
                        _ => {
                            e.path.remove(i);
                        }
                    }
                }
                if r.chance(1, 2) {
                    if let Some(l) = e.leaf.as_mut() {
                        match r.below(4) {
                            0 => l.prehash_value = 0,
                            1 => l.prehash_key = 0,
                            2 => l.length = 1,
                            _ => l.prefix = vec![],
                        }
                    }
                }
                proof = pack_ex(e);
            }
        }
        9 => {
            // an honest absence proof used for another key
            let p0 = absent_pre(&mut r);
            if let Some(mut c) = get(&p0) {
                if let Some(Pf::Nonexist(x)) = c.proof.as_mut() {
                    x.key = pre.clone();
                }
                claim_val = None;
                proof = Some(c);
            }
        }
        10 => {
            // a proof of another version
            let o = some_version(w, r.u64() as u32);
            if let Some(db2) = shadow(w, o) {
                let tree2 = JellyfishMerkleTree::<_, H>::new(&db2);
                if let Out::Ok((v2, p2)) = call(|| tree2.get_with_ics23_proof(pre.clone(), 0)) {
                    claim_val = v2;
                    proof = Some(p2);
                }
            }
        }
        11 => {
            // an honest absence proof with one side dropped or replaced
            let p0 = absent_pre(&mut r);
            if let Some(mut c) = get(&p0) {
                if let Some(Pf::Nonexist(x)) = c.proof.as_mut() {
                    match r.below(3) {
                        0 => x.left = exist(&t.leaves[r.below(n)].0),
                        1 => x.right = exist(&t.leaves[r.below(n)].0),
                        _ => std::mem::swap(&mut x.left, &mut x.right),
                    }
                    let k2 = t.leaves[r.below(n)].0;
                    x.key = pre_of(&k2).unwrap();
                    claim_pre = x.key.clone();
                }
                claim_val = None;
                proof = Some(c);
            }
        }
        12 => {
            // empty or foreign variants
            proof = match r.below(3) {
                0 => Some(ics23::CommitmentProof { proof: None }),
                1 => pack_non(pre.clone(), None, None),
                _ => pack_ex(ics23::ExistenceProof { key: pre.clone(), value: b"q".to_vec(), leaf: None, path: vec![] }),
            };
            claim_val = if r.chance(1, 2) { None } else { Some(b"q".to_vec()) };
        }
        _ => {
            // a batch hiding a false entry
            if let Some(e) = exist(&k) {
                let p2 = absent_pre(&mut r);
                let mut f = e.clone();
                f.key = p2.clone();
                claim_pre = p2;
                claim_val = Some(e.value.clone());
                proof = Some(ics23::CommitmentProof {
                    proof: Some(Pf::Batch(ics23::BatchProof {
                        entries: vec![
                            ics23::BatchEntry { proof: Some(ics23::batch_entry::Proof::Exist(e)) },
                            ics23::BatchEntry { proof: Some(ics23::batch_entry::Proof::Exist(f)) },
                        ],
                    })),
                });
            }
        }
    }
    let Some(proof) = proof else { return };
    let truth = t.state.get(&H::h(&claim_pre)).map(|v| &**v) == claim_val.as_ref();
    w.eval(&["C11"]);
    let spec = jmt::ics23_spec();
    let root = t.root.to_vec();
    let ok = guard(|| match &claim_val {
        Some(v) => ics23::verify_membership::<IcsHost<H>>(&proof, &spec, &root, &claim_pre, v),
        None => ics23::verify_non_membership::<IcsHost<H>>(&proof, &spec, &root, &claim_pre),
    })
    .unwrap_or(false);
    if ok && !truth {
        w.fail(&["C11"], "ics-false-claim", format!("forgery {kind} on {n} pairs: {:?} for key {} accepted", claim_val.map(|v| short(&v)), short(&claim_pre)));
    } else {
        w.probe(if ok { "ics_true_claim_from_adversary" } else { "ics_forgery_rejected" });
    }
}

fn fuzz_proof<H: Hs>(w: &W<H>, op: &Op) {
    let mut r = Rng::sub(op.c, 0xf2);
    let t = some_version(w, op.a);
    let key = pick_key(w, op.b, r.u64());
    let val = claim(w, t, &key, &mut r);
    let p = match r.below(4) {
        0 => {
            let n = *r.pick(&[0usize, 1, 2, 64, 255, 256, 257, 260, 400]);
            PProof {
                leaf: match r.below(3) {
                    0 => None,
                    1 => Some(PLeaf { key, vh: r.arr32() }),
                    _ => Some(PLeaf { key: r.arr32(), vh: r.arr32() }),
                },
                siblings: (0..n).map(|_| rnd_sib(&mut r)).collect(),
            }
        }
        _ => {
            let mut p = ref_proof::<H>(&t.leaves, &key);
            for _ in 0..r.range(1, 3) {
                mutate(w, &mut p, t, &key, &val, &mut r);
            }
            p
        }
    };
    if r.chance(1, 2) {
        judge_claim(w, t, &key, &val, &p, "malformed");
        return;
    }
    // Damaged bytes, in one of the encodings.
    let form = r.below(4) as u32;
    let real = unmirror::<H>(&p);
    let mut b = crate::net::enc(form, &real).unwrap_or_default();
    for _ in 0..r.range(1, 4) {
        rot(&mut b, r.u64() as u32);
    }
    w.eval(&["C16", "C20"]);
    match call(|| crate::net::dec::<SparseMerkleProof<H>>(form, &b)) {
        Out::Ok(p) => judge_claim(w, t, &key, &val, &mirror(&p), "damaged"),
        Out::Err(_) => w.probe("damaged_proof_undecodable"),
        Out::Panic(e) => w.fail(&["C16", "C20"], "decode-panics", e),
    }
}

fn fuzz_update<H: Hs>(w: &W<H>, op: &Op) {
    let mut r = Rng::sub(op.c, 0xf3);
    let t = some_version(w, op.a);
    let n = r.range(0, 3);
    let mut ups = vec![];
    let mut ps = vec![];
    for _ in 0..n {
        let key = pick_key(w, op.b.wrapping_add(r.below(9) as u32), r.u64());
        let val = claim(w, t, &key, &mut r);
        let mut p = ref_proof::<H>(&t.leaves, &key);
        for _ in 0..r.below(3) {
            mutate(w, &mut p, t, &key, &val, &mut r);
        }
        if r.chance(1, 8) {
            // Just around the greatest possible depth.
            let want = *r.pick(&[254usize, 255, 256, 257, 258]);
            p.siblings.truncate(want);
            while p.siblings.len() < want {
                let s = rnd_sib(&mut r);
                p.siblings.insert(0, s);
            }
        }
        ups.push((KeyHash(key), val));
        ps.push(p);
    }
    // The root may come from the same untrusted peer, chosen so that the first proof fits it.
    let fits = match (ps.first(), ups.first()) {
        (Some(p), Some(u)) if p.siblings.len() <= 256 && r.chance(1, 2) => {
            let start = p.leaf.as_ref().map_or(PLACEHOLDER, |l| leaf_hash::<H>(&l.key, &l.vh));
            Some(fold_root::<H>(start, &p.siblings, &u.0 .0))
        }
        _ => None,
    };
    let old = fits.unwrap_or(t.root);
    if r.chance(1, 6) {
        ups.pop();
    }
    let mut b = borsh::to_vec(&ps).unwrap();
    if r.chance(1, 3) {
        rot(&mut b, r.u64() as u32);
    }
    w.eval(&["C16", "C09"]);
    let p = match call(|| Ok(borsh::from_slice::<UpdateMerkleProof<H>>(&b)?)) {
        Out::Ok(p) => p,
        Out::Err(_) => return w.probe("damaged_proof_undecodable"),
        Out::Panic(e) => return w.fail(&["C16", "C20"], "decode-panics", e),
    };
    let new = RootHash(if r.chance(1, 2) { t.root } else { w.stages[r.below(w.stages.len())].root });
    let mut s = t.state.clone();
    for (k, v) in &ups {
        apply(&mut s, &k.0, &v.clone().map(Rc::new));
    }
    match call(|| p.verify_update(RootHash(old), new, &ups)) {
        Out::Ok(()) if old != t.root => {}
        Out::Ok(()) => {
            if root_of::<H>(&leaves_of::<H>(&s), 0) != new.0 {
                w.fail(&["C09"], "false-transition-accepted", format!("malformed proof, {} updates on {} pairs", ups.len(), t.leaves.len()));
            }
        }
        Out::Err(_) => w.probe("transition_rejected"),
        Out::Panic(e) => w.fail(&["C16"], "verify-update-panics", e),
    }
}

fn fuzz_range<H: Hs>(w: &W<H>, op: &Op) {
    let mut r = Rng::sub(op.c, 0xf4);
    let t = some_version(w, op.a);
    let key = if !t.leaves.is_empty() && r.chance(2, 3) { t.leaves[r.below(t.leaves.len())].0 } else { pick_key(w, op.b, r.u64()) };
    let full = ref_proof::<H>(&t.leaves, &key);
    let n = full.siblings.len();
    let mut left: Vec<[u8; 32]> = full.siblings.iter().enumerate().filter(|(i, _)| bit(&key, n - 1 - i)).map(|(_, s)| sib_hash::<H>(s)).collect();
    let mut right = ref_range::<H>(&t.leaves, &key);
    for _ in 0..r.below(3) {
        match r.below(6) {
            0 => {
                let k = *r.pick(&[1usize, 2, 100, 200, 257, 300]);
                right.extend((0..k).map(|_| rnd_sib(&mut r)));
            }
            1 => {
                let k = *r.pick(&[1usize, 2, 100, 200, 257, 300]);
                left.extend((0..k).map(|_| r.arr32()));
            }
            2 => {
                right.pop();
            }
            3 => {
                left.pop();
            }
            4 if !right.is_empty() => {
                let i = r.below(right.len());
                right[i] = rnd_sib(&mut r);
            }
            _ => r.shuffle(&mut right),
        }
    }
    let leaf = PLeaf { key, vh: t.leaves.get(t.rank_ge(&key)).filter(|l| l.0 == key).map_or([9; 32], |l| l.1) };
    let form = r.below(4) as u32;
    let mut b = crate::net::enc(form, &unmirror_range::<H>(&right)).unwrap_or_default();
    if r.chance(1, 4) {
        rot(&mut b, r.u64() as u32);
    }
    w.eval(&["C16"]);
    let p = match call(|| crate::net::dec::<SparseMerkleRangeProof<H>>(form, &b)) {
        Out::Ok(p) => p,
        Out::Err(_) => return w.probe("damaged_proof_undecodable"),
        Out::Panic(e) => return w.fail(&["C16", "C20"], "decode-panics", e),
    };
    let leaf2 = borsh::from_slice(&borsh::to_vec(&leaf).unwrap()).unwrap();
    match call(|| p.verify(RootHash(t.root), leaf2, left)) {
        Out::Ok(()) => {
            if !t.leaves.contains(&(leaf.key, leaf.vh)) {
                w.fail(&["C14", "C07"], "false-claim-accepted", format!("a range proof ended at a leaf that does not exist: {}", short(&leaf.key)));
            }
        }
        Out::Err(_) => w.probe("range_rejected"),
        Out::Panic(e) => w.fail(&["C16"], "range-verify-panics", format!("{} right siblings: {e}", right.len())),
    }
}

fn unmirror_range<H: Hs>(s: &[PSib]) -> SparseMerkleRangeProof<H> {
    borsh::from_slice(&borsh::to_vec(&s.to_vec()).unwrap()).expect("range proof layout")
}

/// Random and damaged encodings of everything that is stored or sent.
fn fuzz_codec<H: Hs>(w: &W<H>, op: &Op) {
    let mut r = Rng::sub(op.c, 0xf5);
    let t = some_version(w, op.a);
    w.eval(&["C20", "C16"]);
    fn check<T: borsh::BorshSerialize + borsh::BorshDeserialize + PartialEq, H: Hs>(w: &W<H>, what: &str, b: &[u8]) {
        match call(|| Ok(borsh::from_slice::<T>(b)?)) {
            Out::Ok(x) => {
                w.probe("damaged_encoding_decoded");
                match call(|| Ok(borsh::from_slice::<T>(&borsh::to_vec(&x)?)?)) {
                    Out::Ok(y) if y == x => {}
                    Out::Ok(_) => w.fail(&["C20"], "round-trip", format!("{what} changes when encoded again")),
                    Out::Err(e) => w.fail(&["C20"], "round-trip", format!("{what} does not decode again: {e:#}")),
                    Out::Panic(e) => w.fail(&["C20", "C16"], "codec-panic", format!("{what}: {e}")),
                }
            }
            Out::Err(_) => w.probe("damaged_encoding_rejected"),
            Out::Panic(e) => w.fail(&["C20", "C16"], "codec-panic", format!("{what}: {e}")),
        }
    }
    fn serde_check<T, H: Hs>(w: &W<H>, what: &str, form: u32, b: &[u8])
    where
        T: borsh::BorshSerialize + borsh::BorshDeserialize + serde::Serialize + serde::de::DeserializeOwned + PartialEq,
    {
        match call(|| crate::net::dec::<T>(form, b)) {
            Out::Ok(x) => match call(|| crate::net::enc(form, &x).map(|b| crate::net::dec::<T>(form, &b)).transpose()) {
                Out::Ok(Some(y)) if y == x => {}
                Out::Panic(e) => w.fail(&["C20", "C16"], "codec-panic", format!("{what} (serde): {e}")),
                _ => w.fail(&["C20"], "round-trip", format!("{what} (serde) changes when encoded again")),
            },
            Out::Err(_) => w.probe("damaged_encoding_rejected"),
            Out::Panic(e) => w.fail(&["C20", "C16"], "codec-panic", format!("{what} (serde): {e}")),
        }
    }
    if r.chance(1, 4) {
        let n = r.skewed(200);
        let b = r.bytes(n);
        serde_check::<NodeKey, H>(w, "node key", 1, &b);
        serde_check::<Node, H>(w, "node", 1, &b);
        check::<NodeKey, H>(w, "node key", &b);
        check::<Node, H>(w, "node", &b);
        check::<StaleNodeIndex, H>(w, "stale record", &b);
        check::<TreeUpdateBatch, H>(w, "batch", &b);
        check::<NodeBatch, H>(w, "node batch", &b);
        return;
    }
    // Real objects of a real update, intact and damaged.
    let db = MockTreeStore::new(true);
    let tree = JellyfishMerkleTree::<_, H>::new(&db);
    let v = r.u64() >> r.below(64);
    let v = v.min(u64::MAX - 2);
    let kvs: BTreeMap<KeyHash, Option<Vec<u8>>> = t.state.iter().map(|(k, v)| (KeyHash(*k), Some((**v).clone()))).collect();
    let batch = match call(|| Ok(tree.put_value_set(kvs, v)?.1)) {
        Out::Ok(b) => b,
        _ => return,
    };
    if r.chance(1, 3) {
        let b = borsh::to_vec(&batch).unwrap();
        match call(|| Ok(borsh::from_slice::<TreeUpdateBatch>(&b)?)) {
            Out::Ok(x) if x == batch => {}
            _ => w.fail(&["C20"], "round-trip", "a tree update batch does not survive its encoding".into()),
        }
        let mut b2 = b.clone();
        rot(&mut b2, r.u64() as u32);
        check::<TreeUpdateBatch, H>(w, "batch", &b2);
        return;
    }
    for (k, n) in batch.node_batch.nodes() {
        // keys
        let kb = borsh::to_vec(k).unwrap();
        match call(|| Ok(borsh::from_slice::<NodeKey>(&kb)?)) {
            Out::Ok(x) if x == *k && x.version() == v && nk_path(&x) == nk_path(k) => {}
            _ => return w.fail(&["C20"], "round-trip", format!("node key {k:?}")),
        }
        for form in 0..2 {
            let Some(mut j) = crate::net::enc(form, k) else {
                return w.fail(&["C20"], "round-trip", format!("node key {k:?} (serde)"));
            };
            match call(|| crate::net::dec::<NodeKey>(form, &j)) {
                Out::Ok(x) if x == *k => {}
                _ => return w.fail(&["C20"], "round-trip", format!("node key {k:?} (serde)")),
            }
            rot(&mut j, r.u64() as u32);
            serde_check::<NodeKey, H>(w, "node key", form, &j);
            let Some(mut j) = crate::net::enc(form, n) else {
                return w.fail(&["C20"], "round-trip", format!("node {n:?} (serde)"));
            };
            match call(|| crate::net::dec::<Node>(form, &j)) {
                Out::Ok(x) if x == *n => {}
                _ => return w.fail(&["C20"], "round-trip", format!("node {n:?} (serde)")),
            }
            rot(&mut j, r.u64() as u32);
            serde_check::<Node, H>(w, "node", form, &j);
        }
        // any other key has another encoding
        let mut path = nk_path(k);
        match r.below(3) {
            0 if path.len() < 64 => path.push(r.below(16) as u8),
            1 if !path.is_empty() => {
                path.pop();
            }
            _ if !path.is_empty() => {
                let i = r.below(path.len());
                path[i] = (path[i] + 1 + r.below(15) as u8) % 16;
            }
            _ => path.push(0),
        }
        for o in [node_key(v, &path), node_key(v ^ (1 << r.below(63)), &nk_path(k))] {
            if o != *k && borsh::to_vec(&o).unwrap() == kb {
                return w.fail(&["C20"], "key-collision", format!("{k:?} and {o:?} have the same encoding"));
            }
        }
        let nb = borsh::to_vec(n).unwrap();
        match call(|| Ok(borsh::from_slice::<Node>(&nb)?)) {
            Out::Ok(x) if x == *n => {
                if let (Node::Internal(a), Node::Internal(b)) = (&x, n) {
                    if a.hash::<H>() != b.hash::<H>() || a.leaf_count() != b.leaf_count() {
                        return w.fail(&["C20"], "round-trip", format!("node {k:?} hashes differently once decoded"));
                    }
                }
            }
            _ => return w.fail(&["C20"], "round-trip", format!("node {n:?}")),
        }
        if r.chance(1, 3) {
            let mut b2 = nb.clone();
            rot(&mut b2, r.u64() as u32);
            check::<Node, H>(w, "node", &b2);
            let mut b3 = kb.clone();
            rot(&mut b3, r.u64() as u32);
            check::<NodeKey, H>(w, "node key", &b3);
        }
    }
}
