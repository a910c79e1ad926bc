//! Reference model: a version is a sorted map; its root, its canonical node structure and its
//! proofs are computed from the documented sparse Merkle definition, independently of the
//! library's code.
use crate::hashers::Hs;
use std::collections::BTreeMap;
use std::rc::Rc;

pub type Key = [u8; 32];
pub type Val = Rc<Vec<u8>>;
pub type State = BTreeMap<Key, Val>;

pub const PLACEHOLDER: [u8; 32] = *b"SPARSE_MERKLE_PLACEHOLDER_HASH__";
const LEAF: &[u8] = b"JMT::LeafNode";
const INNER: &[u8] = b"JMT::IntrnalNode";

pub fn leaf_hash<H: Hs>(k: &Key, vh: &[u8; 32]) -> [u8; 32] {
    let mut b = Vec::with_capacity(77);
    b.extend_from_slice(LEAF);
    b.extend_from_slice(k);
    b.extend_from_slice(vh);
    H::h(&b)
}
pub fn inner_hash<H: Hs>(l: &[u8; 32], r: &[u8; 32]) -> [u8; 32] {
    let mut b = Vec::with_capacity(80);
    b.extend_from_slice(INNER);
    b.extend_from_slice(l);
    b.extend_from_slice(r);
    H::h(&b)
}
pub fn bit(k: &Key, i: usize) -> bool {
    (k[i / 8] >> (7 - i % 8)) & 1 == 1
}
pub fn nib(k: &Key, i: usize) -> u8 {
    if i % 2 == 0 {
        k[i / 2] >> 4
    } else {
        k[i / 2] & 15
    }
}
pub fn common_bits(a: &Key, b: &Key) -> usize {
    for i in 0..32 {
        let x = a[i] ^ b[i];
        if x != 0 {
            return i * 8 + x.leading_zeros() as usize;
        }
    }
    256
}

pub type Leaf = (Key, [u8; 32]);

/// Index of the first leaf whose bit `d` is 1 (leaves share the first `d` bits).
fn split(leaves: &[Leaf], d: usize) -> usize {
    leaves.partition_point(|l| !bit(&l.0, d))
}

/// Root of the sparse Merkle subtree holding exactly `leaves` (sorted, sharing `d` bits).
pub fn root_of<H: Hs>(leaves: &[Leaf], d: usize) -> [u8; 32] {
    match leaves.len() {
        0 => PLACEHOLDER,
        1 => leaf_hash::<H>(&leaves[0].0, &leaves[0].1),
        _ => {
            let m = split(leaves, d);
            inner_hash::<H>(
                &root_of::<H>(&leaves[..m], d + 1),
                &root_of::<H>(&leaves[m..], d + 1),
            )
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct RefChild {
    pub hash: [u8; 32],
    pub leaf: bool,
    pub count: usize,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum RefNode {
    Null,
    Leaf(Key, [u8; 32]),
    Internal {
        hash: [u8; 32],
        count: usize,
        children: BTreeMap<u8, RefChild>,
    },
}

/// The canonical Jellyfish nodes (path of nibbles -> node) of a set of leaves.
pub fn ref_nodes<H: Hs>(leaves: &[Leaf]) -> BTreeMap<Vec<u8>, RefNode> {
    let mut out = BTreeMap::new();
    if leaves.is_empty() {
        out.insert(vec![], RefNode::Null);
        return out;
    }
    // Returns the hash of the node placed at `path`.
    fn rec<H: Hs>(
        leaves: &[Leaf],
        path: &mut Vec<u8>,
        out: &mut BTreeMap<Vec<u8>, RefNode>,
    ) -> [u8; 32] {
        if leaves.len() == 1 {
            out.insert(path.clone(), RefNode::Leaf(leaves[0].0, leaves[0].1));
            return leaf_hash::<H>(&leaves[0].0, &leaves[0].1);
        }
        let d = path.len();
        let mut children = BTreeMap::new();
        let mut i = 0;
        while i < leaves.len() {
            let n = nib(&leaves[i].0, d);
            let mut j = i;
            while j < leaves.len() && nib(&leaves[j].0, d) == n {
                j += 1;
            }
            path.push(n);
            let h = rec::<H>(&leaves[i..j], path, out);
            path.pop();
            children.insert(
                n,
                RefChild {
                    hash: h,
                    leaf: j - i == 1,
                    count: j - i,
                },
            );
            i = j;
        }
        // The 4-level virtual binary tree over the children.
        fn virt<H: Hs>(ch: &BTreeMap<u8, RefChild>, lo: u8, width: u8) -> [u8; 32] {
            let inside: Vec<&RefChild> = ch
                .range(lo..=lo + (width - 1))
                .map(|(_, c)| c)
                .collect();
            if inside.is_empty() {
                return PLACEHOLDER;
            }
            if width == 1 || (inside.len() == 1 && inside[0].leaf) {
                return inside[0].hash;
            }
            inner_hash::<H>(
                &virt::<H>(ch, lo, width / 2),
                &virt::<H>(ch, lo + width / 2, width / 2),
            )
        }
        let hash = virt::<H>(&children, 0, 16);
        out.insert(
            path.clone(),
            RefNode::Internal {
                hash,
                count: leaves.len(),
                children,
            },
        );
        hash
    }
    rec::<H>(leaves, &mut vec![], &mut out);
    out
}

/// Plain mirror of the wire form of a membership proof (same borsh layout).
#[derive(Clone, Debug, PartialEq, Eq, borsh::BorshSerialize, borsh::BorshDeserialize)]
pub struct PLeaf {
    pub key: Key,
    pub vh: [u8; 32],
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, borsh::BorshSerialize, borsh::BorshDeserialize)]
pub enum PSib {
    Null,
    Internal { l: [u8; 32], r: [u8; 32] },
    Leaf { key: Key, vh: [u8; 32] },
}
#[derive(Clone, Debug, PartialEq, Eq, borsh::BorshSerialize, borsh::BorshDeserialize)]
pub struct PProof {
    pub leaf: Option<PLeaf>,
    /// Bottom-up.
    pub siblings: Vec<PSib>,
}

pub fn sib_hash<H: Hs>(s: &PSib) -> [u8; 32] {
    match s {
        PSib::Null => PLACEHOLDER,
        PSib::Internal { l, r } => inner_hash::<H>(l, r),
        PSib::Leaf { key, vh } => leaf_hash::<H>(key, vh),
    }
}

fn sib_of<H: Hs>(leaves: &[Leaf], d: usize) -> PSib {
    match leaves.len() {
        0 => PSib::Null,
        1 => PSib::Leaf {
            key: leaves[0].0,
            vh: leaves[0].1,
        },
        _ => {
            let m = split(leaves, d);
            PSib::Internal {
                l: root_of::<H>(&leaves[..m], d + 1),
                r: root_of::<H>(&leaves[m..], d + 1),
            }
        }
    }
}

/// The reference prover.
pub fn ref_proof<H: Hs>(leaves: &[Leaf], key: &Key) -> PProof {
    let mut cur = leaves;
    let mut d = 0;
    let mut sibs = vec![];
    while cur.len() > 1 {
        let m = split(cur, d);
        let (a, b) = cur.split_at(m);
        let (own, other) = if bit(key, d) { (b, a) } else { (a, b) };
        sibs.push(sib_of::<H>(other, d + 1));
        cur = own;
        d += 1;
    }
    sibs.reverse();
    PProof {
        leaf: cur.first().map(|l| PLeaf { key: l.0, vh: l.1 }),
        siblings: sibs,
    }
}

/// The reference verifier: what an independent implementation of the documented format accepts.
pub fn ref_verify<H: Hs>(p: &PProof, root: &[u8; 32], key: &Key, vh: Option<[u8; 32]>) -> bool {
    let n = p.siblings.len();
    if n > 256 {
        return false;
    }
    match (&p.leaf, vh) {
        (Some(l), Some(v)) => {
            if l.key != *key || l.vh != v {
                return false;
            }
        }
        (None, Some(_)) => return false,
        (Some(l), None) => {
            if l.key == *key || common_bits(&l.key, key) < n {
                return false;
            }
        }
        (None, None) => {}
    }
    let mut h = match &p.leaf {
        Some(l) => leaf_hash::<H>(&l.key, &l.vh),
        None => PLACEHOLDER,
    };
    for (i, s) in p.siblings.iter().enumerate() {
        let d = n - 1 - i;
        let sh = sib_hash::<H>(s);
        h = if bit(key, d) {
            inner_hash::<H>(&sh, &h)
        } else {
            inner_hash::<H>(&h, &sh)
        };
    }
    h == *root
}

/// Root a proof leads to for a key (no checks); used by forging strategies.
pub fn fold_root<H: Hs>(start: [u8; 32], sibs: &[PSib], key: &Key) -> [u8; 32] {
    let n = sibs.len();
    let mut h = start;
    for (i, s) in sibs.iter().enumerate() {
        let d = n - 1 - i;
        let sh = sib_hash::<H>(s);
        h = if d < 256 && bit(key, d) {
            inner_hash::<H>(&sh, &h)
        } else {
            inner_hash::<H>(&h, &sh)
        };
    }
    h
}

/// Right siblings (bottom-up) of the range proof ending at `key`.
pub fn ref_range<H: Hs>(leaves: &[Leaf], key: &Key) -> Vec<PSib> {
    let p = ref_proof::<H>(leaves, key);
    let n = p.siblings.len();
    p.siblings
        .iter()
        .enumerate()
        .filter(|(i, _)| !bit(key, n - 1 - i))
        .map(|(_, s)| *s)
        .collect()
}

pub fn leaves_of<H: Hs>(s: &State) -> Vec<Leaf> {
    s.iter().map(|(k, v)| (*k, H::h(v))).collect()
}

pub fn apply(s: &mut State, k: &Key, v: &Option<Val>) {
    match v {
        Some(v) => {
            s.insert(*k, v.clone());
        }
        None => {
            s.remove(k);
        }
    }
}

/// One committed stage of the replicated log.
pub struct StageTruth {
    pub version: u64,
    pub state: State,
    pub leaves: Vec<Leaf>,
    pub root: [u8; 32],
    pub nodes: std::cell::OnceCell<BTreeMap<Vec<u8>, RefNode>>,
}
impl StageTruth {
    pub fn new<H: Hs>(version: u64, state: State) -> Self {
        let leaves = leaves_of::<H>(&state);
        let root = root_of::<H>(&leaves, 0);
        StageTruth {
            version,
            state,
            leaves,
            root,
            nodes: Default::default(),
        }
    }
    pub fn nodes<H: Hs>(&self) -> &BTreeMap<Vec<u8>, RefNode> {
        self.nodes.get_or_init(|| ref_nodes::<H>(&self.leaves))
    }
    pub fn rank_ge(&self, k: &Key) -> usize {
        self.leaves.partition_point(|l| l.0 < *k)
    }
}
