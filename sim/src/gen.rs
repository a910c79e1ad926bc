//! Generates the plan of a run from its seed: the log, the nodes and what they do, the clients,
//! and (from what a fault-free run of the same plan did) where faults strike.
use crate::hashers::sha;
use crate::plan::*;
use crate::rng::{mix, Rng};
use crate::world::{hex, Accesses};

/// What the runs of one property are made of.
#[derive(Clone)]
pub struct Profile {
    pub nodes: (usize, usize),
    pub stages: (usize, usize),
    pub keys: usize,
    pub batch: usize,
    /// percent of stages appended to the version before
    pub append: usize,
    /// percent of runs with appends at all
    pub append_runs: usize,
    /// percent of deletions
    pub deletes: usize,
    /// api weights 0..3
    pub apis: [usize; 4],
    pub multi: usize,
    pub twice: usize,
    /// percent of further nodes that restore
    pub restore: usize,
    pub evil: usize,
    pub live: usize,
    pub redo: usize,
    /// tasks per node, ops per task
    pub tasks: (usize, usize),
    pub ops: Vec<(K, usize)>,
    pub clients: (usize, usize),
    pub client_ops: Vec<(K, usize)>,
    pub ics: bool,
    pub sim: usize,
    pub mock: bool,
    /// weights of fault kinds: read, rot, crash, write, ambiguous, full, sync, slow
    pub faults: [usize; 8],
    /// percent of seeds that also run with faults
    pub faulty: usize,
    pub max_faults: usize,
}

fn base() -> Profile {
    Profile {
        nodes: (1, 2),
        stages: (1, 14),
        keys: 40,
        batch: 16,
        append: 0,
        append_runs: 0,
        deletes: 30,
        apis: [5, 3, 1, 1],
        multi: 30,
        twice: 10,
        restore: 15,
        evil: 0,
        live: 30,
        redo: 20,
        tasks: (2, 8),
        ops: vec![(K::Get, 3), (K::Proof, 3), (K::Root, 2), (K::Count, 1), (K::Iter, 1), (K::Watch, 1)],
        clients: (0, 0),
        client_ops: vec![],
        ics: false,
        sim: 50,
        mock: false,
        faults: [3, 0, 4, 2, 2, 1, 1, 2],
        faulty: 70,
        max_faults: 6,
    }
}

pub fn profile(prop: &str) -> Profile {
    let b = base();
    match prop {
        "C01" => Profile {
            nodes: (1, 3),
            stages: (2, 18),
            append: 20,
            append_runs: 20,
            twice: 25,
            ops: vec![(K::Get, 3), (K::Proof, 2), (K::Root, 2), (K::Prune, 2), (K::Iter, 1), (K::Rest, 2), (K::Watch, 2)],
            faults: [2, 0, 9, 4, 5, 2, 3, 2],
            faulty: 90,
            max_faults: 10,
            ..b
        },
        "C02" => Profile {
            nodes: (1, 2),
            stages: (3, 16),
            restore: 25,
            tasks: (3, 12),
            ops: vec![(K::Get, 6), (K::Proof, 4), (K::Root, 3), (K::Count, 1), (K::Iter, 2), (K::IterIdx, 1), (K::Excl, 1), (K::Prune, 2), (K::Rest, 2), (K::Watch, 4)],
            append: 15,
            append_runs: 15,
            ..b
        },
        "C03" => Profile {
            nodes: (1, 2),
            stages: (3, 24),
            deletes: 40,
            multi: 45,
            append: 15,
            append_runs: 25,
            tasks: (3, 9),
            ops: vec![(K::Prune, 8), (K::Get, 3), (K::Proof, 4), (K::Root, 2), (K::Iter, 3), (K::IterIdx, 1), (K::Range, 1), (K::Excl, 1), (K::Rest, 4)],
            ..b
        },
        "C04" => Profile {
            nodes: (1, 2),
            stages: (3, 24),
            deletes: 45,
            apis: [4, 4, 2, 2],
            multi: 50,
            append: 15,
            append_runs: 20,
            tasks: (2, 8),
            ops: vec![(K::Prune, 8), (K::Get, 2), (K::Proof, 2), (K::Rest, 4)],
            ..b
        },
        "C05" => Profile {
            nodes: (2, 4),
            stages: (2, 16),
            apis: [4, 4, 3, 3],
            multi: 60,
            twice: 40,
            restore: 20,
            deletes: 40,
            append: 20,
            append_runs: 15,
            tasks: (1, 5),
            ops: vec![(K::Root, 4), (K::Proof, 1), (K::Rest, 1), (K::Prune, 1)],
            ..b
        },
        "C06" => Profile {
            tasks: (2, 14),
            ops: vec![(K::Proof, 10), (K::Prune, 1), (K::Rest, 1)],
            clients: (1, 6),
            client_ops: vec![(K::QProof, 5), (K::Rest, 1)],
            append: 15,
            append_runs: 15,
            keys: 120,
            batch: 40,
            stages: (1, 10),
            ..b
        },
        "C07" => Profile {
            tasks: (1, 6),
            ops: vec![(K::Proof, 4), (K::Rest, 1)],
            clients: (2, 30),
            client_ops: vec![(K::ForgeMember, 8), (K::QProof, 3), (K::Rest, 1)],
            keys: 80,
            batch: 30,
            stages: (1, 10),
            faults: [2, 6, 2, 1, 1, 1, 1, 2],
            ..b
        },
        "C08" => Profile {
            nodes: (1, 3),
            stages: (2, 18),
            apis: [1, 10, 1, 0],
            deletes: 45,
            multi: 40,
            twice: 35,
            tasks: (1, 3),
            clients: (1, 10),
            client_ops: vec![(K::QUpdate, 6), (K::Rest, 1)],
            ..b
        },
        "C09" => Profile {
            stages: (2, 12),
            apis: [2, 4, 1, 1],
            deletes: 40,
            tasks: (0, 0),
            clients: (2, 30),
            client_ops: vec![(K::ForgeUpdate, 8), (K::QUpdate, 3), (K::Rest, 1)],
            faults: [2, 6, 2, 1, 1, 1, 1, 2],
            ..b
        },
        "C10" => Profile {
            tasks: (2, 14),
            ops: vec![(K::Excl, 10), (K::Prune, 1), (K::Rest, 1)],
            clients: (1, 8),
            client_ops: vec![(K::QExcl, 5), (K::Rest, 1)],
            keys: 120,
            batch: 40,
            stages: (1, 10),
            ..b
        },
        "C11" => Profile {
            tasks: (2, 10),
            ops: vec![(K::Ics, 10), (K::Prune, 1), (K::Rest, 1)],
            clients: (2, 14),
            client_ops: vec![(K::ForgeIcs, 6), (K::QIcs, 4), (K::Rest, 1)],
            ics: true,
            keys: 80,
            batch: 30,
            stages: (1, 9),
            faults: [3, 3, 2, 1, 1, 1, 1, 2],
            ..b
        },
        "C12" => Profile {
            tasks: (3, 8),
            ops: vec![(K::Iter, 8), (K::IterIdx, 5), (K::Prune, 1), (K::Rest, 1)],
            keys: 120,
            batch: 40,
            stages: (1, 10),
            append: 15,
            append_runs: 15,
            faults: [6, 0, 2, 1, 1, 1, 1, 3],
            ..b
        },
        "C13" => Profile {
            nodes: (2, 3),
            stages: (1, 8),
            restore: 95,
            live: 50,
            redo: 30,
            keys: 100,
            batch: 40,
            tasks: (1, 4),
            ops: vec![(K::Range, 3), (K::Get, 2), (K::Proof, 2), (K::Iter, 1), (K::Rest, 1), (K::Prune, 1)],
            faults: [2, 0, 8, 4, 4, 2, 2, 2],
            faulty: 80,
            max_faults: 8,
            ..b
        },
        "C14" => Profile {
            nodes: (2, 3),
            stages: (1, 6),
            restore: 100,
            evil: 45,
            live: 40,
            redo: 30,
            keys: 60,
            batch: 30,
            tasks: (0, 0),
            faults: [1, 3, 6, 3, 3, 1, 1, 1],
            faulty: 50,
            ..b
        },
        "C15" => Profile {
            stages: (1, 10),
            tasks: (3, 6),
            restore: 30,
            live: 20,
            ops: vec![(K::SweepRead, 6), (K::SweepPut, 5), (K::Missing, 3), (K::Watch, 2), (K::Iter, 2), (K::Get, 1), (K::Proof, 2), (K::Excl, 1), (K::Ics, 1), (K::Prune, 2), (K::Rest, 1)],
            faults: [12, 0, 2, 4, 2, 2, 2, 1],
            faulty: 85,
            max_faults: 14,
            deletes: 40,
            ics: true,
            keys: 24,
            ..b
        },
        "C16" => Profile {
            nodes: (1, 3),
            stages: (1, 6),
            restore: 60,
            evil: 50,
            live: 60,
            tasks: (1, 3),
            clients: (2, 24),
            client_ops: vec![(K::FuzzProof, 5), (K::FuzzUpdate, 5), (K::FuzzRange, 4), (K::FuzzCodec, 3), (K::ForgeIcs, 1), (K::QProof, 2), (K::QUpdate, 2), (K::QIcs, 1), (K::Rest, 1)],
            faults: [1, 6, 3, 1, 1, 1, 1, 1],
            ..b
        },
        "C17" => Profile {
            nodes: (0, 0),
            stages: (1, 10),
            mock: true,
            keys: 16,
            clients: (3, 20),
            client_ops: vec![(K::MWrite, 6), (K::MTree, 5), (K::MPutLeaf, 3), (K::MRead, 6), (K::MValue, 5), (K::MRight, 3), (K::MPurge, 2), (K::MPre, 2), (K::MIter, 2)],
            faulty: 0,
            ..b
        },
        "C18" => Profile {
            nodes: (1, 3),
            stages: (3, 14),
            append: 50,
            append_runs: 100,
            deletes: 30,
            restore: 15,
            twice: 30,
            tasks: (2, 6),
            ops: vec![(K::Get, 2), (K::Proof, 3), (K::Root, 2), (K::Prune, 4), (K::Iter, 1), (K::Count, 1), (K::Rest, 2), (K::Watch, 2)],
            ..b
        },
        "C19" => Profile {
            stages: (1, 20),
            deletes: 45,
            apis: [4, 3, 2, 2],
            multi: 40,
            append: 20,
            append_runs: 15,
            tasks: (2, 10),
            ops: vec![(K::Count, 8), (K::Root, 1), (K::Prune, 1), (K::Rest, 1), (K::Watch, 1)],
            restore: 35,
            ..b
        },
        "C20" => Profile {
            tasks: (1, 8),
            ops: vec![(K::Get, 2), (K::Proof, 4), (K::Iter, 1), (K::Range, 1), (K::Excl, 1), (K::Rest, 1)],
            clients: (2, 14),
            client_ops: vec![(K::FuzzCodec, 8), (K::QProof, 3), (K::QUpdate, 3), (K::QIcs, 1), (K::QExcl, 1)],
            apis: [3, 4, 1, 1],
            restore: 30,
            live: 80,
            keys: 80,
            ..b
        },
        _ => b,
    }
}

fn gen_keys(r: &mut Rng, p: &Profile, sim: bool, wide: bool, large: bool) -> Vec<KeySpec> {
    let n = if wide { r.range(p.keys / 3, p.keys) } else { 1 + r.skewed(p.keys) };
    let mut out: Vec<KeySpec> = vec![];
    // Positions in clusters, so that every shared-prefix length occurs.
    let mut place: Vec<[u8; 32]> = vec![];
    for i in 0..n {
        let style = r.below(10);
        let k = if i == 0 || style < 3 {
            r.arr32()
        } else if style == 3 {
            match r.below(4) {
                0 => [0; 32],
                1 => [0xff; 32],
                2 => {
                    let mut a = [0u8; 32];
                    a[31] = r.byte();
                    a
                }
                _ => {
                    let mut a = [0xffu8; 32];
                    a[31] = r.byte();
                    a
                }
            }
        } else {
            let mut k = *r.pick(&place);
            // Shared prefixes of every length, short ones more often.
            let b = match r.below(4) {
                0 => r.below(256),
                1 => 252 + r.below(4),
                2 => r.below(16),
                _ => r.skewed(255),
            };
            k[b / 8] ^= 0x80 >> (b % 8);
            if r.chance(1, 2) {
                for j in b + 1..256 {
                    if r.chance(1, 2) {
                        k[j / 8] ^= 0x80 >> (j % 8);
                    }
                }
            }
            k
        };
        place.push(k);
    }
    // Nodes with (almost) all sixteen children, at any depth.
    if n > 3 && r.chance(1, 6) {
        let mut at = *r.pick(&place);
        let mut nib = match r.below(3) {
            0 => r.below(4),
            1 => r.below(64),
            _ => 62 + r.below(2),
        };
        let full = if r.chance(1, 2) { 16 } else { r.range(8, 16) };
        // All of them leaves, all of them nodes, or some of each.
        let deep = r.below(3);
        for _ in 0..1 + r.below(2) {
            let mut kids: Vec<u8> = (0..16).collect();
            r.shuffle(&mut kids);
            for x in kids.into_iter().take(full) {
                let mut k = at;
                let sh = if nib % 2 == 0 { 4 } else { 0 };
                k[nib / 2] = k[nib / 2] & !(0xf << sh) | x << sh;
                if r.chance(1, 3) {
                    for b in k.iter_mut().skip(nib / 2 + 1) {
                        *b = r.byte();
                    }
                }
                place.push(k);
                if nib < 63 && (deep == 2 || deep == 1 && r.chance(1, 2)) {
                    let mut k = k;
                    k[31] ^= 1 + r.below(15) as u8;
                    place.push(k);
                }
                at = k;
            }
            nib = (nib + 1).min(63);
        }
    }
    place.sort();
    place.dedup();
    r.shuffle(&mut place);
    let plain = r.chance(1, 3);
    let mix = r.chance(1, 2);
    for k in place {
        let spec = if sim {
            match r.below(12) {
                // a preimage that is hashed for real
                0 if mix => {
                    let l = if p.ics || r.chance(1, 2) { 1 + r.skewed(60) } else { 0 };
                    let l = if l == 32 { 33 } else { l };
                    let l = if large { long_key(r, l) } else { l };
                    KeySpec { pre: hex(&r.bytes(l)), raw: false }
                }
                _ => KeySpec { pre: hex(&k), raw: true },
            }
        } else if p.ics || plain || mix && r.chance(1, 4) {
            let l = 1 + r.skewed(60);
            let l = if large { long_key(r, l) } else { l };
            KeySpec { pre: hex(&r.bytes(l)), raw: false }
        } else {
            KeySpec { pre: hex(&k), raw: true }
        };
        out.push(spec);
    }
    if !p.ics && r.chance(1, 20) {
        out.push(KeySpec { pre: String::new(), raw: false });
    }
    out
}

/// Keys that make one kind of tree: nodes with a pattern of children at a chosen depth.
fn shape_keys(r: &mut Rng) -> Vec<KeySpec> {
    let mut place: Vec<[u8; 32]> = vec![];
    let trunk = match r.below(6) {
        0 => [0; 32],
        1 => [0xff; 32],
        2 => [r.byte(); 32],
        _ => r.arr32(),
    };
    let set = |k: &mut [u8; 32], nib: usize, x: u8| {
        let sh = if nib % 2 == 0 { 4 } else { 0 };
        k[nib / 2] = k[nib / 2] & !(0xf << sh) | x << sh;
    };
    let nib = match r.below(10) {
        0..=2 => 0,
        3..=6 => r.below(4),
        7 => r.below(64),
        8 => 62 + r.below(2),
        _ => r.skewed(63),
    };
    let kids: u32 = match r.below(12) {
        0..=3 => 0xffff,
        4 => 0xffff & !(1 << r.below(16)),
        5 => [0xff, 0xff00][r.below(2)],
        6 => 0xf << (4 * r.below(4)),
        7 => 3 << (2 * r.below(8)),
        8 => [0x5555, 0xaaaa, 0x8001, 0x0180, 0x1111, 0x8888][r.below(6)],
        9 => 1 << r.below(16),
        10 => 0xffff & !(0xf << (4 * r.below(4))),
        _ => 1 + r.below(0xffff) as u32,
    };
    // Children are leaves, nodes, or either.
    let deep = r.below(4);
    let split = match r.below(12) {
        0..=8 => nib + 1,
        9 => 63,
        _ => nib + 1 + r.below(63usize.saturating_sub(nib).max(1)),
    };
    let tail = r.chance(1, 2);
    for x in 0..16u8 {
        if kids >> x & 1 == 0 {
            continue;
        }
        let mut k = trunk;
        set(&mut k, nib, x);
        if tail {
            for i in nib + 1..64 {
                set(&mut k, i, r.below(16) as u8);
            }
        }
        place.push(k);
        if split < 64 && (deep == 3 || deep == 2 && r.chance(1, 2)) {
            let mut k2 = k;
            set(&mut k2, split, (k[split / 2] >> if split % 2 == 0 { 4 } else { 0 }) & 0xf ^ (1 + r.below(15) as u8));
            place.push(k2);
        }
    }
    // What hangs off the trunk above, beside and far away.
    for _ in 0..r.skewed(6) {
        let mut k = trunk;
        let b = if r.chance(1, 2) { r.below(256) } else { r.below(4 * nib + 4) };
        k[b / 8] ^= 0x80 >> (b % 8);
        if r.chance(1, 2) {
            for i in b / 4 + 1..64 {
                set(&mut k, i, r.below(16) as u8);
            }
        }
        place.push(k);
    }
    place.sort();
    place.dedup();
    r.shuffle(&mut place);
    place.into_iter().map(|k| KeySpec { pre: hex(&k), raw: true }).collect()
}

fn long_key(r: &mut Rng, l: usize) -> usize {
    if r.chance(1, 3) {
        *r.pick(&[127usize, 128, 129, 255, 256, 257, 1024, 4096, 4097, 16_384, 65_535, 65_536, 65_537])
    } else {
        l
    }
}

/// Where a key lies, for choosing the greatest one.
fn place_of(k: &KeySpec, sim: bool) -> [u8; 32] {
    let pre = crate::world::unhex(&k.pre);
    if k.raw || (sim && pre.len() == 32) {
        let mut a = [0u8; 32];
        for (d, s) in a.iter_mut().zip(pre.iter()) {
            *d = *s;
        }
        a
    } else {
        sha(&pre)
    }
}

fn value(r: &mut Rng, p: &Profile, pool: u32, large: bool) -> (u32, u32) {
    let tag = r.below(pool as usize) as u32;
    let min = if p.ics { 1 } else { 0 };
    let mut len = match r.below(8) {
        0 => min,
        4 if large && r.chance(1, 8) => (1 << 20) - 1 + r.below(3),
        3 if large => *r.pick(&[4095usize, 4096, 16383, 16384, 65534, 65535, 65536, 65537, 70_000]),
        1 => r.skewed(600).max(min),
        2 => [55, 56, 63, 64, 65, 127, 128][r.below(7)],
        _ => r.range(1, 40),
    };
    // 32-byte inputs are special to the simulated hasher.
    if len == 32 {
        len = 31;
    }
    (tag, len as u32)
}

fn weighted<T: Copy>(r: &mut Rng, v: &[(T, usize)]) -> T {
    let total: usize = v.iter().map(|x| x.1).sum();
    let mut x = r.below(total.max(1));
    for (t, w) in v {
        if x < *w {
            return *t;
        }
        x -= w;
    }
    v[0].0
}

fn gen_ops(r: &mut Rng, ops: &[(K, usize)], n: usize) -> Vec<Op> {
    (0..n)
        .map(|_| Op {
            k: weighted(r, ops),
            a: r.u64() as u32 >> 8,
            b: r.u64() as u32 >> 8,
            c: r.u64(),
            d: r.u64() as u32 >> 8,
        })
        .collect()
}

/// The plan of a seed, without faults.
pub fn gen(prop: &str, seed: u64) -> Plan {
    let mut p = profile(prop);
    let r = &mut Rng::sub(seed, 0x9e4);
    // Some runs are small, so that short logs and tiny trees are covered densely.
    let small = r.chance(1, 3);
    if small {
        p.keys = p.keys.min(5);
        p.batch = p.batch.min(4);
    } else if r.chance(1, 6) {
        p.keys = 3 * p.keys;
        p.batch = 3 * p.batch;
    }
    // A few runs are big in one respect.
    let (mut wide, mut large, mut whole) = (false, false, false);
    if r.chance(1, 60) {
        let few = |n: (usize, usize), m: usize| (n.0.min(m), n.1.min(m));
        p.max_faults = p.max_faults.min(4);
        match r.below(4) {
            0 => {
                // a long history
                p.stages = (80, 280);
                p.keys = p.keys.min(if r.chance(1, 2) { 4 } else { 24 });
                p.batch = 3;
                p.restore /= 2;
            }
            1 => {
                // many keys
                wide = true;
                p.nodes = few(p.nodes, 2);
                p.stages = (p.stages.0.min(2), 4);
                p.keys = if p.mock { 300 } else { 1500 };
                p.batch = p.keys * 2 / 3;
                p.tasks = few(p.tasks, 2);
                p.clients = few(p.clients, 2);
            }
            2 => {
                // large values
                large = true;
                p.keys = p.keys.min(12);
            }
            _ => {
                // many users
                p.tasks.0 *= 3;
                p.clients.1 *= 2;
                p.stages = few(p.stages, 8);
                p.keys = p.keys.min(12);
            }
        }
    }
    if r.chance(1, 110) {
        // several hundred versions of a few keys, written in one batch
        whole = true;
        p.max_faults = p.max_faults.min(3);
        p.stages = (258, 300);
        p.keys = p.keys.min(5);
        p.batch = 2;
        p.restore /= 4;
        p.append_runs = p.append_runs / 5 + if p.append_runs == 100 { 80 } else { 0 };
        p.twice /= 5;
    }
    // Trees of one shape, looked at in every place.
    let shape = !whole && !wide && r.chance(1, 14);
    let sim = r.below(100) < p.sim || shape && p.ics;
    let large = large || r.chance(1, 60);
    let keys = if shape { shape_keys(r) } else { gen_keys(r, &p, sim, wide, large) };
    if shape {
        p.max_faults = p.max_faults.min(3);
        p.tasks.0 = p.tasks.0.max(1);
        p.stages.1 = p.stages.1.min(p.stages.0.max(6));
    }
    let nk = keys.len();
    let places: Vec<[u8; 32]> = keys.iter().map(|k| place_of(k, sim)).collect();
    let greatest = (0..nk).max_by_key(|i| places[*i]).unwrap();
    let start = match r.below(8) {
        0..=3 => 0,
        4 => 1 + r.skewed(300) as u64,
        5 => (1u64 << r.range(8, 60)) - 1 - r.below(4) as u64,
        6 if !p.mock => u64::MAX - 100 + r.below(40) as u64,
        _ => r.u64() >> r.range(4, 60),
    };
    let start = if p.mock { start % (1 << 60) } else { start };

    // The log.
    let ns = r.range(p.stages.0, p.stages.1.max(p.stages.0));
    let ns = if !whole && r.chance(1, 4) { ns.min(p.stages.0 + 2) } else { ns };
    let ns = ns.min((u64::MAX - 2 - start).min(1000) as usize);
    let appends = r.below(100) < p.append_runs;
    let mut kinds: Vec<bool> = (0..ns).map(|i| i > 0 && appends && r.below(100) < p.append).collect();
    if appends && p.append_runs == 100 && ns > 1 && !kinds.iter().any(|x| *x) {
        let i = r.range(1, ns - 1);
        kinds[i] = true;
    }
    let pool = 1 + r.skewed(60) as u32;
    let mut live: Vec<u16> = vec![];
    let mut stages: Vec<Stage> = vec![];
    let mut mood = 0;
    // In some runs all keys come at once.
    let fill = if shape || !wide && !whole && r.chance(1, 10) { r.below(ns.min(if shape { 2 } else { 5 })) } else { ns };
    for i in 0..ns {
        if r.chance(1, 3) || i == 0 {
            mood = r.below(6);
        }
        let cnt = if r.chance(1, 12) && !kinds[i] {
            0
        } else {
            1 + if wide && r.chance(2, 3) { r.below(p.batch) } else { r.skewed(p.batch.saturating_sub(1)) }
        };
        let del = match mood {
            0 | 1 => p.deletes / 4,
            2 | 3 => p.deletes,
            4 => (p.deletes * 2).min(90),
            _ => p.deletes / 2,
        };
        let mut ups: Vec<(u16, Option<(u32, u32)>)> = vec![];
        let near = r.below(nk);
        for _ in 0..cnt {
            let d = r.below(100) < del;
            let k = if d && !live.is_empty() && r.chance(4, 5) {
                *r.pick(&live)
            } else if r.chance(1, 4) {
                ((near + r.below(4)) % nk) as u16
            } else {
                r.below(nk) as u16
            };
            ups.push((k, if d { None } else { Some(value(r, &p, pool, large)) }));
        }
        // Now and then everything goes.
        if mood == 4 && r.chance(1, 5) && !live.is_empty() {
            ups = live.iter().map(|k| (*k, None)).collect();
            if r.chance(1, 2) && ups.len() > 1 {
                let keep = r.below(ups.len());
                ups.remove(keep);
            }
            r.shuffle(&mut ups);
        }
        if i == fill {
            ups = (0..nk as u16).map(|k| (k, Some(value(r, &p, pool, false)))).collect();
            r.shuffle(&mut ups);
        }
        // Before and during appends the greatest key is written, so that the rightmost leaf is
        // at the latest version, as the append interface requires.
        if kinds[i] || kinds.get(i + 1) == Some(&true) {
            ups.retain(|u| places[u.0 as usize] != places[greatest]);
            let at = r.below(ups.len() + 1);
            ups.insert(at, (greatest as u16, Some((1_000_000 + i as u32, 1 + r.below(9) as u32))));
        }
        for (k, v) in &ups {
            live.retain(|x| x != k);
            if v.is_some() {
                live.push(*k);
            }
        }
        stages.push(Stage { append: kinds[i], ups });
    }

    // The nodes.
    let nn = if p.nodes.1 == 0 { 0 } else { r.range(p.nodes.0, p.nodes.1) };
    let mut nodes = vec![];
    for n in 0..nn {
        let ng = r.range(1, 6);
        let apis: Vec<(u8, usize)> = (0..4).map(|i| (i as u8, p.apis[i])).collect();
        let sync_style = r.below(3);
        let groups = (0..ng)
            .map(|_| Group {
                n: if whole && r.chance(1, 2) {
                    r.range(200, 330) as u16
                } else if whole && r.chance(1, 2) {
                    r.range(20, 200) as u16
                } else if r.below(100) < p.multi {
                    r.range(2, 6) as u16
                } else {
                    1
                },
                api: weighted(r, &apis),
                sync: match sync_style {
                    0 => true,
                    1 => r.chance(1, 2),
                    _ => r.chance(1, 5),
                },
                twice: r.below(100) < p.twice,
            })
            .collect();
        let restores = n > 0 && r.below(100) < p.restore;
        let restore = restores.then(|| {
            let nc = r.skewed(24);
            let evil_run = p.evil > 0 && r.chance(4, 5);
            let big = r.chance(1, 3);
            RestorePlan {
                stage: r.u64() as u32 >> 16,
                overwrite: r.chance(1, 5),
                live: r.below(100) < p.live,
                redo: r.below(100) < p.redo,
                chunks: (0..nc)
                    .map(|_| Chunk {
                        n: r.skewed(if big { 60 } else { 6 }) as u16,
                        evil: if evil_run && r.below(100) < p.evil { 1 + r.below(23) as u8 } else { 0 },
                        c: r.u64(),
                        after: r.below(3) as u8,
                    })
                    .collect(),
            }
        });
        let nt = r.below(p.tasks.0 + 1).max(shape as usize);
        let mut tasks: Vec<Vec<Op>> = (0..nt)
            .map(|_| {
                let n = r.range(1, p.tasks.1.max(1));
                gen_ops(r, &p.ops, n)
            })
            .collect();
        if shape && ["C02", "C03", "C05", "C06", "C10", "C11", "C12", "C13"].contains(&prop) {
            let audits = gen_ops(r, &[(K::Audit, 1)], if n == 0 { 2 } else { 1 });
            tasks[0].splice(0..0, audits);
        }
        nodes.push(NodePlan {
            groups,
            restore,
            tasks,
            delay: if n == 0 { 0 } else { r.skewed(500) as u32 },
        });
    }
    let nc = if p.clients.0 == 0 { 0 } else { r.range(1, p.clients.0) };
    let clients = (0..nc)
        .map(|_| {
            let n = r.range(1, p.clients.1.max(1));
            gen_ops(r, &p.client_ops, n)
        })
        .collect();
    Plan {
        prop: prop.to_string(),
        seed,
        sim_hasher: sim,
        start,
        keys,
        stages,
        nodes,
        clients,
        mock: p.mock,
        mock_overwrite: p.mock && r.chance(1, 3),
        net_faults: false,
        strict: false,
        huge: 0,
        faults: vec![],
        sched: Sched::Policy {
            kind: r.below(5) as u8,
            seed: r.u64(),
        },
    }
}

/// A variant of the plan under another schedule and with faults, placed where the fault-free run
/// had storage accesses (`acc`).
/// The plan of a case of a check.
pub fn case_plan(prop: &str, seed: u64, i: u64) -> Plan {
    let mut p = gen(prop, seed);
    if i % HUGE_EVERY == HUGE_EVERY / 8 && !["C07", "C09", "C14", "C16"].contains(&prop) {
        let mut r = Rng::sub(seed, 0x417);
        p.huge = if i < HUGE_EVERY || r.chance(1, 6) { r.range(65_600, 72_000) } else { 500 + r.skewed(20_000) } as u32;
        p.keys.truncate(1);
        p.stages.clear();
        p.nodes.clear();
        p.clients.clear();
    }
    p
}
pub const HUGE_EVERY: u64 = 500;

pub fn with_faults(plan: &Plan, acc: &Accesses, variant: u64) -> Plan {
    let p = profile(&plan.prop);
    let mut r = Rng::sub(mix(plan.seed) ^ variant, 0xfa17);
    let mut out = plan.clone();
    out.net_faults = true;
    out.sched = Sched::Policy {
        kind: r.below(5) as u8,
        seed: r.u64(),
    };
    let kinds = [
        FaultKind::ReadErr,
        FaultKind::Rot,
        FaultKind::Crash,
        FaultKind::WriteErr,
        FaultKind::WriteAmbig,
        FaultKind::DiskFull,
        FaultKind::SyncErr,
        FaultKind::Slow,
    ];
    // Swarm: each variant uses a subset of the kinds.
    let mut w: Vec<(FaultKind, usize)> = kinds.iter().copied().zip(p.faults.iter().copied()).filter(|x| x.1 > 0).collect();
    if r.chance(2, 3) && w.len() > 2 {
        r.shuffle(&mut w);
        let keep = r.range(1, w.len());
        w.truncate(keep);
    }
    let tasks: Vec<(u32, u32)> = acc.total.iter().map(|(a, b)| (*a, *b)).filter(|x| x.1 > 0).collect();
    if tasks.is_empty() || w.is_empty() {
        return out;
    }
    let n = 1 + r.skewed(p.max_faults.max(1) - 1);
    for _ in 0..n {
        let kind = weighted(&mut r, &w);
        let rpc: Vec<&(u32, u32)> = tasks.iter().filter(|t| (5_000..6_000).contains(&t.0)).collect();
        let mut at = None;
        let (task, cnt) = match kind {
            // Damaged storage only behind servers of light clients: what they send is untrusted.
            FaultKind::Rot => {
                if rpc.is_empty() {
                    continue;
                }
                **r.pick(&rpc)
            }
            FaultKind::Crash | FaultKind::WriteErr | FaultKind::WriteAmbig | FaultKind::DiskFull | FaultKind::SyncErr => {
                // At a write, or (crashes) right after one.
                let wr: Vec<(u32, u32)> = acc
                    .writes
                    .iter()
                    .filter(|t| t.0 < &5_000)
                    .flat_map(|(t, v)| v.iter().map(move |n| (*t, *n)))
                    .collect();
                if !wr.is_empty() && (kind != FaultKind::Crash || r.chance(2, 3)) {
                    let (t, mut n) = *r.pick(&wr);
                    if kind == FaultKind::Crash && r.chance(1, 2) {
                        n += 1;
                    }
                    at = Some(n);
                    (t, 0)
                } else {
                    *r.pick(&tasks)
                }
            }
            _ => *r.pick(&tasks),
        };
        let nth = at.unwrap_or_else(|| r.below(cnt as usize + 3) as u32);
        let arg = match kind {
            FaultKind::ReadErr => {
                if r.chance(1, 4) {
                    r.below(4) as u32
                } else {
                    0
                }
            }
            FaultKind::Rot => r.u64() as u32,
            FaultKind::Crash => r.below(5) as u32,
            FaultKind::DiskFull => r.below(5) as u32,
            FaultKind::Slow => r.below(40) as u32,
            _ => 0,
        };
        out.faults.push(Fault { task, nth, kind, arg });
    }
    out.faults.sort_by_key(|f| (f.task, f.nth, f.kind as u8));
    out.faults.dedup_by_key(|f| (f.task, f.nth));
    out
}
