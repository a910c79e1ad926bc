//! What a proof binds. The harness's own roots are of no use where the library hashes only a part
//! of a key or a value: here the library computes a small tree, its root and its proofs, over
//! keys and values of many sizes, and claims that differ from the contents in one place have to
//! be rejected against that root.
use crate::hashers::Hs;
use crate::rng::Rng;
use crate::tasks::{call, ics_ok, Out, W};
use jmt::mock::MockTreeStore;
use jmt::restore::{JellyfishMerkleRestore, StateSnapshotReceiver};
use jmt::storage::TreeWriter;
use jmt::{JellyfishMerkleTree, KeyHash, RootHash};
use std::sync::Arc;

fn size(r: &mut Rng, key: bool) -> usize {
    let n = match r.below(10) {
        0..=3 => 1 + r.skewed(70),
        4 => *r.pick(&[31usize, 33, 55, 56, 63, 64, 65, 119, 120, 127, 128, 129]),
        5 => *r.pick(&[255usize, 256, 257, 511, 512, 513, 1023, 1024, 1025]),
        6 => *r.pick(&[2048usize, 2049, 4095, 4096, 4097, 5000, 8192, 8193]),
        7 => *r.pick(&[16_384usize, 16_385, 32_768, 32_769, 65_535, 65_536, 65_537, 100_000]),
        8 if !key && r.chance(1, 6) => (1 << 20) - 1 + r.below(3),
        _ => 1 + r.below(3000),
    };
    // 32-byte inputs are special to the simulated hasher.
    if n == 32 { 34 } else { n }
}

fn text<T>(o: Out<T>) -> String {
    match o {
        Out::Ok(_) => "other contents".into(),
        Out::Err(e) => format!("{e:#}"),
        Out::Panic(p) => format!("panics: {p}"),
    }
}

/// The same bytes but for one place.
fn altered(b: &[u8], r: &mut Rng) -> Vec<u8> {
    let mut x = b.to_vec();
    match r.below(6) {
        0 | 1 => *x.last_mut().unwrap() ^= 1 << r.below(8),
        2 => x[0] ^= 1 << r.below(8),
        3 => {
            let i = r.below(x.len());
            x[i] ^= 1 << r.below(8);
        }
        4 if x.len() > 1 => {
            x.pop();
        }
        _ => x.push(if r.chance(1, 2) { 0 } else { r.byte() }),
    }
    if x.len() == 32 {
        x.extend([1, 2]);
    }
    x
}

pub fn binding<H: Hs>(w: &W<H>, seed: u64) {
    let r = &mut Rng::sub(seed, 0xb1d);
    w.probe("binding");
    let n = 1 + r.skewed(6);
    let mut pairs: Vec<(KeyHash, Vec<u8>, Vec<u8>)> = vec![];
    for i in 0..n {
        let l = size(r, true);
        let mut pre = r.bytes(l);
        if i > 0 && r.chance(1, 3) {
            pre = altered(&pairs[0].1, r);
        }
        let l = size(r, false);
        let val = r.bytes(l);
        let kh = KeyHash::with::<H>(&pre);
        if pairs.iter().any(|p| p.1 == pre) {
            continue;
        }
        if let Some(p) = pairs.iter().find(|p| p.0 == kh) {
            let why = format!("key preimages of {} and {} bytes that differ have the same hash", p.1.len(), pre.len());
            return w.fail(&["C07", "C11", "C05"], "keys-collide", why);
        }
        pairs.push((kh, pre, val));
    }
    let store = MockTreeStore::new(true);
    for p in &pairs {
        store.put_key_preimage(p.0, &p.1);
    }
    let tree = JellyfishMerkleTree::<_, H>::new(&store);
    let v = r.below(3) as u64;
    // A first version below it, so that version `v` exists on something.
    let (old, base) = if v == 0 {
        (RootHash(crate::model::PLACEHOLDER), None)
    } else {
        match call(|| {
            let (x, b) = tree.put_value_set(vec![(KeyHash([0x11; 32]), Some(vec![1]))], v - 1)?;
            store.write_node_batch(&b.node_batch)?;
            Ok(x)
        }) {
            Out::Ok(x) => (x, Some((KeyHash([0x11; 32]), vec![1u8]))),
            _ => return,
        }
    };
    let ups: Vec<(KeyHash, Option<Vec<u8>>)> = pairs.iter().map(|p| (p.0, Some(p.2.clone()))).collect();
    let (root, update) = match call(|| tree.put_value_set_with_proof(ups.clone(), v)) {
        Out::Ok((x, p, b)) => {
            if store.write_node_batch(&b.node_batch).is_err() {
                return;
            }
            (x, p)
        }
        o => {
            w.fail(&["C08"], "put-fails", format!("a small tree with long keys and values: {}", text(o)));
            return;
        }
    };
    let i = r.below(pairs.len());
    let (kh, pre, val) = &pairs[i];
    let (fake_val, fake_pre) = (altered(val, r), altered(pre, r));
    let sizes = format!("key of {} bytes, value of {} bytes", pre.len(), val.len());
    let fake_kh = KeyHash::with::<H>(&fake_pre);
    let known = pairs.iter().any(|p| p.1 == fake_pre);

    // An update proof shows these updates only.
    w.eval(&["C09"]);
    let mut other = ups.clone();
    let what = match r.below(3) {
        0 => {
            other[i].1 = Some(fake_val.clone());
            "another value"
        }
        1 => {
            other[i].0 = fake_kh;
            "another key"
        }
        _ => {
            // More updates than are proven, also by the sizes of counters.
            let more = *r.pick(&[1usize, 2, 16, 255, 256, 257, 512]);
            for j in 0..more {
                let mut k = r.arr32();
                k[0] = j as u8;
                other.push((KeyHash(k), Some(vec![7])));
            }
            "more updates than are proven"
        }
    };
    let honest = r.chance(1, 3);
    let out = call(|| update.verify_update(old, root, if honest { &ups } else { &other }));
    match (out, honest) {
        (Out::Ok(()), true) | (Out::Err(_), false) => {}
        (Out::Ok(()), false) if what == "another key" && known => {}
        (Out::Ok(()), false) => return w.fail(&["C09"], "false-transition-accepted", format!("{what}: {sizes}, {} updates", other.len())),
        (Out::Panic(p), _) => return w.fail(&["C16"], "verify-panics", p),
        (Out::Err(e), true) => return w.fail(&["C08"], "update-proof-rejected", format!("{sizes}: {e:#}")),
    }

    // A proof of membership shows this key with this value.
    let proof = match call(|| tree.get_with_proof(*kh, v)) {
        Out::Ok((Some(x), p)) if x == *val => p,
        o => return w.fail(&["C02"], "wrong-value", format!("{sizes}: {}", text(o))),
    };
    w.eval(&["C07", "C06"]);
    let claims = [
        ("the pair itself", *kh, Some(val), true),
        ("another value", *kh, Some(&fake_val), false),
        ("another key", fake_kh, Some(val), false),
        ("absence", *kh, None, false),
    ];
    for (what, k, x, truth) in claims {
        match call(|| proof.verify(root, k, x)) {
            Out::Ok(()) if !truth => return w.fail(&["C07"], "false-claim-accepted", format!("{what}: {sizes}")),
            Out::Err(e) if truth => return w.fail(&["C06"], "proof-rejected", format!("{sizes}: {e:#}")),
            Out::Panic(p) => return w.fail(&["C16"], "verify-panics", p),
            _ => {}
        }
    }

    // The same for ICS23, where keys are preimages.
    w.eval(&["C11"]);
    match call(|| tree.get_with_ics23_proof(pre.clone(), v)) {
        Out::Ok((Some(x), p)) if x == *val => {
            if !ics_ok::<H>(&p, &root.0, pre, Some(val)) {
                return w.fail(&["C11"], "ics23-rejected", sizes);
            }
            if ics_ok::<H>(&p, &root.0, pre, Some(&fake_val)) || ics_ok::<H>(&p, &root.0, &fake_pre, Some(val)) || ics_ok::<H>(&p, &root.0, pre, None) {
                return w.fail(&["C11"], "ics23-false-claim-accepted", sizes);
            }
        }
        o => return w.fail(&["C11"], "ics23-wrong-value", format!("{sizes}: {}", text(o))),
    }
    // (The key of the first version has no preimage, so absence can be asked for without it only.)
    if !known && base.is_none() {
        match call(|| tree.get_with_ics23_proof(fake_pre.clone(), v)) {
            Out::Ok((None, p)) if ics_ok::<H>(&p, &root.0, &fake_pre, None) && !ics_ok::<H>(&p, &root.0, &fake_pre, Some(val)) => {}
            Out::Ok((x, _)) => return w.fail(&["C11"], "ics23-rejected", format!("absence of a key of {} bytes, value {}", fake_pre.len(), x.is_some())),
            o => return w.fail(&["C11"], "ics23-wrong-value", format!("absent key: {}", text(o))),
        }
    }

    // A restore takes the contents of this root only.
    w.eval(&["C14", "C13"]);
    let mut all: Vec<(KeyHash, Vec<u8>)> = pairs.iter().map(|p| (p.0, p.2.clone())).chain(base).collect();
    all.sort();
    let last = all[all.len() - 1].0;
    let lie = r.chance(2, 3);
    let done = call(|| {
        let range = tree.get_range_proof(last, v)?;
        if lie {
            let at = all.iter().position(|x| x.0 == *kh).unwrap();
            all[at].1 = fake_val.clone();
        }
        #[allow(clippy::arc_with_non_send_sync)]
        let to = Arc::new(MockTreeStore::new(true));
        let mut rec = JellyfishMerkleRestore::<H>::new(to, v, root)?;
        rec.add_chunk(all, range)?;
        rec.finish()
    });
    match done {
        Out::Ok(()) if lie => w.fail(&["C14"], "false-restore", format!("restored with another value: {sizes}")),
        Out::Ok(()) => {}
        Out::Err(_) if lie => {}
        Out::Err(e) => w.fail(&["C13"], "honest-chunk-rejected", format!("{sizes}: {e:#}")),
        Out::Panic(p) => w.fail(&["C16"], "restore-panics", p),
    }
}
