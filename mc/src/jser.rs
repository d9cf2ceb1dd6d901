//! J15: serialised forms of batches, nodes and proofs.
use crate::ctx::*;
use crate::jchecks::collect_iter;
use crate::jcore::*;
use crate::jproofs::{truth, Proof};
use crate::smt::{self, Key, Map};
use borsh::{BorshDeserialize, BorshSerialize};
use jmt::proof::{SparseMerkleProof, SparseMerkleRangeProof};
use jmt::storage::*;
use jmt::{JellyfishMerkleIterator, JellyfishMerkleTree, KeyHash, RootHash, Sha256, SimpleHasher};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use serde_json::json;
use std::sync::Arc;

/// SHA-256 as a hasher type that serde can carry (the proof type's serde support asks for that).
#[derive(Clone, Debug, Default, PartialEq, Eq, Serialize, Deserialize)]
pub struct SerSha {
    #[serde(skip)]
    data: Vec<u8>,
}
impl SimpleHasher for SerSha {
    fn new() -> Self {
        SerSha::default()
    }
    fn update(&mut self, d: &[u8]) {
        self.data.extend_from_slice(d)
    }
    fn finalize(self) -> [u8; 32] {
        smt::sha(&[&self.data])
    }
}
type SerProof = SparseMerkleProof<SerSha>;

pub fn borsh_rt<T: BorshSerialize + BorshDeserialize + PartialEq + std::fmt::Debug>(what: &str, x: &T) -> Result<Vec<u8>, (String, String)> {
    let b = match guard_r(|| x.try_to_vec()) {
        Ok(b) => b,
        Err(e) => return bad("encode", format!("{} cannot be encoded: {}", what, e)),
    };
    match guard_r(|| T::try_from_slice(&b)) {
        Ok(y) if y == *x => {
            if guard_r(|| y.try_to_vec()) != Ok(b.clone()) {
                return bad("re-encode", format!("{}: a decoded value encodes differently", what));
            }
        }
        Ok(y) => return bad("round-trip", format!("{} decodes to another value: {:?} -> {:?}", what, x, y)),
        Err(e) => return bad("round-trip", format!("{} does not decode: {}", what, e)),
    }
    // as part of a stream
    let mut two = b.clone();
    two.extend_from_slice(&b);
    let r = guard(|| {
        let mut s = &two[..];
        let a = T::deserialize(&mut s).ok();
        let c = T::deserialize(&mut s).ok();
        (a.as_ref() == Some(x) && c.as_ref() == Some(x), s.len())
    });
    if r != Ok((true, 0)) {
        return bad("stream", format!("{} cannot be read twice from one stream: {:?}", what, r));
    }
    Ok(b)
}
pub fn serde_rt<T: Serialize + DeserializeOwned + PartialEq + std::fmt::Debug>(what: &str, x: &T) -> Result<Vec<u8>, (String, String)> {
    let b = match guard_r(|| bincode::serialize(x)) {
        Ok(b) => b,
        Err(e) => return bad("encode", format!("{} cannot be bincode-encoded: {}", what, e)),
    };
    match guard_r(|| bincode::deserialize::<T>(&b)) {
        Ok(y) if y == *x => {}
        r => return bad("round-trip", format!("{}: bincode round trip of {:?} gives {:?}", what, x, r)),
    }
    let j = match guard_r(|| serde_json::to_vec(x)) {
        Ok(b) => b,
        Err(e) => return bad("encode", format!("{} cannot be JSON-encoded: {}", what, e)),
    };
    match guard_r(|| serde_json::from_slice::<T>(&j)) {
        Ok(y) if y == *x => {}
        r => return bad("round-trip", format!("{}: JSON round trip of {:?} gives {:?}", what, x, r)),
    }
    Ok(b)
}
/// Every truncation and every altered byte; `judge` sees what decodes.
fn corrupt<T>(ctx: &Ctx, what: &str, b: &[u8], wide: bool, dec: &dyn Fn(&[u8]) -> Option<T>, judge: &dyn Fn(&T) -> Verdict) -> Verdict {
    let mut run = |x: &[u8]| -> Verdict {
        match guard(|| dec(x)) {
            Err(e) => bad("decode-crash", format!("decoding altered bytes of {} crashed: {} (bytes {})", what, e, hx(x))),
            Ok(Some(t)) => {
                ctx.count("altered encodings that decode", 1);
                judge(&t)
            }
            Ok(None) => {
                ctx.count("altered encodings that are refused", 1);
                Ok(())
            }
        }
    };
    // long encodings: everything near the ends, one in 41 in between
    let pick = |i: usize| b.len() <= 700 || i < 100 || i + 100 > b.len() || i % 41 == 0;
    for n in (0..b.len()).filter(|n| pick(*n)) {
        run(&b[..n])?;
    }
    let mut x = b.to_vec();
    for i in (0..b.len()).filter(|i| pick(*i)) {
        let o = b[i];
        let alts: &[u8] = if wide { &[0, 0xff, o ^ 1, o ^ 0x80, o.wrapping_add(1), o.wrapping_sub(1), 2, 16, 64, 65] } else { &[0, 0xff, o ^ 1] };
        for &a in alts {
            if a != o {
                x[i] = a;
                run(&x)?;
            }
        }
        x[i] = o;
        if wide {
            // one byte dropped, one doubled
            let mut y = b.to_vec();
            y.remove(i);
            run(&y)?;
            let mut y = b.to_vec();
            y.insert(i, o);
            run(&y)?;
        }
    }
    x.push(0);
    run(&x)
}
fn judge_proof<H: SimpleHasher>(p: &SparseMerkleProof<H>, keys: &[Key], vals: &[Vec<u8>], worlds: &[([u8; 32], Map)]) -> Verdict {
    for k in keys {
        for s in std::iter::once(None).chain(vals.iter().map(Some)) {
            for (root, m) in worlds {
                match guard(|| p.verify(RootHash(*root), KeyHash(*k), s).is_ok()) {
                    Err(e) => return bad("verify-crash", format!("verifying a decoded proof crashed: {}", e)),
                    Ok(true) if !truth(m, k, s.map(|x| x.as_slice())) => {
                        return bad("verify-unsound", format!("a decoded altered proof shows {} = {:?}", hx(k), s));
                    }
                    _ => {}
                }
            }
        }
    }
    Ok(())
}

pub struct J15 {
    pub wide: bool,
}
impl Check for J15 {
    fn update_failed(&self, _e: &str) -> Verdict {
        Ok(())
    }
    fn transition(&self, ctx: &Ctx, _pre: &View, v: &View) -> Verdict {
        // a store filled from decoded batches behaves like one filled from the originals
        let mut s2 = v.st.clone();
        for b in s2.batches.iter_mut() {
            let bytes = borsh_rt("a tree update batch", &**b)?;
            match guard_r(|| TreeUpdateBatch::try_from_slice(&bytes)) {
                Ok(x) => *b = Arc::new(x),
                Err(e) => return bad("round-trip", e),
            }
        }
        let env = match mk_store(&s2) {
            Ok(e) => e,
            Err(e) => return bad("reload", format!("decoded batches cannot be committed: {}", e)),
        };
        let tree = mk_tree(&env);
        for (ver, m) in v.st.versions(v.u) {
            let root = smt::root(m);
            if guard_r(|| tree.get_root_hash(ver)).map(|r| r.0) != guard_r(|| v.tree.get_root_hash(ver)).map(|r| r.0) {
                return bad("reload", format!("root of v{} differs after reloading", ver));
            }
            for k in &v.u.keys {
                let a = guard_r(|| tree.get_with_proof(KeyHash(*k), ver));
                let b = guard_r(|| v.tree.get_with_proof(KeyHash(*k), ver));
                let f = |r: &Result<(Option<Vec<u8>>, Proof), String>| r.as_ref().map(|(v, p)| (v.clone(), p.try_to_vec().ok())).map_err(|e| e.clone());
                if f(&a) != f(&b) {
                    return bad("reload", format!("reading {} at v{} differs after reloading", hx(k), ver));
                }
            }
            let it = |e: &Env| collect_iter(guard_r(|| JellyfishMerkleIterator::new_by_index(Arc::new(e.clone()), ver, 0)), m.len() + 2);
            if it(&env) != it(v.env) {
                return bad("reload", format!("iterating v{} differs after reloading", ver));
            }
            let _ = root;
        }
        let next = v.st.next_version(v.u);
        let op: Set = vec![(0, 0), ((v.u.keys.len() - 1) as u16, 1)];
        let f = |t: &Tree| guard_r(|| t.put_value_set(to_values(v.u, &op), next)).map(|(r, b)| (r.0, b));
        if f(&tree) != f(v.tree) {
            return bad("reload", "a further update differs after reloading");
        }
        ctx.count("reloaded stores", 1);
        Ok(())
    }
    fn state(&self, ctx: &Ctx, v: &View) -> Verdict {
        let Some((ver, m)) = v.st.versions(v.u).last() else { return Ok(()) };
        let m = m.clone();
        let batch = v.st.batches.last().unwrap();
        for (k, n) in batch.node_batch.nodes() {
            borsh_rt("a node key", k)?;
            serde_rt("a node key", k)?;
            borsh_rt("a node", n)?;
            serde_rt("a node", n)?;
        }
        borsh_rt("a node batch", &batch.node_batch)?;
        borsh_rt("stale records", &batch.stale_node_index_batch)?;
        borsh_rt("statistics", &batch.node_stats)?;
        let pre = if v.st.contents.len() > 1 { v.st.contents[v.st.contents.len() - 2].clone() } else { Map::new() };
        let worlds = vec![(smt::root(&m), m.clone()), (smt::root(&pre), pre)];
        let stree: JellyfishMerkleTree<Env, SerSha> = JellyfishMerkleTree::new(Arc::new(v.env.clone()));
        let keys: Vec<Key> = v.u.keys.iter().take(3).copied().chain([flip(&v.u.keys[0], 255), flip(&v.u.keys[0], 0)]).collect();
        let nojudge = |_: &()| -> Verdict { Ok(()) };
        for k in &keys {
            beat(|| v.st.case(v.u));
            let kh = KeyHash(*k);
            serde_rt("a key hash", &kh)?;
            borsh_rt("a key hash", &kh)?;
            let (val, p) = match guard_r(|| v.tree.get_with_proof(kh, ver)) {
                Ok(x) => x,
                Err(_) => continue,
            };
            let b = p.try_to_vec().unwrap();
            match guard_r(|| Proof::try_from_slice(&b)) {
                Ok(q) if q.try_to_vec().ok().as_ref() == Some(&b) => {}
                Ok(_) => return bad("round-trip", "a proof decodes to another proof"),
                Err(e) => return bad("round-trip", format!("a proof does not decode: {}", e)),
            }
            corrupt(ctx, "a proof", &b, self.wide, &|x| Proof::try_from_slice(x).ok(), &|p| judge_proof(p, &keys, &v.u.vals, &worlds))?;
            // the same proof with a hasher that serde knows
            let (_, sp) = match guard_r(|| stree.get_with_proof(kh, ver)) {
                Ok(x) => x,
                Err(e) => return bad("other-hasher", format!("get_with_proof with another SHA-256 type failed: {}", e)),
            };
            if let Err(e) = guard_r(|| sp.verify(RootHash(worlds[0].0), kh, val.as_ref())) {
                return bad("other-hasher", format!("proof with another SHA-256 type does not verify: {}", e));
            }
            let sb = serde_rt("a proof", &sp)?;
            borsh_rt("a proof", &sp)?;
            corrupt(ctx, "a proof (bincode)", &sb, self.wide, &|x| bincode::deserialize::<SerProof>(x).ok(), &|p| judge_proof(p, &keys, &v.u.vals, &worlds))?;
            if self.wide {
                let j = serde_json::to_vec(&sp).unwrap();
                corrupt(ctx, "a proof (JSON)", &j, false, &|x| serde_json::from_slice::<SerProof>(x).ok(), &|p| judge_proof(p, &keys, &v.u.vals, &worlds))?;
            }
            if val.is_some() {
                if let Ok(rp) = guard_r(|| v.tree.get_range_proof(kh, ver)) {
                    let rb = borsh_rt("a range proof", &rp)?;
                    serde_rt("a range proof", &rp)?;
                    corrupt(ctx, "a range proof", &rb, self.wide, &|x| SparseMerkleRangeProof::try_from_slice(x).ok().map(|_| ()), &nojudge)?;
                }
            }
        }
        serde_rt("a root hash", &RootHash(worlds[0].0))?;
        // damaged batches and nodes
        let b = batch.try_to_vec().unwrap();
        if b.len() < if self.wide { 6000 } else { 1500 } {
            corrupt(ctx, "a tree update batch", &b, self.wide && b.len() < 1500, &|x| TreeUpdateBatch::try_from_slice(x).ok().map(|x| {
                let _ = x.try_to_vec();
            }), &nojudge)?;
        }
        for (k, n) in batch.node_batch.nodes().iter().take(3) {
            let b = n.try_to_vec().unwrap();
            corrupt(ctx, "a node", &b, self.wide, &|x| Node::try_from_slice(x).ok().map(|x| {
                let _ = x.try_to_vec();
            }), &nojudge)?;
            let b = bincode::serialize(n).unwrap();
            corrupt(ctx, "a node (bincode)", &b, self.wide, &|x| bincode::deserialize::<Node>(x).ok().map(|x| {
                let _ = bincode::serialize(&x);
            }), &nojudge)?;
            let b = k.try_to_vec().unwrap();
            corrupt(ctx, "a node key", &b, true, &|x| NodeKey::try_from_slice(x).ok().map(|x| {
                let _ = x.try_to_vec();
            }), &nojudge)?;
            let b = bincode::serialize(k).unwrap();
            corrupt(ctx, "a node key (bincode)", &b, true, &|x| bincode::deserialize::<NodeKey>(x).ok().map(|_| ()), &nojudge)?;
        }
        Ok(())
    }
}
/// Every short byte string, fed to every decoder.
pub fn j15_short(ctx: &Ctx) {
    let max = if ctx.quick() { 2 } else { 3 };
    let firsts: Vec<u8> = (0..=255).collect();
    let dec = |x: &[u8]| {
        let a = Proof::try_from_slice(x).is_ok();
        let b = SparseMerkleRangeProof::try_from_slice(x).is_ok();
        let c = TreeUpdateBatch::try_from_slice(x).is_ok();
        let d = Node::try_from_slice(x).is_ok();
        let e = NodeKey::try_from_slice(x).is_ok();
        let f = NodeBatch::try_from_slice(x).is_ok();
        let g = bincode::deserialize::<SerProof>(x).is_ok();
        let h = bincode::deserialize::<Node>(x).is_ok();
        let i = bincode::deserialize::<NodeKey>(x).is_ok();
        let j = bincode::deserialize::<SparseMerkleRangeProof>(x).is_ok();
        let k = StaleNodeIndex::try_from_slice(x).is_ok();
        (a, b, c, d, e, f, g, h, i, j, k)
    };
    par(ctx, &firsts, |&f| {
        let mut go = |x: &[u8]| {
            ctx.tr(1);
            if let Err(e) = guard(|| dec(x)) {
                ctx.fail("decode-crash", format!("decoding {} crashed: {}", hx(x), e), json!({"bytes": hx(x)}));
            }
        };
        go(&[f]);
        for a in 0..=255u8 {
            go(&[f, a]);
            if max > 2 {
                for b in 0..=255u8 {
                    go(&[f, a, b]);
                }
            }
            // longer strings of a repeated pattern
            for n in [4usize, 5, 8, 12, 37, 69] {
                let x: Vec<u8> = (0..n).map(|i| if i % 2 == 0 { f } else { a }).collect();
                go(&x);
                let mut y = vec![0u8; n];
                y[0] = f;
                y[n / 2] = a;
                go(&y);
            }
        }
    });
    ctx.scope(json!({"scope": "all byte strings of length at most", "length": max}));
}
pub fn j15_plans(ctx: &Ctx) -> Vec<Plan> {
    use crate::plans::*;
    let q = ctx.quick();
    let mut out = vec![];
    for b in if q { vec![0] } else { vec![0, 1, 2, 3] } {
        for (i, (n, s)) in shapes3().into_iter().enumerate() {
            let nv = if q { 1 } else { 2 };
            let d = if q { 2 } else { 3 };
            out.push(Plan::depth(uni(n, b, &s, nv), all_sets(3, nv), if i == 4 { 2 } else { d }, true));
        }
    }
    for (n, s) in deep3() {
        out.push(Plan::depth(uni(n, 1, &s, 1), all_sets(3, 1), if q { 1 } else { 2 }, true));
    }
    out.push(Plan::depth(uni("far-version", 0, &shapes3()[2].1, 1).at(u64::MAX - 9), all_sets(3, 1), 2, true));
    let (u, base, sets) = full_node(0);
    out.push(Plan::from(u, vec![base], small(sets, 1), 1, true));
    out
}
