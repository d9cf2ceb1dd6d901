//! Property checks J01..J10 (tree semantics) on top of the explorer.
use crate::ctx::*;
use crate::jcore::*;
use crate::smt::{self, Key, Map};
use jmt::storage::{Node, NodeKey, TreeUpdateBatch};
use jmt::trie::VersionedTrie;
use jmt::{JellyfishMerkleIterator, KeyHash};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

fn show(v: &Option<Vec<u8>>) -> String {
    match v {
        None => "absent".into(),
        Some(b) => format!("value {}", hx(b)),
    }
}
fn uncommitted(v: &View) -> Vec<u64> {
    let mut r = vec![v.st.next_version(v.u), v.st.next_version(v.u) + 7];
    if v.u.first > 0 {
        r.push(v.u.first - 1);
        r.push(0);
    }
    if v.st.hist.is_empty() {
        r.push(v.u.first);
    }
    r
}

// ------------------------------------------------------------------------------------------------ J01
pub struct J01;
fn j01_reads(v: &View, keys: &[Key], version: u64, m: &Map) -> Verdict {
    for k in keys {
        let want = m.get(k).cloned();
        let kh = KeyHash(*k);
        let a = guard_r(|| VersionedTrie::get(v.tree, kh, version));
        if a != Ok(want.clone()) {
            return bad("get", format!("get({}, v{}) = {:?}, expected {}", hx(k), version, a, show(&want)));
        }
        let b = guard_r(|| v.tree.contains(kh, version));
        if b != Ok(want.is_some()) {
            return bad("contains", format!("contains({}, v{}) = {:?}, expected {}", hx(k), version, b, want.is_some()));
        }
        let c = guard_r(|| v.tree.get_with_proof(kh, version).map(|x| x.0));
        if c != Ok(want.clone()) {
            return bad("get_with_proof", format!("get_with_proof({}, v{}) returned {:?}, expected {}", hx(k), version, c, show(&want)));
        }
        let d = guard_r(|| jmt::db::VersionedDatabase::get(v.env, version.into(), kh));
        if d != Ok(want.clone()) {
            return bad("db-get", format!("store get({}, v{}) = {:?}, expected {}", hx(k), version, d, show(&want)));
        }
    }
    Ok(())
}
impl Check for J01 {
    fn transition(&self, _ctx: &Ctx, _pre: &View, v: &View) -> Verdict {
        for (ver, m) in v.st.versions(v.u) {
            j01_reads(v, &v.u.keys[..v.u.keys.len().min(6)], ver, m)?;
        }
        Ok(())
    }
    fn state(&self, _ctx: &Ctx, v: &View) -> Verdict {
        if let Some((ver, m)) = v.st.versions(v.u).last() {
            j01_reads(v, &v.u.probes, ver, m)?;
        }
        if v.u.first > 0 {
            for k in &v.u.keys {
                let a = guard_r(|| VersionedTrie::get(v.tree, KeyHash(*k), v.u.first - 1));
                if a != Ok(None) {
                    return bad("get-before-first", format!("get({}) before the first version = {:?}", hx(k), a));
                }
            }
        }
        for ver in uncommitted(v) {
            let r = guard_r(|| v.tree.get_root_hash_option(ver));
            if r != Ok(None) {
                return bad("uncommitted-root", format!("root of version {} which was never committed: {:?}", ver, r));
            }
            let r = guard(|| v.tree.get_root_hash(ver).is_err());
            if r != Ok(true) {
                return bad("uncommitted-root", format!("get_root_hash of uncommitted version {}: {:?}", ver, r));
            }
            for k in v.u.keys.iter().take(2) {
                let r = guard(|| v.tree.get_with_proof(KeyHash(*k), ver).is_err());
                if r != Ok(true) {
                    return bad("uncommitted-read", format!("get_with_proof at uncommitted version {}: is_err={:?}", ver, r));
                }
            }
        }
        Ok(())
    }
}

// ------------------------------------------------------------------------------------------------ J02
/// The nodes of contents put at once into an empty tree.
#[derive(Default)]
pub struct J02 {
    fresh: std::sync::Mutex<std::collections::HashMap<Map, Arc<BTreeMap<String, serde_json::Value>>>>,
}
impl J02 {
    fn fresh(&self, m: &Map) -> Result<Arc<BTreeMap<String, serde_json::Value>>, String> {
        if let Some(x) = self.fresh.lock().unwrap().get(m) {
            return Ok(x.clone());
        }
        let env = Env::new(jmt::mock::MockTreeStore::default());
        let tree = mk_tree(&env);
        let (_, b) = guard_r(|| tree.put_value_set(m.iter().map(|(k, v)| (KeyHash(*k), Some(v.clone()))).collect::<Vec<_>>(), 0))?;
        guard_r(|| jmt::db::VersionedDatabase::update_batch(&env, b))?;
        let x = Arc::new(nodes_at(&env, &tree, 0, m)?);
        self.fresh.lock().unwrap().insert(m.clone(), x.clone());
        Ok(x)
    }
}
impl Check for J02 {
    fn transition(&self, ctx: &Ctx, _pre: &View, v: &View) -> Verdict {
        let last = v.st.contents.len() - 1;
        for (i, (ver, m)) in v.st.versions(v.u).enumerate() {
            let want = smt::root(m);
            if i == last && v.st.roots[i] != want {
                return bad("returned-root", format!("update returned root {} at v{}, contents give {}", hx(&v.st.roots[i]), ver, hx(&want)));
            }
            let a = guard_r(|| v.tree.get_root_hash(ver)).map(|r| r.0);
            if a != Ok(want) {
                return bad("read-root", format!("get_root_hash(v{}) = {:?}, contents give {}", ver, a.map(|x| hx(&x)), hx(&want)));
            }
            let b = guard_r(|| v.tree.get_root_hash_option(ver)).map(|r| r.map(|x| x.0));
            if b != Ok(Some(want)) {
                return bad("read-root", format!("get_root_hash_option(v{}) = {:?}, contents give {}", ver, b, hx(&want)));
            }
            if i == last {
                let got = nodes_at(v.env, v.tree, ver, m).map_err(|e| ("nodes".to_string(), e))?;
                let fresh = self.fresh(m).map_err(|e| ("nodes".to_string(), e))?;
                if got != *fresh {
                    let d = got.iter().map(|(k, n)| (k, Some(n))).chain(fresh.keys().map(|k| (k, got.get(k)))).find(|(k, n)| fresh.get(*k) != *n).unwrap();
                    return bad("nodes", format!("the node of v{} at {} is {:?}, the same contents put at once give {:?}", ver, d.0, d.1.map(|x| x.to_string()), fresh.get(d.0).map(|x| x.to_string())));
                }
                ctx.count("nodes compared with the nodes of a fresh tree", got.len() as u64);
            }
        }
        Ok(())
    }
}

// ------------------------------------------------------------------------------------------------ J03
pub struct J03 {
    pub seqs: Vec<Vec<Set>>,
}
pub fn union(batches: &[Arc<TreeUpdateBatch>]) -> TreeUpdateBatch {
    let mut u = TreeUpdateBatch::default();
    for b in batches {
        u.node_batch.merge(b.node_batch.clone());
        u.stale_node_index_batch.extend(b.stale_node_index_batch.iter().cloned());
        u.node_stats.extend(b.node_stats.iter().cloned());
    }
    u
}
fn decode_map<K: serde::de::DeserializeOwned + std::hash::Hash + Eq>(
    m: &[(serde_json::Value, [u8; 32])],
) -> Option<std::collections::HashMap<K, [u8; 32]>> {
    m.iter().map(|(k, h)| serde_json::from_value(k.clone()).ok().map(|k| (k, *h))).collect()
}
fn node_hash(n: &Node) -> [u8; 32] {
    match n {
        Node::Null => smt::PLACEHOLDER,
        Node::Internal(i) => i.hash(),
        Node::Leaf(l) => l.hash(),
    }
}
impl Check for J03 {
    fn state(&self, ctx: &Ctx, v: &View) -> Verdict {
        let first = v.st.next_version(v.u);
        for seq in &self.seqs {
            if seq.iter().flatten().any(|o| o.1 as usize > v.u.vals.len()) {
                continue;
            }
            beat(|| v.st.case(v.u));
            ctx.tr(1);
            let mut chain = v.st.clone();
            for s in seq {
                let env = mk_store(&chain).map_err(|e| ("chain".to_string(), e))?;
                chain = match step(v.u, &chain, &mk_tree(&env), s) {
                    Ok(c) => c,
                    Err(e) => return bad("chain", format!("one-by-one update failed: {}", e)),
                };
            }
            let n0 = v.st.batches.len();
            let want = union(&chain.batches[n0..]);
            let roots: Vec<[u8; 32]> = chain.roots[n0..].to_vec();
            let got = guard_r(|| v.tree.put_value_sets(seq.iter().map(|s| to_values(v.u, s)), first));
            let (r, b) = match got {
                Ok(x) => x,
                Err(e) => return bad("multi-failed", format!("put_value_sets({:?}) failed: {}", seq, e)),
            };
            let r: Vec<[u8; 32]> = r.iter().map(|x| x.0).collect();
            if r != roots {
                return bad("multi-roots", format!("put_value_sets({:?}) from v{}: roots differ from one-by-one", seq, first));
            }
            if b.node_batch.nodes() != want.node_batch.nodes() {
                return bad("multi-nodes", format!("put_value_sets({:?}) from v{}: nodes differ from one-by-one:\n  {:?}\n vs\n  {:?}", seq, first,
                    b.node_batch.nodes().keys().collect::<Vec<_>>(), want.node_batch.nodes().keys().collect::<Vec<_>>()));
            }
            if b.node_batch.values() != want.node_batch.values() {
                return bad("multi-values", format!("put_value_sets({:?}) from v{}: values differ from one-by-one", seq, first));
            }
            if b.stale_node_index_batch != want.stale_node_index_batch {
                return bad("multi-stale", format!("put_value_sets({:?}) from v{}: stale records differ from one-by-one: {:?} vs {:?}", seq, first, b.stale_node_index_batch, want.stale_node_index_batch));
            }
            if b.node_stats != want.node_stats {
                return bad("multi-stats", format!("put_value_sets({:?}) from v{}: stats {:?}, one-by-one {:?}", seq, first, b.node_stats, want.node_stats));
            }
            ctx.trace(1);
            // batch API: insertions only, no empty set; the store must know the previous version's root
            let insert_only = seq.iter().all(|s| !s.is_empty() && s.iter().all(|o| o.1 > 0));
            if insert_only && (first == 0 || !v.st.hist.is_empty()) {
                self.batch(v, seq, first, &chain, &roots, n0)?;
                ctx.trace(1);
            }
        }
        Ok(())
    }
}
impl J03 {
    fn batch(&self, v: &View, seq: &[Set], first: u64, chain: &St, roots: &[[u8; 32]], n0: usize) -> Verdict {
        let ins = || -> Vec<Vec<(KeyHash, Vec<u8>)>> {
            seq.iter().map(|s| to_values(v.u, s).into_iter().map(|(k, x)| (k, x.unwrap())).collect()).collect()
        };
        let plain = match guard_r(|| v.tree.batch_put_value_sets(ins(), None, first)) {
            Ok(x) => x,
            Err(e) => return bad("batch-failed", format!("batch_put_value_sets({:?}) from v{} failed: {}", seq, first, e)),
        };
        self.judge(v, seq, chain, roots, n0, &plain.0.iter().map(|r| r.0).collect::<Vec<_>>(), &plain.1, "batch")?;
        // the same with the node hashes supplied by the caller
        let per_version: Vec<Vec<(serde_json::Value, [u8; 32])>> = (0..seq.len())
            .map(|i| {
                plain.1.node_batch.nodes().iter().filter(|(k, _)| k.version() == first + i as u64)
                    .filter_map(|(k, n)| serde_json::to_value(k).ok().map(|j| (j["nibble_path"].clone(), node_hash(n))))
                    .collect()
            })
            .collect();
        let maps: Option<Vec<_>> = per_version.iter().map(|m| decode_map(m)).collect();
        let Some(maps) = maps else { return Ok(()) };
        match guard_r(|| v.tree.batch_put_value_sets(ins(), Some(maps.iter().collect()), first)) {
            Ok(x) => self.judge(v, seq, chain, roots, n0, &x.0.iter().map(|r| r.0).collect::<Vec<_>>(), &x.1, "batch-hashes"),
            Err(e) => bad("batch-hashes-failed", format!("batch_put_value_sets({:?}) from v{} with hashes failed: {}", seq, first, e)),
        }
    }
    #[allow(clippy::too_many_arguments)]
    fn judge(&self, v: &View, seq: &[Set], chain: &St, roots: &[[u8; 32]], n0: usize, got: &[[u8; 32]], b: &TreeUpdateBatch, what: &str) -> Verdict {
        if got != roots {
            return bad(&format!("{}-roots", what), format!("{} {:?}: roots differ from the general API", what, seq));
        }
        let mut s2 = v.st.clone();
        s2.batches.push(Arc::new(b.clone()));
        let env = match mk_store(&s2) {
            Ok(e) => e,
            Err(e) => return bad(&format!("{}-commit", what), format!("{} {:?}: batch cannot be committed: {}", what, seq, e)),
        };
        let tree = mk_tree(&env);
        for (ver, m) in chain.versions(v.u) {
            let want = smt::root(m);
            let a = guard_r(|| tree.get_root_hash(ver)).map(|r| r.0);
            if a != Ok(want) {
                return bad(&format!("{}-read-root", what), format!("{} {:?}: root of v{} = {:?}", what, seq, ver, a));
            }
            for k in &v.u.keys {
                let w = m.get(k).cloned();
                let g = guard_r(|| VersionedTrie::get(&tree, KeyHash(*k), ver));
                if g != Ok(w.clone()) {
                    return bad(&format!("{}-get", what), format!("{} {:?}: get({}, v{}) gives {:?}, expected {}", what, seq, hx(k), ver, g, show(&w)));
                }
                let r = guard_r(|| tree.get_with_proof(KeyHash(*k), ver));
                let ok = match &r {
                    Ok((val, p)) => *val == w && guard(|| p.verify(rh(&want), KeyHash(*k), w.clone()).is_ok()) == Ok(true),
                    Err(_) => false,
                };
                if !ok {
                    return bad(&format!("{}-read", what), format!("{} {:?}: reading {} at v{} gives {:?}, expected {}", what, seq, hx(k), ver, r.map(|x| x.0), show(&w)));
                }
            }
            let it = collect_iter(guard_r(|| JellyfishMerkleIterator::new_by_index(Arc::new(env.clone()), ver, 0)), m.len() + 2);
            if it != Ok(m.iter().map(|(k, x)| (*k, x.clone())).collect()) {
                return bad(&format!("{}-iter", what), format!("{} {:?}: iterating v{} gives {:?}", what, seq, ver, it));
            }
        }
        // and one more general update on top agrees
        let s3 = v.st.next_version(v.u) + seq.len() as u64;
        let op: Set = vec![(0, 0), ((v.u.keys.len() - 1) as u16, 1)];
        let m = model_apply(v.u, &chain.cur(), &op);
        let r = guard_r(|| tree.put_value_set(to_values(v.u, &op), s3)).map(|x| x.0 .0);
        if r != Ok(smt::root(&m)) {
            return bad(&format!("{}-continue", what), format!("{} {:?}: a further update gives {:?}", what, seq, r));
        }
        let _ = n0;
        Ok(())
    }
}

// ------------------------------------------------------------------------------------------------ J04
pub struct J04;
fn j04(v: &View, keys: &[Key], ver: u64, m: &Map, root: &[u8; 32]) -> Verdict {
    for k in keys {
        let kh = KeyHash(*k);
        let want = m.get(k).cloned();
        let (val, p) = match guard_r(|| v.tree.get_with_proof(kh, ver)) {
            Ok(x) => x,
            Err(e) => return bad("no-proof", format!("get_with_proof({}, v{}) failed: {}", hx(k), ver, e)),
        };
        if val != want {
            return bad("value", format!("get_with_proof({}, v{}) returned {}, expected {}", hx(k), ver, show(&val), show(&want)));
        }
        let r = match &val {
            Some(x) => guard_r(|| p.verify_existence(rh(root), kh, x)),
            None => guard_r(|| p.verify_nonexistence(rh(root), kh)),
        };
        if let Err(e) = r {
            return bad("proof-rejected", format!("proof of {} ({}) at v{} does not verify: {}", hx(k), show(&want), ver, e));
        }
        if let Err(e) = guard_r(|| p.verify(rh(root), kh, val.as_ref())) {
            return bad("proof-rejected", format!("proof of {} at v{} does not verify: {}", hx(k), ver, e));
        }
        if val.is_some() {
            let r = guard(|| p.root_hash());
            if r != Ok(rh(root)) {
                return bad("root_hash", format!("root_hash() of the proof of {} at v{} = {:?}", hx(k), ver, r));
            }
        }
        let q = match guard_r(|| v.tree.get_proof(kh, ver)) {
            Ok(x) => x,
            Err(e) => return bad("no-proof", format!("get_proof({}, v{}) failed: {}", hx(k), ver, e)),
        };
        if let Err(e) = guard_r(|| v.tree.verify_proof(kh, ver, rh(root), q)) {
            return bad("proof-rejected", format!("verify_proof({}, v{}) failed: {}", hx(k), ver, e));
        }
    }
    Ok(())
}
impl Check for J04 {
    fn transition(&self, _ctx: &Ctx, _pre: &View, v: &View) -> Verdict {
        for (ver, m) in v.st.versions(v.u) {
            j04(v, &v.u.keys[..v.u.keys.len().min(4)], ver, m, &smt::root(m))?;
        }
        Ok(())
    }
    fn state(&self, ctx: &Ctx, v: &View) -> Verdict {
        if let Some((ver, m)) = v.st.versions(v.u).last() {
            j04(v, &v.u.probes, ver, m, &smt::root(m))?;
            ctx.count("keys proved", v.u.probes.len() as u64);
        }
        Ok(())
    }
}

// ------------------------------------------------------------------------------------------------ J06
pub struct J06;
fn j06(v: &View, keys: &[Key], ver: u64, m: &Map) -> Verdict {
    if m.is_empty() {
        return Ok(());
    }
    let root = rh(&smt::root(m));
    for k in keys {
        let kh = KeyHash(*k);
        let got = match guard_r(|| v.tree.get_with_exclusion_proof(kh, ver)) {
            Ok(x) => x,
            Err(e) => return bad("failed", format!("get_with_exclusion_proof({}, v{}) failed: {}", hx(k), ver, e)),
        };
        let left = m.range(..*k).next_back();
        let right = m.range((std::ops::Bound::Excluded(*k), std::ops::Bound::Unbounded)).next();
        match (m.get(k), got) {
            (Some(w), Ok((val, p))) => {
                if val != *w || guard(|| p.verify_existence(root, kh, w).is_ok()) != Ok(true) {
                    return bad("present", format!("exclusion query of present {} at v{} returned {}", hx(k), ver, hx(&val)));
                }
            }
            (Some(_), Err(_)) => return bad("present", format!("exclusion proof for present key {} at v{}", hx(k), ver)),
            (None, Ok(_)) => return bad("absent", format!("existence answer for absent key {} at v{}", hx(k), ver)),
            (None, Err(ep)) => {
                let (l, r) = match ep {
                    jmt::ExclusionProof::Leftmost { leftmost_right_proof } => (None, Some(leftmost_right_proof)),
                    jmt::ExclusionProof::Middle { leftmost_right_proof, rightmost_left_proof } => (Some(rightmost_left_proof), Some(leftmost_right_proof)),
                    jmt::ExclusionProof::Rightmost { rightmost_left_proof } => (Some(rightmost_left_proof), None),
                };
                let ok = |side: &str, want: Option<(&Key, &Vec<u8>)>, p: Option<jmt::proof::SparseMerkleProof<jmt::Sha256>>| -> Verdict {
                    match (want, p) {
                        (None, None) => Ok(()),
                        (Some((wk, wv)), Some(p)) => match guard_r(|| p.verify_existence(root, KeyHash(*wk), wv)) {
                            Ok(()) => Ok(()),
                            Err(e) => bad(side, format!("{} neighbour of {} at v{} should be {}; its proof does not show that: {}", side, hx(k), ver, hx(wk), e)),
                        },
                        (w, p) => bad(side, format!("{} neighbour of {} at v{}: expected {}, proof given: {}", side, hx(k), ver,
                            w.map(|x| hx(x.0)).unwrap_or("none".into()), p.is_some())),
                    }
                };
                ok("left", left, l)?;
                ok("right", right, r)?;
            }
        }
    }
    Ok(())
}
impl Check for J06 {
    fn transition(&self, _ctx: &Ctx, _pre: &View, v: &View) -> Verdict {
        for (ver, m) in v.st.versions(v.u) {
            j06(v, &v.u.keys[..v.u.keys.len().min(4)], ver, m)?;
        }
        Ok(())
    }
    fn state(&self, ctx: &Ctx, v: &View) -> Verdict {
        if let Some((ver, m)) = v.st.versions(v.u).last() {
            j06(v, &v.u.probes, ver, m)?;
            ctx.count("keys asked", v.u.probes.len() as u64);
        }
        Ok(())
    }
}

// ------------------------------------------------------------------------------------------------ J08
pub struct J08;
pub type Entries = Vec<(Key, Vec<u8>)>;
pub fn collect_iter(it: Result<JellyfishMerkleIterator<Env>, String>, cap: usize) -> Result<Entries, String> {
    let mut it = it?;
    let mut out = vec![];
    loop {
        match guard(|| it.next())? {
            None => break,
            Some(Ok((k, x))) => out.push((k.0, x)),
            Some(Err(e)) => return Err(format!("error: {:#}", e)),
        }
        if out.len() > cap {
            return Err(format!("more than {} entries", cap));
        }
    }
    for _ in 0..2 {
        if guard(|| it.next().is_some())? {
            return Err("the iterator continues after its end".into());
        }
    }
    Ok(out)
}
fn short(r: &Result<Entries, String>) -> String {
    match r {
        Ok(e) => format!("{:?}", e.iter().map(|(k, x)| format!("{}..={}", &hx(k)[..16], hx(x))).collect::<Vec<_>>()),
        Err(e) => e.clone(),
    }
}
fn j08(v: &View, starts: &[Key], ver: u64, m: &Map) -> Verdict {
    let r = || Arc::new(v.env.clone());
    let cap = m.len() + 3;
    let all: Entries = m.iter().map(|(k, x)| (*k, x.clone())).collect();
    for k in starts {
        let want: Entries = m.range(*k..).map(|(k, x)| (*k, x.clone())).collect();
        let got = collect_iter(guard_r(|| JellyfishMerkleIterator::new(r(), ver, KeyHash(*k))), cap);
        if got.as_ref() != Ok(&want) {
            return bad("from-key", format!("iterating v{} from {} gives {}, expected {}", ver, hx(k), short(&got), short(&Ok(want))));
        }
    }
    for i in (0..m.len() + 3).chain([1000, usize::MAX]) {
        let want: Entries = all.iter().skip(i).cloned().collect();
        let got = collect_iter(guard_r(|| JellyfishMerkleIterator::new_by_index(r(), ver, i)), cap);
        if got.as_ref() != Ok(&want) {
            return bad("from-index", format!("iterating v{} from index {} gives {}, expected {}", ver, i, short(&got), short(&Ok(want))));
        }
    }
    let got = collect_iter(guard_r(|| VersionedTrie::iter(v.tree, ver)), cap);
    if got.as_ref() != Ok(&all) {
        return bad("iter", format!("iter(v{}) gives {}, expected {}", ver, short(&got), short(&Ok(all))));
    }
    Ok(())
}
impl Check for J08 {
    fn transition(&self, _ctx: &Ctx, _pre: &View, v: &View) -> Verdict {
        for (ver, m) in v.st.versions(v.u) {
            j08(v, &v.u.keys[..v.u.keys.len().min(4)], ver, m)?;
        }
        Ok(())
    }
    fn state(&self, ctx: &Ctx, v: &View) -> Verdict {
        if let Some((ver, m)) = v.st.versions(v.u).last() {
            j08(v, &v.u.probes, ver, m)?;
            ctx.count("iterations", (v.u.probes.len() + m.len() + 6) as u64);
        }
        for ver in uncommitted(v) {
            let r = || Arc::new(v.env.clone());
            let a = guard(|| JellyfishMerkleIterator::new(r(), ver, KeyHash(v.u.keys[0])).is_err());
            let b = guard(|| JellyfishMerkleIterator::new_by_index(r(), ver, 0).is_err());
            if a != Ok(true) || b != Ok(true) {
                return bad("uncommitted", format!("iterating uncommitted v{}: is_err = {:?}, {:?}", ver, a, b));
            }
        }
        Ok(())
    }
}

// ------------------------------------------------------------------------------------------------ J09
pub struct J09;
impl Check for J09 {
    fn transition(&self, _ctx: &Ctx, _pre: &View, v: &View) -> Verdict {
        for (ver, m) in v.st.versions(v.u) {
            let c = guard_r(|| v.tree.get_leaf_count(ver));
            if c != Ok(Some(m.len())) {
                return bad("leaf-count", format!("get_leaf_count(v{}) = {:?}, entries: {}", ver, c, m.len()));
            }
        }
        Ok(())
    }
    fn state(&self, _ctx: &Ctx, v: &View) -> Verdict {
        use jmt::db::VersionedDatabase as D;
        let n = v.st.cur().len();
        let latest = (0..v.st.hist.len()).rev().find(|i| !v.st.hist[*i].is_empty()).map(|i| v.u.first + i as u64).unwrap_or(0);
        let got = guard(|| (v.tree.len(), VersionedTrie::is_empty(v.tree), VersionedTrie::version(v.tree)));
        if got != Ok((n, n == 0, latest)) {
            return bad("size", format!("tree reports (len, is_empty, version) = {:?}, expected {:?}", got, (n, n == 0, latest)));
        }
        let got = guard(|| (D::len(v.env), D::is_empty(v.env), u64::from(D::version(v.env))));
        if got != Ok((n, n == 0, latest)) {
            return bad("size", format!("store reports (len, is_empty, version) = {:?}, expected {:?}", got, (n, n == 0, latest)));
        }
        if let Some((ver, _)) = v.st.versions(v.u).last() {
            let t = jmt::Sha256Jmt::new_migration(Arc::new(v.env.clone()), true);
            let c = guard_r(|| t.get_leaf_count(ver));
            if c != Ok(Some(n)) {
                return bad("leaf-count", format!("get_leaf_count(v{}) = {:?}, entries: {}", ver, c, n));
            }
        }
        for ver in uncommitted(v) {
            let c = guard(|| v.tree.get_leaf_count(ver).is_err());
            if c != Ok(true) {
                return bad("uncommitted", format!("get_leaf_count of uncommitted v{}: is_err={:?}", ver, c));
            }
        }
        Ok(())
    }
}

// J19
/// What a version that is not stored is reported as.
pub struct J19;
fn missing_root(e: &anyhow::Error) -> Option<u64> {
    e.downcast_ref::<jmt::MissingRootError>().map(|m| m.version)
}
fn j19_calls(tree: &Tree, k: &Key, ver: u64) -> Vec<(&'static str, Result<Result<(), anyhow::Error>, String>)> {
    let kh = KeyHash(*k);
    vec![
        ("get_with_proof", guard(|| tree.get_with_proof(kh, ver).map(|_| ()))),
        ("get_proof", guard(|| VersionedTrie::get_proof(tree, kh, ver).map(|_| ()))),
        ("get_with_exclusion_proof", guard(|| tree.get_with_exclusion_proof(kh, ver).map(|_| ()))),
        ("get_range_proof", guard(|| tree.get_range_proof(kh, ver).map(|_| ()))),
        ("get_with_ics23_proof", guard(|| tree.get_with_ics23_proof(k.to_vec(), ver).map(|_| ()))),
    ]
}
fn j19_absent(what: &str, v: &View, env: &Env, tree: &Tree, ver: u64, all: bool) -> Verdict {
    for k in v.u.keys.iter().chain(&v.u.probes).take(if all { usize::MAX } else { 3 }) {
        for (call, r) in j19_calls(tree, k, ver) {
            match r {
                Ok(Err(e)) if missing_root(&e) == Some(ver) => {}
                r => return bad("missing-root-kind", format!("{} v{}: {}({}) gives {:?}", what, ver, call, hx(k), r)),
            }
        }
        let r = guard(|| JellyfishMerkleIterator::new(Arc::new(env.clone()), ver, KeyHash(*k)).is_err());
        if r != Ok(true) {
            return bad("missing-root-iter", format!("{} v{}: iterating from {}: refused = {:?}", what, ver, hx(k), r));
        }
    }
    for i in [0usize, 1] {
        let r = guard(|| JellyfishMerkleIterator::new_by_index(Arc::new(env.clone()), ver, i).is_err());
        if r != Ok(true) {
            return bad("missing-root-iter", format!("{} v{}: iterating from index {}: refused = {:?}", what, ver, i, r));
        }
    }
    if guard(|| VersionedTrie::iter(tree, ver).is_err()) != Ok(true) {
        return bad("missing-root-iter", format!("{} v{}: iter is not refused", what, ver));
    }
    if guard_r(|| tree.get_root_hash_option(ver)) != Ok(None) || guard(|| tree.get_root_hash(ver).is_err()) != Ok(true) {
        return bad("missing-root-hash", format!("{} v{}: a root hash is given", what, ver));
    }
    if guard(|| tree.get_leaf_count(ver).is_err()) != Ok(true) {
        return bad("missing-root-count", format!("{} v{}: a leaf count is given", what, ver));
    }
    Ok(())
}
impl Check for J19 {
    fn state(&self, ctx: &Ctx, v: &View) -> Verdict {
        let fe = |e: String| ("reading".to_string(), e);
        let mut never = uncommitted(v);
        never.push(u64::MAX - 1);
        for ver in never {
            ctx.count("versions not stored", 1);
            j19_absent("never committed", v, v.env, v.tree, ver, true)?;
        }
        let vers: Vec<(u64, &Map)> = v.st.versions(v.u).collect();
        // any other node that is missing is not a missing root
        if let Some((ver, m)) = vers.last() {
            let mut paths = reachable(v.env, v.tree, *ver, m).map_err(fe)?;
            let root = paths.remove(0);
            let used: BTreeSet<NodeKey> = paths.into_iter().flatten().filter(|n| !root.contains(n)).collect();
            for n in used.iter().step_by(if v.u.keys.len() > 40 { 23 } else { 1 }) {
                v.env.ctl.lock().unwrap().hidden.insert(n.clone());
                let mut hit = false;
                let r = (|| {
                    for k in v.u.keys.iter().chain(&v.u.probes) {
                        for (call, r) in j19_calls(v.tree, k, *ver) {
                            match r {
                                Ok(Err(e)) if missing_root(&e).is_some() => return bad("other-node", format!("v{} without node {:?}: {}({}) reports a missing root", ver, n, call, hx(k))),
                                Ok(Err(_)) => hit = true,
                                Ok(Ok(())) => {}
                                Err(e) => return bad("other-node-crash", format!("v{} without node {:?}: {}({}): {}", ver, n, call, hx(k), e)),
                            }
                        }
                    }
                    Ok(())
                })();
                v.env.reset();
                r?;
                ctx.count("other nodes missing", hit as u64);
            }
        }
        // pruned versions
        let inc = mk_store(v.st).map_err(fe)?;
        for (p, (pv, _)) in vers.iter().enumerate() {
            if guard_r(|| inc.inner.purge_stale_nodes(*pv)).is_err() {
                return Ok(()); // J10
            }
            let tree = mk_tree(&inc);
            for (j, (ver, _)) in vers.iter().enumerate() {
                if j < p {
                    if p + 1 == vers.len() || j + 1 == p {
                        ctx.count("versions not stored", 1);
                        j19_absent("pruned", v, &inc, &tree, *ver, j + 1 == p)?;
                    }
                } else {
                    for k in v.u.keys.iter().take(2) {
                        let r = guard(|| tree.get_with_proof(KeyHash(*k), *ver).is_ok());
                        if r != Ok(true) {
                            return bad("retained", format!("pruned to v{}: v{} cannot be read with a proof", pv, ver));
                        }
                    }
                }
            }
        }
        Ok(())
    }
}

// ------------------------------------------------------------------------------------------------ J10
pub struct J10 {
    pub probe_sets: Vec<Set>,
    pub deep: bool,
}
fn nodes_of(env: &Env) -> BTreeMap<NodeKey, Node> {
    use jmt::db::VersionedDatabase;
    env.inner.nodes().collect()
}
impl Check for J10 {
    fn transition(&self, _ctx: &Ctx, pre: &View, v: &View) -> Verdict {
        let b = v.st.batches.last().unwrap();
        let ver = v.st.next_version(v.u) - 1;
        let before = nodes_of(pre.env);
        let after = nodes_of(v.env);
        let is_leaf = |n: &Node| matches!(n, Node::Leaf(_));
        if b.node_stats.len() != 1 {
            return bad("stats", format!("one version, {} stats records", b.node_stats.len()));
        }
        let s = &b.node_stats[0];
        let added: Vec<_> = after.iter().filter(|(k, _)| !before.contains_key(k)).collect();
        let want_new = (added.len(), added.iter().filter(|x| is_leaf(x.1)).count());
        if (s.new_nodes, s.new_leaves) != want_new {
            return bad("stats-new", format!("v{} stats (new_nodes, new_leaves) = {:?}, added to storage: {:?}", ver, (s.new_nodes, s.new_leaves), want_new));
        }
        for i in &b.stale_node_index_batch {
            if i.stale_since_version != ver {
                return bad("stale-version", format!("v{} records a node stale since v{}", ver, i.stale_since_version));
            }
            if !before.contains_key(&i.node_key) {
                return bad("stale-unknown", format!("v{} records node {:?} as stale, which was not stored", ver, i.node_key));
            }
        }
        let want_stale = (
            b.stale_node_index_batch.len(),
            b.stale_node_index_batch.iter().filter(|i| before.get(&i.node_key).map(is_leaf).unwrap_or(false)).count(),
        );
        if (s.stale_nodes, s.stale_leaves) != want_stale {
            return bad("stats-stale", format!("v{} stats (stale_nodes, stale_leaves) = {:?}, records: {:?}", ver, (s.stale_nodes, s.stale_leaves), want_stale));
        }
        Ok(())
    }
    fn state(&self, ctx: &Ctx, v: &View) -> Verdict {
        let fe = |e: String| ("reading".to_string(), e);
        let vers: Vec<(u64, &Map)> = v.st.versions(v.u).collect();
        if vers.is_empty() {
            return Ok(());
        }
        let mut used: Vec<BTreeSet<NodeKey>> = vec![];
        for (ver, m) in &vers {
            used.push(reachable(v.env, v.tree, *ver, m).map_err(fe)?.into_iter().flatten().collect());
        }
        let all = nodes_of(v.env);
        for b in &v.st.batches {
            for i in &b.stale_node_index_batch {
                if !all.contains_key(&i.node_key) {
                    return bad("stale-unknown", format!("stale record of {:?} which is not stored", i.node_key));
                }
                for (j, (ver, _)) in vers.iter().enumerate() {
                    if *ver >= i.stale_since_version && used[j].contains(&i.node_key) {
                        return bad("stale-in-use", format!("node {:?} recorded stale since v{} is used by v{}", i.node_key, i.stale_since_version, ver));
                    }
                }
            }
        }
        // prune to every version; incrementally as well
        let inc = mk_store(v.st).map_err(fe)?;
        let start = if self.deep || vers.len() <= 4 { 0 } else { vers.len() - 4 };
        for (p, (pv, _)) in vers.iter().enumerate() {
            ctx.count("prunings", 1);
            let direct = if p >= start { Some(mk_store(v.st).map_err(fe)?) } else { None };
            for (how, env) in [("directly", direct.as_ref()), ("step by step", Some(&inc))] {
                let Some(env) = env else { continue };
                if let Err(e) = guard_r(|| env.inner.purge_stale_nodes(*pv)) {
                    return bad("prune-failed", format!("pruning {} to v{} failed: {}", how, pv, e));
                }
                let want: BTreeSet<&NodeKey> = used[p..].iter().flatten().collect();
                let got = nodes_of(env);
                if let Some(k) = want.iter().find(|k| !got.contains_key(k)) {
                    return bad("prune-lost", format!("pruning {} to v{} removed {:?}, still in use", how, pv, k));
                }
                if let Some(k) = got.keys().find(|k| !want.contains(k)) {
                    return bad("prune-left", format!("pruning {} to v{} left {:?} (a {} node), used by no retained version", how, pv, k,
                        match &got[k] { Node::Null => "null", Node::Leaf(_) => "leaf", _ => "internal" }));
                }
                if env.inner.num_nodes() != want.len() {
                    return bad("num-nodes", format!("num_nodes() = {} after pruning, stored: {}", env.inner.num_nodes(), want.len()));
                }
                let tree = mk_tree(env);
                let pview = View { u: v.u, st: v.st, env, tree: &tree };
                for (ver, m) in &vers[p..] {
                    let root = smt::root(m);
                    if guard_r(|| tree.get_root_hash(*ver)).map(|r| r.0) != Ok(root) {
                        return bad("prune-root", format!("after pruning {} to v{}, the root of v{} changed", how, pv, ver));
                    }
                    j04(&pview, &v.u.keys, *ver, m, &root).map_err(|e| (format!("prune-{}", e.0), format!("after pruning {} to v{}: {}", how, pv, e.1)))?;
                    j08(&pview, &v.u.keys[..1], *ver, m).map_err(|e| (format!("prune-{}", e.0), format!("after pruning {} to v{}: {}", how, pv, e.1)))?;
                }
            }
            if p + 1 == vers.len() {
                let env = &inc;
                let tree = mk_tree(env);
                let next = v.st.next_version(v.u);
                for s in self.probe_sets.iter().filter(|s| s.iter().all(|o| (o.0 as usize) < v.u.keys.len())) {
                    let want = guard_r(|| v.tree.put_value_set(to_values(v.u, s), next));
                    let got = guard_r(|| tree.put_value_set(to_values(v.u, s), next));
                    match (&want, &got) {
                        (Ok(a), Ok(b)) if a == b => {}
                        _ => return bad("prune-build", format!("after pruning to v{}, update {:?} gives {:?}, without pruning {:?}", pv, s,
                            got.as_ref().map(|x| hx(&x.0 .0)), want.as_ref().map(|x| hx(&x.0 .0)))),
                    }
                }
            }
        }
        Ok(())
    }
}

pub fn j10_sets() -> Vec<Set> {
    let mut s = vec![vec![]];
    for k in 0..3u16 {
        for x in 0..2u8 {
            s.push(vec![(k, x)]);
        }
    }
    s.push(vec![(0, 0), (1, 0)]);
    s.push(vec![(0, 1), (1, 0), (2, 1)]);
    s.push(vec![(0, 0), (1, 0), (2, 0)]);
    s.push(vec![(0, 1), (0, 0), (1, 1)]);
    s
}
pub fn j03_seqs(quick: bool) -> Vec<Vec<Set>> {
    // the live alphabet of J03's universes: keys 0..2
    let a = all_sets(3, 1);
    let mut out: Vec<Vec<Set>> = vec![];
    for x in &a {
        for y in &a {
            out.push(vec![x.clone(), y.clone()]);
        }
    }
    let b = crate::plans::small(all_sets(3, 1), 1);
    let c = if quick { b.clone() } else { crate::plans::small(all_sets(3, 1), 2) };
    for x in &b {
        for y in &c {
            for z in &b {
                out.push(vec![x.clone(), y.clone(), z.clone()]);
                if !quick && y.len() < 2 {
                    for w in &b {
                        out.push(vec![x.clone(), y.clone(), z.clone(), w.clone()]);
                    }
                }
            }
        }
    }
    // one version with repeated keys
    out.push(vec![vec![(0, 1), (0, 1)], vec![(0, 1), (1, 1), (0, 1)]]);
    out.push(vec![vec![(0, 1), (0, 0)], vec![(1, 1), (1, 0), (1, 1)]]);
    for x in all_seqs(2, 2, if quick { 2 } else { 3 }).into_iter().chain([vec![(0, 1), (1, 2), (0, 2)], vec![(0, 2), (0, 1), (0, 2)], vec![(1, 2), (0, 1), (1, 1), (0, 2)], vec![(2, 1), (0, 2), (2, 2)]]) {
        if x.iter().enumerate().any(|(i, o)| x[..i].iter().any(|p| p.0 == o.0)) {
            out.push(vec![x.clone()]);
            out.push(vec![b.last().unwrap().clone(), x]);
        }
    }
    out.push(vec![a.last().unwrap().clone()]);
    out.push(vec![]);
    out
}
pub fn j03_plans(ctx: &Ctx) -> Vec<Plan> {
    use crate::plans::*;
    let q = ctx.quick();
    let mut out = vec![];
    for b in if q { vec![0, 1] } else { vec![0, 1, 2, 3] } {
        for (n, s) in shapes3() {
            let mut u = uni(n, b, &s, 2);
            u.probes = u.keys.clone();
            out.push(Plan::closed(u, all_sets(3, 1)));
        }
    }
    for (n, s) in if q { vec![] } else { deep3() } {
        out.push(Plan::closed(uni(n, 0, &s, 1), all_sets(3, 1)));
    }
    out.push(Plan::depth(uni("first-version", 1, &shapes3()[0].1, 1).at(5), all_sets(3, 1), 2, true));
    let (u, base, sets) = full_node(0);
    out.push(Plan::from(u, vec![base], small(sets, 1), if q { 0 } else { 1 }, true));
    out
}
