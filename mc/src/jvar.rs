//! The configurations of the Jellyfish tree other than the usual one: another value hasher, and trees and restores
//! created without the leaf-count migration, and stores (partly) written by such trees whose inner nodes carry no leaf
//! counts. Every history of two or three update sets over three keys runs on the
//! real code in each configuration; the answers must be the ones the contents alone determine.
use crate::ctx::*;
use crate::jcore::*;
use crate::plans::shapes3;
use crate::smt::{self, Key, Map};
use jmt::db::VersionedDatabase;
use jmt::mock::MockTreeStore;
use jmt::proof::{SparseMerkleProof, SparseMerkleRangeProof};
use jmt::restore::{JellyfishMerkleRestore, StateSnapshotReceiver};
use jmt::trie::VersionedTrie;
use jmt::storage::Node;
use jmt::{JellyfishMerkleIterator, JellyfishMerkleTree, KeyHash, RootHash, SimpleHasher};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::sync::Arc;

type R = Result<(), (String, String)>;

fn root<H: SimpleHasher>(m: &Map) -> [u8; 32] {
    smt::root_vh(&m.iter().map(|(k, v)| (*k, H::hash(v))).collect::<BTreeMap<_, _>>())
}

fn probes(u: &Uni) -> Vec<Key> {
    let mut p: Vec<Key> = vec![[0; 32], [0xff; 32]];
    for k in &u.keys {
        p.push(*k);
        for b in [0, 3, 4, 7, 255] {
            p.push(flip(k, b));
            p.push(key_from(k, &[b]));
        }
    }
    p.sort();
    p.dedup();
    p
}

/// How the commits of a history are made.
#[derive(Clone, Copy, PartialEq)]
enum How {
    /// by a tree that counts leaves (or does not)
    Counting(bool),
    /// by trees that do and do not in turn
    Turns,
    /// the first ones by a tree that does not, whose inner nodes are stored without counts, the others by one that does
    Legacy(usize),
}
impl How {
    fn mig(self, i: usize) -> bool {
        match self {
            How::Counting(x) => x,
            How::Turns => i % 2 == 1,
            How::Legacy(n) => i >= n,
        }
    }
}
/// The node as it is stored without leaf counts.
fn without_counts(n: &Node) -> Option<Node> {
    fn strip(x: &mut Value) {
        match x {
            Value::Object(o) => {
                for (k, v) in o.iter_mut() {
                    if k == "node_type" && v.is_object() {
                        *v = json!("InternalLegacy");
                    } else if k == "leaf_count" {
                        *v = Value::Null;
                    } else {
                        strip(v);
                    }
                }
            }
            Value::Array(a) => a.iter_mut().for_each(strip),
            _ => {}
        }
    }
    let mut x = serde_json::to_value(n).ok()?;
    strip(&mut x);
    serde_json::from_value(x).ok()
}

fn one<H: SimpleHasher + 'static>(ctx: &Ctx, id: &str, u: &Uni, probes: &[Key], hist: &[&Set], how: How) -> R {
    let store = MockTreeStore::default();
    let env = Arc::new(Env::new(store));
    let mig = how.mig(hist.len() - 1);
    // counts may be unknown
    let partly = matches!(how, How::Legacy(_));
    let mut maps: Vec<Map> = vec![];
    for (i, set) in hist.iter().enumerate() {
        let v = i as u64;
        let tree = JellyfishMerkleTree::<Env, H>::new_migration(env.clone(), how.mig(i));
        let m = model_apply(u, &maps.last().cloned().unwrap_or_default(), set);
        let all_puts = !set.is_empty() && set.iter().all(|o| o.1 != 0);
        let (r, b) = if i % 2 == 1 && all_puts {
            let kvs = set.iter().map(|(k, x)| (u.kh(*k), u.vals[*x as usize - 1].clone())).collect::<Vec<_>>();
            guard_r(|| tree.batch_put_value_sets(vec![kvs], None, v)).map(|(r, b)| (r[0], b))
        } else {
            guard_r(|| tree.put_value_set(to_values(u, set), v))
        }
        .or_else(|e| bad("update", e))?;
        let mut b = b;
        if matches!(how, How::Legacy(n) if i < n) {
            for (k, n) in b.node_batch.nodes().clone() {
                match without_counts(&n) {
                    Some(n) => b.node_batch.insert_node(k, n),
                    None => {
                        ctx.count("nodes that cannot be stripped of their counts", 1);
                        return Ok(());
                    }
                };
            }
        }
        guard_r(|| env.update_batch(b)).or_else(|e| bad("store", e))?;
        let want = RootHash(root::<H>(&m));
        ctx.tr(1);
        if r != want {
            return bad("root", format!("version {}: got {:?}, the contents give {:?}", v, r, want));
        }
        maps.push(m);
    }
    let tree = JellyfishMerkleTree::<Env, H>::new_migration(env.clone(), mig);
    for (i, m) in maps.iter().enumerate() {
        let (v, rt) = (i as u64, RootHash(root::<H>(m)));
        ctx.st(1);
        match id {
            "J02" => {
                let a = guard_r(|| tree.get_root_hash(v));
                if a != Ok(rt) {
                    return bad("root", format!("get_root_hash({}) = {:?}", v, a));
                }
            }
            "J09" => {
                let a = guard_r(|| tree.get_leaf_count(v));
                let want = if mig { Some(m.len()) } else { None };
                if a != Ok(want) && !(partly && a == Ok(None)) {
                    return bad("leaf-count", format!("get_leaf_count({}) = {:?}, want {:?}", v, a, want));
                }
                if !mig {
                    // the same store looked at with the migration done
                    let t = JellyfishMerkleTree::<Env, H>::new(env.clone());
                    let a = guard_r(|| t.get_leaf_count(v));
                    if a != Ok(Some(m.len())) && a != Ok(None) {
                        return bad("leaf-count", format!("get_leaf_count({}) = {:?}, entries {}", v, a, m.len()));
                    }
                }
            }
            "J08" => {
                for k in probes.iter() {
                    let want: Vec<_> = m.range(*k..).map(|(k, v)| (KeyHash(*k), v.clone())).collect();
                    let a = guard_r(|| JellyfishMerkleIterator::new(env.clone(), v, KeyHash(*k))?.collect::<anyhow::Result<Vec<_>>>());
                    ctx.trace(1);
                    if a.as_ref() != Ok(&want) {
                        return bad("iter", format!("version {} from {}: {:?}", v, hx(k), a));
                    }
                }
                for i in 0..=m.len() + 1 {
                    let want: Vec<_> = m.iter().skip(i).map(|(k, v)| (KeyHash(*k), v.clone())).collect();
                    let a = guard_r(|| JellyfishMerkleIterator::new_by_index(env.clone(), v, i).and_then(|x| x.collect::<anyhow::Result<Vec<_>>>()));
                    let refused = guard(|| JellyfishMerkleIterator::new_by_index(env.clone(), v, i).is_err());
                    if a.as_ref() != Ok(&want) && !(partly && refused == Ok(true)) {
                        return bad("iter", format!("version {} from index {}: {:?}", v, i, a));
                    }
                }
            }
            "J04" => {
                for k in probes.iter() {
                    ctx.trace(1);
                    let want = m.get(k).cloned();
                    let a = guard_r(|| tree.get_with_proof(KeyHash(*k), v));
                    let Ok((val, p)) = a else { return bad("proof", format!("version {} key {}: {:?}", v, hx(k), a)) };
                    if val != want {
                        return bad("value", format!("version {} key {}: {:?}", v, hx(k), val));
                    }
                    let e: Result<(), String> = guard_r(|| p.verify(rt, KeyHash(*k), val.clone()));
                    if let Err(e) = e {
                        return bad("verify", format!("version {} key {}: {}", v, hx(k), e));
                    }
                    if let Err(e) = guard_r(|| tree.verify_proof(KeyHash(*k), v, rt, p.clone())) {
                        return bad("verify", format!("verify_proof, version {} key {}: {}", v, hx(k), e));
                    }
                    // and for nothing else
                    let wrong: Vec<Option<Vec<u8>>> = vec![None, Some(b"other".to_vec()), Some(vec![])];
                    for w in wrong {
                        if w != want && guard(|| p.verify(rt, KeyHash(*k), w.clone()).is_ok()) != Ok(false) {
                            return bad("unsound", format!("version {} key {}: {:?} verifies", v, hx(k), w));
                        }
                    }
                }
            }
            "J06" => {
                if m.is_empty() {
                    continue;
                }
                for k in probes.iter() {
                    ctx.trace(1);
                    let a = match guard_r(|| tree.get_with_exclusion_proof(KeyHash(*k), v)) {
                        Ok(a) => a,
                        Err(e) => return bad("failed", format!("version {} key {}: {}", v, hx(k), e)),
                    };
                    let left = m.range(..*k).next_back();
                    let right = m.range((std::ops::Bound::Excluded(*k), std::ops::Bound::Unbounded)).next();
                    let (l, r) = match (m.get(k), a) {
                        (Some(w), Ok((val, p))) if val == *w && guard(|| p.verify_existence(rt, KeyHash(*k), w).is_ok()) == Ok(true) => continue,
                        (None, Err(jmt::ExclusionProof::Leftmost { leftmost_right_proof: r })) => (None, Some(r)),
                        (None, Err(jmt::ExclusionProof::Middle { leftmost_right_proof: r, rightmost_left_proof: l })) => (Some(l), Some(r)),
                        (None, Err(jmt::ExclusionProof::Rightmost { rightmost_left_proof: l })) => (Some(l), None),
                        _ => return bad("answer", format!("version {} key {}: present = {}", v, hx(k), m.contains_key(k))),
                    };
                    for (want, p) in [(left, l), (right, r)] {
                        let ok = match (want, p) {
                            (None, None) => true,
                            (Some((wk, wv)), Some(p)) => guard(|| p.verify_existence(rt, KeyHash(*wk), wv).is_ok()) == Ok(true),
                            _ => false,
                        };
                        if !ok {
                            return bad("neighbour", format!("version {} key {}: expected neighbour {:?}", v, hx(k), want.map(|x| hx(x.0))));
                        }
                    }
                }
            }
            "J10" => {
                let copy = Env::default();
                let keep = || -> anyhow::Result<()> {
                    let mut b = jmt::storage::NodeBatch::default();
                    b.extend(env.inner.nodes(), env.inner.value_history().flat_map(|(k, h)| h.into_iter().map(move |(ver, x)| ((u64::from(ver), k), x))));
                    jmt::storage::TreeWriter::write_node_batch(&copy.inner, &b)
                };
                guard_r(keep).or_else(|e| bad("copy", e))?;
                // what the records name is dropped, everything retained is still there
                guard_r(|| env.inner.purge_stale_nodes(v)).or_else(|e| bad("prune", e))?;
                for (j, m) in maps.iter().enumerate().skip(i) {
                    ctx.trace(1);
                    let (w, rt) = (j as u64, RootHash(root::<H>(m)));
                    if guard_r(|| tree.get_root_hash(w)) != Ok(rt) {
                        return bad("pruned-root", format!("pruned to {}: root of {}", v, w));
                    }
                    for k in probes.iter() {
                        let want = m.get(k).cloned();
                        let a = guard_r(|| tree.get_with_proof(KeyHash(*k), w).and_then(|(x, p)| p.verify(rt, KeyHash(*k), x.clone()).map(|_| x)));
                        if a != Ok(want) {
                            return bad("pruned-read", format!("pruned to {}: version {} key {}: {:?}", v, w, hx(k), a));
                        }
                    }
                    let want: Vec<_> = m.iter().map(|(k, v)| (KeyHash(*k), v.clone())).collect();
                    let a = guard_r(|| JellyfishMerkleIterator::new(env.clone(), w, KeyHash([0; 32]))?.collect::<anyhow::Result<Vec<_>>>());
                    if a.as_ref() != Ok(&want) {
                        return bad("pruned-iter", format!("pruned to {}: version {}: {:?}", v, w, a));
                    }
                }
                // and no node that no retained version needs: a copy reads none of what was dropped
                if i + 1 == maps.len() {
                    let full = Arc::new(copy);
                    let t = JellyfishMerkleTree::<Env, H>::new_migration(full.clone(), mig);
                    let kept: std::collections::BTreeSet<_> = env.inner.nodes().map(|x| x.0).collect();
                    let mut read = std::collections::BTreeSet::new();
                    for k in u.keys.iter().chain(probes) {
                        full.start_log();
                        let _ = guard(|| t.get_with_proof(KeyHash(*k), v).is_ok());
                        read.extend(full.take_log());
                    }
                    if let Some(x) = kept.iter().find(|x| !read.contains(*x)) {
                        return bad("pruned-left", format!("pruned to {}: node {:?} is left", v, x));
                    }
                }
            }
            "J13" => {
                if m.is_empty() {
                    continue;
                }
                let es: Vec<_> = m.iter().map(|(k, v)| (KeyHash(*k), v.clone())).collect();
                for i in 0..es.len() {
                    for (what, wrong) in [
                        ("altered", vec![(es[i].0, b"altered".to_vec())]),
                        ("emptied", vec![(es[i].0, vec![])]),
                        ("of another key", vec![(KeyHash(flip(&es[i].0 .0, 255)), es[i].1.clone())]),
                        ("twice", vec![es[i].clone(), es[i].clone()]),
                        ("missing", es.get(i + 1).cloned().into_iter().collect()),
                    ] {
                        if wrong.is_empty() {
                            continue;
                        }
                        ctx.trace(1);
                        let out = Arc::new(Env::default());
                        let step = || -> anyhow::Result<RootHash> {
                            let mut r = JellyfishMerkleRestore::<H>::new(out.clone(), v, rt, mig)?;
                            for e in &es[..i] {
                                r.add_chunk(vec![e.clone()], tree.get_range_proof(e.0, v)?)?;
                            }
                            let before: Vec<_> = out.inner.nodes().collect();
                            let p = tree.get_range_proof(wrong.last().filter(|x| m.contains_key(&x.0 .0)).unwrap_or(&es[i]).0, v)?;
                            anyhow::ensure!(r.add_chunk(wrong.clone(), p).is_err(), "the wrong chunk is accepted");
                            let mut after: Vec<_> = out.inner.nodes().collect();
                            anyhow::ensure!(before.len() == after.len() && { after.retain(|x| !before.contains(x)); after.is_empty() }, "the wrong chunk changed the store");
                            r.add_chunk(es[i..].to_vec(), tree.get_range_proof(es[es.len() - 1].0, v)?)?;
                            r.finish()?;
                            JellyfishMerkleTree::<Env, H>::new_migration(out.clone(), mig).get_root_hash(v)
                        };
                        let a = guard_r(step);
                        if a != Ok(rt) {
                            return bad("wrong-chunk", format!("version {} entry {} {}: {:?}", v, i, what, a));
                        }
                    }
                }
            }
            "J11" => {
                if m.is_empty() {
                    continue;
                }
                let es: Vec<_> = m.iter().map(|(k, v)| (KeyHash(*k), v.clone())).collect();
                for cuts in 0..1u32 << (es.len() - 1) {
                    ctx.trace(1);
                    let out = Arc::new(Env::default());
                    let step = || -> anyhow::Result<RootHash> {
                        let mut r = JellyfishMerkleRestore::<H>::new(out.clone(), v, rt, mig)?;
                        let mut from = 0;
                        for i in 0..es.len() {
                            if i + 1 == es.len() || cuts >> i & 1 == 1 {
                                let p: SparseMerkleRangeProof = tree.get_range_proof(es[i].0, v)?;
                                r.add_chunk(es[from..=i].to_vec(), p)?;
                                from = i + 1;
                            }
                        }
                        r.finish()?;
                        let t = JellyfishMerkleTree::<Env, H>::new_migration(out.clone(), mig);
                        for (k, val) in &es {
                            let (got, p): (_, SparseMerkleProof<H>) = t.get_with_proof(*k, v)?;
                            anyhow::ensure!(got.as_ref() == Some(val), "restored value of {:?}: {:?}", k, got);
                            p.verify(rt, *k, got)?;
                        }
                        let n = t.get_leaf_count(v)?;
                        anyhow::ensure!(n == if mig { Some(es.len()) } else { None }, "leaf count {:?}", n);
                        t.get_root_hash(v)
                    };
                    let a = guard_r(step);
                    if a != Ok(rt) {
                        return bad("restore", format!("version {} cuts {:b}: {:?}", v, cuts, a));
                    }
                }
            }
            _ => {}
        }
    }
    Ok(())
}

fn configured(ctx: &Ctx, id: &str, u: &Uni, pr: &[Key], h: &[&Set]) {
    let case = |cfg: &str| json!({"configuration": cfg, "universe": u.to_json(), "sets": h});
    beat(|| case("all"));
    let go = |r: R, cfg: &str| {
        if let Err((sig, msg)) = r {
            ctx.fail(&format!("{}-configured", sig), format!("{}: {}", cfg, msg), case(cfg));
        }
    };
    go(one::<sha2::Sha256>(ctx, id, u, pr, h, How::Counting(false)), "without leaf-count migration");
    go(one::<sha2::Sha512_256>(ctx, id, u, pr, h, How::Counting(true)), "SHA-512/256 as value hasher");
    go(one::<sha2::Sha256>(ctx, id, u, pr, h, How::Turns), "trees with and without leaf-count migration in turn");
    for n in 1..=h.len() {
        go(one::<sha2::Sha256>(ctx, id, u, pr, h, How::Legacy(n)), &format!("the first {} commits without leaf counts", n));
    }
}
pub fn replay(ctx: &Ctx, id: &str, case: &Value) {
    let u = Uni::from_json(&case["universe"]);
    let sets: Vec<Set> = serde_json::from_value(case["sets"].clone()).unwrap_or_default();
    configured(ctx, id, &u, &probes(&u), &sets.iter().collect::<Vec<_>>());
}

pub fn run(ctx: &Ctx, id: &str) {
    let depth = if ctx.quick() { 2 } else { 3 };
    let mut n = 0u64;
    for (name, s) in shapes3() {
        for b in if ctx.quick() { vec![0, 3] } else { vec![0, 1, 2, 3] } {
            let u = uni(name, b, &s, 1);
            let pr = probes(&u);
            let sets = all_sets(u.keys.len(), 1);
            let mut hists: Vec<Vec<&Set>> = vec![vec![]];
            for _ in 0..depth {
                hists = hists.iter().flat_map(|h| sets.iter().map(move |s| [&h[..], &[s]].concat())).collect();
            }
            n += hists.len() as u64;
            par(ctx, &hists, |h| {
                configured(ctx, id, &u, &pr, h);
            });
        }
    }
    ctx.note("other_configurations", json!({"configurations": ["SHA-256 without leaf-count migration", "SHA-512/256 as value hasher",
        "trees with and without leaf-count migration in turn", "the first commits stored without leaf counts"],
        "histories_each": n, "update_sets_per_history": depth, "keys": 3}));
}
