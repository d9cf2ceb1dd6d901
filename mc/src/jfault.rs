//! J16: storage faults and missing nodes at every access of every operation.
use crate::ctx::*;
use crate::jchecks::collect_iter;
use crate::jcore::*;
use crate::jproofs::parts;
use crate::jrestore;
use crate::smt::{Key, Map};
use borsh::BorshSerialize;
use jmt::restore::{JellyfishMerkleRestore, StateSnapshotReceiver};
use jmt::storage::*;
use jmt::trie::VersionedTrie;
use jmt::{JellyfishMerkleIterator, KeyHash, RootHash, Sha256};
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Debug;
use std::sync::Arc;

/// Runs `f` with every single access failing, with storage failing for good from every access on, and with every node
/// it reads missing. `by_design` names nodes whose absence has a meaning of its own for this operation.
pub fn faults<T: PartialEq + Debug>(ctx: &Ctx, env: &Env, what: &str, f: &dyn Fn() -> Result<T, String>, by_design: &dyn Fn(&NodeKey) -> bool) -> Verdict {
    env.reset();
    env.start_log();
    let base = match f() {
        Ok(x) => x,
        Err(_) => {
            env.take_log();
            return Ok(()); // not an operation that succeeds: other properties' business
        }
    };
    let n = env.accesses();
    let log: BTreeSet<NodeKey> = env.take_log().into_iter().collect();
    let judge = |r: Result<T, String>, how: String| -> Verdict {
        match r {
            Err(e) if is_panic(&e) => bad("crash", format!("{} with {}: {}", what, how, e)),
            Err(_) => {
                ctx.count("faults reported as errors", 1);
                Ok(())
            }
            Ok(x) if x == base => {
                ctx.count("faults without effect", 1);
                Ok(())
            }
            Ok(x) => bad("wrong-data", format!("{} with {} returned {:.400} instead of an error; the true result is {:.400}", what, how, format!("{:?}", x), format!("{:?}", base))),
        }
    };
    for i in 0..n {
        for to in [i + 1, u64::MAX] {
            env.reset();
            env.ctl.lock().unwrap().fail_range = Some((i, to));
            let r = f();
            env.reset();
            ctx.tr(1);
            judge(r, format!("storage failing at access {}{}", i, if to == u64::MAX { " and after" } else { "" }))?;
        }
    }
    for k in &log {
        if by_design(k) {
            ctx.count("missing nodes with a meaning of their own", 1);
            continue;
        }
        env.reset();
        env.ctl.lock().unwrap().hidden.insert(k.clone());
        let r = f();
        env.reset();
        ctx.tr(1);
        judge(r, format!("node {:?} missing", k))?;
    }
    env.reset();
    match f() {
        Ok(x) if x == base => Ok(()),
        r => bad("no-recovery", format!("{}: after the faults the same call gives {:?}", what, r)),
    }
}
fn no(_: &NodeKey) -> bool {
    false
}
fn root_of(k: &NodeKey, v: u64) -> bool {
    // a root node key is the shortest one: version and an empty path
    k.version() == v && k.try_to_vec().unwrap().len() == root_len()
}
fn root_len() -> usize {
    static L: std::sync::OnceLock<usize> = std::sync::OnceLock::new();
    *L.get_or_init(|| {
        let t = mk_tree(&Env::default());
        let (_, b) = t.put_value_set(Vec::<(KeyHash, Option<Vec<u8>>)>::new(), 0).unwrap();
        b.node_batch.nodes().keys().next().unwrap().try_to_vec().unwrap().len()
    })
}

pub struct J16 {
    pub sets: Vec<Set>,
    pub wide: bool,
    /// preimages, where ICS23 proofs are to be asked for
    pub pre: Option<BTreeMap<Key, Vec<u8>>>,
}
impl Check for J16 {
    fn update_failed(&self, _e: &str) -> Verdict {
        Ok(())
    }
    fn state(&self, ctx: &Ctx, v: &View) -> Verdict {
        let (u, tree, env) = (v.u, v.tree, v.env);
        beat(|| v.st.case(u));
        ctx.trace(1);
        if let Some(pre) = &self.pre {
            for p in pre.values() {
                env.inner.put_key_preimage::<Sha256>(&jmt::reader::Preimage(p.clone()));
            }
        }
        let vers: Vec<(u64, &Map)> = v.st.versions(u).collect();
        let mut look: Vec<(u64, &Map)> = vers.iter().rev().take(if self.wide { 3 } else { 1 }).cloned().collect();
        if let Some(f) = vers.first() {
            if look.iter().all(|l| l.0 != f.0) {
                look.push(*f);
            }
        }
        for (ver, m) in look {
            let mut keys: Vec<Key> = u.keys.iter().take(4).copied().collect();
            keys.push(flip(&u.keys[0], 255));
            keys.push(flip(&u.keys[0], 0));
            if self.wide {
                keys.push(flip(&u.keys[1], 4));
                keys.push(flip(&u.keys[1], 1));
            }
            faults(ctx, env, "get_root_hash", &|| guard_r(|| tree.get_root_hash(ver)).map(|r| r.0), &no)?;
            faults(ctx, env, "get_root_hash_option", &|| guard_r(|| tree.get_root_hash_option(ver)).map(|r| r.map(|r| r.0)), &|k| root_of(k, ver))?;
            faults(ctx, env, "get_leaf_count", &|| guard_r(|| tree.get_leaf_count(ver)), &no)?;
            for k in &keys {
                let kh = KeyHash(*k);
                faults(ctx, env, "get", &|| guard_r(|| VersionedTrie::get(tree, kh, ver)), &no)?;
                faults(ctx, env, "contains", &|| guard_r(|| tree.contains(kh, ver)), &no)?;
                faults(ctx, env, "get_with_proof", &|| guard_r(|| tree.get_with_proof(kh, ver)).map(|(x, p)| (x, parts(&p))), &no)?;
                faults(ctx, env, "get_proof", &|| guard_r(|| tree.get_proof(kh, ver)).map(|p| parts(&p)), &no)?;
                if !m.is_empty() {
                    faults(ctx, env, "get_with_exclusion_proof", &|| guard_r(|| tree.get_with_exclusion_proof(kh, ver)).map(|x| format!("{:?}", x)), &no)?;
                    if let Some(pre) = self.pre.as_ref().and_then(|p| p.get(k)) {
                        faults(ctx, env, "get_with_ics23_proof", &|| guard_r(|| tree.get_with_ics23_proof(pre.clone(), ver)).map(|(x, p)| (x, format!("{:?}", p))), &no)?;
                    }
                }
                faults(ctx, env, "get_range_proof", &|| guard_r(|| tree.get_range_proof(kh, ver)), &no)?;
                faults(ctx, env, "iterating from a key", &|| collect_iter(guard_r(|| JellyfishMerkleIterator::new(Arc::new(env.clone()), ver, kh)), m.len() + 3), &no)?;
            }
            for i in 0..m.len() {
                faults(ctx, env, "iterating from an index", &|| collect_iter(guard_r(|| JellyfishMerkleIterator::new_by_index(Arc::new(env.clone()), ver, i)), m.len() + 3), &no)?;
            }
            faults(ctx, env, "iter", &|| collect_iter(guard_r(|| VersionedTrie::iter(tree, ver)), m.len() + 3), &no)?;
        }
        // updates
        let next = v.st.next_version(u);
        let prev_root = |k: &NodeKey| !v.st.hist.is_empty() && root_of(k, next - 1);
        for s in &self.sets {
            beat(|| v.st.case(u));
            faults(ctx, env, "put_value_set", &|| guard_r(|| tree.put_value_set(to_values(u, s), next)).map(|(r, b)| (r.0, b)), &prev_root)?;
            for s2 in self.sets.iter().take(if self.wide { 6 } else { 2 }) {
                faults(ctx, env, "put_value_sets", &|| guard_r(|| tree.put_value_sets([to_values(u, s2), to_values(u, s)], next)).map(|(r, b)| (r.iter().map(|x| x.0).collect::<Vec<_>>(), b)), &prev_root)?;
            }
            if !s.is_empty() && s.iter().all(|o| o.1 > 0) && (!v.st.hist.is_empty() || u.first == 0) {
                let ins = || vec![to_values(u, s).into_iter().map(|(k, x)| (k, x.unwrap())).collect::<Vec<_>>()];
                faults(ctx, env, "batch_put_value_sets", &|| guard_r(|| tree.batch_put_value_sets(ins(), None, next)).map(|(r, b)| (r.iter().map(|x| x.0).collect::<Vec<_>>(), b)), &no)?;
            }
        }
        Ok(())
    }
}
/// Restores onto failing storage: every access of opening, adding chunks and finishing fails once and is retried.
pub fn restore_faults(ctx: &Ctx) {
    let q = ctx.quick();
    let mut src = vec![];
    for u in jrestore::unis(if q { 3 } else { 4 }, q) {
        for sub in 1..1u32 << u.keys.len() {
            for variant in [0, 1] {
                if let Ok(s) = jrestore::source(&u, sub, variant) {
                    src.push(s);
                }
            }
        }
    }
    par(ctx, &src, |s| {
        for cuts in jrestore::compositions(s.entries.len()) {
            ctx.st(1);
            // fault-free run: counts accesses
            let run = |fail: Option<(u64, u64)>, reopen_at: Option<usize>| -> Result<(Env, u64), String> {
                let env = Env::default();
                env.ctl.lock().unwrap().fail_range = fail;
                let open = || guard_r(|| JellyfishMerkleRestore::<Sha256>::new(Arc::new(env.clone()), s.target, RootHash(s.root), true));
                let retry = |e: String| -> Result<(), String> {
                    if is_panic(&e) {
                        return Err(e);
                    }
                    Ok(())
                };
                let mut r = match open() {
                    Ok(r) => r,
                    Err(e) => {
                        retry(e)?;
                        open()?
                    }
                };
                let mut a = 0;
                for (i, c) in cuts.iter().enumerate() {
                    if reopen_at == Some(i) {
                        r = match open() {
                            Ok(r) => r,
                            Err(e) => {
                                retry(e)?;
                                open()?
                            }
                        };
                        a = s.resume_at_pub(&env);
                    }
                    let end: usize = cuts[..i + 1].iter().sum();
                    if a >= end {
                        continue;
                    }
                    let before = jrestore::snap(&env);
                    let chunk = |from: usize| -> Vec<(KeyHash, Vec<u8>)> { s.entries[from..end].iter().map(|(k, v)| (KeyHash(*k), v.clone())).collect() };
                    let _ = c;
                    if let Err(e) = guard_r(|| r.add_chunk(chunk(a), s.proofs[end - 1].clone())) {
                        retry(e)?;
                        if jrestore::snap(&env) != before {
                            return Err("a failed chunk left something in storage".into());
                        }
                        guard_r(|| r.add_chunk(chunk(a), s.proofs[end - 1].clone())).map_err(|e| format!("retrying a chunk after a storage error: {}", e))?;
                    }
                    a = end;
                }
                if let Err(e) = guard_r(|| r.finish()) {
                    retry(e)?;
                    // finishing consumed the restore: reopen and feed what is not stored
                    let mut r = open()?;
                    let from = s.resume_at_pub(&env);
                    let n = s.entries.len();
                    guard_r(|| r.add_chunk(s.entries[from..].iter().map(|(k, v)| (KeyHash(*k), v.clone())).collect(), s.proofs[n - 1].clone()))?;
                    guard_r(|| r.finish())?;
                }
                let n = env.accesses();
                Ok((env, n))
            };
            let want = jrestore::snap(&match run(None, None) {
                Ok(x) => x.0,
                Err(_) => return ctx.count("restores that do not work without faults (J11)", 1),
            });
            for reopen in std::iter::once(None).chain((1..cuts.len()).map(Some)) {
                let Ok((_, n)) = run(None, reopen) else { return ctx.count("restores that do not resume without faults (J12)", 1) };
                for i in 0..n {
                    ctx.tr(1);
                    let case = || json!({"restore": {"uni": s.uni.to_json(), "subset": s.subset, "variant": s.variant}, "cuts": cuts, "reopen_before": reopen, "failing_access": i});
                    beat(case);
                    match run(Some((i, i + 1)), reopen) {
                        Ok((e, _)) if jrestore::snap(&e) == want => {}
                        Ok(_) => return ctx.fail("restore-wrong-data", format!("a restore that met a storage error at access {} finished with another tree", i), case()),
                        Err(e) => return ctx.fail("restore-fault", format!("storage error at access {}: {}", i, e), case()),
                    }
                }
            }
        }
    });
    ctx.scope(json!({"scope": "restores with one failing storage access, each followed by a retry", "source trees": src.len()}));
}
pub fn j16_run(ctx: &Ctx) {
    use crate::plans::*;
    let q = ctx.quick();
    let sets3 = |nv: usize| -> Vec<Set> {
        let all = all_sets(3, nv);
        if q { all.into_iter().filter(|s| s.len() != 2 || s[0].0 == 0).collect() } else { all }
    };
    let ck = J16 { sets: sets3(1), wide: !q, pre: None };
    let mut plans = vec![];
    for b in if q { vec![0] } else { vec![0, 1, 2, 3] } {
        for (i, (n, s)) in shapes3().into_iter().enumerate() {
            plans.push(Plan::depth(uni(n, b, &s, 1), all_sets(3, 1), if i == 4 { 2 } else if q { 3 } else { usize::MAX }, true));
        }
    }
    for (n, s) in deep3() {
        plans.push(Plan::depth(uni(n, 1, &s, 1), all_sets(3, 1), if q { 1 } else { 2 }, true));
    }
    plans.push(Plan::depth(uni("first-version", 1, &shapes3()[2].1, 1).at(3), all_sets(3, 1), 2, true));
    for (n, s) in shapes4().into_iter().take(if q { 1 } else { 4 }) {
        plans.push(Plan::depth(uni(n, 0, &s, 1), small(all_sets(4, 1), 2), if q { 1 } else { 2 }, true));
    }
    for p in &plans {
        explore(ctx, p, &ck);
    }
    let (u, base, sets) = full_node(0);
    explore(ctx, &Plan::from(u, vec![base], sets.clone(), if q { 0 } else { 1 }, true), &J16 { sets: sets.into_iter().filter(|s| s.len() > 1 || !q).collect(), wide: false, pre: None });
    // ICS23 proofs, over keys with known preimages
    for (i, (u, pre)) in crate::jproofs::j07_universes(true).into_iter().enumerate() {
        if q && i >= 3 {
            break;
        }
        let n = u.keys.len();
        explore(ctx, &Plan::depth(u, all_sets(n, 1), 2, true), &J16 { sets: vec![], wide: false, pre: Some(pre) });
    }
    restore_faults(ctx);
    ctx.assume("a lacking node is reported by the store as absent; a missing predecessor root on update and get_root_hash_option of a missing root have a meaning of their own and are excluded");
}
