//! J18: computing an update is a pure function of what is stored; only storing its batch changes anything.
use crate::ctx::*;
use crate::jcore::*;
use crate::jchecks::collect_iter;
use crate::plans;
use crate::smt::{self, Map};
use jmt::db::VersionedDatabase;
use jmt::storage::{HasPreimage, Node, NodeKey, TreeUpdateBatch};
use jmt::trie::VersionedTrie;
use jmt::{JellyfishMerkleIterator, KeyHash};
use std::collections::BTreeMap;
use std::sync::Arc;

type Snap = (BTreeMap<NodeKey, Node>, BTreeMap<KeyHash, Vec<(DbV, Option<Vec<u8>>)>>, Vec<bool>);
fn snap(u: &Uni, env: &Env) -> Snap {
    (env.inner.nodes().collect(), env.inner.value_history().collect(), u.keys.iter().map(|k| env.inner.preimage(KeyHash(*k)).map(|p| p.is_some()).unwrap_or(true)).collect())
}
type Res = Result<([u8; 32], TreeUpdateBatch), String>;

pub struct J18 {
    pub sets: Vec<Set>,
    /// also commit each alternative after the others were computed
    pub deep: bool,
}
impl J18 {
    fn compute(u: &Uni, st: &St, tree: &Tree, s: &Set) -> Res {
        guard_r(|| tree.put_value_set(to_values(u, s), st.next_version(u))).map(|(r, b)| (r.0, b))
    }
    /// Everything that only looks; what it answers is not judged here.
    fn look(v: &View) -> Vec<String> {
        let mut out = vec![];
        let vers: Vec<(u64, &Map)> = v.st.versions(v.u).collect();
        for (ver, m) in vers.iter().rev().take(2).chain(vers.first()) {
            out.push(format!("{:?}", guard_r(|| v.tree.get_root_hash(*ver)).map(|r| r.0)));
            out.push(format!("{:?}", guard_r(|| v.tree.get_leaf_count(*ver))));
            for k in v.u.keys.iter().take(3).chain(v.u.probes.iter().take(2)) {
                let kh = KeyHash(*k);
                out.push(format!("{:?}", guard_r(|| VersionedTrie::get(v.tree, kh, *ver))));
                out.push(format!("{:?}", guard_r(|| v.tree.get_with_proof(kh, *ver))));
                out.push(format!("{:?}", guard_r(|| v.tree.get_range_proof(kh, *ver))));
                if !m.is_empty() {
                    out.push(format!("{:?}", guard_r(|| v.tree.get_with_exclusion_proof(kh, *ver))));
                }
                out.push(format!("{:?}", collect_iter(guard_r(|| JellyfishMerkleIterator::new(Arc::new(v.env.clone()), *ver, kh)), m.len() + 2)));
            }
        }
        out.push(format!("{} {} {:?}", VersionedTrie::len(v.tree), VersionedTrie::is_empty(v.tree), VersionedTrie::version(v.tree)));
        out
    }
}
impl Check for J18 {
    fn state(&self, ctx: &Ctx, v: &View) -> Verdict {
        let (u, st, tree) = (v.u, v.st, v.tree);
        let before = snap(u, v.env);
        let same = |what: &str| -> Verdict {
            if snap(u, v.env) != before {
                return bad("store-changed", format!("{} changed the store", what));
            }
            Ok(())
        };
        let seen = Self::look(v);
        same("reading, proving and iterating")?;
        let first: Vec<Res> = self.sets.iter().map(|s| Self::compute(u, st, tree, s)).collect();
        same("computing updates")?;
        for i in (0..self.sets.len()).rev() {
            let s = &self.sets[i];
            // other computations in between: several versions in one call, and the batch API
            let o = &self.sets[(i * 7 + 3) % self.sets.len()];
            let _ = guard_r(|| tree.put_value_sets([to_values(u, o), to_values(u, s)], st.next_version(u)));
            if !o.is_empty() && o.iter().all(|x| x.1 > 0) && (!st.hist.is_empty() || u.first == 0) {
                let ins = vec![to_values(u, o).into_iter().map(|(k, x)| (k, x.unwrap())).collect::<Vec<_>>()];
                let _ = guard_r(|| tree.batch_put_value_sets(ins, None, st.next_version(u)));
            }
            let again = Self::compute(u, st, tree, s);
            if again != first[i] {
                return bad("not-repeatable", format!("computing {:?} again at v{} gives another result: {} instead of {}", s, st.next_version(u), brief(&again), brief(&first[i])));
            }
            // from another handle
            let other = Self::compute(u, st, &mk_tree(v.env), s);
            if other != first[i] {
                return bad("not-repeatable", format!("computing {:?} through another handle at v{} gives another result: {} instead of {}", s, st.next_version(u), brief(&other), brief(&first[i])));
            }
            ctx.count("updates computed several times", 1);
        }
        same("computing updates again")?;
        if Self::look(v) != seen {
            return bad("reads-changed", "reads answer differently after updates were computed but not stored");
        }
        if !self.deep {
            return Ok(());
        }
        // one alternative is stored after all of them were computed
        for (i, s) in self.sets.iter().enumerate() {
            let Ok(env) = mk_store(st) else { return Ok(()) };
            let t = mk_tree(&env);
            let mut mine: Option<Res> = None;
            for (j, x) in self.sets.iter().enumerate() {
                if j == i || (j + i) % 3 == 0 {
                    let r = Self::compute(u, st, &t, x);
                    if j == i {
                        mine = Some(r);
                    }
                }
            }
            let Some(Ok((root, b))) = mine else { continue };
            if let Err(e) = guard_r(|| env.inner.update_batch(b)) {
                return bad("store-refused", format!("storing {:?} after other updates were computed was refused: {}", s, e));
            }
            ctx.tr(1);
            let want = model_apply(u, &st.cur(), s);
            let ver = st.next_version(u);
            if root != smt::root(&want) || guard_r(|| t.get_root_hash(ver)).map(|r| r.0) != Ok(root) {
                return bad("wrong-version", format!("after computing alternatives and storing {:?}, v{} has another root", s, ver));
            }
            for k in &u.keys {
                let g = guard_r(|| t.get_with_proof(KeyHash(*k), ver));
                let ok = match &g {
                    Ok((x, p)) => *x == want.get(k).cloned() && p.verify(rh(&root), KeyHash(*k), x.as_ref()).is_ok(),
                    Err(_) => false,
                };
                if !ok {
                    return bad("wrong-version", format!("after computing alternatives and storing {:?}, reading {} at v{} gives {:?}", s, hx(k), ver, g.map(|x| x.0)));
                }
            }
            ctx.count("alternatives stored", 1);
        }
        Ok(())
    }
    fn update_failed(&self, _e: &str) -> Verdict {
        Ok(())
    }
}
fn brief(r: &Res) -> String {
    match r {
        Ok((h, b)) => format!("root {} with {} nodes, {} values, {} stale records", hx(h), b.node_batch.nodes().len(), b.node_batch.values().len(), b.stale_node_index_batch.len()),
        Err(e) => format!("failure {}", e),
    }
}
pub fn run(ctx: &Ctx) {
    let q = ctx.quick();
    let s3 = plans::shapes3();
    let mut all: Vec<Plan> = vec![];
    for b in if q { vec![0] } else { vec![0, 1, 2, 3] } {
        for (n, s) in &s3 {
            all.push(Plan::closed(uni(n, b, s, 1), all_sets(3, 1)));
        }
        for (n, s) in plans::deep3() {
            all.push(Plan::closed(uni(n, b, &s, 1), all_sets(3, 1)));
        }
    }
    all.push(Plan::closed(uni("first-version", 0, &s3[2].1, 1).at(1), all_sets(3, 1)));
    all.push(Plan::closed(uni("two-values", 1, &s3[2].1[..2], 2), all_seqs(2, 2, 2)));
    all.push(Plan::depth(uni("histories", 0, &s3[2].1[..2], 1), all_sets(2, 1), if q { 3 } else { 5 }, false));
    let (u, base, sets) = plans::full_node(0);
    all.push(Plan::from(u, vec![base], sets, if q { 1 } else { 2 }, true));
    for p in &all {
        let ck = J18 { sets: p.sets.clone(), deep: p.sets.len() <= 40 };
        explore(ctx, p, &ck);
    }
    ctx.assume("storage behaves as the bundled in-memory store does");
}
pub fn check_for(u: &Uni) -> J18 {
    let n = u.keys.len().min(3);
    J18 { sets: all_sets(n, u.vals.len().min(2)), deep: true }
}
