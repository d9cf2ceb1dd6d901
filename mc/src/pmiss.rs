//! P15: what a missing node and a failing database are reported as.
use crate::ctx::*;
use crate::pcore::*;
use crate::pmpt::*;
use pmt::{Trie, TrieError, H256};
use std::collections::{BTreeSet, HashMap};

pub struct P15;
/// What a call gave, errors kept apart.
#[derive(Debug, Clone, PartialEq)]
enum Got {
    Val(Option<Vec<u8>>),
    Is(bool),
    Done,
    Proof(Vec<Vec<u8>>),
    All(Vec<(Vec<u8>, Vec<u8>)>),
    Root(H256),
}
#[derive(Debug, Clone, Copy, PartialEq)]
enum Call {
    Get,
    Contains,
    Proof,
    Insert,
    Remove,
    Values,
    Commit,
}
impl Call {
    /// whether the error tells the key that was asked for
    fn keyed(self) -> bool {
        matches!(self, Call::Get | Call::Proof | Call::Insert | Call::Remove)
    }
}
fn run(t: &mut PTrie, c: Call, key: &[u8]) -> Result<Result<Got, TrieError>, String> {
    guard(|| match c {
        Call::Get => t.get(key).map(Got::Val),
        Call::Contains => t.contains(key).map(Got::Is),
        Call::Proof => t.get_proof(key).map(Got::Proof),
        Call::Insert => t.insert(key, &[0x55; 35]).map(|_| Got::Done),
        Call::Remove => t.remove(key).map(Got::Is),
        Call::Values => t.values().map(Got::All),
        Call::Commit => t.commit().map(Got::Root),
    })
}
fn named(what: &str, e: &TrieError, c: Call, key: &[u8], hidden: &BTreeSet<Vec<u8>>, root: &[Hash], at: &HashMap<Hash, Vec<Vec<u8>>>) -> Result<Vec<u8>, (String, String)> {
    let TrieError::MissingTrieNode { node_hash, root_hash, err_key, traversed } = e else {
        return bad("missing-kind", format!("{}: a missing node is reported as {:?}", what, e));
    };
    if !hidden.contains(node_hash.as_bytes()) {
        return bad("missing-node", format!("{}: node {:?} is reported missing, which is there", what, node_hash));
    }
    if c.keyed() && err_key.as_deref() != Some(key) || err_key.as_deref().map(|k| k != key).unwrap_or(false) {
        return bad("missing-key", format!("{}: the key is reported as {:?}", what, err_key.as_ref().map(|k| hx(k))));
    }
    if root_hash.map(|r| !root.contains(&h(&r))).unwrap_or(c != Call::Values) {
        return bad("missing-root", format!("{}: the root is reported as {:?}", what, root_hash));
    }
    // a path that is given leads to the node, along the key
    if let Some(t) = traversed.as_ref().map(|t| t.get_data()) {
        let there = at.get(&h(node_hash)).map(|x| x.iter().any(|x| x == t)).unwrap_or(false);
        if !there || c.keyed() && !nibbles(key).starts_with(t) {
            return bad("missing-path", format!("{}: node {:?} is reported at {:?}, which is at {:?}", what, node_hash, t, at.get(&h(node_hash))));
        }
    }
    Ok(node_hash.as_bytes().to_vec())
}
fn naming(ctx: &Ctx, u: &PUni, db: &PDb, st: &PSt) -> Verdict {
    let snap = db.map();
    let root = st.roots.last().map(|r| r.0).unwrap_or_else(|| reference(&Default::default()).root);
    let mut keys: Vec<Vec<u8>> = u.keys.clone();
    keys.extend(u.probes());
    if !u.fixed.is_empty() {
        keys.extend([u.fixed[0].clone(), u.fixed[u.fixed.len() - 1].clone()]);
    }
    let mut calls: Vec<(Call, &[u8])> = keys.iter().flat_map(|k| [Call::Get, Call::Contains, Call::Proof, Call::Insert, Call::Remove].map(|c| (c, &k[..]))).collect();
    calls.push((Call::Values, &[]));
    calls.push((Call::Commit, &[]));
    let free = |db: &PDb| {
        db.s(|s| {
            s.hidden.clear();
            s.fail = None;
            s.calls = 0;
        })
    };
    let new_root = reference(&st.cur).root;
    let mut at = places(&st.roots.last().map(|r| r.1.clone()).unwrap_or_default());
    for (k, x) in places(&st.cur) {
        at.entry(k).or_default().extend(x);
    }
    let r = (|| {
        for (c, key) in calls {
            let what = format!("{:?}({})", c, hx(key));
            free(db);
            let good = match run(&mut st.trie.clone(), c, key) {
                Ok(Ok(g)) => g,
                _ => {
                    db.set_map(snap.clone());
                    continue; // other properties' business
                }
            };
            let n = db.s(|s| s.calls);
            let roots = if c == Call::Commit { vec![root, new_root] } else { vec![root] };
            // everything is missing; what is reported missing is supplied, until nothing is
            let mut all: BTreeSet<Vec<u8>> = snap.keys().cloned().collect();
            all.insert(new_root.to_vec());
            db.set_map(snap.clone());
            db.s(|s| s.hidden = all.clone());
            let mut t = st.trie.clone();
            let mut seen: Vec<Vec<u8>> = vec![];
            for _ in 0..=all.len() {
                ctx.tr(1);
                match run(&mut t, c, key) {
                    Err(p) => return bad("missing-crash", format!("{} with missing nodes crashed: {}", what, p)),
                    Ok(Ok(g)) => {
                        if g != good && !matches!(g, Got::Proof(_)) {
                            return bad("missing-result", format!("{} after the nodes reported missing were supplied: {:?}, expected {:?}", what, g, good));
                        }
                        break;
                    }
                    Ok(Err(e)) => {
                        let hidden = db.s(|s| s.hidden.clone());
                        let x = named(&what, &e, c, key, &hidden, &roots, &at)?;
                        db.s(|s| s.hidden.remove(&x));
                        seen.push(x);
                    }
                }
            }
            ctx.count("nodes supplied as reported", seen.len() as u64);
            free(db);
            db.set_map(snap.clone());
            // one of them alone
            for x in &seen {
                db.s(|s| s.hidden.insert(x.clone()));
                let hidden = db.s(|s| s.hidden.clone());
                let mut t = st.trie.clone();
                ctx.tr(1);
                let r = run(&mut t, c, key);
                free(db);
                db.set_map(snap.clone());
                match r {
                    Err(p) => return bad("missing-crash", format!("{} with a missing node crashed: {}", what, p)),
                    Ok(Ok(_)) => return bad("missing-silent", format!("{} succeeds without node {}", what, hx(x))),
                    Ok(Err(e)) => {
                        named(&what, &e, c, key, &hidden, &roots, &at)?;
                    }
                }
            }
            // the database fails
            for i in 0..n {
                let mut t = st.trie.clone();
                db.s(|s| s.fail = Some((i, i + 1)));
                ctx.tr(1);
                let r = run(&mut t, c, key);
                free(db);
                db.set_map(snap.clone());
                match r {
                    Err(p) => return bad("failure-crash", format!("{} with a failing database crashed: {}", what, p)),
                    Ok(Ok(_)) => return bad("failure-silent", format!("{} succeeds although call {} to the database failed", what, i)),
                    Ok(Err(TrieError::Database(m))) if m.contains("injected failure") => {}
                    Ok(Err(e)) => return bad("failure-kind", format!("{}: a failing database is reported as {:?}", what, e)),
                }
            }
        }
        // proofs that lack a node, refused values
        for k in &keys {
            let e = guard(|| st.trie.clone().insert(k, &[]));
            if !matches!(e, Ok(Err(TrieError::InvalidData(_)))) {
                return bad("refused-kind", format!("inserting an empty value at {}: {:?}", hx(k), e));
            }
            let Some((root, m)) = st.roots.last() else { continue };
            if m.is_empty() {
                continue;
            }
            let Ok(Ok(p)) = guard(|| crate::pcore::at(&st.trie, root).get_proof(k)) else { continue };
            for i in 0..p.len() {
                let mut short = p.clone();
                short.remove(i);
                let e = guard(|| st.trie.verify_proof(H256(*root), k, short));
                if !matches!(e, Ok(Err(TrieError::InvalidProof))) {
                    return bad("proof-kind", format!("the proof of {} without its node {} gives {:?}", hx(k), i, e));
                }
            }
        }
        Ok(())
    })();
    free(db);
    db.set_map(snap);
    r
}
impl PCheck for P15 {
    fn base(&self, ctx: &Ctx, u: &PUni, db: &PDb, st: &PSt, _light: bool) -> Verdict {
        naming(ctx, u, db, st)
    }
    fn step(&self, v: &PView) -> Verdict {
        if matches!(v.out, Out::Error(_)) || v.light && v.op == POp::Commit && !lost(v.st, v.db).is_empty() {
            return Ok(());
        }
        naming(v.ctx, v.u, v.db, v.st)
    }
    fn ops(&self, u: &PUni) -> Vec<POp> {
        all_ops(u).into_iter().filter(|o| matches!(o, POp::Ins(..) | POp::Rem(_) | POp::Commit | POp::Reopen | POp::Proof(0))).collect()
    }
}
pub fn run15(ctx: &Ctx) {
    use crate::pchecks::{deep_plans, large_plan, shapes, u};
    self_test();
    let q = ctx.quick();
    let modes = [Mode::Fresh, Mode::Committed, Mode::Reopened];
    let mut plans = vec![];
    for light in [false, true] {
        for x in shapes(&[1, 40], false) {
            let bases = all_bases(&x, &modes);
            plans.push(PPlan { u: x, bases, depth: if q { 1 } else { 2 }, light });
        }
        for x in shapes(&[40], true) {
            let bases = all_bases(&x, &modes);
            plans.push(PPlan { u: x, bases, depth: if q { 1 } else { 2 }, light });
        }
        for mut x in shapes(&[40], false) {
            x.keys.truncate(2);
            x.name += "/two";
            let bases = all_bases(&x, &modes);
            plans.push(PPlan { u: x, bases, depth: if q { 2 } else { 4 }, light });
        }
        let mut p = large_plan("P15");
        p.depth = 0;
        p.light = light;
        plans.push(p);
        for mut p in deep_plans("P15") {
            p.depth = 0;
            p.light = light;
            plans.push(p);
        }
    }
    // keys of every length
    for n in (0..=70).chain([127, 128, 255, 256, 300]) {
        let long: Vec<u8> = (0..n as u32).map(|i| (i * 37 + 5) as u8).collect();
        let x = u(&format!("key-length-{}", n), &[&long, &[&long[..], b"\x00"].concat(), b"\xfe"], &[40], false);
        plans.push(PPlan { bases: vec![Base { assign: vec![1, 1, 1], mode: Mode::Reopened }, Base { assign: vec![1, 0, 1], mode: Mode::Committed }], u: x, depth: 0, light: false });
    }
    for p in &plans[..plans.len() - 76] {
        ctx.scope(serde_json::json!({"trie": p.u.json(), "light": p.light, "start_states": p.bases.len(), "depth": p.depth}));
    }
    ctx.scope(serde_json::json!({"key lengths": "0..70, 127, 128, 255, 256, 300"}));
    explore_many(ctx, &plans, &P15);
    ctx.assume("a database call that fails has no effect");
}
