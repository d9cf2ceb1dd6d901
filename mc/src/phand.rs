//! P11: trie handles survive serialisation. P12: handles over one database do not disturb each other.
//! P13: the bundled database is a map shared by its clones.
use crate::ctx::*;
use crate::pchecks::{shapes, u};
use crate::pcore::*;
use crate::pmpt::*;
use pmt::{Database, MemoryDB, Trie, H256};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::sync::Arc;

const ALL: [Mode; 3] = [Mode::Fresh, Mode::Committed, Mode::Reopened];

// ------------------------------------------------------------------ P11
#[derive(Clone, Copy, Debug, PartialEq)]
enum Fmt {
    Json,
    Pretty,
    Display,
    Bin,
}
/// The handle written out and read back; the new handle's database is whatever `PDb::default()` gives: `db`, or empty.
fn round_trip(f: Fmt, t: &PTrie, db: Option<&PDb>) -> Result<PTrie, String> {
    set_default(db.cloned());
    let r = match f {
        Fmt::Json => guard_r(|| serde_json::to_string(t)).and_then(|s| guard_r(|| serde_json::from_str::<PTrie>(&s))),
        Fmt::Pretty => guard_r(|| serde_json::to_vec_pretty(t)).and_then(|s| guard_r(|| serde_json::from_slice::<PTrie>(&s))),
        Fmt::Display => guard(|| t.to_string()).and_then(|s| guard_r(|| serde_json::from_str::<PTrie>(&s))),
        Fmt::Bin => guard_r(|| bincode::serialize(t)).and_then(|s| guard_r(|| bincode::deserialize::<PTrie>(&s))),
    };
    set_default(None);
    r.map_err(|e| format!("{:?}: {}", f, e))
}
pub struct P11 {
    /// operations tried on the handle that was read back
    pub onwards: bool,
}
fn commit_of(db: &PDb, t: &PTrie) -> (Result<Hash, String>, Store) {
    let snap = db.map();
    let mut c = t.clone();
    let r = guard_r(|| c.commit()).map(|x| h(&x));
    let after = db.map();
    db.set_map(snap);
    (r, after)
}
impl P11 {
    fn look(&self, ctx: &Ctx, u: &PUni, db: &PDb, st: &PSt, light: bool) -> Verdict {
        let probes = u.probes();
        let want = reference(&st.cur).root;
        // what a commit discards because of the recorded finding of P04 is not judged again
        let prev = st.roots.last().map(|r| &r.1);
        let excused = |after: &Store, m: &PMap| -> bool {
            let gone: Vec<Hash> = reference(m).nodes.keys().filter(|k| !after.contains_key(&k[..])).copied().collect();
            light && lost_by_sharing(prev, &gone)
        };
        for f in [Fmt::Json, Fmt::Bin, Fmt::Pretty, Fmt::Display] {
            let what = format!("a handle read back from {:?}", f);
            let t = match round_trip(f, &st.trie, Some(db)) {
                Ok(t) => t,
                Err(e) => return bad("round-trip", format!("the handle does not survive {}", e)),
            };
            ctx.count("handles written and read back", 1);
            if format!("{:?}", t.root()) != format!("{:?}", st.trie.root()) {
                return bad("round-trip", format!("{}: its root node is {:?} instead of {:?}", what, t.root(), st.trie.root()));
            }
            if matches!(f, Fmt::Pretty | Fmt::Display) {
                continue;
            }
            reads(&what, &t, u, &st.cur, &probes)?;
            iterations(&what, &t, &st.cur)?;
            let (r, after) = commit_of(db, &t);
            if !excused(&after, &st.cur) && r.as_ref() != Ok(&want) {
                return bad("commit", format!("{}: commit gives {:?}, expected {}", what, r.map(|x| hx(&x)), hx(&want)));
            }
            if !st.dirty {
                if let Some((root, m)) = st.roots.last() {
                    for k in u.keys.iter().chain(&u.fixed).chain(&probes) {
                        proof_ok(&what, &t, root, k, m.get(k))?;
                    }
                }
            }
            // over a database that has nothing: as the handle itself over such a database
            let alone = match round_trip(f, &st.trie, None) {
                Ok(t) => t,
                Err(e) => return bad("round-trip", format!("the handle does not survive {}", e)),
            };
            let snap = db.map();
            db.set_map(Store::new());
            for k in u.keys.iter().chain(&u.fixed).chain(&probes) {
                let a = guard_r(|| st.trie.get(k));
                let b = guard_r(|| alone.get(k));
                if a != b {
                    db.set_map(snap);
                    return bad("no-database", format!("{} over an empty database: get({}) = {:?}; the handle itself over an empty database: {:?}", what, hx(k), b, a));
                }
            }
            db.set_map(snap);
            if st.roots.is_empty() {
                // nothing committed yet: the handle carries everything
                let mut c = alone.clone();
                let r = guard_r(|| c.commit()).map(|x| h(&x));
                if r.as_ref() != Ok(&want) {
                    return bad("no-database", format!("{}, never committed: commits to {:?} on a new database, expected {}", what, r.map(|x| hx(&x)), hx(&want)));
                }
                reads(&format!("{}, committed on a new database", what), &at(&c, &want), u, &st.cur, &probes)?;
            }
            if !self.onwards {
                continue;
            }
            // it goes on as any handle does
            for op in all_ops(u) {
                if op == POp::Reopen && (st.dirty || st.roots.is_empty()) {
                    continue;
                }
                let snap = db.map();
                let mut n = st.clone();
                n.trie = t.clone();
                let (n, out) = step(u, &n, op);
                ctx.tr(1);
                let (e, m) = model_op(u, &st.cur, op);
                let now = db.map();
                if excused(&now, &m) && op == POp::Commit {
                    db.set_map(snap);
                    continue;
                }
                let v = (|| {
                    if let Some(e) = e {
                        if out != e {
                            return bad("onwards", format!("{}: {:?} gives {:?}, expected {:?}", what, op, out, e));
                        }
                    }
                    reads(&format!("{}, after {:?}", what, op), &n.trie, u, &m, &[])?;
                    let (r, after) = commit_of(db, &n.trie);
                    let w = reference(&m).root;
                    if !excused(&after, &m) && r.as_ref() != Ok(&w) {
                        return bad("onwards", format!("{}, after {:?}: commits to {:?}, expected {}", what, op, r.map(|x| hx(&x)), hx(&w)));
                    }
                    Ok(())
                })();
                db.set_map(snap);
                v?;
            }
        }
        Ok(())
    }
}
impl PCheck for P11 {
    fn base(&self, ctx: &Ctx, u: &PUni, db: &PDb, st: &PSt, l: bool) -> Verdict {
        self.look(ctx, u, db, st, l)
    }
    fn step(&self, v: &PView) -> Verdict {
        if matches!(v.out, Out::Error(_)) {
            return Ok(());
        }
        if v.light && v.op == POp::Commit && lost_by_sharing(v.pre.roots.last().map(|r| &r.1), &lost(v.st, v.db)) {
            return Ok(());
        }
        self.look(v.ctx, v.u, v.db, v.st, v.light)
    }
    fn ops(&self, u: &PUni) -> Vec<POp> {
        all_ops(u).into_iter().filter(|o| !matches!(o, POp::InsEmpty(_) | POp::Proof(1..) | POp::RemProbe(_))).collect()
    }
}
pub fn run11(ctx: &Ctx) {
    self_test();
    let q = ctx.quick();
    for light in [false, true] {
        for x in shapes(&[1, 40], false) {
            let mut bases = all_bases(&x, &ALL);
            explore(ctx, &PPlan { u: x.clone(), bases: bases.clone(), depth: 1, light }, &P11 { onwards: !q });
            bases.retain(|b| b.assign.iter().filter(|a| **a > 0).count() <= if q { 1 } else { 3 });
            explore(ctx, &PPlan { u: x, bases, depth: if q { 2 } else { 3 }, light }, &P11 { onwards: q });
        }
        for x in shapes(&[40], true) {
            let bases = all_bases(&x, &ALL);
            explore(ctx, &PPlan { u: x, bases, depth: if q { 1 } else { 2 }, light }, &P11 { onwards: true });
        }
    }
    // values of every length and of every byte, keys of every length; 300 entries
    explore_many(ctx, &crate::pchecks::sweep_plans(ctx, "P11"), &P11 { onwards: false });
    explore(ctx, &crate::pchecks::large_plan("P11"), &P11 { onwards: false });
    explore_many(ctx, &crate::pchecks::deep_plans("P11"), &P11 { onwards: false });
    // hashes
    for i in 0..=255u8 {
        for p in 0..32 {
            let mut x = [0x11u8; 32];
            x[p] = i;
            let x = H256(x);
            let a = guard_r(|| serde_json::to_string(&x)).and_then(|s| guard_r(|| serde_json::from_str::<H256>(&s)));
            let b = guard_r(|| bincode::serialize(&x)).and_then(|s| guard_r(|| bincode::deserialize::<H256>(&s)));
            ctx.trace(1);
            if a != Ok(x) || b != Ok(x) {
                ctx.fail("hash", format!("{:?} reads back as {:?} and {:?}", x, a, b), json!({"hash": hx(&x.0)}));
            }
        }
    }
    ctx.assume("tries no deeper than serde_json's nesting limit; the handle's database is supplied by the database type's Default, as the code does");
}

// ------------------------------------------------------------------ P12
#[derive(Clone, Copy, Debug, PartialEq)]
enum Other {
    Clone,
    /// opened at the first commit's root
    AtRoot,
    /// a new trie over the same database
    New,
}
#[derive(Clone)]
struct H {
    t: PTrie,
    m: PMap,
}
#[derive(Clone)]
struct Duo {
    h: Vec<H>,
    roots: Vec<(Hash, PMap)>,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum HOp {
    Ins(usize, u8, u8),
    Rem(usize, u8),
    Commit(usize),
    Proof(usize, u8),
    /// handle i goes to the newest root / to the first
    Latest(usize),
    First(usize),
    /// handle i becomes a copy of the other
    Copy(usize),
}
impl HOp {
    fn json(&self) -> Value {
        json!(format!("{:?}", self))
    }
}
fn duo_ops(u: &PUni) -> Vec<HOp> {
    let mut v = vec![];
    for i in 0..2 {
        for k in 0..u.keys.len() as u8 {
            for x in 0..u.lens.len() as u8 {
                v.push(HOp::Ins(i, k, x));
            }
            v.push(HOp::Rem(i, k));
        }
        v.extend([HOp::Commit(i), HOp::Proof(i, 0), HOp::Latest(i), HOp::Copy(i)]);
    }
    v.push(HOp::First(1));
    v
}
fn duo_step(u: &PUni, d: &Duo, op: HOp) -> Result<Option<Duo>, (String, String)> {
    let mut n = d.clone();
    let res = |what: &str, r: Result<(), String>| r.or_else(|e| bad("operation", format!("{} failed: {}", what, e)));
    match op {
        HOp::Ins(i, k, v) => {
            let (key, val) = (u.keys[k as usize].clone(), u.val(k as usize, v as usize));
            res("insert", guard_r(|| n.h[i].t.insert(&key, &val)))?;
            n.h[i].m.insert(key, val);
        }
        HOp::Rem(i, k) => {
            let key = u.keys[k as usize].clone();
            let want = n.h[i].m.remove(&key).is_some();
            match guard_r(|| n.h[i].t.remove(&key)) {
                Ok(x) if x == want => {}
                r => return bad("operation", format!("handle {}: remove({}) gives {:?}, expected {}", i, hx(&key), r, want)),
            }
        }
        HOp::Commit(i) => {
            let want = reference(&n.h[i].m).root;
            match guard_r(|| n.h[i].t.commit()) {
                Ok(r) if h(&r) == want => {}
                r => return bad("commit", format!("handle {} commits to {:?}, expected {}", i, r, hx(&want))),
            }
            let m = n.h[i].m.clone();
            n.roots.push((want, m));
        }
        HOp::Proof(i, k) => {
            let key = u.keys[k as usize].clone();
            res("get_proof", guard_r(|| n.h[i].t.get_proof(&key).map(|_| ())))?;
        }
        HOp::Latest(i) | HOp::First(i) => {
            let Some((r, m)) = (if matches!(op, HOp::Latest(_)) { n.roots.last() } else { n.roots.first() }).cloned() else { return Ok(None) };
            n.h[i] = H { t: at(&n.h[1 - i].t, &r), m };
        }
        HOp::Copy(i) => n.h[i] = n.h[1 - i].clone(),
    }
    Ok(Some(n))
}
fn duo_look(u: &PUni, db: &PDb, d: &Duo) -> Verdict {
    let entries = db.map().len();
    for (i, x) in d.h.iter().enumerate() {
        let what = format!("handle {}", i);
        reads(&what, &x.t, u, &x.m, &[])?;
        iterations(&what, &x.t, &x.m)?;
        let want = reference(&x.m).root;
        let (r, _) = commit_of(db, &x.t);
        if r.as_ref() != Ok(&want) {
            return bad("commit", format!("{} would commit to {:?}, expected {}", what, r.map(|x| hx(&x)), hx(&want)));
        }
        let n = guard(|| (x.t.len(), x.t.is_empty(), x.t.db().s(|s| s.map.len())));
        if n != Ok((entries, entries == 0, entries)) {
            return bad("len", format!("{}: (len, is_empty, entries of db()) = {:?}, the database holds {} nodes", what, n, entries));
        }
    }
    for (i, (r, m)) in d.roots.iter().enumerate() {
        let what = format!("root {} of {} reopened", i + 1, d.roots.len());
        let t = at(&d.h[i % 2].t, r);
        reads(&what, &t, u, m, &[])?;
        iterations(&what, &t, m)?;
        for k in &u.keys {
            proof_ok(&what, &t, r, k, m.get(k))?;
        }
    }
    Ok(())
}
pub fn run12(ctx: &Ctx) {
    self_test();
    let q = ctx.quick();
    for (si, full) in shapes(&[1, 40], false).into_iter().enumerate() {
        for pair in if q { vec![[0usize, 2]] } else { vec![[0, 2], [1, 3], [2, 3]] } {
            let mut x = full.clone();
            x.keys = pair.iter().map(|i| full.keys[*i].clone()).collect();
            x.name = format!("{}/{}{}", x.name, pair[0], pair[1]);
            // one more entry, so that there is something both handles share
            x.fixed = vec![full.keys[if pair.contains(&1) { 0 } else { 1 }].clone()];
            let depth = if q { 3 } else { 4 };
            let ops = duo_ops(&x);
            let mut items = vec![];
            for b in all_bases(&x, &ALL) {
                for o in [Other::Clone, Other::AtRoot, Other::New] {
                    if b.mode != Mode::Fresh || o != Other::AtRoot {
                        // full depth from some start states, one less from the others
                        let deep = match si % 3 {
                            0 => [0, 2],
                            1 => [2, 1],
                            _ => [1, 0],
                        } == b.assign[..];
                        items.push((b.clone(), o, if deep || !q { depth } else { depth - 1 }));
                    }
                }
            }
            ctx.scope(json!({"trie": x.json(), "handles": 2, "start_states": items.len(), "operations": ops.len(), "depth": depth, "start_states_explored_to_this_depth": items.iter().filter(|i| i.2 == depth).count(), "the_others": depth - 1}));
            ctx.sample(|| json!({"duo": x.json(), "start": items[0].0.assign, "ops": ops[..depth].iter().map(|o| o.json()).collect::<Vec<_>>()}));
            par(ctx, &items, |(b, o, depth)| {
                let db = PDb::new(false);
                let case = |hist: &[HOp]| json!({"duo": x.json(), "start": b.assign, "mode": format!("{:?}", b.mode), "other": format!("{:?}", o), "ops": hist.iter().map(|o| o.json()).collect::<Vec<_>>()});
                let mut hist = vec![];
                beat(|| case(&hist));
                let Ok(st) = start(&x, b, &db) else { return };
                let (t2, m2) = match o {
                    Other::Clone => (st.trie.clone(), st.cur.clone()),
                    Other::AtRoot => (at(&st.trie, &st.roots[0].0), st.roots[0].1.clone()),
                    Other::New => (PTrie::new(st.trie.db()), PMap::new()),
                };
                let d = Duo { h: vec![H { t: st.trie, m: st.cur }, H { t: t2, m: m2 }], roots: st.roots };
                ctx.st(1);
                if let Err((s, m)) = duo_look(&x, &db, &d) {
                    ctx.fail(&s, m, case(&hist));
                    return;
                }
                fn go(ctx: &Ctx, x: &PUni, db: &PDb, d: &Duo, ops: &[HOp], left: usize, hist: &mut Vec<HOp>, case: &dyn Fn(&[HOp]) -> Value) {
                    for &op in ops {
                        if ctx.stopped() {
                            return;
                        }
                        let snap = db.map();
                        hist.push(op);
                        beat(|| case(hist));
                        match duo_step(x, d, op) {
                            Err((s, m)) => ctx.fail(&s, m, case(hist)),
                            Ok(None) => {}
                            Ok(Some(n)) => {
                                ctx.tr(1);
                                match duo_look(x, db, &n) {
                                    Err((s, m)) => ctx.fail(&s, m, case(hist)),
                                    Ok(()) if left > 1 => go(ctx, x, db, &n, ops, left - 1, hist, case),
                                    Ok(()) => ctx.trace(1),
                                }
                            }
                        }
                        hist.pop();
                        db.set_map(snap);
                    }
                }
                go(ctx, &x, &db, &d, &ops, *depth, &mut hist, &case);
            });
        }
    }
    ctx.assume("a database that keeps removed nodes (with a discarding one, committing through one handle may discard what another still needs); operations of the handles do not overlap in time (P10 covers that)");
}

// ------------------------------------------------------------------ P13
#[derive(Clone, Debug, PartialEq)]
enum DOp {
    Put(usize, usize),
    Del(usize),
    PutMany(Vec<(usize, usize)>),
    DelMany(Vec<usize>),
    Flush,
}
type M = BTreeMap<Vec<u8>, Vec<u8>>;
fn db_model(keys: &[Vec<u8>], vals: &[Vec<u8>], light: bool, m: &mut M, op: &DOp) {
    match op {
        DOp::Put(k, v) => {
            m.insert(keys[*k].clone(), vals[*v].clone());
        }
        DOp::PutMany(l) => l.iter().for_each(|(k, v)| db_model(keys, vals, light, m, &DOp::Put(*k, *v))),
        DOp::Del(k) => {
            if light {
                m.remove(&keys[*k]);
            }
        }
        DOp::DelMany(l) => l.iter().for_each(|k| db_model(keys, vals, light, m, &DOp::Del(*k))),
        DOp::Flush => {}
    }
}
fn db_run(keys: &[Vec<u8>], vals: &[Vec<u8>], d: &MemoryDB, op: &DOp) -> Result<(), String> {
    guard_r(|| match op {
        DOp::Put(k, v) => d.insert(&keys[*k], vals[*v].clone()),
        DOp::PutMany(l) => d.insert_batch(l.iter().map(|x| keys[x.0].clone()).collect(), l.iter().map(|x| vals[x.1].clone()).collect()),
        DOp::Del(k) => d.remove(&keys[*k]),
        DOp::DelMany(l) => d.remove_batch(&l.iter().map(|k| keys[*k].clone()).collect::<Vec<_>>()),
        DOp::Flush => d.flush(),
    })
}
pub fn run13(ctx: &Ctx) {
    let q = ctx.quick();
    let keys = vec![vec![], b"a".to_vec(), vec![0xab; 32], b"ab".to_vec()];
    let vals = vec![vec![], b"x".to_vec(), vec![7; 40]];
    let nk = 3;
    let nv = if q { 2 } else { 3 };
    let mut ops = vec![DOp::Flush];
    for k in 0..nk {
        ops.push(DOp::Del(k));
        for v in 0..nv {
            ops.push(DOp::Put(k, v));
        }
    }
    for a in 0..nk * nv {
        for b in 0..nk * nv {
            ops.push(DOp::PutMany(vec![(a / nv, a % nv), (b / nv, b % nv)]));
        }
    }
    for a in 0..nk {
        for b in 0..nk {
            ops.push(DOp::DelMany(vec![a, b]));
        }
    }
    ops.extend([DOp::PutMany(vec![]), DOp::DelMany(vec![]), DOp::PutMany(vec![(0, 0), (1, 1), (2, 0), (0, 1)]), DOp::DelMany(vec![2, 1, 0, 3])]);
    let depth = if q { 3 } else { 4 };
    for light in [Some(true), Some(false), None] {
        ctx.scope(json!({"database": match light { Some(true) => "MemoryDB::new(true)", Some(false) => "MemoryDB::new(false)", None => "MemoryDB::default()" }, "operations": ops.len(), "depth": depth, "keys": nk, "values": nv}));
        let firsts: Vec<(usize, usize)> = (0..ops.len()).flat_map(|a| (0..ops.len()).map(move |b| (a, b))).collect();
        par(ctx, &firsts, |(a, b)| {
            ctx.st(1);
            let mut rest = vec![vec![]];
            for _ in 2..depth {
                rest = rest.into_iter().flat_map(|r: Vec<usize>| (0..ops.len()).map(move |c| [r.clone(), vec![c]].concat())).collect();
            }
            for r in rest {
                let seq: Vec<usize> = [vec![*a, *b], r].concat();
                let case = || json!({"memory_db_ops": seq.iter().map(|i| format!("{:?}", ops[*i])).collect::<Vec<_>>(), "light": light});
                beat(case);
                let d = match light {
                    Some(l) => MemoryDB::new(l),
                    None => MemoryDB::default(),
                };
                let e = d.clone();
                let shared = Arc::new(d.clone());
                let mut m = M::new();
                for (i, s) in seq.iter().enumerate() {
                    // through one clone and the other in turn
                    let x = if (i + s) % 2 == 0 { &d } else { &e };
                    if let Err(err) = db_run(&keys, &vals, x, &ops[*s]) {
                        ctx.fail("failed", format!("{:?} failed: {}", ops[*s], err), case());
                        return;
                    }
                    db_model(&keys, &vals, light.unwrap_or(false), &mut m, &ops[*s]);
                    ctx.tr(1);
                    if i + 1 < depth && i > 0 {
                        continue;
                    }
                    for (name, y) in [("the database", &d), ("its clone", &e), ("a shared handle", &*shared)] {
                        for k in &keys {
                            let g = guard_r(|| y.get(k));
                            if g != Ok(m.get(k).cloned()) {
                                ctx.fail("get", format!("{}: get({}) = {:?}, expected {:?}", name, hx(k), g, m.get(k)), case());
                                return;
                            }
                        }
                        let mut all = y.values().unwrap_or_default();
                        all.sort();
                        let want: Vec<_> = m.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
                        if all != want || guard_r(|| y.len()) != Ok(m.len()) || guard_r(|| y.is_empty()) != Ok(m.is_empty()) {
                            ctx.fail("contents", format!("{}: len {:?}, is_empty {:?}, {} values; expected {} entries", name, guard_r(|| y.len()), guard_r(|| y.is_empty()), all.len(), m.len()), case());
                            return;
                        }
                    }
                }
                ctx.trace(1);
            }
        });
        ctx.sample(|| json!({"memory_db_ops": ops.iter().take(depth).map(|o| format!("{:?}", o)).collect::<Vec<_>>(), "light": light}));
    }
    ctx.assume("as many values as keys are given to insert_batch");
}
