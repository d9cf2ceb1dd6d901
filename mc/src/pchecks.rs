//! P01–P05 and P07: judges applied at every step of the trie exploration.
use crate::ctx::*;
use crate::pcore::*;
use crate::pmpt::*;
use pmt::{Database, Trie, H256};
use serde_json::json;
use std::sync::Arc;

/// A commit after which nodes are missing only because of the recorded finding of P04.
fn excused(v: &PView) -> bool {
    v.light && v.op == POp::Commit && {
        let l = lost(v.st, v.db);
        lost_by_sharing(v.pre.roots.last().map(|r| &r.1), &l)
    }
}
/// The root a commit of a copy of the handle would give; the database is put back.
fn peek(db: &PDb, t: &PTrie, other_name: bool) -> Result<Hash, String> {
    let snap = db.map();
    let mut c = t.clone();
    let r = guard_r(|| if other_name { c.root_hash() } else { c.commit() });
    db.set_map(snap);
    r.map(|x| h(&x))
}

pub struct P01;
impl P01 {
    fn look(&self, u: &PUni, st: &PSt) -> Verdict {
        reads("trie", &st.trie, u, &st.cur, &u.probes())
    }
}
impl PCheck for P01 {
    fn base_failed(&self, e: &str) -> Verdict {
        bad("operation", format!("building the start state failed: {}", e))
    }
    fn base(&self, _c: &Ctx, u: &PUni, _db: &PDb, st: &PSt, _l: bool) -> Verdict {
        self.look(u, st)
    }
    fn step(&self, v: &PView) -> Verdict {
        if excused(v) {
            return Ok(());
        }
        match (v.op, v.out) {
            (POp::InsEmpty(_), Out::Error(e)) if !is_panic(e) => {
                match peek(v.db, &v.st.trie, false) {
                    Ok(r) if r == reference(&v.st.cur).root => {}
                    r => return bad("empty-value", format!("after a refused insert the root is {:?}", r.map(|x| hx(&x)))),
                }
            }
            (POp::InsEmpty(_), o) => return bad("empty-value", format!("inserting an empty value gave {:?}", o)),
            (POp::Proof(_), Out::Error(e)) if !is_panic(e) => {}
            (op, Out::Error(e)) => return bad("operation", format!("{:?} failed: {}", op, e)),
            (POp::Rem(_) | POp::RemProbe(_), o) => {
                let want = model_op(v.u, &v.pre.cur, v.op).0.unwrap();
                if *o != want {
                    return bad("remove", format!("{:?} gave {:?}, expected {:?}", v.op, o, want));
                }
            }
            _ => {}
        }
        self.look(v.u, v.st)
    }
}

pub struct P02;
impl P02 {
    fn look(&self, db: &PDb, st: &PSt) -> Verdict {
        let want = reference(&st.cur).root;
        for other in [false, true] {
            match peek(db, &st.trie, other) {
                Ok(r) if r == want => {}
                r => return bad("root", format!("{} gives {:?}, expected {}", if other { "root_hash" } else { "commit" }, r.map(|x| hx(&x)), hx(&want))),
            }
        }
        Ok(())
    }
}
impl PCheck for P02 {
    fn base(&self, _c: &Ctx, _u: &PUni, db: &PDb, st: &PSt, _l: bool) -> Verdict {
        self.look(db, st)
    }
    fn step(&self, v: &PView) -> Verdict {
        if excused(v) {
            return Ok(());
        }
        match (v.op, v.out) {
            (POp::Commit, Out::Root(r)) => {
                let want = reference(&v.st.cur).root;
                if *r != want {
                    return bad("root", format!("commit returned {}, expected {}", hx(r), hx(&want)));
                }
            }
            (POp::Commit, o) => return bad("root", format!("commit gave {:?}", o)),
            (POp::InsEmpty(_), Out::Error(e)) if !is_panic(e) => {}
            (_, Out::Error(_)) => return Ok(()),
            _ => {}
        }
        if v.light {
            // a later commit may meet the recorded finding
            let snap = v.db.map();
            let mut n = v.st.clone();
            if let Ok(r) = guard_r(|| n.trie.commit()) {
                n.roots.push((h(&r), n.cur.clone()));
                let l = lost(&n, v.db);
                v.db.set_map(snap);
                if lost_by_sharing(v.st.roots.last().map(|r| &r.1), &l) {
                    return Ok(());
                }
            } else {
                v.db.set_map(snap);
            }
        }
        self.look(v.db, v.st)
    }
}

/// The committed trie, seen through new handles, and what one more change makes of it.
fn whole(what: &str, db: &PDb, u: &PUni, t: &PTrie, root: &Hash, m: &PMap) -> Verdict {
    let probes = u.probes();
    let a = at(t, root);
    reads(what, &a, u, m, &probes)?;
    iterations(what, &a, m)?;
    let b = PTrie::new(Arc::new(db.clone())).at_root(H256(*root));
    reads(what, &b, u, m, &probes)?;
    Ok(())
}
fn twins(what: &str, db: &PDb, u: &PUni, st: &PSt, light: bool) -> Verdict {
    let Some((root, m)) = st.roots.last() else { return Ok(()) };
    let snap = db.map();
    let mut ops: Vec<POp> = all_ops(u).into_iter().filter(|o| matches!(o, POp::Ins(..) | POp::Rem(_) | POp::RemProbe(_))).collect();
    ops.push(POp::Commit);
    for op in ops {
        let (want, after) = model_op(u, m, op);
        let root2 = reference(&after).root;
        for (name, h0) in [("the handle that committed", st.trie.clone()), ("a reopened handle", at(&st.trie, root))] {
            let mut t = h0;
            let out = run_op(u, &mut t, op, Some(*root));
            if Some(&out) != want.as_ref() {
                db.set_map(snap);
                return bad("modify", format!("{}: {} answers {:?} to {:?}, expected {:?}", what, name, out, op, want));
            }
            let r = guard_r(|| t.commit()).map(|x| h(&x));
            let mut n = st.clone();
            n.roots.push((root2, after.clone()));
            let l = if light { lost(&n, db) } else { vec![] };
            if !(light && lost_by_sharing(Some(m), &l)) {
                if r.as_ref() != Ok(&root2) {
                    db.set_map(snap);
                    return bad("modify", format!("{}: {} commits to {:?} after {:?}, expected {}", what, name, r.map(|x| hx(&x)), op, hx(&root2)));
                }
                let v = reads(&format!("{}: {} after {:?} and a commit", what, name, op), &t, u, &after, &[])
                    .and_then(|_| reads(&format!("{}: reopened again after {:?} and a commit", what, op), &at(&t, &root2), u, &after, &[]));
                if v.is_err() {
                    db.set_map(snap);
                    return v;
                }
            }
            db.set_map(snap.clone());
        }
    }
    Ok(())
}

pub struct P03;
impl P03 {
    fn look(&self, u: &PUni, db: &PDb, st: &PSt, light: bool) -> Verdict {
        let n = st.roots.len();
        for (i, (root, m)) in st.roots.iter().enumerate() {
            if light && i + 1 < n {
                continue;
            }
            whole(&format!("root {} of {}", i + 1, n), db, u, &st.trie, root, m)?;
        }
        twins("last root", db, u, st, light)
    }
}
impl PCheck for P03 {
    fn base(&self, _c: &Ctx, u: &PUni, db: &PDb, st: &PSt, l: bool) -> Verdict {
        self.look(u, db, st, l)
    }
    fn step(&self, v: &PView) -> Verdict {
        if matches!((v.op, v.out), (POp::Commit, Out::Root(_))) && !excused(v) {
            v.ctx.count("committed states reopened", 1);
            return self.look(v.u, v.db, v.st, v.light);
        }
        Ok(())
    }
}

pub struct P04;
impl P04 {
    fn look(&self, u: &PUni, db: &PDb, st: &PSt, committed: bool) -> Verdict {
        let Some((root, m)) = st.roots.last() else { return Ok(()) };
        if !st.dirty && committed {
            whole("the committed trie", db, u, &st.trie, root, m)?;
            let a = at(&st.trie, root);
            for k in u.keys.iter().chain(&u.fixed) {
                proof_ok("reopened handle", &a, root, k, m.get(k))?;
                proof_ok("committing handle", &st.trie, root, k, m.get(k))?;
            }
            twins("the committed trie", db, u, st, true)?;
        }
        reads("the handle", &st.trie, u, &st.cur, &[])
    }
}
impl PCheck for P04 {
    fn base(&self, _c: &Ctx, u: &PUni, db: &PDb, st: &PSt, _l: bool) -> Verdict {
        self.look(u, db, st, true)
    }
    fn step(&self, v: &PView) -> Verdict {
        if let Out::Error(e) = v.out {
            return match v.op {
                POp::InsEmpty(_) if !is_panic(e) => Ok(()),
                // the map and proof properties have their own checks; here only losing data counts
                POp::Commit => bad("commit", format!("commit failed: {}", e)),
                _ => Ok(()),
            };
        }
        if v.op == POp::Commit {
            let l = lost(v.st, v.db);
            if !l.is_empty() {
                let sig = if lost_by_sharing(v.pre.roots.last().map(|r| &r.1), &l) { "shared-subtree" } else { "lost-node" };
                return bad(sig, format!("commit discarded node {} which the committed trie needs", hx(&l[0])));
            }
            v.ctx.count("commits that keep every needed node", 1);
        }
        self.look(v.u, v.db, v.st, v.op == POp::Commit)
    }
}

/// What a commit to a discarding database leaves behind.
pub struct P14;
impl P14 {
    fn look(&self, c: &Ctx, db: &PDb, st: &PSt, before: &std::collections::BTreeSet<Hash>) -> Verdict {
        let Some((root, m)) = st.roots.last() else { return Ok(()) };
        let need = reference(m);
        let old: std::collections::BTreeSet<Hash> = st.roots.iter().map(|r| r.0).collect();
        let empty = reference(&PMap::new()).root;
        let have: Vec<Hash> = db.s(|s| s.map.keys().filter_map(|k| Hash::try_from(&k[..]).ok()).collect());
        for n in &have {
            if !need.nodes.contains_key(n) && !old.contains(n) && *n != empty && !before.contains(n) {
                return bad("left-over", format!("after the commit of root {} the database still has node {}, which no committed root refers to and which is no root itself", hx(root), hx(n)));
            }
        }
        c.count("nodes stored", have.len() as u64);
        c.count("nodes needed", need.nodes.len() as u64);
        Ok(())
    }
}
impl PCheck for P14 {
    fn base(&self, c: &Ctx, _u: &PUni, db: &PDb, st: &PSt, _l: bool) -> Verdict {
        if st.dirty {
            return Ok(());
        }
        self.look(c, db, st, &Default::default())
    }
    fn skip(&self, st: &PSt, op: POp) -> bool {
        st.dirty && matches!(op, POp::Proof(_))
    }
    fn step(&self, v: &PView) -> Verdict {
        if v.op != POp::Commit || matches!(v.out, Out::Error(_)) || excused(v) {
            return Ok(());
        }
        self.look(v.ctx, v.db, v.st, &Default::default())
    }
}

pub struct P05;
impl P05 {
    fn look(&self, u: &PUni, st: &PSt) -> Verdict {
        let Some((root, m)) = st.roots.last() else { return Ok(()) };
        let probes = u.probes();
        if st.dirty {
            return Ok(());
        }
        let re = at(&st.trie, root);
        for k in u.keys.iter().chain(&u.fixed).chain(&probes) {
            proof_ok("the handle", &st.trie, root, k, m.get(k))?;
            proof_ok("a reopened handle", &re, root, k, m.get(k))?;
            for t in [&st.trie, &re] {
                let want = path(m, k);
                let p = guard_r(|| t.clone().get_proof(k));
                if p.as_ref() != Ok(&want) {
                    return bad("proof-path", format!("the proof of {} is {:?}, the nodes on its path from the root are {:?}", hx(k),
                        p.map(|p| p.iter().map(|n| hx(n)).collect::<Vec<_>>()), want.iter().map(|n| hx(n)).collect::<Vec<_>>()));
                }
            }
        }
        Ok(())
    }
}
impl PCheck for P05 {
    fn base(&self, _c: &Ctx, u: &PUni, _db: &PDb, st: &PSt, _l: bool) -> Verdict {
        self.look(u, st)
    }
    fn step(&self, v: &PView) -> Verdict {
        if excused(v) {
            return Ok(());
        }
        match (v.op, v.out) {
            (POp::Proof(k), Out::Proof(p)) => {
                v.ctx.count("proofs asked for along the way", 1);
                let key = &v.u.keys[k as usize];
                if !v.st.dirty {
                    if let Some((root, m)) = v.st.roots.last() {
                        verify_ok("the handle", &v.st.trie, root, key, p.clone(), m.get(key))?;
                    }
                }
                // asking changed nothing
                reads("after asking for a proof", &v.st.trie, v.u, &v.st.cur, &[])?;
                let a = peek(v.db, &v.pre.trie, false);
                let b = peek(v.db, &v.st.trie, false);
                if a != b {
                    return bad("proof-effect", format!("asking for a proof changed the next root from {:?} to {:?}", a.map(|x| hx(&x)), b.map(|x| hx(&x))));
                }
                if !v.light {
                    // what is committed afterwards is still readable
                    let snap = v.db.map();
                    let mut t = v.st.trie.clone();
                    let r = match guard_r(|| t.commit()) {
                        Ok(r) => reads("reopened after a proof and a commit", &at(&t, &h(&r)), v.u, &v.st.cur, &[]),
                        Err(e) => bad("proof-effect", format!("committing after a proof failed: {}", e)),
                    };
                    v.db.set_map(snap);
                    r?;
                }
                Ok(())
            }
            (POp::Proof(k), o) => bad("proof", format!("asking for the proof of key {} gave {:?}", k, o)),
            (_, Out::Error(_)) => Ok(()),
            (POp::Commit | POp::Reopen, _) => self.look(v.u, v.st),
            _ => Ok(()),
        }
    }
}

pub struct P07;
impl P07 {
    fn look(&self, st: &PSt) -> Verdict {
        iterations("the handle", &st.trie, &st.cur)?;
        if let Some((root, m)) = st.roots.last() {
            if !st.dirty {
                iterations("a reopened handle", &at(&st.trie, root), m)?;
            }
        }
        Ok(())
    }
}
impl PCheck for P07 {
    fn base(&self, _c: &Ctx, _u: &PUni, _db: &PDb, st: &PSt, _l: bool) -> Verdict {
        self.look(st)
    }
    fn step(&self, v: &PView) -> Verdict {
        if excused(v) || matches!(v.out, Out::Error(_)) && !matches!(v.op, POp::InsEmpty(_)) {
            return Ok(());
        }
        self.look(v.st)
    }
    fn ops(&self, u: &PUni) -> Vec<POp> {
        all_ops(u).into_iter().filter(|o| !matches!(o, POp::InsEmpty(_) | POp::Proof(1..))).collect()
    }
}

// ------------------------------------------------------------------ plans
pub fn u(name: &str, keys: &[&[u8]], lens: &[usize], shared: bool) -> PUni {
    PUni { name: name.into(), keys: keys.iter().map(|k| k.to_vec()).collect(), lens: lens.to_vec(), shared, fixed: vec![], raw: vec![] }
}
fn long_key(at: usize, v: u8) -> Vec<u8> {
    let mut k = vec![0x77; 32];
    k[at] = v;
    k
}
/// Key shapes: prefixes of each other, splits at either nibble, long common parts, equal suffixes.
pub fn shapes(lens: &[usize], shared: bool) -> Vec<PUni> {
    vec![
        u("prefixes", &[b"", b"\x12", b"\x12\x34", b"\x12\x35"], lens, shared),
        u("nibbles", &[b"\x12\x34\x56", b"\x12\x34\x57", b"\x12\x3f", b"\xa2"], lens, shared),
        u("suffixes", &[b"\x10\xaa\xbb", b"\x20\xaa\xbb", b"\x21\xaa\xbb", b"\x20\xaa\xbc"], lens, shared),
        u("zeros", &[b"\x00", b"\x00\x00", b"\x01", b"\x10"], lens, shared),
        u("long", &[&long_key(31, 0x70), &long_key(31, 0x07), &long_key(15, 0x71), &[&long_key(0, 0x07)[..], &[0x66; 38]].concat()], lens, shared),
        u("nested", &[b"\x11\x11", b"\x11\x11\x11", b"\x11", b"\x11\x21"], lens, shared),
    ]
}
fn full(lens: &[usize]) -> PUni {
    let mut x = u("full-branch", &[b"\x50", b"", b"\x51\x01"], lens, false);
    x.fixed = (0..16u8).filter(|n| *n != 5).map(|n| vec![n << 4]).collect();
    x
}
const ALL: [Mode; 3] = [Mode::Fresh, Mode::Committed, Mode::Reopened];
/// A trie of 300 entries.
pub fn large_plan(id: &str) -> PPlan {
    let mut x = u("large", &[b"\x10\x00", b"\xff\xff\x01", b""], &[40], false);
    x.fixed = (0..300u32).map(|i| keccak(&i.to_be_bytes())[..2 + (i % 2) as usize].to_vec()).collect::<std::collections::BTreeSet<_>>().into_iter().collect();
    let bases: Vec<Base> = [[0, 0, 0], [1, 0, 0], [1, 1, 1]].iter().flat_map(|a| ALL.iter().map(|m| Base { assign: a.to_vec(), mode: *m })).collect();
    PPlan { u: x, bases, depth: if id == "P11" { 0 } else { 1 }, light: matches!(id, "P04" | "P14") }
}
/// Deep tries: a path of 40 branches whose keys are prefixes of each other, and one whose keys turn off one by one.
pub fn deep_plans(id: &str) -> Vec<PPlan> {
    // handles with uncommitted changes nest as deep in JSON as the trie, which serde_json limits
    let n = match id {
        "P08" => 8,
        "P11" => 12,
        _ => 40,
    };
    let p = |len: usize, tail: &[u8]| [&vec![0x5a; len][..], tail].concat();
    [true, false]
        .iter()
        .map(|nested| {
            let mut x = u(if *nested { "deep/nested" } else { "deep/turns" }, &[&p(n, b"\x5a"), &p(n / 2, b"\x5b"), &p(n / 2, b"\x61\x01")], &[if *nested { 40 } else { 3 }], false);
            x.fixed = (0..n).map(|i| p(i, if *nested { b"" } else { b"\x6b" })).collect();
            let bases: Vec<Base> = [[0, 0, 0], [1, 0, 0], [1, 1, 1]].iter().flat_map(|a| ALL.iter().map(|m| Base { assign: a.to_vec(), mode: *m })).collect();
            PPlan { u: x, bases, depth: if id == "P11" { 0 } else { 1 }, light: matches!(id, "P04" | "P14") }
        })
        .collect()
}
/// Values of every length and byte, keys of every length.
pub fn sweep_plans(ctx: &Ctx, id: &str) -> Vec<PPlan> {
    let q = ctx.quick();
    let shallow = id == "P11";
    // value lengths around every boundary of the encoding
    let lens: Vec<usize> = if q { (1..=70).chain([127, 128, 200, 253, 254, 255, 256, 257, 258, 300, 65536]).collect() } else { (1..=600).chain([1000, 65535, 65536, 70000]).collect() };
    let items: Vec<(usize, usize)> = lens.iter().flat_map(|l| (0..3).map(move |s| (*l, s))).collect();
    ctx.scope(json!({"value_lengths": lens.len(), "largest": lens.last(), "key_shapes": 3, "depth": if shallow { 0 } else { 1 }}));
    let mut sweep = vec![];
    for (l, s) in items {
        if l > 60000 && !matches!(id, "P02" | "P03") {
            continue;
        }
        let x = match s {
            0 => u("length/siblings", &[b"\x12\x34", b"\x12\x35"], &[l], false),
            1 => u("length/prefix", &[b"\x12", b"\x12\x34"], &[l], false),
            _ => u("length/long", &[&long_key(31, 0x70), &long_key(31, 0x07)], &[l], false),
        };
        let bases = all_bases(&x, &[Mode::Fresh, Mode::Reopened]);
        sweep.push(PPlan { u: x, bases, depth: if shallow { 0 } else if q || l > 1000 { 1 } else { 2 }, light: matches!(id, "P04" | "P14") });
    }
    // every byte a value can consist of or begin with
    for b in 0..=255u8 {
        let mut head = vec![0x61; 34];
        head[0] = b;
        for (i, keys) in [[&b"\x12\x34"[..], b"\x12\x35"], [b"\x12", b"\x12\x34"], [b"", b"\x12"]].iter().enumerate() {
            let mut x = u(&format!("byte {:02x}/{}", b, i), keys, &[1, 1], false);
            x.raw = vec![vec![b], if i == 0 { head.clone() } else { vec![b; 3] }];
            x.lens = x.raw.iter().map(Vec::len).collect();
            let bases = all_bases(&x, &[Mode::Fresh, Mode::Reopened]);
            sweep.push(PPlan { u: x, bases, depth: if shallow { 0 } else if q { 1 } else { 2 }, light: matches!(id, "P04" | "P14") });
        }
    }
    ctx.scope(json!({"value_bytes": 256, "key_shapes": 3, "as": ["the only byte", "three equal bytes", "the first of 34"], "depth": if shallow { 0 } else if q { 1 } else { 2 }}));
    // keys of every length: a long common part, a long rest
    let klens: Vec<usize> = (0..=70).chain([126, 127, 128, 129, 254, 255, 256, 257, 300, 1000]).collect();
    for &l in &klens {
        let p = |tail: &[u8]| [&vec![0x5e; l][..], tail].concat();
        let r = |head: &[u8]| [head, &vec![0x5e; l][..]].concat();
        for (i, keys) in [[p(b"\x12"), p(b"\x13\x01")], [p(b""), p(b"\x21")], [r(b"\x12"), r(b"\x31")]].into_iter().enumerate() {
            let x = u(&format!("key length {}/{}", l, i), &[&keys[0], &keys[1]], &[if l % 2 == 0 { 1 } else { 33 }], false);
            let bases = all_bases(&x, &[Mode::Fresh, Mode::Reopened]);
            sweep.push(PPlan { u: x, bases, depth: if shallow { 0 } else if q { 1 } else { 2 }, light: matches!(id, "P04" | "P14") });
        }
    }
    ctx.scope(json!({"key_lengths": klens.len(), "longest_key": 1002, "depth": if shallow { 0 } else if q { 1 } else { 2 }}));
    sweep
}
pub fn run(id: &str, ctx: &Ctx, ck: &dyn PCheck) {
    self_test();
    let q = ctx.quick();
    let modes: &[Mode] = &ALL;
    let lights: &[bool] = if matches!(id, "P04" | "P14") { &[true] } else { &[false, true] };
    // cheap judges go one step deeper
    let cheap = matches!(id, "P01" | "P02" | "P07" | "P14");
    for &light in lights {
        for (i, x) in shapes(&[1, 40], false).into_iter().enumerate() {
            let d = if q { 2 + (id == "P14") as usize } else if cheap { 4 } else { 3 };
            let mut bases = all_bases(&x, modes);
            if !q && d == 4 {
                // depth 4 from the start states with at most two entries, depth 3 from all
                explore(ctx, &PPlan { u: x.clone(), bases: bases.clone(), depth: 3, light }, ck);
                bases.retain(|b| b.assign.iter().filter(|a| **a > 0).count() <= 1);
            }
            let _ = i;
            explore(ctx, &PPlan { u: x, bases, depth: d, light }, ck);
        }
        // equal values: identical subtrees in several places
        for x in shapes(&[40], true) {
            let d = if q { 2 } else { 3 };
            let bases = all_bases(&x, modes);
            explore(ctx, &PPlan { u: x, bases, depth: d, light }, ck);
        }
        let x = full(&[1, 40]);
        let bases = all_bases(&x, modes);
        explore(ctx, &PPlan { u: x, bases, depth: if q { 1 } else { 2 }, light }, ck);
        // small tries, long histories
        for mut x in shapes(&[40], false) {
            x.keys.truncate(2);
            x.name += "/two";
            let bases = vec![Base { assign: vec![0, 0], mode: Mode::Fresh }, Base { assign: vec![1, 1], mode: Mode::Reopened }];
            let t = std::time::Instant::now();
            explore(ctx, &PPlan { u: x, bases, depth: if q { 4 } else { 6 }, light }, ck);
            if std::env::var("MC_VERBOSE").is_ok() {
                eprintln!("  long histories {:.1}s", t.elapsed().as_secs_f64());
            }
        }
    }
    let sweep = sweep_plans(ctx, id);
    let t = std::time::Instant::now();
    explore_many(ctx, &sweep, ck);
    if std::env::var("MC_VERBOSE").is_ok() {
        eprintln!("  sweep {:.1}s", t.elapsed().as_secs_f64());
    }
    // hundreds of entries, hundreds of commits
    let t = std::time::Instant::now();
    explore(ctx, &large_plan(id), ck);
    explore_many(ctx, &deep_plans(id), ck);
    for (i, x) in shapes(&[1, 40], false).iter().enumerate() {
        if q && i % 3 != 0 {
            continue;
        }
        let ops: Vec<POp> = (0..if q { 600usize } else { 2000 })
            .map(|j| match j % 6 {
                0 => POp::Ins((j / 6 % 4) as u8, (j / 24 % 2) as u8),
                1 => POp::Ins((j / 12 % 4) as u8, 1),
                3 => POp::Rem((j / 18 % 4) as u8),
                4 if j % 5 == 0 => POp::Reopen,
                4 => POp::Proof((j / 6 % 4) as u8),
                _ => POp::Commit,
            })
            .collect();
        for light in [false, true] {
            line(ctx, x, &Base { assign: vec![0; 4], mode: Mode::Fresh }, light || matches!(id, "P04" | "P14"), &ops, ck);
        }
    }
    if std::env::var("MC_VERBOSE").is_ok() {
        eprintln!("  large {:.1}s", t.elapsed().as_secs_f64());
    }
    if matches!(id, "P03" | "P04") {
        memory_db(ctx, id == "P04");
    }
    ctx.assume("the database stores what it is given; keccak-256 has no collisions");
}
/// The bundled in-memory database ends with the same contents as the database model used in the exploration.
fn memory_db(ctx: &Ctx, light: bool) {
    let q = ctx.quick();
    let mut n = 0u64;
    let items: Vec<(PUni, Base)> = shapes(&[1, 40], false).into_iter().flat_map(|x| all_bases(&x, &ALL).into_iter().map(move |b| (x.clone(), b))).collect();
    n += items.len() as u64;
    ctx.scope(json!({"scope": "the bundled MemoryDB against the database model", "light": light, "start_states": n, "depth": if q { 1 } else { 2 }, "then": "commit"}));
    par(ctx, &items, |(x, b)| {
        let ops = all_ops(x);
        let mut seqs: Vec<Vec<POp>> = ops.iter().map(|o| vec![*o, POp::Commit]).collect();
        if !q {
            seqs = ops.iter().flat_map(|a| ops.iter().map(move |b| vec![*a, *b, POp::Commit])).collect();
        }
        for s in seqs {
            let db = PDb::new(light);
            let Ok(mut st) = start(x, b, &db) else { continue };
            let mut ok = true;
            let mut prev = None;
            for op in &s {
                if *op == POp::Reopen && st.roots.is_empty() {
                    ok = false;
                    break;
                }
                prev = st.roots.last().map(|r| r.1.clone());
                let (n, out) = step(x, &st, *op);
                if matches!(out, Out::Error(_)) && !matches!(op, POp::InsEmpty(_)) {
                    ok = false;
                    break;
                }
                st = n;
            }
            if !ok || lost_by_sharing(prev.as_ref(), &lost(&st, &db)) {
                continue;
            }
            ctx.tr(1);
            ctx.trace(1);
            let case = json!({"memory_db": x.json(), "light": light, "start": b.assign, "mode": format!("{:?}", b.mode), "ops": s.iter().map(|o| o.json()).collect::<Vec<_>>()});
            beat(|| case.clone());
            match on_memory_db(x, b, light, &s) {
                Err(e) => ctx.fail("memory-db", format!("the same operations fail on MemoryDB: {}", e), case),
                Ok((m, t)) => {
                    let mut a = m.values().unwrap_or_default();
                    a.sort();
                    let want: Vec<(Vec<u8>, Vec<u8>)> = db.map().into_iter().map(|(k, v)| (k, v.to_vec())).collect();
                    let n = guard_r(|| m.len());
                    if n != Ok(a.len()) || guard_r(|| m.is_empty()) != Ok(a.is_empty()) || t.len() != a.len() {
                        ctx.fail("memory-db", "len and values of MemoryDB disagree".into(), case.clone());
                    }
                    let needed = reference(&st.cur);
                    if let Some(k) = needed.nodes.keys().find(|k| !a.iter().any(|(x, _)| x == &k[..])) {
                        ctx.fail("memory-db", format!("MemoryDB lacks node {}", hx(k)), case.clone());
                    } else if a != want && light {
                        // which superseded nodes stay is not specified; that they are the trie's own is
                        if let Some((k, _)) = a.iter().find(|(k, v)| keccak(v) != k[..]) {
                            ctx.fail("memory-db", format!("MemoryDB holds a wrong value under {}", hx(k)), case.clone());
                        }
                    } else if a != want {
                        ctx.fail("memory-db", "MemoryDB and the database model differ".into(), case.clone());
                    }
                    for k in x.keys.iter().chain(&x.probes()) {
                        if guard_r(|| t.get(k)) != Ok(st.cur.get(k).cloned()) {
                            ctx.fail("memory-db", format!("get({}) differs on MemoryDB", hx(k)), case.clone());
                        }
                    }
                }
            }
        }
    });
}
