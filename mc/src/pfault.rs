//! P08 (database failures and missing nodes) and P09 (crashes between the writes of a commit).
use crate::ctx::*;
use crate::pchecks::{shapes, u};
use crate::pcore::*;
use crate::pmpt::*;
use pmt::{OwnedTrieIterator, Trie};
use serde_json::{json, Value};
use std::collections::BTreeSet;
use std::sync::Arc;

#[derive(Clone, Debug, PartialEq)]
enum Act {
    Op(POp),
    Get(u8),
    Values,
}
impl Act {
    fn json(&self) -> Value {
        match self {
            Act::Op(o) => o.json(),
            Act::Get(k) => json!(["get", k]),
            Act::Values => json!(["values"]),
        }
    }
    fn from_json(v: &Value) -> Act {
        match v[0].as_str().unwrap() {
            "get" => Act::Get(v[1].as_u64().unwrap() as u8),
            "values" => Act::Values,
            _ => Act::Op(POp::from_json(v)),
        }
    }
}
#[derive(Clone, Debug, PartialEq)]
enum Res {
    Out(Out),
    Val(Option<Vec<u8>>, bool),
    All(Vec<(Vec<u8>, Vec<u8>)>),
    Err(String),
}
fn run_act(x: &PUni, t: &mut PTrie, a: &Act, root: Option<Hash>) -> Res {
    match a {
        Act::Op(o) => match run_op(x, t, *o, root) {
            Out::Error(e) => Res::Err(e),
            o => Res::Out(o),
        },
        Act::Get(k) => {
            let probes = x.probes();
            let key = x.keys.iter().chain(&probes).nth(*k as usize).unwrap();
            match (guard_r(|| t.get(key)), guard_r(|| t.contains(key))) {
                (Ok(v), Ok(c)) => Res::Val(v, c),
                (Err(e), _) | (_, Err(e)) => Res::Err(e),
            }
        }
        Act::Values => match guard_r(|| t.values()) {
            Ok(v) => Res::All(v),
            Err(e) => Res::Err(e),
        },
    }
}
fn all_acts(x: &PUni) -> Vec<Act> {
    let mut v: Vec<Act> = all_ops(x).into_iter().filter(|o| !matches!(o, POp::InsEmpty(_) | POp::Reopen)).map(Act::Op).collect();
    v.extend((0..(x.keys.len() + x.probes().len()) as u8).map(Act::Get));
    v.push(Act::Values);
    v
}
fn after(x: &PUni, m: &PMap, a: &Act) -> PMap {
    match a {
        Act::Op(o) => model_op(x, m, *o).1,
        _ => m.clone(),
    }
}
#[derive(Clone, Debug)]
enum Fault {
    Calls(u64, u64),
    Hide(Vec<u8>),
}
impl Fault {
    fn json(&self) -> Value {
        match self {
            Fault::Calls(a, b) => json!(["calls", a, if *b == u64::MAX { -1 } else { *b as i64 }]),
            Fault::Hide(h) => json!(["missing", hx(h)]),
        }
    }
    fn on(&self, db: &PDb) {
        db.s(|s| {
            s.calls = 0;
            s.failed = 0;
            s.hid = 0;
            match self {
                Fault::Calls(a, b) => s.fail = Some((*a, *b)),
                Fault::Hide(h) => {
                    s.hidden.insert(h.clone());
                }
            }
        })
    }
    fn off(db: &PDb) -> u64 {
        db.s(|s| {
            s.fail = None;
            s.hidden.clear();
            s.failed + s.hid
        })
    }
    fn from_json(v: &Value) -> Fault {
        if v[0] == "calls" {
            let b = v[2].as_i64().unwrap();
            Fault::Calls(v[1].as_u64().unwrap(), if b < 0 { u64::MAX } else { b as u64 })
        } else {
            Fault::Hide(hex::decode(v[1].as_str().unwrap()).unwrap())
        }
    }
}
/// Everything the handle holds can be committed and read back from the root that results.
fn sound(what: &str, x: &PUni, db: &PDb, t: &PTrie, m: &PMap, last: Option<&PMap>, light: bool) -> Verdict {
    let snap = db.map();
    let r = (|| {
        reads(&format!("{}, the handle", what), t, x, m, &[])?;
        let mut c = t.clone();
        let want = reference(m);
        let root = match guard_r(|| c.commit()) {
            Ok(r) => h(&r),
            Err(e) => return bad("later-commit", format!("{}: a later commit fails: {}", what, e)),
        };
        if root != want.root {
            return bad("later-commit", format!("{}: a later commit gives {}, expected {}", what, hx(&root), hx(&want.root)));
        }
        let l: Vec<Hash> = db.s(|s| want.nodes.keys().filter(|k| !s.map.contains_key(&k[..])).copied().collect());
        if light && lost_by_sharing(last, &l) {
            return Ok(());
        }
        reads(&format!("{}, after a later commit", what), &c, x, m, &[])?;
        let a = at(&c, &root);
        reads(&format!("{}, reopened after a later commit", what), &a, x, m, &[])?;
        iterations(&format!("{}, reopened after a later commit", what), &a, m)
    })();
    db.set_map(snap);
    r
}
/// One operation under one fault, judged; on success the handle as it is afterwards, with its contents.
#[allow(clippy::too_many_arguments)]
fn faulty(ctx: &Ctx, x: &PUni, db: &PDb, t0: &PTrie, m: &PMap, roots: &[(Hash, PMap)], a: &Act, f: &Fault, good: &Res, light: bool) -> Result<(PTrie, PMap), (String, String)> {
    let last = roots.last();
    let mut t = t0.clone();
    f.on(db);
    let r = run_act(x, &mut t, a, last.map(|r| r.0));
    let hit = Fault::off(db);
    ctx.tr(1);
    let what = format!("{:?} under {}", a, f.json());
    let m2 = match &r {
        Res::Err(e) if is_panic(e) => return bad("fault-crash", format!("{} crashed: {}", what, e)),
        Res::Err(e) => {
            if hit == 0 {
                return bad("fault-error", format!("{} failed though nothing failed underneath: {}", what, e));
            }
            ctx.count("operations that reported the fault", 1);
            // the same call now gives what it would have given
            let snap = db.map();
            let mut c = t.clone();
            let again = run_act(x, &mut c, a, last.map(|r| r.0));
            if again != *good {
                db.set_map(snap.clone());
                // any proof that verifies to the truth will do
                if !matches!((&again, good), (Res::Out(Out::Proof(_)), Res::Out(Out::Proof(_)))) {
                    return bad("fault-retry", format!("{}: repeated without the fault it gives {:?}, expected {:?}", what, again, good));
                }
            }
            let r = sound(&format!("{}, repeated", what), x, db, &c, &after(x, m, a), if matches!(a, Act::Op(POp::Commit)) { None } else { last.map(|r| &r.1) }, light);
            db.set_map(snap);
            if !(light && matches!(a, Act::Op(POp::Commit))) {
                r?;
            } else if let Err(e) = r {
                // a commit may have met the recorded finding of P04
                let l: Vec<Hash> = db.s(|s| reference(m).nodes.keys().filter(|k| !s.map.contains_key(&k[..])).copied().collect());
                if !lost_by_sharing(last.map(|r| &r.1), &l) {
                    return Err(e);
                }
            }
            m.clone()
        }
        ok => {
            if ok != good {
                return bad("fault-wrong", format!("{} gives {:?}, without the fault {:?}", what, ok, good));
            }
            ctx.count("operations the fault did not reach", 1);
            after(x, m, a)
        }
    };
    // earlier roots
    if !light {
        for (root, m) in roots {
            reads(&format!("{}, earlier root", what), &at(&t, root), x, m, &[])?;
        }
    }
    let committed = matches!(a, Act::Op(POp::Commit)) && !matches!(r, Res::Err(_));
    if !(light && matches!(a, Act::Op(POp::Commit))) {
        sound(&what, x, db, &t, &m2, if committed { Some(m) } else { last.map(|r| &r.1) }, light)?;
    } else {
        reads(&format!("{}, the handle", what), &t, x, &m2, &[]).or_else(|e| {
            let l: Vec<Hash> = db.s(|s| reference(m).nodes.keys().filter(|k| !s.map.contains_key(&k[..])).copied().collect());
            if lost_by_sharing(last.map(|r| &r.1), &l) { Ok(()) } else { Err(e) }
        })?;
    }
    Ok((t, m2))
}
/// The raw iterators cannot carry an error: what they yield must still be right and in order.
fn faulty_iter(x: &PUni, db: &PDb, t: &PTrie, m: &PMap, f: &Fault) -> Verdict {
    for owned in [false, true] {
        f.on(db);
        let max = m.len() + 3;
        let r = if owned {
            let mut it = OwnedTrieIterator::new(t.clone());
            guard(|| take(&mut it, max))
        } else {
            let mut it = t.iter();
            guard(|| take(&mut it, max))
        };
        Fault::off(db);
        match r {
            Err(e) => return bad("fault-crash", format!("iterating under {} crashed: {}", f.json(), e)),
            Ok(v) => {
                if v.windows(2).any(|w| w[0].0 >= w[1].0) || v.iter().any(|(k, y)| m.get(k) != Some(y)) {
                    return bad("fault-wrong", format!("iterating under {} yields a wrong entry or order", f.json()));
                }
            }
        }
    }
    let _ = x;
    Ok(())
}
fn faults(x: &PUni, db: &PDb, t0: &PTrie, m: &PMap, roots: &[(Hash, PMap)], a: &Act) -> Option<(Res, Vec<Fault>)> {
    let snap = db.map();
    db.s(|s| s.calls = 0);
    let mut t = t0.clone();
    let good = run_act(x, &mut t, a, roots.last().map(|r| r.0));
    let calls = db.s(|s| s.calls);
    let mut out: Vec<Fault> = vec![];
    for n in 0..calls {
        out.push(Fault::Calls(n, n + 1));
        if n + 1 < calls {
            out.push(Fault::Calls(n, u64::MAX));
        }
    }
    let now = db.map();
    db.set_map(snap);
    if matches!(good, Res::Err(_)) {
        return None; // other properties' business
    }
    let mut hashes: BTreeSet<Vec<u8>> = now.keys().cloned().collect();
    hashes.extend(reference(&after(x, m, a)).nodes.keys().map(|h| h.to_vec()));
    out.extend(hashes.into_iter().map(Fault::Hide));
    Some((good, out))
}
pub struct Case08<'a> {
    x: &'a PUni,
    b: &'a Base,
    light: bool,
    depth: usize,
}
impl Case08<'_> {
    fn json(&self, hist: &[(Act, Option<Fault>)]) -> Value {
        json!({"fault_trie": self.x.json(), "light": self.light, "start": self.b.assign, "mode": format!("{:?}", self.b.mode),
            "steps": hist.iter().map(|(a, f)| json!({"do": a.json(), "fault": f.as_ref().map(|f| f.json())})).collect::<Vec<_>>()})
    }
    #[allow(clippy::too_many_arguments)]
    fn go(&self, ctx: &Ctx, db: &PDb, t: &PTrie, m: &PMap, roots: &[(Hash, PMap)], left: usize, hist: &mut Vec<(Act, Option<Fault>)>, only: Option<&Act>) {
        for a in all_acts(self.x) {
            if only.map(|o| *o != a).unwrap_or(false) {
                continue;
            }
            if ctx.stopped() {
                return;
            }
            beat(|| self.json(hist));
            let Some((good, fs)) = faults(self.x, db, t, m, roots, &a) else { continue };
            for f in fs {
                let snap = db.map();
                hist.push((a.clone(), Some(f.clone())));
                let r = faulty(ctx, self.x, db, t, m, roots, &a, &f, &good, self.light);
                match r {
                    Err((s, msg)) => ctx.fail(&s, msg, self.json(hist)),
                    Ok((t2, m2)) => {
                        let failed = matches!(f, Fault::Calls(..)) && !(matches!(a, Act::Get(_) | Act::Values));
                        if left > 1 && failed {
                            // commits that got through add a root
                            let mut roots2 = roots.to_vec();
                            let newroot = if matches!(a, Act::Op(POp::Commit)) { lost_map(db, m) } else { None };
                            if let Some(r) = newroot {
                                roots2.push((r, m.clone()));
                            }
                            if !(self.light && matches!(a, Act::Op(POp::Commit))) {
                                self.go(ctx, db, &t2, &m2, &roots2, left - 1, hist, None);
                            }
                        }
                    }
                }
                if a == Act::Values {
                    if let Err((s, msg)) = faulty_iter(self.x, db, t, m, &f) {
                        ctx.fail(&s, msg, self.json(hist));
                    }
                }
                hist.pop();
                db.set_map(snap);
            }
            // and the operation itself succeeding, before a later one meets the fault
            if left > 1 {
                if let Act::Op(o) = a {
                    if matches!(o, POp::Proof(_)) {
                        continue;
                    }
                    let snap = db.map();
                    let mut t2 = t.clone();
                    let out = run_op(self.x, &mut t2, o, roots.last().map(|r| r.0));
                    let m2 = model_op(self.x, m, o).1;
                    let mut roots2 = roots.to_vec();
                    let mut ok = !matches!(out, Out::Error(_));
                    if let Out::Root(r) = out {
                        roots2.push((r, m2.clone()));
                        let l: Vec<Hash> = db.s(|s| reference(&m2).nodes.keys().filter(|k| !s.map.contains_key(&k[..])).copied().collect());
                        ok &= l.is_empty();
                    }
                    if ok {
                        hist.push((Act::Op(o), None));
                        self.go(ctx, db, &t2, &m2, &roots2, left - 1, hist, None);
                        hist.pop();
                    }
                    db.set_map(snap);
                }
            }
        }
    }
}
fn lost_map(db: &PDb, m: &PMap) -> Option<Hash> {
    let r = reference(m);
    db.s(|s| r.nodes.keys().all(|k| s.map.contains_key(&k[..]))).then_some(r.root)
}
fn base_from(c: &Value) -> Base {
    Base {
        assign: c["start"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect(),
        mode: match c["mode"].as_str().unwrap() {
            "Fresh" => Mode::Fresh,
            "Committed" => Mode::Committed,
            _ => Mode::Reopened,
        },
    }
}
pub fn replay08(ctx: &Ctx, c: &Value) {
    let x = PUni::from_json(&c["fault_trie"]);
    let b = base_from(c);
    let light = c["light"].as_bool().unwrap();
    let db = PDb::new(light);
    let Ok(st) = start(&x, &b, &db) else { return };
    let (mut t, mut m, mut roots) = (st.trie, st.cur, st.roots);
    for s in c["steps"].as_array().unwrap() {
        let a = Act::from_json(&s["do"]);
        println!("  {} fault={}", a.json(), s["fault"]);
        if s["fault"].is_null() {
            let Act::Op(o) = a else { continue };
            let out = run_op(&x, &mut t, o, roots.last().map(|r| r.0));
            m = model_op(&x, &m, o).1;
            if let Out::Root(r) = out {
                roots.push((r, m.clone()));
            }
            continue;
        }
        let f = Fault::from_json(&s["fault"]);
        let Some((good, _)) = faults(&x, &db, &t, &m, &roots, &a) else { return };
        match faulty(ctx, &x, &db, &t, &m, &roots, &a, &f, &good, light) {
            Err((s, msg)) => {
                ctx.fail(&s, msg, c.clone());
                return;
            }
            Ok((t2, m2)) => {
                if a == Act::Op(POp::Commit) {
                    if let Some(r) = lost_map(&db, &m) {
                        roots.push((r, m.clone()));
                    }
                }
                t = t2;
                m = m2;
            }
        }
        if a == Act::Values {
            if let Err((s, msg)) = faulty_iter(&x, &db, &t, &m, &f) {
                ctx.fail(&s, msg, c.clone());
            }
        }
    }
}
pub fn run08(ctx: &Ctx) {
    self_test();
    let q = ctx.quick();
    for light in [false, true] {
        let mut plans: Vec<(PUni, Vec<Base>, usize)> = vec![];
        for x in shapes(&[1, 40], false) {
            let bs = all_bases(&x, &[Mode::Fresh, Mode::Committed, Mode::Reopened]);
            plans.push((x, bs, 1));
        }
        for x in shapes(&[40], true) {
            let bs = all_bases(&x, &[Mode::Committed, Mode::Reopened]);
            plans.push((x, bs, 1));
        }
        for mut x in shapes(&[40], false) {
            x.keys.truncate(3);
            x.name += "/three";
            let mut bs = all_bases(&x, &[Mode::Committed, Mode::Reopened]);
            if q {
                if light != (plans.len() % 2 == 0) {
                    continue;
                }
                bs.retain(|b| b.assign.iter().all(|a| *a > 0));
            }
            plans.push((x, bs, 2));
        }
        if !q {
            for mut x in shapes(&[40], false) {
                x.keys.truncate(2);
                x.name += "/two";
                let bs = all_bases(&x, &[Mode::Committed, Mode::Reopened]);
                plans.push((x, bs, 3));
            }
        }
        for (x, bs, depth) in &plans {
            ctx.scope(json!({"trie": x.json(), "light": light, "start_states": bs.len(), "operations_with_a_fault_each": depth, "faults": "every database call failing (once, and from then on); every node missing"}));
            let items: Vec<(&Base, Act)> = bs.iter().flat_map(|b| all_acts(x).into_iter().map(move |a| (b, a))).collect();
            par(ctx, &items, |(b, first)| {
                let c = Case08 { x, b, light, depth: *depth };
                let db = PDb::new(light);
                ctx.st(1);
                beat(|| c.json(&[]));
                let Ok(st) = start(x, b, &db) else { return };
                let mut hist = vec![];
                c.go(ctx, &db, &st.trie, &st.cur, &st.roots, c.depth, &mut hist, Some(first));
                ctx.trace(1);
            });
        }
    }
    // a trie of 60 (300) entries, deep tries
    let mut large = crate::pchecks::large_plan("P08");
    if q {
        large.u.fixed = large.u.fixed.into_iter().step_by(5).collect();
    }
    for p in [large].into_iter().chain(crate::pchecks::deep_plans("P08")) {
        let bs: Vec<Base> = p.bases.iter().filter(|b| b.mode != Mode::Fresh && (!q || b.assign[1] == 0)).cloned().collect();
        let items: Vec<(&Base, bool, Act)> = bs.iter().flat_map(|b| all_acts(&p.u).into_iter().flat_map(move |a| [(b, false, a.clone()), (b, true, a)])).collect();
        ctx.scope(json!({"trie": format!("{} entries", p.u.fixed.len()), "start_states": bs.len(), "operations_with_a_fault_each": 1, "faults": "every database call failing (once, and from then on); every node missing"}));
        par(ctx, &items, |(b, light, first)| {
            let c = Case08 { x: &p.u, b, light: *light, depth: 1 };
            let db = PDb::new(*light);
            ctx.st(1);
            beat(|| c.json(&[]));
            let Ok(st) = start(&p.u, b, &db) else { return };
            c.go(ctx, &db, &st.trie, &st.cur, &st.roots, 1, &mut vec![], Some(first));
            ctx.trace(1);
        });
    }
    ctx.assume("a database call that fails has no effect");
}

// ------------------------------------------------------------------ P09
fn apply(map: &mut Store, w: &W) {
    match w {
        W::Put(_, k, v) => {
            map.insert(k.clone(), v.clone());
        }
        W::Del(_, k) => {
            map.remove(k);
        }
    }
}
fn batch_of(w: &W) -> usize {
    match w {
        W::Put(b, ..) | W::Del(b, _) => *b,
    }
}
fn complete(map: &Store, r: &Ref) -> bool {
    r.nodes.iter().all(|(k, (v, _))| map.get(&k[..]).map(|x| &**x == v).unwrap_or(false))
}
/// Every database content a crash during the logged writes can leave: every prefix, and, because the order within
/// one batch is not promised, every part of a batch.
fn crash_states(before: &Store, log: &[W]) -> Vec<(Vec<usize>, Store)> {
    let mut out = vec![];
    let mut seen = BTreeSet::new();
    let mut push = |ix: Vec<usize>, m: Store| {
        let sig: Vec<(Vec<u8>, usize)> = m.iter().map(|(k, v)| (k.clone(), v.len())).collect();
        if seen.insert(sig) {
            out.push((ix, m));
        }
    };
    let mut m = before.clone();
    push(vec![], m.clone());
    for (i, w) in log.iter().enumerate() {
        apply(&mut m, w);
        push((0..=i).collect(), m.clone());
    }
    let mut i = 0;
    let mut m = before.clone();
    while i < log.len() {
        let b = batch_of(&log[i]);
        let mut j = i;
        while j < log.len() && batch_of(&log[j]) == b {
            j += 1;
        }
        let n = j - i;
        // every part of a batch of up to 8 writes; of larger ones every one (up to 40: two), every end, all but one
        let parts: Vec<Vec<usize>> = if n <= 8 {
            (0..1usize << n).map(|p| (0..n).filter(|k| p >> k & 1 == 1).collect()).collect()
        } else {
            let most = (0..n).map(|a| (0..n).filter(|k| *k != a).collect());
            let ends = (0..n).map(|a| (a..n).collect());
            let few: Box<dyn Iterator<Item = Vec<usize>>> = if n <= 40 { Box::new((0..n).flat_map(|a| (a..n).map(move |b| if a == b { vec![a] } else { vec![a, b] }))) } else { Box::new((0..n).map(|a| vec![a])) };
            most.chain(ends).chain(few).collect()
        };
        for part in parts {
            let mut x = m.clone();
            let mut ix: Vec<usize> = (0..i).collect();
            for k in part {
                apply(&mut x, &log[i + k]);
                ix.push(i + k);
            }
            push(ix, x);
        }
        for w in &log[i..j] {
            apply(&mut m, w);
        }
        i = j;
    }
    out
}
fn crash_commit(ctx: &Ctx, x: &PUni, b: &Base, light: bool, ops: &[POp], only: Option<&[usize]>) {
    let case = |ix: &[usize]| json!({"crash_trie": x.json(), "light": light, "start": b.assign, "mode": format!("{:?}", b.mode), "ops": ops.iter().map(|o| o.json()).collect::<Vec<_>>(), "writes_done": ix});
    beat(|| case(&[]));
    let db = PDb::new(light);
    let Ok(mut st) = start(x, b, &db) else { return };
    for op in ops {
        if *op == POp::Reopen && st.roots.is_empty() {
            return;
        }
        let prev = st.roots.last().map(|r| r.1.clone());
        let (n, out) = step(x, &st, *op);
        if matches!(out, Out::Error(_)) {
            return;
        }
        let _ = prev;
        if light && *op == POp::Commit && !lost(&n, &db).is_empty() {
            return; // P04's business
        }
        st = n;
    }
    let before = db.map();
    db.s(|s| s.log = Some(vec![]));
    let mut t = st.trie.clone();
    let Ok(root) = guard_r(|| t.commit()) else { return };
    let log = db.s(|s| s.log.take().unwrap());
    let new = reference(&st.cur);
    if h(&root) != new.root {
        return; // P02's business
    }
    let old = st.roots.last().map(|(_, m)| (m.clone(), reference(m)));
    {
        let l: Vec<Hash> = db.s(|s| new.nodes.keys().filter(|k| !s.map.contains_key(&k[..])).copied().collect());
        if light && (lost_by_sharing(old.as_ref().map(|o| &o.0), &l)) {
            ctx.fail("shared-subtree", "a commit discarded a node that an identical subtree still needs; the new root is not complete".into(), case(&(0..log.len()).collect::<Vec<_>>()));
            return;
        }
    }
    ctx.trace(1);
    ctx.st(1);
    for (ix, m) in crash_states(&before, &log) {
        if only.map(|o| o != ix).unwrap_or(false) {
            continue;
        }
        if old.is_none() && ix.len() < log.len() {
            continue; // nothing was promised yet
        }
        let prefix = ix.iter().enumerate().all(|(a, b)| a == *b);
        ctx.tr(1);
        let o_ok = old.as_ref().map(|(_, r)| complete(&m, r));
        let n_ok = complete(&m, &new);
        if ix.len() == log.len() && !n_ok {
            ctx.fail("commit-incomplete", "after all writes of the commit the new root is not complete".into(), case(&ix));
            return;
        }
        if let Some(o) = o_ok {
            if !o && !n_ok {
                ctx.fail("crash-torn", format!("after {} of {} writes neither the old nor the new root is complete", ix.len(), log.len()), case(&ix));
                return;
            }
            if !light && !o {
                ctx.fail("crash-old-root", "the previous root is damaged although nothing is discarded".into(), case(&ix));
                return;
            }
        }
        if !light {
            for (i, (_, pm)) in st.roots.iter().enumerate() {
                if !complete(&m, &reference(pm)) {
                    ctx.fail("crash-old-root", format!("root {} is damaged although nothing is discarded", i), case(&ix));
                    return;
                }
            }
        }
        ctx.count(if n_ok { "crash states with the new root whole" } else if o_ok == Some(true) { "crash states with the old root whole" } else { "crash states of a first commit" }, 1);
        // read it as a restarted process would, and go on from there
        let mut whole: Vec<(&PMap, Hash)> = vec![];
        if n_ok {
            whole.push((&st.cur, new.root));
        }
        if let (Some(true), Some((m, r))) = (o_ok, &old) {
            whole.push((m, r.root));
        }
        for (pm, root) in whole {
            let db2 = PDb::with(light, m.clone());
            let fresh = PTrie::new(Arc::new(db2.clone()));
            let a = at(&fresh, &root);
            let r = reads("after the crash", &a, x, pm, &[]).and_then(|_| iterations("after the crash", &a, pm)).and_then(|_| {
                let every = if x.keys.len() > 16 { 67 } else { 1 };
                for op in all_ops(x).into_iter().filter(|o| (prefix || !ctx.quick()) && matches!(o, POp::Ins(k, _) | POp::Rem(k) if k % every == 0)) {
                    let snap = db2.map();
                    let mut t = at(&fresh, &root);
                    let (want, after) = model_op(x, pm, op);
                    let out = run_op(x, &mut t, op, None);
                    if Some(&out) != want.as_ref() {
                        return bad("crash-continue", format!("{:?} after the crash gives {:?}, expected {:?}", op, out, want));
                    }
                    let r2 = reference(&after);
                    match guard_r(|| t.commit()) {
                        Ok(r) if h(&r) == r2.root => {}
                        r => return bad("crash-continue", format!("commit after the crash and {:?} gives {:?}, expected {}", op, r, hx(&r2.root))),
                    }
                    let l: Vec<Hash> = db2.s(|s| r2.nodes.keys().filter(|k| !s.map.contains_key(&k[..])).copied().collect());
                    if !(light && lost_by_sharing(Some(pm), &l)) {
                        reads("after the crash and another commit", &at(&t, &r2.root), x, &after, &[])?;
                    }
                    db2.set_map(snap);
                }
                Ok(())
            });
            if let Err((s, msg)) = r {
                ctx.fail(&s, msg, case(&ix));
                return;
            }
        }
    }
}
pub fn replay09(ctx: &Ctx, c: &Value) {
    let x = PUni::from_json(&c["crash_trie"]);
    let ops: Vec<POp> = c["ops"].as_array().unwrap().iter().map(POp::from_json).collect();
    let only: Vec<usize> = c["writes_done"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect();
    crash_commit(ctx, &x, &base_from(c), c["light"].as_bool().unwrap(), &ops, Some(&only));
}
pub fn run09(ctx: &Ctx) {
    self_test();
    let q = ctx.quick();
    for light in [false, true] {
        let mut us = shapes(&[40], false);
        us.extend(shapes(&[1, 40], false).into_iter().take(if q { 2 } else { 6 }));
        us.extend(shapes(&[40], true));
        let mut f = u("full-branch", &[b"\x50", b"", b"\x51\x01"], &[1, 40], false);
        f.fixed = (0..16u8).filter(|n| *n != 5).map(|n| vec![n << 4]).collect();
        us.push(f);
        for x in us {
            let ops: Vec<POp> = all_ops(&x).into_iter().filter(|o| !matches!(o, POp::InsEmpty(_) | POp::Proof(_))).collect();
            let mut bs = all_bases(&x, &[Mode::Fresh, Mode::Committed, Mode::Reopened]);
            bs.retain(|b| b.mode != Mode::Fresh || b.assign.iter().all(|a| *a > 0));
            let deep = if q { 2 } else { 3 };
            ctx.scope(json!({"trie": x.json(), "light": light, "start_states": bs.len(), "operations_before_the_commit": deep, "crashes": "every prefix of the writes, every part of a batch"}));
            par(ctx, &bs, |b| {
                let mut seqs: Vec<Vec<POp>> = vec![vec![]];
                let mut last: Vec<Vec<POp>> = vec![vec![]];
                let full = !x.fixed.is_empty();
                let lim = if full { 1 } else if b.assign.iter().any(|a| *a == 0) && q { 1 } else { deep };
                for _ in 0..lim {
                    last = last.iter().flat_map(|s| ops.iter().map(move |o| [s.clone(), vec![*o]].concat())).collect();
                    seqs.extend(last.clone());
                }
                for s in seqs {
                    if ctx.stopped() {
                        return;
                    }
                    // a trailing commit or reopen adds nothing
                    if matches!(s.last(), Some(POp::Reopen | POp::Commit)) {
                        continue;
                    }
                    crash_commit(ctx, &x, b, light, &s, None);
                }
            });
        }
    }
    // commits that replace, remove or move hundreds of nodes
    let n = if q { 80u8 } else { 200 };
    let mut x = u("large", &[b"\x00"], &[40, 41], false);
    x.keys = (0..n).map(|i| keccak(&[i])[..2 + (i % 2) as usize].to_vec()).collect();
    let some = |f: &dyn Fn(u8) -> Option<POp>| -> Vec<POp> { (0..n).filter_map(f).collect() };
    let seqs = [some(&|i| Some(POp::Ins(i, 1))), some(&|i| (i % 3 != 0).then_some(POp::Rem(i))), some(&|i| Some(if i % 2 == 0 { POp::Rem(i) } else { POp::Ins(i, 1) })), some(&|i| (i < 40).then_some(POp::Ins(i, 1)))];
    let mut items = vec![];
    for s in &seqs {
        for light in [false, true] {
            for mode in [Mode::Committed, Mode::Reopened] {
                items.push((s, light, Base { assign: vec![1; n as usize], mode }));
            }
        }
    }
    ctx.scope(json!({"trie": format!("{} entries", n), "commits": items.len(), "crashes": "every prefix of the writes; of a batch every one, every end, all but one"}));
    par(ctx, &items, |(s, light, b)| crash_commit(ctx, &x, b, *light, s, None));
    ctx.assume("single database writes are atomic and happen in the order of the calls; within a batch any order is considered");
}
