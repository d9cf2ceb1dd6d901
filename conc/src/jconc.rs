//! J17: the Jellyfish tree over the shared in-memory store, readers against a committing writer and a pruner.
use crate::ctx::*;
use crate::sched::*;
use jmt::db::VersionedDatabase;
use jmt::mock::MockTreeStore;
use jmt::storage::{HasPreimage, TreeReader};
use jmt::{JellyfishMerkleIterator, KeyHash, Sha256Jmt};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;
use std::sync::Arc;

type Db = MockTreeStore;
type Set = Vec<(KeyHash, Option<Vec<u8>>)>;

/// four keys that may be in the tree (two share their first nibble, two their first bits) and two that never are
fn k(i: usize) -> KeyHash {
    let mut k = [0u8; 32];
    k[0] = [0x00, 0x01, 0x10, 0xf0, 0x02, 0x80][i];
    KeyHash(k)
}
fn val(i: u8) -> Option<Vec<u8>> {
    Some(vec![i; 3])
}

#[derive(Clone, Debug)]
pub enum WOp {
    Commit(Vec<(usize, u8)>),
    /// two versions in one batch
    Commit2(Vec<(usize, u8)>, Vec<(usize, u8)>),
    /// prune everything up to the last version committed beforehand
    Purge,
}
#[derive(Clone, Debug)]
pub enum ROp {
    Proof(usize),
    Excl(usize),
    Range(usize),
    Iter,
    IterIdx(usize),
    Root,
    Leaves,
    Get(usize),
    /// on the newest version the store reports
    NewestProof(usize),
    NewestIter,
    /// whichever version exists: root_hash_option of the next one, and if it is there, a proof at it
    NextProof(usize),
    Len,
    Empty,
    Version,
    Nodes,
    History,
    NumNodes,
    Rightmost,
    Preimage(usize),
}
#[derive(Clone, Debug)]
pub enum Th {
    W(Vec<WOp>),
    R(Vec<ROp>),
}
#[derive(Clone, Debug)]
pub struct Scen {
    pub base: usize,
    pub threads: Vec<Th>,
}

fn base_hist(b: usize) -> Vec<Vec<(usize, u8)>> {
    match b {
        0 => vec![vec![(0, 1), (2, 1)], vec![(1, 1)]],
        1 => vec![vec![(0, 1), (1, 1), (3, 1)], vec![(0, 2)], vec![(3, 0)]],
        2 => vec![vec![(3, 1)]],
        3 => vec![],
        4 => vec![vec![(0, 1), (1, 1), (2, 1), (3, 1)], vec![(1, 0)]],
        5 => vec![vec![(0, 1), (3, 1)], vec![], vec![(0, 0), (3, 0)]],
        _ => unreachable!(),
    }
}
fn set(s: &[(usize, u8)]) -> Set {
    s.iter().map(|(i, v)| (k(*i), if *v == 0 { None } else { val(*v) })).collect()
}

struct Setup {
    db: Db,
    next: u64,
}
fn setup(b: usize) -> Setup {
    let db = Db::default();
    for i in 0..6 {
        db.put_key_preimage::<prehash::Id>(&pre(i));
    }
    let mut next = 0;
    for s in base_hist(b) {
        let t: Sha256Jmt<Db> = Sha256Jmt::new(Arc::new(db.clone()));
        let (_, batch) = t.put_value_set(set(&s), next).expect("set up");
        db.update_batch(batch).expect("set up");
        next += 1;
    }
    Setup { db, next }
}
fn pre(i: usize) -> jmt::reader::Preimage {
    jmt::reader::Preimage(format!("key{}", i).into_bytes())
}

fn do_w(db: &Db, first: u64, next: &mut u64, op: &WOp) -> Result<(), String> {
    let t: Sha256Jmt<Db> = Sha256Jmt::new(Arc::new(db.clone()));
    let e = |x: anyhow::Error| format!("{:#}", x);
    match op {
        WOp::Commit(s) => {
            let (_, batch) = t.put_value_set(set(s), *next).map_err(e)?;
            db.update_batch(batch).map_err(e)?;
            *next += 1;
        }
        WOp::Commit2(s, r) => {
            let (_, batch) = t.put_value_sets(vec![set(s), set(r)], *next).map_err(e)?;
            db.update(batch).map_err(e)?;
            *next += 2;
        }
        WOp::Purge => db.purge_stale_nodes(first.saturating_sub(1)).map_err(e)?,
    }
    Ok(())
}

fn tree(db: &Db) -> Sha256Jmt<Db> {
    Sha256Jmt::new(Arc::new(db.clone()))
}
fn iter_s(it: anyhow::Result<JellyfishMerkleIterator<Db>>) -> String {
    match it {
        Err(e) => format!("{:#}", e),
        Ok(it) => {
            let mut s = String::new();
            for x in it {
                match x {
                    Ok((k, v)) => s += &format!("{}={};", hex::encode(k.0), hex::encode(v)),
                    Err(e) => {
                        s += &format!("{:#}", e);
                        break;
                    }
                }
            }
            s
        }
    }
}
/// The answer of a read at version v, as text.
fn read_at(db: &Db, v: u64, op: &ROp) -> String {
    let t = tree(db);
    match op {
        ROp::Proof(i) | ROp::NewestProof(i) | ROp::NextProof(i) => match t.get_with_proof(k(*i), v) {
            Ok((val, p)) => {
                let root = t.get_root_hash(v);
                let ok = match (&root, &val) {
                    (Ok(r), Some(x)) => p.verify_existence(*r, k(*i), x).is_ok(),
                    (Ok(r), None) => p.verify_nonexistence(*r, k(*i)).is_ok(),
                    _ => false,
                };
                format!("{:?} {:?} verifies={}", val, p, ok)
            }
            Err(e) => format!("{:#}", e),
        },
        ROp::Excl(i) => match t.get_with_exclusion_proof(k(*i), v) {
            Ok(Ok((val, p))) => format!("{:?} {:?}", val, p),
            Ok(Err(p)) => format!("{:?}", p),
            Err(e) => format!("{:#}", e),
        },
        ROp::Range(i) => match t.get_range_proof(k(*i), v) {
            Ok(p) => format!("{:?}", p),
            Err(e) => format!("{:#}", e),
        },
        ROp::Iter | ROp::NewestIter => iter_s(JellyfishMerkleIterator::new(Arc::new(db.clone()), v, KeyHash([0; 32]))),
        ROp::IterIdx(i) => iter_s(JellyfishMerkleIterator::new_by_index(Arc::new(db.clone()), v, *i)),
        ROp::Root => format!("{:?}", t.get_root_hash(v).map_err(|e| e.to_string())),
        ROp::Leaves => format!("{:?}", t.get_leaf_count(v).map_err(|e| e.to_string())),
        ROp::Get(i) => format!("{:?}", db.get(v.into(), k(*i)).map_err(|e| e.to_string())),
        ROp::Preimage(i) => format!(
            "{:?}",
            db.preimage(KeyHash::with::<prehash::Id>(pre(*i).key())).map(|p| p.map(|p| p.key())).map_err(|e| e.to_string())
        ),
        _ => unreachable!(),
    }
}

/// What the store holds, in comparable form.
#[derive(Clone, Debug, PartialEq, Eq)]
struct Obs {
    len: usize,
    empty: bool,
    version: u64,
    nodes: BTreeMap<String, String>,
    history: BTreeMap<String, String>,
}
fn nodes_of(db: &Db) -> BTreeMap<String, String> {
    db.nodes().map(|(k, n)| (format!("{:?}", k), format!("{:?}", n))).collect()
}
fn history_of(db: &Db) -> BTreeMap<String, String> {
    db.value_history().map(|(k, h)| (format!("{:?}", k), format!("{:?}", h))).collect()
}
fn obs(db: &Db) -> Obs {
    Obs { len: db.len(), empty: db.is_empty(), version: db.version().into(), nodes: nodes_of(db), history: history_of(db) }
}

/// What must be seen, computed single-threaded beforehand.
struct Expect {
    first: u64,
    /// store contents by number of commits and number of prunings done
    obs: BTreeMap<(usize, usize), Obs>,
    /// latest version after i commits
    latest: Vec<u64>,
    /// answers per version (as in the history without pruning) and operation
    answers: BTreeMap<(u64, String), String>,
    final_pruned: BTreeMap<String, String>,
}

fn reads_of(s: &Scen) -> Vec<ROp> {
    s.threads
        .iter()
        .flat_map(|t| match t {
            Th::R(ops) => ops.clone(),
            _ => vec![],
        })
        .collect()
}
fn writer_ops(s: &Scen) -> (Vec<WOp>, usize) {
    let mut commits = vec![];
    let mut purges = 0;
    for t in &s.threads {
        if let Th::W(ops) = t {
            for o in ops {
                match o {
                    WOp::Purge => purges += 1,
                    o => commits.push(o.clone()),
                }
            }
        }
    }
    (commits, purges)
}

fn expect(s: &Scen) -> Expect {
    let (commits, purges) = writer_ops(s);
    let mut o = BTreeMap::new();
    let mut latest = vec![];
    let mut answers = BTreeMap::new();
    let first = setup(s.base).next;
    for p in 0..=purges {
        let b = setup(s.base);
        let mut next = b.next;
        for _ in 0..p {
            do_w(&b.db, first, &mut next, &WOp::Purge).expect("single-threaded run");
        }
        for i in 0..=commits.len() {
            if i > 0 {
                do_w(&b.db, first, &mut next, &commits[i - 1]).expect("single-threaded run");
            }
            o.insert((i, p), obs(&b.db));
            if p == 0 {
                latest.push(b.db.version().into());
            }
        }
        if p == 0 {
            for v in 0..next {
                for r in reads_of(s) {
                    match r {
                        ROp::Len | ROp::Empty | ROp::Version | ROp::Nodes | ROp::History | ROp::NumNodes | ROp::Rightmost => {}
                        _ => {
                            answers.insert((v, format!("{:?}", r)), read_at(&b.db, v, &r));
                        }
                    }
                }
            }
        }
    }
    let b = setup(s.base);
    let mut next = b.next;
    for c in &commits {
        do_w(&b.db, first, &mut next, c).expect("single-threaded run");
    }
    if next > 0 {
        b.db.purge_stale_nodes(next - 1).expect("single-threaded run");
    }
    Expect { first, obs: o, latest, answers, final_pruned: nodes_of(&b.db) }
}

#[derive(Default)]
struct Log {
    /// (first step, last step) of each commit and purge done, in order
    commits: Vec<(u64, u64)>,
    purges: Vec<(u64, u64)>,
    /// store-wide observations: operation, first and last step, what was seen
    seen: Vec<(ROp, u64, u64, String, BTreeMap<String, String>)>,
    bad: Vec<(String, String)>,
    next: u64,
}

fn world(s: &Scen, ex: Rc<Expect>) -> World {
    let b = setup(s.base);
    let log: Rc<RefCell<Log>> = Default::default();
    log.borrow_mut().next = b.next;
    let mut threads: Vec<Body> = vec![];
    let first = ex.first;
    for t in &s.threads {
        let db = b.db.clone();
        let log = log.clone();
        let ex = ex.clone();
        match t.clone() {
            Th::W(ops) => threads.push(Box::new(move || {
                for o in ops {
                    op_begin();
                    let mut next = log.borrow().next;
                    if let Err(e) = do_w(&db, first, &mut next, &o) {
                        log.borrow_mut().bad.push(("write-failed".into(), format!("{:?} failed: {}", o, e)));
                        return;
                    }
                    let mut l = log.borrow_mut();
                    let be = op_end();
                    match o {
                        WOp::Purge => l.purges.push(be),
                        _ => {
                            l.commits.push(be);
                            l.next = next;
                        }
                    }
                }
            })),
            Th::R(ops) => threads.push(Box::new(move || {
                for o in ops {
                    op_begin();
                    let mut map = BTreeMap::new();
                    let store = |s: String, map: BTreeMap<String, String>| {
                        let (b, e) = op_end();
                        log.borrow_mut().seen.push((o.clone(), b, e, s, map));
                    };
                    let check = |v: u64| {
                        let got = read_at(&db, v, &o);
                        match ex.answers.get(&(v, format!("{:?}", o))) {
                            Some(want) if *want == got => {}
                            want => log.borrow_mut().bad.push((
                                "answer-changed".into(),
                                format!("{:?} at version {} gave\n    {}\n  but without the other threads\n    {}", o, v, got, want.cloned().unwrap_or("(no such version)".into())),
                            )),
                        }
                    };
                    match &o {
                        ROp::Len => store(db.len().to_string(), map),
                        ROp::Empty => store(db.is_empty().to_string(), map),
                        ROp::Version => store(u64::from(db.version()).to_string(), map),
                        ROp::Nodes => {
                            map = nodes_of(&db);
                            store(String::new(), map)
                        }
                        ROp::History => {
                            map = history_of(&db);
                            store(String::new(), map)
                        }
                        ROp::NumNodes => store(db.num_nodes().to_string(), map),
                        ROp::Rightmost => {
                            let r = db.get_rightmost_leaf().map(|o| o.map(|(_, l)| hex::encode(l.key_hash().0)));
                            store(format!("{:?}", r.map_err(|e| e.to_string())), map)
                        }
                        ROp::NewestProof(_) | ROp::NewestIter => {
                            let v: u64 = db.version().into();
                            if ex.first > 0 || v > 0 {
                                check(v)
                            }
                        }
                        ROp::NextProof(_) => match tree(&db).get_root_hash_option(ex.first) {
                            Ok(None) => {}
                            Ok(Some(_)) => check(ex.first),
                            Err(e) => log.borrow_mut().bad.push(("read-failed".into(), format!("get_root_hash_option: {}", e))),
                        },
                        _ => {
                            if ex.first > 0 {
                                check(ex.first - 1)
                            }
                        }
                    }
                }
            })),
        }
    }
    let db = b.db.clone();
    let nthreads_w = {
        let (c, p) = writer_ops(s);
        (c.len(), p)
    };
    World {
        threads,
        check: Box::new(move || {
            let l = log.borrow();
            if let Some(x) = l.bad.first() {
                return Err(x.clone());
            }
            for (o, b, e, s, m) in &l.seen {
                judge(&ex, &l, o, *b, *e, s, m)?;
            }
            if (l.commits.len(), l.purges.len()) != nthreads_w {
                return Err(("write-lost".into(), "not every write finished".into()));
            }
            let want = &ex.obs[&nthreads_w];
            let got = obs(&db);
            if *want != got {
                return Err(("final-state".into(), format!("after all threads the store holds\n  {:?}\n but single-threaded\n  {:?}", got, want)));
            }
            if l.next > 0 {
                if let Err(e) = db.purge_stale_nodes(l.next - 1) {
                    return Err(("final-purge".into(), format!("pruning at the end failed: {:#}", e)));
                }
                if nodes_of(&db) != ex.final_pruned {
                    return Err(("final-purge".into(), "after a last pruning the nodes differ from the single-threaded run (stale records lost)".into()));
                }
            }
            Ok(())
        }),
    }
}

/// A store-wide observation must show the store after some number of whole commits, at least those finished when it
/// began and at most those begun when it ended; nodes being pruned at that time may or may not be there.
fn judge(ex: &Expect, l: &Log, o: &ROp, b: u64, e: u64, s: &str, m: &BTreeMap<String, String>) -> Result<(), (String, String)> {
    let lo = |x: &Vec<(u64, u64)>| x.iter().filter(|(_, end)| *end < b).count();
    let hi = |x: &Vec<(u64, u64)>| x.iter().filter(|(beg, _)| *beg <= e).count();
    let (i0, i1, p0, p1) = (lo(&l.commits), hi(&l.commits), lo(&l.purges), hi(&l.purges));
    let mut why = String::new();
    for i in i0..=i1 {
        let most = &ex.obs[&(i, p0)];
        let least = &ex.obs[&(i, p1)];
        let ok = match o {
            ROp::Len => s == most.len.to_string(),
            ROp::Empty => s == most.empty.to_string(),
            ROp::Version => s == most.version.to_string(),
            ROp::History => *m == most.history,
            ROp::Nodes => m.iter().all(|(k, v)| most.nodes.get(k) == Some(v)) && least.nodes.iter().all(|(k, v)| m.get(k) == Some(v)),
            ROp::NumNodes => {
                let n: usize = s.parse().unwrap();
                n >= least.nodes.len() && n <= most.nodes.len()
            }
            ROp::Rightmost => {
                // the greatest key among the leaves present
                let want = |x: &Obs| rightmost(x);
                s == want(most) || s == want(least)
            }
            _ => true,
        };
        if ok {
            return Ok(());
        }
        why += &format!(" {}", match o {
            ROp::Len => most.len.to_string(),
            ROp::Version => most.version.to_string(),
            ROp::NumNodes => format!("{}..{}", least.nodes.len(), most.nodes.len()),
            _ => String::new(),
        });
    }
    Err((
        "torn-observation".into(),
        format!("{:?} (steps {}-{}) saw {} {:?}, which is no state between {} and {} whole commits (expected one of:{})", o, b, e, s, m.keys().collect::<Vec<_>>(), i0, i1, why),
    ))
}
fn rightmost(x: &Obs) -> String {
    // leaf nodes are printed with their key hash; the greatest is found by the order of the printed hex
    let mut best: Option<String> = None;
    for n in x.nodes.values() {
        if let Some(h) = leaf_key(n) {
            if best.as_ref().map_or(true, |b| h > *b) {
                best = Some(h)
            }
        }
    }
    format!("{:?}", Ok::<_, String>(best))
}
fn leaf_key(n: &str) -> Option<String> {
    for i in 0..6 {
        if n.starts_with("Leaf") && n.contains(&format!("{:?}", k(i))) {
            return Some(hex::encode(k(i).0));
        }
    }
    None
}

/// A hasher for preimages only.
pub mod prehash {
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct Id([u8; 32], usize);
    impl jmt::SimpleHasher for Id {
        fn new() -> Self {
            Id([0; 32], 0)
        }
        fn update(&mut self, d: &[u8]) {
            for b in d {
                self.0[self.1 % 32] ^= *b;
                self.1 += 1;
            }
        }
        fn finalize(self) -> [u8; 32] {
            self.0
        }
    }
}

// ---------------------------------------------------------------------------------------------- scenarios
fn writers(base: usize) -> Vec<Vec<WOp>> {
    use WOp::*;
    let mut w = vec![
        vec![Commit(vec![(0, 3)])],
        vec![Commit(vec![(1, 3), (3, 3)]), Commit(vec![(0, 0)])],
        vec![Commit(vec![(0, 0), (1, 0), (2, 0), (3, 0)])],
        vec![Commit2(vec![(2, 3), (0, 4)], vec![(2, 0), (1, 4)])],
        vec![Commit(vec![])],
    ];
    if base != 3 {
        w.push(vec![Purge]);
        w.push(vec![Commit(vec![(0, 3), (2, 0)]), Purge]);
        w.push(vec![Purge, Commit(vec![(1, 0), (3, 4)])]);
    }
    w
}
fn readers() -> Vec<Vec<ROp>> {
    use ROp::*;
    vec![
        vec![Proof(0)],
        vec![Proof(1)],
        vec![Proof(3)],
        vec![Proof(4)],
        vec![Excl(4)],
        vec![Excl(5)],
        vec![Range(2)],
        vec![Range(0)],
        vec![Iter],
        vec![IterIdx(1)],
        vec![Root, Leaves],
        vec![Get(0), Get(3), Preimage(0)],
        vec![NewestProof(0)],
        vec![NewestProof(3)],
        vec![NewestIter],
        vec![NextProof(0)],
        vec![NextProof(1)],
        vec![Len, Len],
        vec![Empty, Len],
        vec![Version, Version],
        vec![Nodes, Nodes],
        vec![History, History],
        vec![NumNodes, NumNodes],
        vec![Rightmost],
        vec![Version, Len, NumNodes],
    ]
}

pub fn scenarios(quick: bool) -> Vec<(Scen, Mode)> {
    use ROp::*;
    use WOp::*;
    let mut v = vec![];
    let bases: Vec<usize> = (0..6).collect();
    let long_r = |r: &Vec<ROp>| r.iter().any(|o| matches!(o, Excl(_) | Iter | IterIdx(_) | NewestIter));
    let long_w = |w: &Vec<WOp>| match &w[0] {
        Commit2(..) => true,
        Commit(s) => s.len() > 2 || w.iter().filter(|o| matches!(o, Commit(_))).count() > 1,
        _ => false,
    };
    for b in &bases {
        for w in writers(*b) {
            for r in readers() {
                let s = Scen { base: *b, threads: vec![Th::W(w.clone()), Th::R(r.clone())] };
                if !quick || !(long_r(&r) && long_w(&w)) {
                    v.push((s.clone(), Mode::Full));
                }
                v.push((s, Mode::Bounded(if quick { 2 } else { 3 })));
            }
        }
    }
    // two pruners
    for b in bases.iter().filter(|b| **b != 3) {
        let p = || Th::W(vec![Purge]);
        v.push((Scen { base: *b, threads: vec![p(), p()] }, Mode::Full));
        v.push((Scen { base: *b, threads: vec![p(), p()] }, Mode::Bounded(if quick { 2 } else { 4 })));
        for r in [vec![Proof(0)], vec![Excl(5)], vec![Nodes, Len], vec![NewestProof(1)]] {
            v.push((Scen { base: *b, threads: vec![p(), p(), Th::R(r)] }, if quick { Mode::Bounded(2) } else { Mode::Full }));
        }
        for w in writers(*b).into_iter().take(if quick { 2 } else { usize::MAX }) {
            v.push((Scen { base: *b, threads: vec![Th::W(w.clone()), p(), p()] }, Mode::Bounded(2)));
        }
    }
    // a separate pruner, a second reader
    let rs: Vec<Vec<ROp>> = if quick {
        vec![vec![Proof(0)], vec![Excl(5)], vec![Iter], vec![Nodes], vec![NumNodes, Len], vec![NewestProof(1)]]
    } else {
        readers()
    };
    for b in &bases {
        for w in writers(*b).into_iter().filter(|w| !w.iter().any(|o| matches!(o, Purge))) {
            let lw = long_w(&w);
            for r in &rs {
                if *b != 3 {
                    let s = Scen { base: *b, threads: vec![Th::W(w.clone()), Th::W(vec![Purge]), Th::R(r.clone())] };
                    if !(lw && long_r(r)) && (!quick || !(lw || long_r(r))) {
                        v.push((s.clone(), Mode::Full));
                    }
                    v.push((s, Mode::Bounded(2)));
                }
                for r2 in [vec![Len], vec![Nodes], vec![Proof(0)]] {
                    if quick && !matches!(r2[0], Len) {
                        continue;
                    }
                    let s = Scen { base: *b, threads: vec![Th::W(w.clone()), Th::R(r.clone()), Th::R(r2)] };
                    v.push((s.clone(), Mode::Bounded(2)));
                    if !quick && !lw && !long_r(r) {
                        v.push((s, Mode::Full));
                    }
                }
            }
        }
    }
    v
}

fn case(i: usize, quick: bool, s: &Scen) -> Value {
    json!({"conc": "J17", "scenario": i, "quick": quick, "what": format!("{:?}", s)})
}

pub fn run(ctx: &Ctx) {
    let quick = ctx.quick();
    let all = scenarios(quick);
    let items: Vec<usize> = (0..all.len()).collect();
    let m = std::sync::Mutex::new((0u64, 0u64));
    par(ctx, &items, |i| {
        let (s, mode) = &all[*i];
        let ex = match guard(|| expect(s)) {
            Ok(e) => Rc::new(e),
            Err(p) => return ctx.fail("single-threaded", format!("the single-threaded run failed: {}", p), case(*i, quick, s)),
        };
        let t = std::time::Instant::now();
        let st = explore(ctx, *mode, &case(*i, quick, s), &|| world(s, ex.clone()));
        if std::env::var("MC_VERBOSE").is_ok() && t.elapsed().as_secs_f64() > 1.0 {
            eprintln!("{:.1}s {} schedules {} redundant {} steps: {:?} {:?}", t.elapsed().as_secs_f64(), st.schedules, st.redundant, st.steps, mode, s);
        }
        let mut m = m.lock().unwrap();
        m.0 = m.0.max(st.schedules);
        if matches!(mode, Mode::Full) {
            m.1 += st.schedules;
        }
        ctx.sample(|| json!({"scenario": format!("{:?}", s), "mode": format!("{:?}", mode), "schedules": st.schedules}));
    });
    let m = m.lock().unwrap();
    ctx.note("scenarios", json!(all.len()));
    ctx.note("most_schedules_in_one_scenario", json!(m.0));
    ctx.note("schedules_without_preemption_bound", json!(m.1));
    ctx.scope(json!({"threads": "writer + reader, writer + pruner + reader, writer + two readers, two pruners (+ reader, + writer)", "bases": 6,
        "modes": "unbounded up to commuting operations; and preemption-bounded with extra points"}));
    ctx.assume("threads interact only through parking_lot locks and plain memory; scheduling points are lock operations (and, in the bounded mode, the moment after each release)");
}
pub fn replay_case(ctx: &Ctx, c: &Value) {
    let all = scenarios(c["quick"].as_bool().unwrap());
    let (s, _) = &all[c["scenario"].as_u64().unwrap() as usize];
    let ex = Rc::new(expect(s));
    replay(ctx, c, &|| world(s, ex.clone()));
}
