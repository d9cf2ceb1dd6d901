//! P10: tries and the in-memory database used by several threads over one shared handle.
use crate::ctx::*;
use crate::sched::*;
use pmt::{Database, InnerTrie, MemoryDB, OwnedTrieIterator, Trie, H256};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;
use std::sync::Arc;

// ------------------------------------------------------------------- database: the real one, its calls recorded
#[derive(Clone, Debug)]
struct Call {
    tid: usize,
    b: u64,
    e: u64,
    put: bool,
    keys: Vec<Vec<u8>>,
}
thread_local! {
    static CALLS: RefCell<Vec<Call>> = const { RefCell::new(Vec::new()) };
}
/// Forwards every call to the MemoryDB and records when the writes ran.
#[derive(Clone, Debug, Default)]
struct LogDb(MemoryDB);
fn logged<T>(put: bool, keys: Vec<Vec<u8>>, f: impl FnOnce() -> T) -> T {
    // recorded at the start already: a snapshot taken meanwhile may see part of it
    let i = CALLS.with(|c| {
        let mut c = c.borrow_mut();
        c.push(Call { tid: tid(), b: mark(), e: u64::MAX, put, keys });
        c.len() - 1
    });
    let r = f();
    CALLS.with(|c| c.borrow_mut()[i].e = mark());
    r
}
impl Database for LogDb {
    type Error = <MemoryDB as Database>::Error;
    fn get(&self, key: &[u8]) -> Result<Option<Vec<u8>>, Self::Error> {
        self.0.get(key)
    }
    fn insert(&self, key: &[u8], value: Vec<u8>) -> Result<(), Self::Error> {
        logged(true, vec![key.to_vec()], || self.0.insert(key, value))
    }
    fn remove(&self, key: &[u8]) -> Result<(), Self::Error> {
        logged(false, vec![key.to_vec()], || self.0.remove(key))
    }
    fn insert_batch(&self, keys: Vec<Vec<u8>>, values: Vec<Vec<u8>>) -> Result<(), Self::Error> {
        logged(true, keys.clone(), || self.0.insert_batch(keys, values))
    }
    fn remove_batch(&self, keys: &[Vec<u8>]) -> Result<(), Self::Error> {
        logged(false, keys.to_vec(), || self.0.remove_batch(keys))
    }
    fn flush(&self) -> Result<(), Self::Error> {
        self.0.flush()
    }
    fn len(&self) -> Result<usize, Self::Error> {
        self.0.len()
    }
    fn values(&self) -> Result<Vec<(Vec<u8>, Vec<u8>)>, Self::Error> {
        self.0.values()
    }
    fn is_empty(&self) -> Result<bool, Self::Error> {
        self.0.is_empty()
    }
}

// ------------------------------------------------------------------- scenarios
/// a key and the number of its value
type Put = (usize, u8);
fn key(i: usize) -> Vec<u8> {
    vec![vec![0x10], vec![0x11], vec![0x11, 0x22], vec![0x90], vec![0x95, 0x01], vec![0xf0]][i].clone()
}
fn val(v: u8) -> Vec<u8> {
    vec![v; 34]
}
#[derive(Clone, Debug)]
enum Op {
    Ins(usize, u8),
    Rem(usize),
    Commit,
    Get(usize),
    Has(usize),
    Proof(usize),
    Values,
    TrieLen,
    TrieEmpty,
    DbLen,
    DbEmpty,
    DbValues,
    DbGetRoot,
}
#[derive(Clone, Debug)]
struct Th {
    /// which committed root the handle is opened at (None: a fresh trie)
    root: Option<usize>,
    ops: Vec<Op>,
}
#[derive(Clone, Debug)]
struct Scen {
    light: bool,
    roots: Vec<Vec<Put>>,
    threads: Vec<Th>,
    seed: usize,
}

struct Setup {
    db: Arc<LogDb>,
    roots: Vec<H256>,
}
fn setup(s: &Scen) -> Setup {
    let db = Arc::new(LogDb(MemoryDB::new(s.light)));
    let mut roots = vec![];
    for r in &s.roots {
        let mut t = InnerTrie::new(db.clone());
        for (k, v) in r {
            t.insert(&key(*k), &val(*v)).expect("set up");
        }
        roots.push(t.commit().expect("set up"));
    }
    Setup { db, roots }
}

fn content(db: &LogDb) -> Result<BTreeMap<Vec<u8>, Vec<u8>>, String> {
    let v = db.values().map_err(|e| e.to_string())?;
    let n = v.len();
    let m: BTreeMap<_, _> = v.into_iter().collect();
    if m.len() != n {
        return Err("a key is listed twice".into());
    }
    Ok(m)
}

/// Answer of one trie operation, as text; for store-wide ones the raw observation.
enum Ans {
    Text(String),
    Len(Result<usize, String>),
    Empty(Result<bool, String>),
    All(Result<BTreeMap<Vec<u8>, Vec<u8>>, String>),
}
fn do_op(db: &Arc<LogDb>, t: &mut InnerTrie<LogDb>, root: Option<H256>, o: &Op) -> Ans {
    fn s<T: std::fmt::Debug, E: std::fmt::Display>(r: Result<T, E>) -> Ans {
        Ans::Text(match r {
            Ok(v) => format!("{:?}", v),
            Err(e) => format!("error: {}", e),
        })
    }
    match o {
        Op::Ins(k, v) => s(t.insert(&key(*k), &val(*v))),
        Op::Rem(k) => s(t.remove(&key(*k))),
        Op::Commit => s(t.commit()),
        Op::Get(k) => s(t.get(&key(*k))),
        Op::Has(k) => s(t.contains(&key(*k))),
        Op::Proof(k) => match t.get_proof(&key(*k)) {
            Ok(p) => match root {
                Some(r) => s(t.verify_proof(r, &key(*k), p.clone()).map(|v| (v, p))),
                None => Ans::Text(format!("{:?}", p)),
            },
            Err(e) => Ans::Text(format!("error: {}", e)),
        },
        Op::Values => s(t.values()),
        Op::TrieLen => Ans::Len(Ok(t.len())),
        Op::TrieEmpty => Ans::Empty(Ok(t.is_empty())),
        Op::DbLen => Ans::Len(db.len().map_err(|e| e.to_string())),
        Op::DbEmpty => Ans::Empty(db.is_empty().map_err(|e| e.to_string())),
        Op::DbValues => Ans::All(content(db)),
        Op::DbGetRoot => s(db.get(root.unwrap_or_default().as_bytes())),
    }
}
fn open(st: &Setup, th: &Th) -> (InnerTrie<LogDb>, Option<H256>) {
    let base = InnerTrie::new(st.db.clone());
    match th.root {
        Some(i) => (base.at_root(st.roots[i]), Some(st.roots[i])),
        None => (base, None),
    }
}

struct Expect {
    /// answers of each thread run alone
    text: Vec<Vec<Option<String>>>,
    /// what the store held before
    before: BTreeMap<Vec<u8>, Vec<u8>>,
    /// every key the threads write, with its bytes (keys are hashes of the bytes, or small roots)
    universe: BTreeMap<Vec<u8>, Vec<u8>>,
    /// contents after all threads, one after the other
    after: BTreeMap<Vec<u8>, Vec<u8>>,
    /// the roots the threads committed
    roots: Vec<(H256, BTreeMap<Vec<u8>, Vec<u8>>)>,
}
fn expect(s: &Scen) -> Expect {
    let st = setup(s);
    let before = content(&st.db).expect("single-threaded run");
    let mut universe = before.clone();
    let mut text = vec![];
    let mut roots = vec![];
    for th in &s.threads {
        // alone, on its own store
        let one = setup(s);
        let (mut t, root) = open(&one, th);
        let mut v = vec![];
        for o in &th.ops {
            v.push(match do_op(&one.db, &mut t, root, o) {
                Ans::Text(x) => Some(x),
                _ => None,
            });
            universe.extend(content(&one.db).expect("single-threaded run"));
        }
        text.push(v);
        if matches!(th.ops.last(), Some(Op::Commit)) {
            let r = t.root_hash().expect("single-threaded run");
            roots.push((r, t.values().expect("single-threaded run").into_iter().collect()));
        }
        // and after the others
        let (mut t, root) = open(&st, th);
        for o in &th.ops {
            do_op(&st.db, &mut t, root, o);
        }
    }
    let after = content(&st.db).expect("single-threaded run");
    Expect { text, before, universe, after, roots }
}

#[derive(Default)]
struct Log {
    seen: Vec<(Op, u64, u64, Ans2)>,
    bad: Vec<(String, String)>,
}
enum Ans2 {
    Len(usize),
    Empty(bool),
    All(BTreeMap<Vec<u8>, Vec<u8>>),
}

fn world(s: &Scen, ex: Rc<Expect>) -> World {
    HASH_SEED.with(|h| h.set(s.seed));
    let st = setup(s);
    CALLS.with(|c| c.borrow_mut().clear());
    let log: Rc<RefCell<Log>> = Default::default();
    let mut threads: Vec<Body> = vec![];
    for (i, th) in s.threads.iter().enumerate() {
        let (db, log, ex, th) = (st.db.clone(), log.clone(), ex.clone(), th.clone());
        let (mut t, root) = open(&st, &th);
        threads.push(Box::new(move || {
            for (j, o) in th.ops.iter().enumerate() {
                op_begin();
                let a = do_op(&db, &mut t, root, o);
                let (b, e) = op_end();
                let mut l = log.borrow_mut();
                match a {
                    Ans::Text(x) => {
                        let want = ex.text[i][j].as_ref().unwrap();
                        if *want != x {
                            l.bad.push(("answer-changed".into(), format!("{:?} of thread {} gave\n    {}\n  but alone\n    {}", o, i, x, want)));
                        }
                    }
                    Ans::Len(Err(x)) | Ans::Empty(Err(x)) | Ans::All(Err(x)) => l.bad.push(("read-failed".into(), format!("{:?}: {}", o, x))),
                    Ans::Len(Ok(n)) => l.seen.push((o.clone(), b, e, Ans2::Len(n))),
                    Ans::Empty(Ok(n)) => l.seen.push((o.clone(), b, e, Ans2::Empty(n))),
                    Ans::All(Ok(n)) => l.seen.push((o.clone(), b, e, Ans2::All(n))),
                }
            }
        }));
    }
    let (light, db) = (s.light, st.db.clone());
    World {
        threads,
        check: Box::new(move || {
            let l = log.borrow();
            if let Some(x) = l.bad.first() {
                return Err(x.clone());
            }
            let calls = CALLS.with(|c| c.borrow().clone());
            for (o, b, e, a) in &l.seen {
                judge(light, &ex, &calls, o, *b, *e, a)?;
            }
            let now = content(&db).map_err(|e| ("final-state".to_string(), e))?;
            if now != ex.after {
                let d: Vec<String> = now.keys().filter(|k| !ex.after.contains_key(*k)).map(|k| format!("+{}", hex::encode(k))).chain(ex.after.keys().filter(|k| !now.contains_key(*k)).map(|k| format!("-{}", hex::encode(k)))).collect();
                return Err(("final-state".into(), format!("the store differs from that after running the threads one after the other: {:?}", d)));
            }
            for (r, want) in &ex.roots {
                let t = InnerTrie::new(db.clone()).at_root(*r);
                match t.values() {
                    Ok(v) if v.iter().cloned().collect::<BTreeMap<_, _>>() == *want => {}
                    x => return Err(("final-root".into(), format!("a committed root reads back as {:?}", x))),
                }
            }
            Ok(())
        }),
    }
}

/// c had returned before d was called (calls are listed in the order of their beginning).
fn precedes(c: (usize, &Call), d: (usize, &Call)) -> bool {
    c.1.e < d.1.b || (c.1.tid == d.1.tid && c.0 < d.0)
}

/// Which keys can and must be in the store for an observation made during [b, e].
fn judge(light: bool, ex: &Expect, calls: &[Call], o: &Op, b: u64, e: u64, a: &Ans2) -> Result<(), (String, String)> {
    let mut must: BTreeSet<&Vec<u8>> = BTreeSet::new();
    let mut may: BTreeSet<&Vec<u8>> = BTreeSet::new();
    for k in ex.universe.keys() {
        let first = Call { tid: usize::MAX, b: 0, e: 0, put: true, keys: vec![] };
        let sel = |put: bool| calls.iter().enumerate().filter(move |(_, c)| c.put == put && c.keys.contains(k)).map(|(i, c)| (i + 1, c));
        let puts: Vec<(usize, &Call)> = ex.before.get(k).map(|_| (0, &first)).into_iter().chain(sel(true)).collect();
        let dels: Vec<(usize, &Call)> = if light { sel(false).collect() } else { vec![] };
        // it may be there if some put that has begun is not surely followed by a finished delete
        if puts.iter().any(|p| p.1.b < e && !dels.iter().any(|d| precedes(*p, *d) && d.1.e < b)) {
            may.insert(k);
        }
        // it must be there if some finished put is followed by no delete that has begun
        if puts.iter().any(|p| p.1.e < b && !dels.iter().any(|d| d.1.b < e && !precedes(*d, *p))) {
            must.insert(k);
        }
    }
    let err = |m: String| Err(("torn-observation".to_string(), format!("{:?} (steps {}-{}): {}", o, b, e, m)));
    match a {
        Ans2::Len(n) => {
            if *n < must.len() || *n > may.len() {
                return err(format!("{} although the store held between {} and {} nodes", n, must.len(), may.len()));
            }
        }
        Ans2::Empty(x) => {
            if (*x && !must.is_empty()) || (!*x && may.is_empty()) {
                return err(format!("{} although the store held between {} and {} nodes", x, must.len(), may.len()));
            }
        }
        Ans2::All(m) => {
            for k in &must {
                if !m.contains_key(*k) {
                    return err(format!("the listing of {} entries lacks {}, which was in the store all the time", m.len(), hex::encode(k)));
                }
            }
            for (k, v) in m {
                if !may.contains(k) {
                    return err(format!("the listing has {}, which was not in the store at the time", hex::encode(k)));
                }
                if ex.universe.get(k) != Some(v) {
                    return err(format!("the listing has a wrong value for {}", hex::encode(k)));
                }
            }
            // one state: an effect that is seen implies those finished before it began
            let vis = |c: &Call, k: &Vec<u8>| -> Option<bool> {
                let others = calls.iter().filter(|d| d.keys.contains(k) && (d.put || light)).count();
                if others != 1 || (c.put == ex.before.contains_key(k)) || (!c.put && !light) {
                    return None;
                }
                Some(m.contains_key(k) == c.put)
            };
            for (i, c) in calls.iter().enumerate() {
                for (j, d) in calls.iter().enumerate() {
                    if precedes((i, c), (j, d)) && d.keys.iter().any(|k| vis(d, k) == Some(true)) {
                        if let Some(k) = c.keys.iter().find(|k| vis(c, k) == Some(false)) {
                            return err(format!("it shows a later write (thread {}) but not the earlier one of {} (thread {})", d.tid, hex::encode(k), c.tid));
                        }
                    }
                }
            }
        }
    }
    Ok(())
}

fn scenarios(quick: bool) -> Vec<(Scen, Mode)> {
    use Op::*;
    let mut out = vec![];
    // two roots without a node in common
    let r0: Vec<Put> = vec![(0, 1), (1, 1), (2, 2)];
    let r1: Vec<Put> = vec![(3, 5), (4, 6), (5, 7)];
    let writers: Vec<Vec<Op>> = vec![
        vec![Ins(0, 3), Commit],
        vec![Ins(3, 1), Commit],
        vec![Rem(1), Commit],
        vec![Ins(1, 3), Commit, Rem(2), Commit],
        vec![Rem(0), Rem(1), Rem(2), Commit],
        vec![Rem(0), Ins(0, 1), Commit],
    ];
    let fresh: Vec<Vec<Op>> = vec![vec![Ins(0, 8), Commit], vec![Ins(0, 8), Ins(1, 9), Commit, Rem(0), Commit]];
    let reads: Vec<Vec<Op>> = vec![
        vec![Get(3), Get(4)],
        vec![Has(5), Has(0)],
        vec![Proof(4)],
        vec![Proof(0)],
        vec![Values],
        vec![Ins(3, 9), Get(4), Rem(5), Values],
    ];
    let looks: Vec<Vec<Op>> = vec![
        vec![DbLen, DbLen],
        vec![TrieLen, TrieLen],
        vec![DbEmpty],
        vec![TrieEmpty],
        vec![DbValues, DbValues],
        vec![DbGetRoot, DbLen],
    ];
    let b = if quick { 2 } else { 3 };
    for light in [false, true] {
        for seed in if quick { vec![1] } else { vec![1, 2, 3] } {
            let sc = |roots: &[Vec<Put>], threads: Vec<Th>| Scen { light, roots: roots.to_vec(), threads, seed };
            let both = [r0.clone(), r1.clone()];
            let th = |root: Option<usize>, ops: &[Op]| Th { root, ops: ops.to_vec() };
            let mut two = vec![];
            for w in &writers {
                for r in reads.iter().chain(&looks) {
                    two.push(sc(&both, vec![th(Some(0), w), th(Some(1), r)]));
                }
                if !light {
                    // a reader at the very root the writer starts from
                    for r in [vec![Get(0), Get(2)], vec![Proof(1)], vec![Values]] {
                        two.push(sc(&both[..1], vec![th(Some(0), w), th(Some(0), &r)]));
                    }
                    for w2 in &writers {
                        two.push(sc(&both[..1], vec![th(Some(0), w), th(Some(0), w2)]));
                    }
                }
                for w2 in [vec![Ins(3, 6), Commit], vec![Rem(4), Commit], vec![Rem(3), Rem(4), Rem(5), Commit]] {
                    two.push(sc(&both, vec![th(Some(0), w), th(Some(1), &w2)]));
                }
            }
            for w in &fresh {
                for r in &looks {
                    two.push(sc(&[], vec![th(None, w), th(None, r)]));
                    two.push(sc(&both[1..], vec![th(None, w), th(Some(0), r)]));
                }
            }
            for s in two {
                let commits = |i: usize| s.threads[i].ops.iter().filter(|o| matches!(o, Commit)).count();
                let (a, c) = (commits(0), commits(1));
                if a + c < 3 || c == 0 {
                    out.push((s.clone(), Mode::Full));
                }
                out.push((s, Mode::Bounded(b)));
            }
            // three threads
            for w in &writers {
                for (r, l) in [(0, 0), (2, 4), (4, 1), (4, 4), (5, 3), (0, 2)] {
                    let s = sc(&both, vec![th(Some(0), w), th(Some(1), &reads[r]), th(None, &looks[l])]);
                    out.push((s.clone(), Mode::Bounded(b - 1)));
                    if !quick && w.len() <= 2 && r != 4 && r != 5 {
                        out.push((s, Mode::Full));
                    }
                }
                for l in &looks {
                    let s = sc(&both, vec![th(Some(0), w), th(Some(1), &[Ins(3, 6), Commit]), th(None, l)]);
                    out.push((s, Mode::Bounded(b - 1)));
                }
            }
        }
    }
    out
}

fn case(i: usize, quick: bool, s: &Scen) -> Value {
    json!({"conc": "P10", "scenario": i, "quick": quick, "what": format!("{:?}", s)})
}
pub fn run(ctx: &Ctx) {
    let quick = ctx.quick();
    let all = scenarios(quick);
    let items: Vec<usize> = (0..all.len()).collect();
    let m = std::sync::Mutex::new((0u64, 0u64));
    par(ctx, &items, |i| {
        let (s, mode) = &all[*i];
        HASH_SEED.with(|h| h.set(s.seed));
        let ex = match guard(|| expect(s)) {
            Ok(e) => Rc::new(e),
            Err(p) => return ctx.fail("single-threaded", format!("the single-threaded run failed: {}", p), case(*i, quick, s)),
        };
        let t = std::time::Instant::now();
        let st = explore(ctx, *mode, &case(*i, quick, s), &|| world(s, ex.clone()));
        if std::env::var("MC_VERBOSE").is_ok() && t.elapsed().as_secs_f64() > 1.0 {
            eprintln!("{:.1}s {} schedules {} redundant {} steps: {:?} {:?}", t.elapsed().as_secs_f64(), st.schedules, st.redundant, st.steps, mode, s);
        }
        let mut m = m.lock().unwrap();
        m.0 = m.0.max(st.schedules);
        if matches!(mode, Mode::Full) {
            m.1 += st.schedules;
        }
        ctx.sample(|| json!({"scenario": format!("{:?}", s), "mode": format!("{:?}", mode), "schedules": st.schedules}));
    });
    let m = m.lock().unwrap();
    ctx.note("scenarios", json!(all.len()));
    ctx.note("most_schedules_in_one_scenario", json!(m.0));
    ctx.note("schedules_without_preemption_bound", json!(m.1));
    ctx.scope(json!({"threads": "writer + reader, two writers, writer + reader + observer, two writers + observer", "databases": "keeping and discarding"}));
    ctx.assume("threads interact only through parking_lot locks and plain memory; scheduling points are lock operations (and, in the bounded mode, the moment after each release)");
}
pub fn replay_case(ctx: &Ctx, c: &Value) {
    let all = scenarios(c["quick"].as_bool().unwrap());
    let (s, _) = &all[c["scenario"].as_u64().unwrap() as usize];
    HASH_SEED.with(|h| h.set(s.seed));
    let ex = Rc::new(expect(s));
    replay(ctx, c, &|| world(s, ex.clone()));
}
