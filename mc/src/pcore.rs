//! Explicit-state exploration of the hexary trie (pmt): the real InnerTrie is driven through every sequence of
//! operations up to a depth from every start state, next to a plain map and the reference trie.
use crate::ctx::*;
use crate::pmpt::*;
use pmt::{Database, InnerTrie, MemoryDB, OwnedTrieIterator, Trie, H256};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Arc, Mutex};

pub type Verdict = Result<(), (String, String)>;
pub fn bad<T>(sig: &str, msg: impl Into<String>) -> Result<T, (String, String)> {
    Err((sig.into(), msg.into()))
}
pub fn hx(b: &[u8]) -> String {
    hex::encode(b)
}

// ------------------------------------------------------------------ the database handed to the trie
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct PErr(pub &'static str);
impl std::fmt::Display for PErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(self.0)
    }
}
impl std::error::Error for PErr {}

pub type Store = BTreeMap<Vec<u8>, Arc<Vec<u8>>>;
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum W {
    Put(usize, Vec<u8>, Arc<Vec<u8>>),
    Del(usize, Vec<u8>),
}
#[derive(Debug, Default)]
pub struct PState {
    pub map: Store,
    pub light: bool,
    pub log: Option<Vec<W>>,
    batch: usize,
    pub calls: u64,
    pub gets: u64,
    /// calls with index in this range fail
    pub fail: Option<(u64, u64)>,
    pub hidden: BTreeSet<Vec<u8>>,
    pub failed: u64,
    pub hid: u64,
}
/// A database whose every call is counted, can be made to fail, and whose writes can be logged; `light` discards
/// removed nodes as the bundled MemoryDB does.
#[derive(Debug, Clone)]
pub struct PDb(pub Arc<Mutex<PState>>);
thread_local! {
    static DEFAULT: std::cell::RefCell<Option<PDb>> = const { std::cell::RefCell::new(None) };
}
/// The database that `PDb::default()` gives on this thread; None: a new one.
pub fn set_default(db: Option<PDb>) {
    DEFAULT.with(|d| *d.borrow_mut() = db)
}
impl Default for PDb {
    fn default() -> Self {
        DEFAULT.with(|d| d.borrow().clone()).unwrap_or_else(|| PDb(Default::default()))
    }
}
impl PDb {
    pub fn new(light: bool) -> Self {
        let d = PDb(Default::default());
        d.0.lock().unwrap().light = light;
        d
    }
    pub fn with(light: bool, map: Store) -> Self {
        let d = PDb::new(light);
        d.0.lock().unwrap().map = map;
        d
    }
    pub fn map(&self) -> Store {
        self.0.lock().unwrap().map.clone()
    }
    pub fn set_map(&self, m: Store) {
        self.0.lock().unwrap().map = m;
    }
    pub fn s<T>(&self, f: impl FnOnce(&mut PState) -> T) -> T {
        f(&mut self.0.lock().unwrap())
    }
    fn tick(s: &mut PState) -> Result<(), PErr> {
        let n = s.calls;
        s.calls += 1;
        if let Some((a, b)) = s.fail {
            if n >= a && n < b {
                s.failed += 1;
                return Err(PErr("injected failure"));
            }
        }
        Ok(())
    }
}
impl Database for PDb {
    type Error = PErr;
    fn get(&self, key: &[u8]) -> Result<Option<Vec<u8>>, PErr> {
        let mut s = self.0.lock().unwrap();
        s.gets += 1;
        Self::tick(&mut s)?;
        if s.hidden.contains(key) {
            s.hid += 1;
            return Ok(None);
        }
        Ok(s.map.get(key).map(|v| v.to_vec()))
    }
    fn insert(&self, key: &[u8], value: Vec<u8>) -> Result<(), PErr> {
        let mut s = self.0.lock().unwrap();
        Self::tick(&mut s)?;
        let v = Arc::new(value);
        let b = s.batch;
        if let Some(l) = &mut s.log {
            l.push(W::Put(b, key.to_vec(), v.clone()));
        }
        s.map.insert(key.to_vec(), v);
        Ok(())
    }
    fn remove(&self, key: &[u8]) -> Result<(), PErr> {
        let mut s = self.0.lock().unwrap();
        Self::tick(&mut s)?;
        if s.light {
            let b = s.batch;
            if let Some(l) = &mut s.log {
                l.push(W::Del(b, key.to_vec()));
            }
            s.map.remove(key);
        }
        Ok(())
    }
    fn insert_batch(&self, keys: Vec<Vec<u8>>, values: Vec<Vec<u8>>) -> Result<(), PErr> {
        self.s(|s| s.batch += 1);
        // a fixed order, so that faults and crashes hit the same place in every run
        let mut kv: Vec<_> = keys.into_iter().zip(values).collect();
        kv.sort();
        let mut r = Ok(());
        for (k, v) in kv {
            r = self.insert(&k, v);
            if r.is_err() {
                break;
            }
        }
        self.s(|s| s.batch += 1);
        r
    }
    fn remove_batch(&self, keys: &[Vec<u8>]) -> Result<(), PErr> {
        self.s(|s| s.batch += 1);
        let mut ks = keys.to_vec();
        ks.sort();
        let mut r = Ok(());
        for k in &ks {
            r = self.remove(k);
            if r.is_err() {
                break;
            }
        }
        self.s(|s| s.batch += 1);
        r
    }
    fn flush(&self) -> Result<(), PErr> {
        self.s(Self::tick)
    }
    fn len(&self) -> Result<usize, PErr> {
        self.s(|s| Self::tick(s).map(|_| s.map.len()))
    }
    fn values(&self) -> Result<Vec<(Vec<u8>, Vec<u8>)>, PErr> {
        self.s(|s| Self::tick(s).map(|_| s.map.iter().map(|(k, v)| (k.clone(), v.to_vec())).collect()))
    }
    fn is_empty(&self) -> Result<bool, PErr> {
        self.s(|s| Self::tick(s).map(|_| s.map.is_empty()))
    }
}
pub type PTrie = InnerTrie<PDb>;

// ------------------------------------------------------------------ universes and operations
#[derive(Debug, Clone)]
pub struct PUni {
    pub name: String,
    pub keys: Vec<Vec<u8>>,
    /// lengths of the values; value v of key k is made of `lens[v]` bytes, distinct per key unless `shared`
    pub lens: Vec<usize>,
    pub shared: bool,
    /// entries present in every start state besides the chosen ones
    pub fixed: Vec<Vec<u8>>,
    /// when not empty: the very values, the same for every key
    pub raw: Vec<Vec<u8>>,
}
impl PUni {
    pub fn val(&self, k: usize, v: usize) -> Vec<u8> {
        if let Some(x) = self.raw.get(v) {
            return x.clone();
        }
        // values are bytes, not text: some are neither ASCII nor UTF-8
        let n = self.lens[v];
        let mut x = vec![if v % 2 == 0 { 0x61 } else { 0xf1 } + v as u8; n];
        if !self.shared && n > 0 {
            x[n - 1] = if k % 2 == 0 { 0 } else { 0x80 } + k as u8 + 1;
        }
        x
    }
    pub fn fixed_map(&self) -> PMap {
        self.fixed.iter().map(|k| (k.clone(), [vec![0x7a; 33], k.clone()].concat())).collect()
    }
    /// keys worth asking for besides the universe's own
    pub fn probes(&self) -> Vec<Vec<u8>> {
        let mut s: BTreeSet<Vec<u8>> = BTreeSet::new();
        for k in &self.keys {
            let mut a = k.clone();
            a.push(0);
            s.insert(a);
            if !k.is_empty() {
                s.insert(k[..k.len() - 1].to_vec());
                let mut a = k.clone();
                *a.last_mut().unwrap() ^= 1;
                s.insert(a.clone());
                *a.last_mut().unwrap() ^= 0x41;
                s.insert(a);
            }
        }
        for k in self.keys.iter().chain(&self.fixed) {
            s.remove(k);
        }
        s.into_iter().collect()
    }
    pub fn json(&self) -> Value {
        json!({"name": self.name, "keys": self.keys.iter().map(|k| hx(k)).collect::<Vec<_>>(), "value_lengths": self.lens, "equal_values": self.shared,
            "fixed": self.fixed.iter().map(|k| hx(k)).collect::<Vec<_>>(), "values": self.raw.iter().map(|k| hx(k)).collect::<Vec<_>>()})
    }
    pub fn from_json(v: &Value) -> PUni {
        let ks = |x: &Value| -> Vec<Vec<u8>> { x.as_array().unwrap().iter().map(|s| hex::decode(s.as_str().unwrap()).unwrap()).collect() };
        PUni {
            name: v["name"].as_str().unwrap().into(),
            keys: ks(&v["keys"]),
            lens: v["value_lengths"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect(),
            shared: v["equal_values"].as_bool().unwrap(),
            fixed: ks(&v["fixed"]),
            raw: if v["values"].is_array() { ks(&v["values"]) } else { vec![] },
        }
    }
}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum POp {
    Ins(u8, u8),
    Rem(u8),
    Commit,
    Reopen,
    Proof(u8),
    InsEmpty(u8),
    /// remove a key that is never in the universe (index into probes)
    RemProbe(u8),
}
impl POp {
    pub fn json(&self) -> Value {
        match *self {
            POp::Ins(k, v) => json!(["insert", k, v]),
            POp::Rem(k) => json!(["remove", k]),
            POp::Commit => json!(["commit"]),
            POp::Reopen => json!(["reopen"]),
            POp::Proof(k) => json!(["proof", k]),
            POp::InsEmpty(k) => json!(["insert_empty", k]),
            POp::RemProbe(k) => json!(["remove_absent", k]),
        }
    }
    pub fn from_json(v: &Value) -> POp {
        let n = |i: usize| v[i].as_u64().unwrap_or(0) as u8;
        match v[0].as_str().unwrap() {
            "insert" => POp::Ins(n(1), n(2)),
            "remove" => POp::Rem(n(1)),
            "commit" => POp::Commit,
            "reopen" => POp::Reopen,
            "proof" => POp::Proof(n(1)),
            "insert_empty" => POp::InsEmpty(n(1)),
            _ => POp::RemProbe(n(1)),
        }
    }
}
pub fn all_ops(u: &PUni) -> Vec<POp> {
    let mut v = vec![];
    for k in 0..u.keys.len() as u8 {
        for x in 0..u.lens.len() as u8 {
            v.push(POp::Ins(k, x));
        }
    }
    for k in 0..u.keys.len() as u8 {
        v.push(POp::Rem(k));
    }
    v.push(POp::Commit);
    v.push(POp::Reopen);
    for k in 0..u.keys.len() as u8 {
        v.push(POp::Proof(k));
    }
    v.push(POp::InsEmpty(0));
    for i in 0..u.probes().len().min(2) as u8 {
        v.push(POp::RemProbe(i));
    }
    v
}
/// How a start state was reached.
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Mode {
    Fresh,
    Committed,
    Reopened,
}
#[derive(Debug, Clone)]
pub struct Base {
    /// 0 = absent, v+1 = value v
    pub assign: Vec<u8>,
    pub mode: Mode,
}
pub fn all_bases(u: &PUni, modes: &[Mode]) -> Vec<Base> {
    let n = u.keys.len();
    let c = u.lens.len() + 1;
    let mut out = vec![];
    for i in 0..c.pow(n as u32) {
        let mut x = i;
        let mut assign = vec![];
        for _ in 0..n {
            assign.push((x % c) as u8);
            x /= c;
        }
        for m in modes {
            out.push(Base { assign: assign.clone(), mode: *m });
        }
    }
    out
}
impl Base {
    pub fn map(&self, u: &PUni) -> PMap {
        let mut m = u.fixed_map();
        for (k, a) in self.assign.iter().enumerate() {
            if *a > 0 {
                m.insert(u.keys[k].clone(), u.val(k, *a as usize - 1));
            }
        }
        m
    }
}

#[derive(Clone)]
pub struct PSt {
    pub trie: PTrie,
    pub cur: PMap,
    /// contents and root of every commit so far
    pub roots: Vec<(Hash, PMap)>,
    pub dirty: bool,
}
#[derive(Debug, Clone, PartialEq)]
pub enum Out {
    Done,
    Removed(bool),
    Root(Hash),
    Proof(Vec<Vec<u8>>),
    Error(String),
}
pub fn h(x: &H256) -> Hash {
    x.0
}
/// Runs one operation on the trie only.
pub fn run_op(u: &PUni, t: &mut PTrie, op: POp, last_root: Option<Hash>) -> Out {
    let probes;
    let r = match op {
        POp::Ins(k, v) => guard_r(|| t.insert(&u.keys[k as usize], &u.val(k as usize, v as usize))).map(|_| Out::Done),
        POp::InsEmpty(k) => guard_r(|| t.insert(&u.keys[k as usize], &[])).map(|_| Out::Done),
        POp::Rem(k) => guard_r(|| t.remove(&u.keys[k as usize])).map(Out::Removed),
        POp::RemProbe(k) => {
            probes = u.probes();
            guard_r(|| t.remove(&probes[k as usize])).map(Out::Removed)
        }
        POp::Commit => guard_r(|| t.commit()).map(|r| Out::Root(h(&r))),
        POp::Reopen => guard(|| {
            let n = t.at_root(H256(last_root.unwrap()));
            *t = n;
        })
        .map(|_| Out::Done),
        POp::Proof(k) => guard_r(|| t.get_proof(&u.keys[k as usize])).map(Out::Proof),
    };
    match r {
        Ok(o) => o,
        Err(e) => Out::Error(e),
    }
}
/// What the map model says about the operation: the expected outcome (None: not determined by the map) and the
/// contents afterwards.
pub fn model_op(u: &PUni, m: &PMap, op: POp) -> (Option<Out>, PMap) {
    let mut n = m.clone();
    let e = match op {
        POp::Ins(k, v) => {
            n.insert(u.keys[k as usize].clone(), u.val(k as usize, v as usize));
            Some(Out::Done)
        }
        POp::Rem(k) => Some(Out::Removed(n.remove(&u.keys[k as usize]).is_some())),
        POp::RemProbe(_) => Some(Out::Removed(false)),
        POp::Reopen => Some(Out::Done),
        POp::Commit => Some(Out::Root(reference(&n).root)),
        POp::Proof(_) => None,
        POp::InsEmpty(_) => None,
    };
    (e, n)
}
/// The model and the trie take the same step. Err: the trie refused or crashed.
pub fn step(u: &PUni, st: &PSt, op: POp) -> (PSt, Out) {
    let mut n = st.clone();
    let last = st.roots.last().map(|r| r.0);
    let out = run_op(u, &mut n.trie, op, last);
    let (_, cur) = model_op(u, &st.cur, op);
    n.cur = cur;
    match op {
        POp::Ins(..) | POp::Rem(_) => n.dirty = true,
        POp::Commit => {
            if let Out::Root(r) = &out {
                n.roots.push((*r, n.cur.clone()));
                n.dirty = false;
            }
        }
        // uncommitted changes are given up
        POp::Reopen if out == Out::Done => {
            if let Some((_, m)) = n.roots.last() {
                n.cur = m.clone();
            }
            n.dirty = false;
        }
        _ => {}
    }
    (n, out)
}
pub fn start(u: &PUni, b: &Base, db: &PDb) -> Result<PSt, String> {
    let m = b.map(u);
    let mut t = guard(|| PTrie::new(Arc::new(db.clone())))?;
    for (k, v) in &m {
        guard_r(|| t.insert(k, v))?;
    }
    let mut st = PSt { trie: t, cur: m.clone(), roots: vec![], dirty: true };
    if b.mode != Mode::Fresh {
        let r = guard_r(|| st.trie.commit())?;
        st.roots.push((h(&r), m));
        st.dirty = false;
        if b.mode == Mode::Reopened {
            let n = guard(|| st.trie.at_root(r))?;
            st.trie = n;
        }
    }
    Ok(st)
}

pub struct PView<'a> {
    pub ctx: &'a Ctx,
    pub u: &'a PUni,
    pub db: &'a PDb,
    pub pre: &'a PSt,
    pub st: &'a PSt,
    pub op: POp,
    pub out: &'a Out,
    pub light: bool,
}
pub trait PCheck: Sync {
    /// judges a start state
    fn base(&self, _ctx: &Ctx, _u: &PUni, _db: &PDb, _st: &PSt, _light: bool) -> Verdict {
        Ok(())
    }
    /// the start state could not even be built
    fn base_failed(&self, _e: &str) -> Verdict {
        Ok(())
    }
    /// judges a step; operations that fail end their branch
    fn step(&self, v: &PView) -> Verdict;
    fn ops(&self, u: &PUni) -> Vec<POp> {
        all_ops(u)
    }
    /// operations the property leaves out in this state
    fn skip(&self, _st: &PSt, _op: POp) -> bool {
        false
    }
}
pub struct PPlan {
    pub u: PUni,
    pub bases: Vec<Base>,
    pub depth: usize,
    pub light: bool,
}
fn case(u: &PUni, b: &Base, light: bool, hist: &[POp]) -> Value {
    json!({"trie": u.json(), "light": light, "start": b.assign, "mode": format!("{:?}", b.mode), "ops": hist.iter().map(|o| o.json()).collect::<Vec<_>>()})
}
/// The nodes that the last committed contents need and the database has lost.
pub fn lost(st: &PSt, db: &PDb) -> Vec<Hash> {
    let Some((_, m)) = st.roots.last() else { return vec![] };
    db.s(|s| reference(m).nodes.keys().filter(|k| !s.map.contains_key(&k[..])).copied().collect())
}
/// True if the step discarded a node because an identical one, elsewhere in the previously committed trie, was
/// superseded (the recorded finding of P04): every lost node was referred to from several places before.
pub fn lost_by_sharing(prev: Option<&PMap>, lost: &[Hash]) -> bool {
    let Some(m) = prev else { return false };
    let r = reference(m);
    !lost.is_empty() && lost.iter().all(|h| r.nodes.get(h).map(|x| x.1 > 1).unwrap_or(false))
}
pub fn explore(ctx: &Ctx, p: &PPlan, ck: &dyn PCheck) {
    ctx.scope(json!({"trie": p.u.json(), "light": p.light, "start_states": p.bases.len(), "operations": ck.ops(&p.u).len(), "depth": p.depth}));
    ctx.sample(|| case(&p.u, &p.bases[p.bases.len() / 2], p.light, &ck.ops(&p.u)[..3]));
    explore_quiet(ctx, p, ck)
}
pub fn explore_quiet(ctx: &Ctx, p: &PPlan, ck: &dyn PCheck) {
    explore_many(ctx, std::slice::from_ref(p), ck)
}
pub fn explore_many(ctx: &Ctx, plans: &[PPlan], ck: &dyn PCheck) {
    let items: Vec<(&PPlan, &Base)> = plans.iter().flat_map(|p| p.bases.iter().map(move |b| (p, b))).collect();
    par(ctx, &items, |(p, b)| {
        let ops = ck.ops(&p.u);
        let db = PDb::new(p.light);
        ctx.st(1);
        let mut hist = vec![];
        beat(|| case(&p.u, b, p.light, &hist));
        let st = match start(&p.u, b, &db) {
            Ok(s) => s,
            Err(e) => {
                if let Err((s, m)) = ck.base_failed(&e) {
                    ctx.fail(&s, m, case(&p.u, b, p.light, &hist));
                }
                return;
            }
        };
        if let Err((s, m)) = ck.base(ctx, &p.u, &db, &st, p.light) {
            ctx.fail(&s, m, case(&p.u, b, p.light, &hist));
            return;
        }
        dfs(ctx, p, ck, b, &db, &st, &ops, p.depth, &mut hist);
    });
}
#[allow(clippy::too_many_arguments)]
fn dfs(ctx: &Ctx, p: &PPlan, ck: &dyn PCheck, b: &Base, db: &PDb, st: &PSt, ops: &[POp], left: usize, hist: &mut Vec<POp>) {
    if left == 0 {
        ctx.trace(1);
        return;
    }
    for &op in ops {
        if ctx.stopped() {
            return;
        }
        if op == POp::Reopen && st.roots.is_empty() || ck.skip(st, op) {
            continue;
        }
        let snap = db.map();
        hist.push(op);
        beat(|| case(&p.u, b, p.light, hist));
        ctx.tr(1);
        let (n, out) = step(&p.u, st, op);
        let v = PView { ctx, u: &p.u, db, pre: st, st: &n, op, out: &out, light: p.light };
        match ck.step(&v) {
            Err((s, m)) => {
                ctx.fail(&s, m, case(&p.u, b, p.light, hist));
            }
            Ok(()) => {
                let refused = matches!(&out, Out::Error(e) if op != POp::InsEmpty(0) || is_panic(e));
                let gone = p.light && op == POp::Commit && !lost(&n, db).is_empty();
                if gone {
                    ctx.count("branches ended at lost nodes", 1);
                    if lost_by_sharing(st.roots.last().map(|r| &r.1), &lost(&n, db)) && !matches!(ctx.prop.as_str(), "P02" | "P14" | "P15") {
                        ctx.fail("shared-subtree", "a commit discarded a node that an identical subtree still needs; entries of the committed trie can no longer be read".into(), case(&p.u, b, p.light, hist));
                    }
                }
                if !refused && !gone {
                    dfs(ctx, p, ck, b, db, &n, ops, left - 1, hist);
                }
            }
        }
        hist.pop();
        db.set_map(snap);
    }
}
/// One fixed history, judged at every step.
pub fn line(ctx: &Ctx, u: &PUni, b: &Base, light: bool, ops: &[POp], ck: &dyn PCheck) {
    let db = PDb::new(light);
    let Ok(mut st) = start(u, b, &db) else { return };
    let allowed = ck.ops(u);
    let mut hist = vec![];
    for &op in ops.iter().filter(|o| allowed.contains(o)) {
        if ctx.stopped() || op == POp::Reopen && st.roots.is_empty() || ck.skip(&st, op) {
            continue;
        }
        hist.push(op);
        beat(|| case(u, b, light, &hist));
        ctx.tr(1);
        let (n, out) = step(u, &st, op);
        if let Err((s, m)) = ck.step(&PView { ctx, u, db: &db, pre: &st, st: &n, op, out: &out, light }) {
            ctx.fail(&s, m, case(u, b, light, &hist));
            return;
        }
        if matches!(out, Out::Error(_)) && !matches!(op, POp::InsEmpty(_)) || light && op == POp::Commit && !lost(&n, &db).is_empty() {
            return;
        }
        st = n;
    }
    ctx.trace(1);
}
pub fn replay(ctx: &Ctx, c: &Value, ck: &dyn PCheck) {
    let u = PUni::from_json(&c["trie"]);
    let light = c["light"].as_bool().unwrap();
    let b = Base {
        assign: c["start"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect(),
        mode: match c["mode"].as_str().unwrap() {
            "Fresh" => Mode::Fresh,
            "Committed" => Mode::Committed,
            _ => Mode::Reopened,
        },
    };
    let ops: Vec<POp> = c["ops"].as_array().unwrap().iter().map(POp::from_json).collect();
    let db = PDb::new(light);
    let mut st = match start(&u, &b, &db) {
        Ok(s) => s,
        Err(e) => {
            if let Err((s, m)) = ck.base_failed(&e) {
                ctx.fail(&s, m, c.clone());
            }
            return;
        }
    };
    if let Err((s, m)) = ck.base(ctx, &u, &db, &st, light) {
        ctx.fail(&s, m, c.clone());
    }
    for op in ops {
        let (n, out) = step(&u, &st, op);
        println!("  {:?} -> {}", op, match &out { Out::Root(r) => format!("root {}", hx(r)), Out::Proof(p) => format!("{} proof nodes", p.len()), o => format!("{:?}", o) });
        let v = PView { ctx, u: &u, db: &db, pre: &st, st: &n, op, out: &out, light };
        if let Err((s, m)) = ck.step(&v) {
            ctx.fail(&s, m, c.clone());
            return;
        }
        st = n;
    }
}

// ------------------------------------------------------------------ observations shared by the checks
/// get and contains of every interesting key agree with the map.
pub fn reads(what: &str, t: &PTrie, u: &PUni, m: &PMap, probes: &[Vec<u8>]) -> Verdict {
    for k in u.keys.iter().chain(&u.fixed).chain(probes) {
        let want = m.get(k).cloned();
        match guard_r(|| t.get(k)) {
            Ok(x) if x == want => {}
            r => return bad("get", format!("{}: get({}) = {:?}, expected {:?}", what, hx(k), r.map(|v| v.map(|b| hx(&b))), want.map(|b| hx(&b)))),
        }
        match guard_r(|| t.contains(k)) {
            Ok(x) if x == want.is_some() => {}
            r => return bad("contains", format!("{}: contains({}) = {:?}, expected {}", what, hx(k), r, want.is_some())),
        }
    }
    Ok(())
}
pub fn take<I: Iterator<Item = (Vec<u8>, Vec<u8>)>>(it: &mut I, max: usize) -> Vec<(Vec<u8>, Vec<u8>)> {
    let mut v = vec![];
    for _ in 0..max {
        match it.next() {
            Some(x) => v.push(x),
            None => break,
        }
    }
    v
}
pub fn iterations(what: &str, t: &PTrie, m: &PMap) -> Verdict {
    let want: Vec<_> = m.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
    let show = |v: &Vec<(Vec<u8>, Vec<u8>)>| v.iter().map(|(k, x)| format!("{}={}", hx(k), hx(x))).collect::<Vec<_>>().join(",");
    let chk = |kind: &str, r: Result<Vec<(Vec<u8>, Vec<u8>)>, String>| -> Verdict {
        match r {
            Ok(v) if v == want => Ok(()),
            Ok(v) => bad("iteration", format!("{}: {} yields [{}], expected [{}]", what, kind, show(&v), show(&want))),
            Err(e) => bad("iteration", format!("{}: {} failed: {}", what, kind, e)),
        }
    };
    let ended = |kind: &str, x: Result<bool, String>| -> Verdict {
        match x {
            Ok(true) => Ok(()),
            Ok(false) => bad("iteration-end", format!("{}: {} yields something after its end", what, kind)),
            Err(e) => bad("iteration-end", format!("{}: {} crashed after its end: {}", what, kind, e)),
        }
    };
    let mut it = t.iter();
    chk("the borrowing iterator", guard(|| take(&mut it, want.len() + 2)))?;
    ended("the borrowing iterator", guard(|| it.next().is_none() && it.next().is_none()))?;
    let mut it = OwnedTrieIterator::new(t.clone());
    chk("the owning iterator", guard(|| take(&mut it, want.len() + 2)))?;
    ended("the owning iterator", guard(|| it.next().is_none() && it.next().is_none()))?;
    chk("values()", guard_r(|| t.values()))
}
/// The proof of k, from a copy of the handle, and what it verifies to.
pub fn proof_ok(what: &str, t: &PTrie, root: &Hash, k: &[u8], want: Option<&Vec<u8>>) -> Verdict {
    let mut c = t.clone();
    let p = match guard_r(|| c.get_proof(k)) {
        Ok(p) => p,
        Err(e) => return bad("proof", format!("{}: get_proof({}) failed: {}", what, hx(k), e)),
    };
    verify_ok(what, t, root, k, p, want)
}
pub fn verify_ok(what: &str, t: &PTrie, root: &Hash, k: &[u8], p: Vec<Vec<u8>>, want: Option<&Vec<u8>>) -> Verdict {
    match guard_r(|| t.verify_proof(H256(*root), k, p.clone())) {
        Ok(v) if v.as_ref() == want => Ok(()),
        r => bad(
            "proof-verify",
            format!("{}: the proof of {} ({} nodes) verifies to {:?}, expected {:?}", what, hx(k), p.len(), r.map(|v| v.map(|b| hx(&b))), want.map(|b| hx(b))),
        ),
    }
}
pub fn at(t: &PTrie, root: &Hash) -> PTrie {
    t.at_root(H256(*root))
}
/// A run of the same operations on the bundled MemoryDB leaves it with the same contents.
pub fn on_memory_db(u: &PUni, b: &Base, light: bool, ops: &[POp]) -> Result<(Arc<MemoryDB>, InnerTrie<MemoryDB>), String> {
    let db = Arc::new(MemoryDB::new(light));
    let mut t = InnerTrie::new(db.clone());
    for (k, v) in &b.map(u) {
        guard_r(|| t.insert(k, v))?;
    }
    let mut root = None;
    if b.mode != Mode::Fresh {
        let r = guard_r(|| t.commit())?;
        root = Some(r);
        if b.mode == Mode::Reopened {
            t = guard(|| t.at_root(r))?;
        }
    }
    let probes = u.probes();
    for op in ops {
        match *op {
            POp::Ins(k, v) => {
                guard_r(|| t.insert(&u.keys[k as usize], &u.val(k as usize, v as usize)))?;
            }
            POp::InsEmpty(k) => {
                let _ = guard_r(|| t.insert(&u.keys[k as usize], &[]));
            }
            POp::Rem(k) => {
                guard_r(|| t.remove(&u.keys[k as usize]))?;
            }
            POp::RemProbe(k) => {
                guard_r(|| t.remove(&probes[k as usize]))?;
            }
            POp::Commit => root = Some(guard_r(|| t.commit())?),
            POp::Reopen => t = guard(|| t.at_root(root.unwrap()))?,
            POp::Proof(k) => {
                guard_r(|| t.get_proof(&u.keys[k as usize]))?;
            }
        }
    }
    Ok((db, t))
}
