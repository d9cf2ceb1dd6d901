//! Shared machinery of the JMT checks: environment store, key universes, update-set alphabets and the explicit-state
//! explorer that runs the real tree code on every transition.
use crate::ctx::*;
use crate::smt::{self, Key, Map};
use anyhow::{bail, Result};
use jmt::db::VersionedDatabase;
use jmt::mock::MockTreeStore;
use jmt::reader::Preimage;
use jmt::storage::{HasPreimage, LeafNode, Node, NodeBatch, NodeKey, TreeReader, TreeUpdateBatch, TreeWriter};
use jmt::{KeyHash, RootHash, Sha256Jmt};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::sync::{Arc, Mutex};

pub type Tree = Sha256Jmt<Env>;
pub type DbV = jmt::db::Version;

// ------------------------------------------------------------------------------------------------ environment store
#[derive(Default, Debug)]
pub struct EnvCtl {
    pub log: Option<Vec<NodeKey>>,
    /// number of storage accesses so far
    pub accesses: u64,
    /// fail every access whose index is in [from, to)
    pub fail_range: Option<(u64, u64)>,
    /// nodes that appear to be missing
    pub hidden: BTreeSet<NodeKey>,
    /// number of write_node_batch calls that still succeed; afterwards the process counts as crashed
    pub writes: u64,
    pub crash_after_writes: Option<u64>,
    pub written_batches: Vec<NodeBatch>,
}

/// The storage the checks hand to the tree: the repository's own in-memory store behind a seam at which the checks
/// observe accesses and inject faults.
#[derive(Clone, Debug, Default)]
pub struct Env {
    pub inner: MockTreeStore,
    pub ctl: Arc<Mutex<EnvCtl>>,
}

impl Env {
    pub fn new(inner: MockTreeStore) -> Self {
        Env { inner, ctl: Default::default() }
    }
    fn access(&self, key: Option<&NodeKey>) -> Result<bool> {
        let mut c = self.ctl.lock().unwrap();
        let i = c.accesses;
        c.accesses += 1;
        if let Some((a, b)) = c.fail_range {
            if i >= a && i < b {
                bail!("injected storage error at access {}", i);
            }
        }
        if let Some(k) = key {
            if let Some(l) = &mut c.log {
                l.push(k.clone());
            }
            if c.hidden.contains(k) {
                return Ok(false);
            }
        }
        Ok(true)
    }
    pub fn start_log(&self) {
        self.ctl.lock().unwrap().log = Some(vec![]);
    }
    pub fn take_log(&self) -> Vec<NodeKey> {
        self.ctl.lock().unwrap().log.take().unwrap_or_default()
    }
    pub fn reset(&self) {
        let mut c = self.ctl.lock().unwrap();
        c.accesses = 0;
        c.fail_range = None;
        c.hidden.clear();
    }
    pub fn accesses(&self) -> u64 {
        self.ctl.lock().unwrap().accesses
    }
}

impl TreeReader for Env {
    type Version = DbV;
    fn get_node_option(&self, node_key: &NodeKey) -> Result<Option<Node>> {
        if !self.access(Some(node_key))? {
            return Ok(None);
        }
        self.inner.get_node_option(node_key)
    }
    fn get_value_option(&self, max_version: DbV, key_hash: KeyHash) -> Result<Option<Vec<u8>>> {
        self.access(None)?;
        self.inner.get_value_option(max_version, key_hash)
    }
    fn get_rightmost_leaf(&self) -> Result<Option<(NodeKey, LeafNode)>> {
        self.access(None)?;
        self.inner.get_rightmost_leaf()
    }
}
impl TreeWriter for Env {
    fn write_node_batch(&self, b: &NodeBatch) -> Result<()> {
        self.access(None)?;
        {
            let mut c = self.ctl.lock().unwrap();
            if let Some(n) = c.crash_after_writes {
                if c.writes >= n {
                    bail!("crashed");
                }
            }
            c.writes += 1;
            c.written_batches.push(b.clone());
        }
        self.inner.write_node_batch(b)
    }
}
impl HasPreimage for Env {
    fn preimage(&self, key_hash: KeyHash) -> Result<Option<Preimage>> {
        self.access(None)?;
        self.inner.preimage(key_hash)
    }
}
impl VersionedDatabase for Env {
    type Version = DbV;
    type NodeIter = <MockTreeStore as VersionedDatabase>::NodeIter;
    type HistoryIter = <MockTreeStore as VersionedDatabase>::HistoryIter;
    fn get(&self, v: DbV, k: KeyHash) -> Result<Option<Vec<u8>>> {
        self.access(None)?;
        VersionedDatabase::get(&self.inner, v, k)
    }
    fn update_batch(&self, b: TreeUpdateBatch) -> Result<()> {
        self.inner.update_batch(b)
    }
    fn len(&self) -> usize {
        self.inner.len()
    }
    fn is_empty(&self) -> bool {
        self.inner.is_empty()
    }
    fn version(&self) -> DbV {
        self.inner.version()
    }
    fn nodes(&self) -> Self::NodeIter {
        self.inner.nodes()
    }
    fn value_history(&self) -> Self::HistoryIter {
        self.inner.value_history()
    }
}

// ------------------------------------------------------------------------------------------------ universes
#[derive(Clone, Debug)]
pub struct Uni {
    pub name: String,
    pub keys: Vec<Key>,
    pub vals: Vec<Vec<u8>>,
    pub probes: Vec<Key>,
    pub first: u64,
}

/// op (k, 0) deletes key k; (k, i) writes value i-1
pub type Op = (u16, u8);
pub type Set = Vec<Op>;
/// As the first element of a set: the set is applied through the insert-only batch API.
pub const BATCH: Op = (u16::MAX, 0);
pub fn via_batch(s: &Set) -> bool {
    s.first() == Some(&BATCH)
}
/// The sets, and those of them that only insert also through the batch API.
pub fn with_batch(sets: Vec<Set>) -> Vec<Set> {
    let b: Vec<Set> = sets
        .iter()
        .filter(|s| !s.is_empty() && s.iter().all(|o| o.1 > 0))
        .map(|s| std::iter::once(BATCH).chain(s.iter().copied()).collect())
        .collect();
    sets.into_iter().chain(b).collect()
}

pub fn flip(k: &Key, b: usize) -> Key {
    let mut r = *k;
    r[b / 8] ^= 0x80 >> (b % 8);
    r
}
/// Key derived from `base`: for each flip position in turn, flips that bit and scrambles everything after it.
pub fn key_from(base: &Key, flips: &[usize]) -> Key {
    let mut k = *base;
    for (i, &f) in flips.iter().enumerate() {
        k = flip(&k, f);
        let h = smt::sha(&[b"scramble", &[f as u8, i as u8], &k[..]]);
        for b in f + 1..256 {
            if smt::bit(&h, b) {
                k = flip(&k, b);
            }
        }
    }
    k
}
pub fn probes_for(keys: &[Key]) -> Vec<Key> {
    let mut s: BTreeSet<Key> = BTreeSet::new();
    s.insert([0; 32]);
    s.insert([0xff; 32]);
    for k in keys {
        s.insert(*k);
        for b in [0, 1, 2, 3, 4, 5, 7, 8, 11, 12, 128, 251, 252, 254, 255] {
            s.insert(flip(k, b));
            s.insert(key_from(k, &[b]));
        }
    }
    s.into_iter().collect()
}
pub fn base_key(i: usize) -> Key {
    match i {
        0 => {
            let mut k = smt::sha(&[b"base0"]);
            k[0] = 0x5a;
            k[1] = 0xc3;
            k
        }
        1 => {
            let mut k = base_key(0);
            k.iter_mut().for_each(|b| *b = !*b);
            k
        }
        2 => [0; 32],
        _ => [0xff; 32],
    }
}
pub fn vals_default() -> Vec<Vec<u8>> {
    vec![vec![0xc1], vec![], vec![0x87u8; 40]]
}
pub fn uni(name: &str, base: usize, flips: &[&[usize]], nvals: usize) -> Uni {
    let b = base_key(base);
    let keys: Vec<Key> = flips.iter().map(|f| key_from(&b, f)).collect();
    let set: BTreeSet<_> = keys.iter().collect();
    assert_eq!(set.len(), keys.len(), "universe {} has duplicate keys", name);
    Uni {
        name: format!("{}/base{}", name, base),
        probes: probes_for(&keys),
        keys,
        vals: vals_default()[..nvals].to_vec(),
        first: 0,
    }
}
/// Keys given by their leading hex digits, the rest zero.
pub fn uni_hex(name: &str, keys: &[&str], nvals: usize) -> Uni {
    let keys: Vec<Key> = keys
        .iter()
        .map(|k| {
            let mut b = [0u8; 32];
            for (i, c) in k.chars().enumerate() {
                let n = c.to_digit(16).unwrap() as u8;
                b[i / 2] |= if i % 2 == 0 { n << 4 } else { n };
            }
            b
        })
        .collect();
    Uni { name: name.into(), probes: probes_for(&keys), keys, vals: vals_default()[..nvals].to_vec(), first: 0 }
}
impl Uni {
    pub fn kh(&self, i: u16) -> KeyHash {
        KeyHash(self.keys[i as usize])
    }
    pub fn at(mut self, first: u64) -> Self {
        self.first = first;
        self.name = format!("{}@v{}", self.name, first);
        self
    }
    pub fn to_json(&self) -> Value {
        json!({"name": self.name, "keys": self.keys.iter().map(hex::encode).collect::<Vec<_>>(),
               "vals": self.vals.iter().map(hex::encode).collect::<Vec<_>>(), "first": self.first})
    }
    pub fn from_json(v: &Value) -> Uni {
        let hx = |x: &Value| hex::decode(x.as_str().unwrap()).unwrap();
        let keys: Vec<Key> = v["keys"].as_array().unwrap().iter().map(|x| hx(x).try_into().unwrap()).collect();
        Uni {
            name: v["name"].as_str().unwrap_or("").into(),
            probes: probes_for(&keys),
            keys,
            vals: v["vals"].as_array().unwrap().iter().map(hx).collect(),
            first: v["first"].as_u64().unwrap_or(0),
        }
    }
}

/// Every assignment key -> {untouched, delete, value..}, as a set in key order (includes the empty set).
pub fn all_sets(nkeys: usize, nvals: usize) -> Vec<Set> {
    let mut out = vec![];
    let radix = nvals + 2;
    for mut x in 0..radix.pow(nkeys as u32) {
        let mut s = vec![];
        for k in 0..nkeys {
            let d = x % radix;
            x /= radix;
            if d > 0 {
                s.push((k as u16, (d - 1) as u8));
            }
        }
        out.push(s);
    }
    out.sort_by_key(|s| s.len());
    out
}
/// Every ordered sequence of at most `len` single operations (repeats of a key included).
pub fn all_seqs(nkeys: usize, nvals: usize, len: usize) -> Vec<Set> {
    let ops: Vec<Op> =
        (0..nkeys as u16).flat_map(|k| (0..=nvals as u8).map(move |v| (k, v))).collect();
    let mut out = vec![vec![]];
    let mut last = vec![vec![]];
    for _ in 0..len {
        let mut nx = vec![];
        for s in &last {
            for o in &ops {
                let mut t: Set = s.clone();
                t.push(*o);
                nx.push(t);
            }
        }
        out.extend(nx.iter().cloned());
        last = nx;
    }
    out
}

// ------------------------------------------------------------------------------------------------ states
#[derive(Clone)]
pub struct St {
    pub hist: Vec<Set>,
    pub batches: Vec<Arc<TreeUpdateBatch>>,
    pub contents: Vec<Map>,
    pub roots: Vec<[u8; 32]>,
}
impl St {
    pub fn empty() -> St {
        St { hist: vec![], batches: vec![], contents: vec![], roots: vec![] }
    }
    pub fn next_version(&self, u: &Uni) -> u64 {
        u.first + self.hist.len() as u64
    }
    pub fn cur(&self) -> Map {
        self.contents.last().cloned().unwrap_or_default()
    }
    pub fn versions<'a>(&'a self, u: &Uni) -> impl Iterator<Item = (u64, &'a Map)> + 'a {
        let f = u.first;
        self.contents.iter().enumerate().map(move |(i, m)| (f + i as u64, m))
    }
    pub fn case(&self, u: &Uni) -> Value {
        json!({"uni": u.to_json(), "hist": self.hist})
    }
}
pub fn model_apply(u: &Uni, m: &Map, set: &Set) -> Map {
    let mut m = m.clone();
    for (k, v) in set.iter().filter(|o| **o != BATCH) {
        let key = u.keys[*k as usize];
        if *v == 0 {
            m.remove(&key);
        } else {
            m.insert(key, u.vals[*v as usize - 1].clone());
        }
    }
    m
}
pub fn to_values(u: &Uni, set: &Set) -> Vec<(KeyHash, Option<Vec<u8>>)> {
    set.iter()
        .filter(|o| **o != BATCH)
        .map(|(k, v)| (u.kh(*k), if *v == 0 { None } else { Some(u.vals[*v as usize - 1].clone()) }))
        .collect()
}
pub fn mk_store(st: &St) -> Result<Env, String> {
    let db = MockTreeStore::default();
    for b in &st.batches {
        guard_r(|| db.write_tree_update_batch((**b).clone()))?;
    }
    Ok(Env::new(db))
}
pub fn mk_tree(env: &Env) -> Tree {
    Sha256Jmt::new(Arc::new(env.clone()))
}
pub fn step(u: &Uni, st: &St, tree: &Tree, set: &Set) -> Result<St, String> {
    let (root, batch) = if via_batch(set) {
        let ins: Vec<(KeyHash, Vec<u8>)> = to_values(u, set).into_iter().map(|(k, x)| (k, x.unwrap())).collect();
        let (mut r, b) = guard_r(|| tree.batch_put_value_sets(vec![ins], None, st.next_version(u)))?;
        (r.pop().ok_or("the batch API returned no root")?, b)
    } else {
        guard_r(|| tree.put_value_set(to_values(u, set), st.next_version(u)))?
    };
    let mut n = st.clone();
    n.contents.push(model_apply(u, &st.cur(), set));
    n.hist.push(set.clone());
    n.batches.push(Arc::new(batch));
    n.roots.push(root.0);
    Ok(n)
}
pub fn run_hist(u: &Uni, hist: &[Set]) -> Result<St, String> {
    let mut st = St::empty();
    for s in hist {
        let env = mk_store(&st)?;
        st = step(u, &st, &mk_tree(&env), s)?;
    }
    Ok(st)
}
/// Node keys a version uses: those read while looking at its root and while proving each of its entries.
pub fn reachable(env: &Env, tree: &Tree, version: u64, m: &Map) -> Result<Vec<Vec<NodeKey>>, String> {
    let mut out = vec![];
    env.start_log();
    guard_r(|| tree.get_root_hash(version))?;
    out.push(env.take_log());
    for k in m.keys() {
        env.start_log();
        guard_r(|| tree.get_with_proof(KeyHash(*k), version))?;
        let mut l = env.take_log();
        l.dedup();
        out.push(l);
    }
    Ok(out)
}
/// The nodes a version uses, by position, without their version numbers.
pub fn nodes_at(env: &Env, tree: &Tree, version: u64, m: &Map) -> Result<BTreeMap<String, Value>, String> {
    fn strip(v: &mut Value) {
        match v {
            Value::Object(o) => {
                if let Some(x) = o.get_mut("version") {
                    *x = Value::Null;
                }
                o.values_mut().for_each(strip);
            }
            // a list of bytes holds no versions
            Value::Array(a) if !a.first().map_or(false, Value::is_number) => a.iter_mut().for_each(strip),
            _ => {}
        }
    }
    let keys: BTreeSet<NodeKey> = reachable(env, tree, version, m)?.into_iter().flatten().collect();
    let mut out = BTreeMap::new();
    for k in keys {
        let Some(n) = guard_r(|| env.get_node_option(&k))? else { continue };
        let mut n = serde_json::to_value(&n).map_err(|e| e.to_string())?;
        strip(&mut n);
        let mut at = serde_json::to_value(&k).map_err(|e| e.to_string())?;
        strip(&mut at);
        let at = at.to_string();
        if out.insert(at.clone(), n).is_some() {
            return Err(format!("two nodes at {}", at));
        }
    }
    Ok(out)
}
/// Canonical form of the current tree: shape, entries, and the order relation of the node versions. Two states with
/// equal canonical forms have the same futures up to renaming of versions: the tree code reads only nodes reachable
/// from the latest root, and uses versions only to name nodes.
pub fn canon(u: &Uni, st: &St, env: &Env, tree: &Tree) -> Result<Vec<u8>, String> {
    if st.hist.is_empty() {
        return Ok(vec![]);
    }
    let v = st.next_version(u) - 1;
    let m = st.cur();
    let paths = reachable(env, tree, v, &m)?;
    let mut vers: BTreeSet<u64> = paths.iter().flatten().map(|k| k.version()).collect();
    vers.insert(v);
    let rank: BTreeMap<u64, u16> = vers.iter().enumerate().map(|(i, v)| (*v, i as u16)).collect();
    let mut c = vec![1u8];
    for p in &paths {
        c.push(p.len() as u8);
        for k in p {
            c.extend(rank[&k.version()].to_le_bytes());
        }
    }
    for (k, val) in &m {
        c.extend_from_slice(k);
        c.extend_from_slice(&(val.len() as u32).to_le_bytes());
        c.extend_from_slice(val);
    }
    Ok(c)
}

// ------------------------------------------------------------------------------------------------ explorer
pub struct Plan {
    pub uni: Uni,
    pub bases: Vec<Vec<Set>>,
    pub sets: Vec<Set>,
    pub depth: usize,
    pub dedupe: bool,
    pub max_states: usize,
}
impl Plan {
    pub fn closed(uni: Uni, sets: Vec<Set>) -> Plan {
        Plan { uni, bases: vec![vec![]], sets, depth: usize::MAX, dedupe: true, max_states: usize::MAX }
    }
    pub fn depth(uni: Uni, sets: Vec<Set>, depth: usize, dedupe: bool) -> Plan {
        Plan { uni, bases: vec![vec![]], sets, depth, dedupe, max_states: usize::MAX }
    }
    pub fn from(uni: Uni, bases: Vec<Vec<Set>>, sets: Vec<Set>, depth: usize, dedupe: bool) -> Plan {
        Plan { uni, bases, sets, depth, dedupe, max_states: usize::MAX }
    }
}

pub struct View<'a> {
    pub u: &'a Uni,
    pub st: &'a St,
    pub env: &'a Env,
    pub tree: &'a Tree,
}
/// What a property check looks at. Err((sig, message)) is a violation.
pub type Verdict = Result<(), (String, String)>;
pub fn bad<T>(sig: &str, msg: impl Into<String>) -> Result<T, (String, String)> {
    Err((sig.into(), msg.into()))
}
pub trait Check: Sync {
    /// After every transition (before deduplication): `pre` is the state it started from.
    fn transition(&self, _ctx: &Ctx, _pre: &View, _post: &View) -> Verdict {
        Ok(())
    }
    /// Once per distinct state.
    fn state(&self, _ctx: &Ctx, _v: &View) -> Verdict {
        Ok(())
    }
    /// Whether a failing update itself is this property's business.
    fn update_failed(&self, e: &str) -> Verdict {
        bad("update-failed", format!("update failed: {}", e))
    }
}

fn visit(ctx: &Ctx, ck: &dyn Check, u: &Uni, pre: &St, pre_env: &Env, pre_tree: &Tree, set: &Set) -> Option<(St, Vec<u8>)> {
    ctx.tr(1);
    let mut case_st = pre.clone();
    case_st.hist.push(set.clone());
    beat(|| case_st.case(u));
    let fail = |e: (String, String)| ctx.fail(&e.0, e.1, case_st.case(u));
    let post = match step(u, pre, pre_tree, set) {
        Ok(s) => s,
        Err(e) => {
            if let Err(x) = ck.update_failed(&e) {
                fail(x);
            }
            return None;
        }
    };
    let env = match mk_store(&post) {
        Ok(e) => e,
        Err(e) => {
            if let Err(x) = ck.update_failed(&format!("committing the batch: {}", e)) {
                fail(x);
            }
            return None;
        }
    };
    let tree = mk_tree(&env);
    let v = View { u, st: &post, env: &env, tree: &tree };
    let p = View { u, st: pre, env: pre_env, tree: pre_tree };
    if let Err(e) = ck.transition(ctx, &p, &v) {
        fail(e);
        return None;
    }
    ctx.trace(1);
    match canon(u, &post, &env, &tree) {
        Ok(c) => Some((post, c)),
        Err(e) => {
            if let Err(x) = ck.update_failed(&format!("reading the new version: {}", e)) {
                fail(x);
            }
            None
        }
    }
}

pub fn explore(ctx: &Ctx, plan: &Plan, ck: &dyn Check) {
    let (t0, s0) = (ctx.transitions.load(std::sync::atomic::Ordering::SeqCst), ctx.states.load(std::sync::atomic::Ordering::SeqCst));
    let Some((depth, closed)) = explore_quiet(ctx, plan, ck, true) else { return };
    let u = &plan.uni;
    ctx.scope(json!({
        "universe": u.name, "keys": u.keys.len(), "values": u.vals.len(), "probes": u.probes.len(), "update_sets": plan.sets.len(),
        "depth": depth, "closed_under_all_updates": closed, "deduplicated": plan.dedupe, "starting_states": plan.bases.len(),
        "states": ctx.states.load(std::sync::atomic::Ordering::SeqCst)-s0, "transitions": ctx.transitions.load(std::sync::atomic::Ordering::SeqCst)-t0,
    }));
    ctx.sample(|| json!({"universe": u.to_json(), "a_history_of_update_sets_(key,0=delete|value+1)": plan.sets.iter().rev().take(2).collect::<Vec<_>>()}));
}
/// The depth reached and whether the space was closed.
/// `wide`: work on the states of one depth in parallel.
pub fn explore_quiet(ctx: &Ctx, plan: &Plan, ck: &dyn Check, wide: bool) -> Option<(usize, bool)> {
    if ctx.stopped() {
        return None;
    }
    let u = &plan.uni;
    let seen: Mutex<HashSet<Vec<u8>>> = Default::default();
    let mut frontier: Vec<St> = vec![];
    let do_state = |st: &St| {
        ctx.st(1);
        let go = || -> Result<(), String> {
            let env = mk_store(st)?;
            let tree = mk_tree(&env);
            let v = View { u, st, env: &env, tree: &tree };
            if let Err(e) = ck.state(ctx, &v) {
                ctx.fail(&e.0, e.1, st.case(u));
            }
            Ok(())
        };
        beat(|| st.case(u));
        if let Err(e) = go() {
            if let Err(e) = ck.update_failed(&e) {
                ctx.fail(&e.0, e.1, st.case(u));
            }
        }
    };
    for b in &plan.bases {
        let mut st = St::empty();
        let mut ok = true;
        for s in b {
            match mk_store(&st) {
                Ok(env) => match visit(ctx, ck, u, &st, &env, &mk_tree(&env), s) {
                    Some((n, _)) => st = n,
                    None => {
                        ok = false;
                        break;
                    }
                },
                Err(_) => {
                    ok = false;
                    break;
                }
            }
        }
        if ok {
            frontier.push(st);
        }
    }
    for st in &frontier {
        do_state(st);
    }
    let mut depth = 0;
    let mut total = frontier.len();
    while !frontier.is_empty() && depth < plan.depth && !ctx.stopped() {
        let next: Mutex<Vec<St>> = Default::default();
        let expand = |st: &St| {
            let Ok(env) = mk_store(st) else { return };
            let tree = mk_tree(&env);
            for set in &plan.sets {
                if ctx.stopped() {
                    return;
                }
                if let Some((post, c)) = visit(ctx, ck, u, st, &env, &tree, set) {
                    let fresh = !plan.dedupe || seen.lock().unwrap().insert(c);
                    if fresh {
                        do_state(&post);
                        if depth + 1 < plan.depth {
                            next.lock().unwrap().push(post);
                        }
                    }
                }
            }
        };
        if wide {
            par(ctx, &frontier, expand);
        } else {
            frontier.iter().for_each(expand);
        }
        frontier = next.into_inner().unwrap();
        // which thread got to a state first must not matter
        frontier.sort_by(|a, b| (a.hist.len(), &a.hist).cmp(&(b.hist.len(), &b.hist)));
        total += frontier.len();
        depth += 1;
        if total > plan.max_states && !frontier.is_empty() {
            ctx.count(&format!("state cap reached in {} after depth {}", u.name, depth), 1);
            ctx.truncated.store(true, std::sync::atomic::Ordering::SeqCst);
            break;
        }
    }
    Some((depth, plan.dedupe && frontier.is_empty() && plan.depth == usize::MAX && !ctx.stopped()))
}

/// Replays a recorded case: runs the history, applying the check at every step.
pub fn replay(ctx: &Ctx, case: &Value, ck: &dyn Check) {
    let u = Uni::from_json(&case["uni"]);
    let hist: Vec<Set> = serde_json::from_value(case["hist"].clone()).unwrap();
    let mut st = St::empty();
    for s in &hist {
        let env = match mk_store(&st) {
            Ok(e) => e,
            Err(e) => {
                if let Err(x) = ck.update_failed(&e) {
                    ctx.fail(&x.0, x.1, st.case(&u));
                }
                return;
            }
        };
        let tree = mk_tree(&env);
        match visit(ctx, ck, &u, &st, &env, &tree, s) {
            Some((n, _)) => st = n,
            None => return,
        }
        let Ok(env) = mk_store(&st) else { return };
        let tree = mk_tree(&env);
        let v = View { u: &u, st: &st, env: &env, tree: &tree };
        ctx.st(1);
        if let Err(e) = ck.state(ctx, &v) {
            ctx.fail(&e.0, e.1, st.case(&u));
            return;
        }
    }
}

pub fn rh(h: &[u8; 32]) -> RootHash {
    RootHash(*h)
}
pub fn hx(k: &[u8]) -> String {
    hex::encode(k)
}
