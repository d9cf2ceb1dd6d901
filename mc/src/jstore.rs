//! J14: the bundled in-memory store against a plain reference, explored as a state machine.
use crate::ctx::*;
use crate::jcore::*;
use jmt::db::{Version as DbVersion, VersionedDatabase};
use jmt::mock::{put_value, MockTreeStore};
use jmt::reader::Preimage;
use jmt::storage::*;
use jmt::{KeyHash, Sha256};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

type Hist = BTreeMap<KeyHash, Vec<(u64, Option<Vec<u8>>)>>;
#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)]
pub struct Model {
    nodes: BTreeMap<Vec<u8>, u8>, // node key (borsh) -> index of the node in the pool
    hist: Hist,
    stale: BTreeSet<(u64, Vec<u8>)>,
    pre: BTreeSet<Vec<u8>>,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Via {
    NodeBatch,
    TreeBatch,
    UpdateBatch,
    Update,
}
const VIAS: [Via; 4] = [Via::NodeBatch, Via::TreeBatch, Via::UpdateBatch, Via::Update];
#[derive(Clone, Debug)]
pub enum SOp {
    /// nodes (indices into the pool), values, stale records (stale since, pool index)
    Write { via: Via, nodes: Vec<u8>, values: Vec<(u64, u8, Option<u8>)>, stale: Vec<(u64, u8)> },
    PutLeaf(u8, u8),
    Purge(u64),
    Preimage(u8),
}
pub struct Pool {
    /// several nodes may share a node key
    pub nodes: Vec<(NodeKey, Node)>,
    pub keys: Vec<KeyHash>,
    pub vals: Vec<Vec<u8>>,
    pub versions: Vec<u64>,
    pub allow: bool,
}
fn nk(k: &NodeKey) -> Vec<u8> {
    use borsh::BorshSerialize;
    k.try_to_vec().unwrap()
}
pub fn pool(allow: bool, versions: &[u64]) -> Pool {
    let u = uni("store", 0, &[&[], &[4], &[0]], 2);
    let mut nodes = vec![];
    for (i, v) in versions.iter().enumerate() {
        let t = mk_tree(&Env::default());
        let n = if i == 0 { 3 } else { 2 };
        let set: Set = (0..n as u16).map(|k| (k, 1 + (i % 2) as u8)).collect();
        let (_, b) = t.put_value_set(to_values(&u, &set), *v).unwrap();
        nodes.extend(b.node_batch.nodes().clone());
    }
    // another node under the first key, and a null root
    let k0 = nodes[0].0.clone();
    let other = nodes[1].1.clone();
    nodes.push((k0, other));
    let last = nodes.len() - 2;
    nodes.push((nodes[last].0.clone(), Node::Null));
    Pool { nodes, keys: u.keys.iter().map(|k| KeyHash(*k)).collect(), vals: vec![b"A".to_vec(), vec![]], versions: versions.to_vec(), allow }
}
/// What the reference says about an operation.
#[derive(Debug, PartialEq)]
enum Want {
    Ok,
    Refused,
}
fn batch(p: &Pool, nodes: &[u8], values: &[(u64, u8, Option<u8>)], stale: &[(u64, u8)]) -> TreeUpdateBatch {
    let mut b = TreeUpdateBatch::default();
    b.node_batch.extend(
        nodes.iter().map(|i| p.nodes[*i as usize].clone()),
        values.iter().map(|(v, k, x)| ((*v, p.keys[*k as usize]), x.map(|i| p.vals[i as usize].clone()))),
    );
    for (v, i) in stale {
        b.stale_node_index_batch.insert(StaleNodeIndex { stale_since_version: *v, node_key: p.nodes[*i as usize].0.clone() });
    }
    b
}
fn apply_impl(p: &Pool, db: &MockTreeStore, op: &SOp) -> Result<(), String> {
    match op {
        SOp::Write { via, nodes, values, stale } => {
            let b = batch(p, nodes, values, stale);
            match via {
                Via::NodeBatch => guard_r(|| db.write_node_batch(&b.node_batch)),
                Via::TreeBatch => guard_r(|| db.write_tree_update_batch(b)),
                Via::UpdateBatch => guard_r(|| db.update_batch(b)),
                Via::Update => guard_r(|| db.update(b)),
            }
        }
        SOp::PutLeaf(i, v) => {
            let (k, n) = &p.nodes[*i as usize];
            let Node::Leaf(l) = n else { return Err("not a leaf".into()) };
            guard_r(|| db.put_leaf(k.clone(), l.clone(), p.vals[*v as usize].clone()))
        }
        SOp::Purge(v) => guard_r(|| db.purge_stale_nodes(*v)),
        SOp::Preimage(i) => {
            let pre = Preimage(vec![*i; *i as usize]);
            guard(|| db.put_key_preimage::<Sha256>(&pre))
        }
    }
}
fn put(h: &mut Hist, v: u64, k: KeyHash, x: Option<Vec<u8>>) -> bool {
    let e = h.entry(k).or_default();
    match e.last_mut() {
        Some((l, _)) if *l > v => return false,
        Some((l, y)) if *l == v => *y = x,
        _ => e.push((v, x)),
    }
    true
}
/// The reference. None: outside the property (a node batch that is refused half-way and the like).
fn apply_model(p: &Pool, m: &Model, op: &SOp) -> Option<(Want, Model)> {
    let mut n = m.clone();
    match op {
        SOp::Write { via, nodes, values, stale } => {
            let clash = nodes.iter().any(|i| m.nodes.contains_key(&nk(&p.nodes[*i as usize].0)));
            let distinct: BTreeSet<_> = nodes.iter().map(|i| nk(&p.nodes[*i as usize].0)).collect();
            if distinct.len() != nodes.len() {
                return None;
            }
            if clash && !p.allow {
                return if nodes.len() == 1 && values.is_empty() && stale.is_empty() { Some((Want::Refused, n)) } else { None };
            }
            for i in nodes {
                n.nodes.insert(nk(&p.nodes[*i as usize].0), *i);
            }
            let mut vs = values.clone();
            vs.sort_by_key(|x| (x.0, p.keys[x.1 as usize]));
            for (v, k, x) in &vs {
                if !put(&mut n.hist, *v, p.keys[*k as usize], x.map(|i| p.vals[i as usize].clone())) {
                    return if nodes.is_empty() && values.len() == 1 && stale.is_empty() { Some((Want::Refused, m.clone())) } else { None };
                }
            }
            if *via != Via::NodeBatch {
                for (v, i) in stale {
                    let r = (*v, nk(&p.nodes[*i as usize].0));
                    // recording a node twice, or one that is not stored, is not something the tree does
                    if !n.nodes.contains_key(&r.1) || n.stale.iter().any(|s| s.1 == r.1) {
                        return None;
                    }
                    n.stale.insert(r);
                }
            } else if !stale.is_empty() {
                return None;
            }
            Some((Want::Ok, n))
        }
        SOp::PutLeaf(i, v) => {
            let (k, node) = &p.nodes[*i as usize];
            let Node::Leaf(l) = node else { return None };
            if m.nodes.contains_key(&nk(k)) {
                return Some((Want::Refused, n));
            }
            if !put(&mut n.hist, k.version(), l.key_hash(), Some(p.vals[*v as usize].clone())) {
                return None;
            }
            n.nodes.insert(nk(k), *i);
            Some((Want::Ok, n))
        }
        SOp::Purge(v) => {
            let due: Vec<_> = n.stale.iter().filter(|s| s.0 <= *v).cloned().collect();
            for d in due {
                n.nodes.remove(&d.1);
                n.stale.remove(&d);
            }
            Some((Want::Ok, n))
        }
        SOp::Preimage(i) => {
            n.pre.insert(vec![*i; *i as usize]);
            Some((Want::Ok, n))
        }
    }
}
fn observe(p: &Pool, db: &MockTreeStore, m: &Model) -> Verdict {
    for (k, _) in &p.nodes {
        let want = m.nodes.get(&nk(k)).map(|i| p.nodes[*i as usize].1.clone());
        let got = guard_r(|| db.get_node_option(k));
        if got != Ok(want.clone()) {
            return bad("node", format!("get_node_option({:?}) = {:?}, expected {:?}", k, got, want));
        }
        let g = guard(|| db.get_node(k).ok());
        if g != Ok(want.clone()) {
            return bad("node", format!("get_node({:?}) = {:?}, expected {:?}", k, g, want));
        }
    }
    let mut bounds: BTreeSet<u64> = [0, 1, 2, 3, 254, 255, 256, 257, u64::MAX - 1, u64::MAX].into_iter().collect();
    for v in &p.versions {
        bounds.extend([v.saturating_sub(1), *v, v.saturating_add(1)]);
    }
    for k in p.keys.iter().chain([&KeyHash([9; 32])]) {
        for b in &bounds {
            let want = m.hist.get(k).and_then(|h| h.iter().rev().find(|(v, _)| v <= b)).and_then(|x| x.1.clone());
            let a = guard_r(|| db.get_value_option((*b).into(), *k));
            let c = guard_r(|| VersionedDatabase::get(db, (*b).into(), *k));
            let d = guard(|| db.get_value((*b).into(), *k).ok());
            if a != Ok(want.clone()) || c != Ok(want.clone()) || d != Ok(want.clone()) {
                return bad("value", format!("value of {:?} at bound {}: get_value_option {:?}, get {:?}, get_value {:?}, expected {:?}", k, b, a, c, d, want));
            }
        }
    }
    let len = m.hist.values().filter(|h| h.last().map(|x| x.1.is_some()).unwrap_or(false)).count();
    let ver = m.hist.values().flatten().map(|x| x.0).max().unwrap_or(0);
    let got = guard(|| (VersionedDatabase::len(db), VersionedDatabase::is_empty(db), db.version().0, db.num_nodes()));
    if got != Ok((len, len == 0, ver, m.nodes.len())) {
        return bad("size", format!("(len, is_empty, version, num_nodes) = {:?}, expected {:?}", got, (len, len == 0, ver, m.nodes.len())));
    }
    let hist: Result<Hist, String> = guard(|| db.value_history().map(|(k, h)| (k, h.into_iter().map(|(v, x)| (u64::from(v), x)).collect())).collect());
    let mut want = m.hist.clone();
    want.retain(|_, h| !h.is_empty());
    if hist != Ok(want) {
        return bad("history", format!("value_history() = {:?}", hist));
    }
    let nodes: Result<BTreeMap<Vec<u8>, Node>, String> = guard(|| VersionedDatabase::nodes(db).map(|(k, n)| (nk(&k), n)).collect());
    if nodes != Ok(m.nodes.iter().map(|(k, i)| (k.clone(), p.nodes[*i as usize].1.clone())).collect()) {
        return bad("nodes", format!("nodes() = {:?}", nodes));
    }
    let greatest = m.nodes.values().filter_map(|i| if let Node::Leaf(l) = &p.nodes[*i as usize].1 { Some(l.key_hash()) } else { None }).max();
    match guard_r(|| db.get_rightmost_leaf()) {
        Ok(None) if greatest.is_none() => {}
        Ok(Some((k, l))) if Some(l.key_hash()) == greatest && m.nodes.get(&nk(&k)).map(|i| p.nodes[*i as usize].1 == Node::Leaf(l.clone())) == Some(true) => {}
        r => return bad("rightmost", format!("get_rightmost_leaf() = {:?}, greatest stored leaf key is {:?}", r, greatest)),
    }
    for i in 0..4u8 {
        let pre = vec![i; i as usize];
        let kh = KeyHash::with::<Sha256>(&pre);
        let got = guard_r(|| db.preimage(kh)).map(|x| x.map(|p| p.key()));
        let want = if m.pre.contains(&pre) { Some(pre) } else { None };
        if got != Ok(want.clone()) {
            return bad("preimage", format!("preimage of {:?} = {:?}, expected {:?}", kh, got, want));
        }
    }
    Ok(())
}
fn replay_ops(p: &Pool, path: &[SOp]) -> MockTreeStore {
    let db = if p.allow { MockTreeStore::new(true) } else if path.len() % 2 == 0 { MockTreeStore::default() } else { MockTreeStore::new(false) };
    for o in path {
        let _ = apply_impl(p, &db, o);
    }
    db
}
/// Explores every sequence of operations up to `depth` (or to closure), merging states with equal reference contents.
fn explore_store(ctx: &Ctx, name: &str, p: &Pool, ops: &[SOp], depth: usize) {
    let mut seen: HashSet<Model> = HashSet::new();
    seen.insert(Model::default());
    let mut frontier: Vec<(Model, Vec<SOp>)> = vec![(Model::default(), vec![])];
    let mut d = 0;
    let t0 = ctx.transitions.load(std::sync::atomic::Ordering::SeqCst);
    if let Err(e) = observe(p, &MockTreeStore::default(), &Model::default()) {
        return ctx.fail(&e.0, e.1, json!({"store": name}));
    }
    while !frontier.is_empty() && d < depth && !ctx.stopped() {
        let next = std::sync::Mutex::new(vec![]);
        par(ctx, &frontier, |(m, path)| {
            let mut local = vec![];
            for op in ops {
                let Some((want, post)) = apply_model(p, m, op) else { continue };
                ctx.tr(1);
                let case = || json!({"store": name, "allow_overwrite": p.allow, "ops": path.iter().chain([op]).map(|o| format!("{:?}", o)).collect::<Vec<_>>()});
                beat(case);
                let db = replay_ops(p, path);
                let got = apply_impl(p, &db, op);
                let v = match (&got, want) {
                    (Ok(()), Want::Ok) | (Err(_), Want::Refused) => observe(p, &db, &post),
                    (Err(e), Want::Ok) => bad("refused", format!("a legal operation failed: {}", e)),
                    (Ok(()), Want::Refused) => bad("not-refused", "an operation that must be refused succeeded".to_string()),
                };
                ctx.trace(1);
                if let Err(e) = v {
                    return ctx.fail(&e.0, e.1, case());
                }
                if post != *m {
                    local.push((post, path.iter().cloned().chain([op.clone()]).collect::<Vec<_>>()));
                }
            }
            next.lock().unwrap().extend(local);
        });
        let mut n = next.into_inner().unwrap();
        n.sort_by_cached_key(|(_, path)| format!("{:?}", path));
        frontier = n.into_iter().filter(|(m, _)| seen.insert(m.clone())).collect();
        ctx.st(frontier.len() as u64);
        d += 1;
    }
    ctx.scope(json!({"scope": name, "operations": ops.len(), "depth": d, "closed": frontier.is_empty(), "states": seen.len(), "transitions": ctx.transitions.load(std::sync::atomic::Ordering::SeqCst)-t0}));
    ctx.sample(|| json!({"scope": name, "an operation": format!("{:?}", ops.last())}));
}
pub fn run_j14(ctx: &Ctx) {
    let q = ctx.quick();
    let small = [0u64, 1, 2];
    let big = [0u64, 255, 256, u64::MAX - 1];
    // values: every history of two keys over three versions, through every entry point, to closure
    for (name, vers) in [("values", &small[..]), ("values at far versions", &big[if q { 1 } else { 0 }..])] {
        let p = pool(false, vers);
        let mut ops = vec![];
        for via in VIAS {
            for k in 0..2u8 {
                for &v in vers {
                    for x in [None, Some(0), Some(1)] {
                        ops.push(SOp::Write { via, nodes: vec![], values: vec![(v, k, x)], stale: vec![] });
                    }
                }
            }
            // several values at once, one key at several versions included
            ops.push(SOp::Write { via, nodes: vec![], values: vec![(vers[0], 0, Some(0)), (vers[1], 0, None), (vers[1], 1, Some(1))], stale: vec![] });
            ops.push(SOp::Write { via, nodes: vec![], values: vec![(vers[1], 0, Some(0)), (vers[2], 0, Some(1)), (vers[2], 1, None)], stale: vec![] });
        }
        explore_store(ctx, name, &p, &ops, if q { 4 } else { usize::MAX });
    }
    // nodes, leaves, stale records and pruning
    for allow in [false, true] {
        let p = pool(allow, &small);
        let mut ops = vec![];
        let n = p.nodes.len() as u8;
        for via in VIAS {
            for i in 0..n {
                ops.push(SOp::Write { via, nodes: vec![i], values: vec![], stale: vec![] });
            }
        }
        for i in 0..n {
            ops.push(SOp::PutLeaf(i, i % 2));
        }
        for (i, v) in [(0u8, 1u64), (1, 1), (2, 2), (3, 2)] {
            ops.push(SOp::Write { via: VIAS[1 + i as usize % 3], nodes: vec![], values: vec![], stale: vec![(v, i)] });
        }
        ops.push(SOp::Write { via: Via::Update, nodes: vec![0, 4], values: vec![(1, 0, Some(0))], stale: vec![(1, 0)] });
        ops.push(SOp::Write { via: Via::UpdateBatch, nodes: vec![1, 5], values: vec![(2, 1, None)], stale: vec![] });
        ops.push(SOp::Write { via: Via::TreeBatch, nodes: vec![2], values: vec![(0, 2, Some(1)), (0, 0, Some(1))], stale: vec![] });
        for v in [0, 1, 2, u64::MAX] {
            ops.push(SOp::Purge(v));
        }
        for i in 0..3 {
            ops.push(SOp::Preimage(i));
        }
        explore_store(ctx, if allow { "nodes, overwriting allowed" } else { "nodes" }, &p, &ops, if q { 3 } else { 5 });
    }
    j14_batches(ctx);
    j14_put_value(ctx);
    j14_versions(ctx);
}
/// NodeBatch against two plain maps: every sequence of its operations up to the depth.
fn j14_batches(ctx: &Ctx) {
    let p = pool(true, &[0, 1]);
    let depth = if ctx.quick() { 4 } else { 5 };
    let nops = 11usize;
    type M = (BTreeMap<Vec<u8>, Node>, BTreeMap<(u64, KeyHash), Option<Vec<u8>>>);
    let tasks: Vec<usize> = (0..nops * nops).collect();
    par(ctx, &tasks, |&t0| {
        let mut stack: Vec<Vec<usize>> = vec![vec![t0 / nops, t0 % nops]];
        while let Some(path) = stack.pop() {
            beat(|| json!({"node-batch-ops": path}));
            let r = guard(|| {
                let mut b = NodeBatch::default();
                let mut m: M = Default::default();
                for o in &path {
                    let one = |ns: &[usize], vs: &[(u64, usize, Option<u8>)]| {
                        let mut x = NodeBatch::default();
                        x.extend(ns.iter().map(|i| p.nodes[*i].clone()), vs.iter().map(|(v, k, y)| ((*v, p.keys[*k]), y.map(|y| vec![y]))));
                        x
                    };
                    let mut merge = |m: &mut M, ns: &[usize], vs: &[(u64, usize, Option<u8>)]| {
                        for i in ns {
                            m.0.insert(nk(&p.nodes[*i].0), p.nodes[*i].1.clone());
                        }
                        for (v, k, y) in vs {
                            m.1.insert((*v, p.keys[*k]), y.map(|y| vec![y]));
                        }
                    };
                    match o {
                        0 | 1 | 2 => {
                            let i = [0, 1, p.nodes.len() - 2][*o];
                            let old = m.0.insert(nk(&p.nodes[i].0), p.nodes[i].1.clone());
                            let got = b.insert_node(p.nodes[i].0.clone(), p.nodes[i].1.clone());
                            if got != old {
                                return Err(format!("insert_node returned {:?}, expected {:?}", got, old));
                            }
                        }
                        3 => {
                            b.insert_value(1, p.keys[0], vec![1]);
                            merge(&mut m, &[], &[(1, 0, Some(1))]);
                        }
                        4 => {
                            b.insert_value(1, p.keys[0], vec![2]);
                            merge(&mut m, &[], &[(1, 0, Some(2))]);
                        }
                        5 => {
                            b.insert_value(2, p.keys[0], vec![2]);
                            merge(&mut m, &[], &[(2, 0, Some(2))]);
                        }
                        6 => {
                            b.extend(vec![p.nodes[2].clone()], vec![((1, p.keys[0]), None)]);
                            merge(&mut m, &[2], &[(1, 0, None)]);
                        }
                        7 => {
                            b.merge(one(&[0, 3], &[(1, 1, Some(7))]));
                            merge(&mut m, &[0, 3], &[(1, 1, Some(7))]);
                        }
                        8 => {
                            b.merge(one(&[p.nodes.len() - 2], &[(1, 0, Some(9)), (2, 0, None)]));
                            merge(&mut m, &[p.nodes.len() - 2], &[(1, 0, Some(9)), (2, 0, None)]);
                        }
                        9 => b.merge(NodeBatch::default()),
                        _ => {
                            b.clear();
                            m = Default::default();
                        }
                    }
                }
                let nodes: BTreeMap<Vec<u8>, Node> = b.nodes().iter().map(|(k, n)| (nk(k), n.clone())).collect();
                if nodes != m.0 || *b.values() != m.1 || b.is_empty() != (m.0.is_empty() && m.1.is_empty()) {
                    return Err(format!("contents differ: {:?} {:?} is_empty={}", nodes.len(), b.values(), b.is_empty()));
                }
                for (k, _) in &p.nodes {
                    if b.get_node(k) != m.0.get(&nk(k)) {
                        return Err(format!("get_node({:?}) = {:?}", k, b.get_node(k)));
                    }
                }
                Ok(())
            });
            ctx.tr(1);
            match r {
                Ok(Ok(())) => {}
                Ok(Err(e)) | Err(e) => return ctx.fail("node-batch", e, json!({"node-batch-ops": path})),
            }
            if path.len() < depth {
                for o in 0..nops {
                    let mut x = path.clone();
                    x.push(o);
                    stack.push(x);
                }
            }
        }
    });
    ctx.scope(json!({"scope": "NodeBatch operations", "operations": nops, "depth": depth}));
}
/// The free function put_value: every sequence of writes.
fn j14_put_value(ctx: &Ctx) {
    let depth = if ctx.quick() { 4 } else { 5 };
    let ops: Vec<(u64, u8, Option<u8>)> = [0u64, 1, u64::MAX].iter().flat_map(|v| [0u8, 1].into_iter().flat_map(move |k| [None, Some(1u8), Some(2)].into_iter().map(move |x| (*v, k, x)))).collect();
    let firsts: Vec<usize> = (0..ops.len()).collect();
    par(ctx, &firsts, |&f| {
        let mut stack = vec![vec![f]];
        while let Some(path) = stack.pop() {
            beat(|| json!({"put_value": path}));
            ctx.tr(1);
            let mut h: HashMap<KeyHash, Vec<(DbVersion, Option<Vec<u8>>)>> = HashMap::new();
            let mut m: Hist = Hist::new();
            for o in &path {
                let (v, k, x) = ops[*o];
                let x = x.map(|x| vec![x]);
                let before = m.clone();
                let ok = put(&mut m, v, KeyHash([k; 32]), x.clone());
                if !ok {
                    m = before;
                }
                let got = guard(|| put_value(&mut h, v.into(), KeyHash([k; 32]), x).is_ok());
                let have: Hist = h.iter().map(|(k, l)| (*k, l.iter().map(|(v, x)| (v.0, x.clone())).collect())).collect();
                if got != Ok(ok) || have != m {
                    return ctx.fail("put-value", format!("put_value gave {:?} (expected ok={}) and history {:?}, expected {:?}", got, ok, have, m), json!({"put_value": path}));
                }
            }
            if path.len() < depth {
                for o in 0..ops.len() {
                    let mut x = path.clone();
                    x.push(o);
                    stack.push(x);
                }
            }
        }
    });
    ctx.scope(json!({"scope": "put_value sequences", "operations": ops.len(), "depth": depth}));
}
fn j14_versions(ctx: &Ctx) {
    let mut vs: BTreeSet<u64> = BTreeSet::new();
    for pos in 0..8 {
        for b in 0..=255u64 {
            vs.insert(b << (8 * pos));
            vs.insert(!(b << (8 * pos)));
        }
        for pos2 in 0..8 {
            for (a, b) in [(1u64, 2u64), (0x80, 0x7f), (0xff, 1)] {
                vs.insert(a << (8 * pos) | b << (8 * pos2));
            }
        }
    }
    let mut prev: Option<(u64, DbVersion, Vec<u8>)> = None;
    for v in vs {
        ctx.tr(1);
        let r = guard(|| {
            let d: DbVersion = v.into();
            let d2: DbVersion = (&v).into();
            let bytes: Vec<u8> = d.into();
            let back: DbVersion = bytes.clone().into();
            let n: u64 = d.into();
            (n == v && d2 == d && back == d && u64::from(back) == v && d.to_string() == v.to_string(), d, bytes)
        });
        match r {
            Ok((true, d, b)) => {
                if let Some((pv, pd, _)) = &prev {
                    if !(pd < &d) {
                        return ctx.fail("version-order", format!("versions {} and {} are ordered wrongly", pv, v), json!({"version": v}));
                    }
                }
                prev = Some((v, d, b));
            }
            r => return ctx.fail("version", format!("version {} does not survive conversion: {:?}", v, r), json!({"version": v})),
        }
    }
    if guard(|| DbVersion::default().0) != Ok(0) {
        ctx.fail("version", "the default version is not 0".into(), Value::Null);
    }
    ctx.scope(json!({"scope": "version conversions"}));
}
