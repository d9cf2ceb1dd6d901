//! J11 (restore reproduces the tree), J12 (interrupted restores), J13 (nothing unproven is written).
use crate::ctx::*;
use crate::jcore::*;
use crate::jproofs::list_mutations;
use crate::smt::{self, Key, Map};
use borsh::{BorshDeserialize, BorshSerialize};
use jmt::db::VersionedDatabase;
use jmt::mock::MockTreeStore;
use jmt::proof::SparseMerkleRangeProof;
use jmt::restore::{JellyfishMerkleRestore, StateSnapshotReceiver};
use jmt::storage::{Node, NodeKey};
use jmt::{JellyfishMerkleIterator, KeyHash, RootHash, Sha256};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

type Restore = JellyfishMerkleRestore<Sha256>;
type Entry = (Key, Vec<u8>);
type Snap = (BTreeMap<NodeKey, Node>, BTreeMap<Key, Vec<(u64, Option<Vec<u8>>)>>);

/// A tree to be restored.
pub struct Source {
    pub uni: Uni,
    pub subset: u32,
    pub variant: u8,
    pub env: Env,
    pub version: u64,
    pub target: u64,
    pub m: Map,
    pub entries: Vec<Entry>,
    pub root: [u8; 32],
    /// the same contents committed directly at the target version
    pub want_nodes: BTreeMap<NodeKey, Node>,
    /// range proof ending at each entry
    pub proofs: Vec<SparseMerkleRangeProof>,
}
pub fn snap(env: &Env) -> Snap {
    let n = env.inner.nodes().collect();
    let v = env.inner.value_history().map(|(k, h)| (k.0, h.into_iter().map(|(v, x)| (v.into(), x)).collect())).collect();
    (n, v)
}
fn val(u: &Uni, k: usize) -> Vec<u8> {
    u.vals[k % u.vals.len()].clone()
}
pub const VARIANTS: u8 = 4;
/// variant 0: committed at once at version 0, restored to 0; 1: one key per version with a deleted detour, restored to
/// the same version; 2: the same restored to version 0; 3: at once, restored to a far version; 8+b: at once, restored to
/// version 2^b - 1 (72 and above: 2^(b-64)).
pub fn source(u: &Uni, subset: u32, variant: u8) -> Result<Source, String> {
    // beyond 32 keys the subset is everything
    let idx: Vec<usize> = (0..u.keys.len()).filter(|i| u.keys.len() > 32 || subset >> i & 1 == 1).collect();
    let m: Map = idx.iter().map(|i| (u.keys[*i], val(u, *i))).collect();
    let db = MockTreeStore::default();
    let env = Env::new(db);
    let tree = mk_tree(&env);
    let mut version = 0;
    let put = |sets: Vec<(KeyHash, Option<Vec<u8>>)>, v: u64| -> Result<(), String> {
        let (_, b) = guard_r(|| tree.put_value_set(sets, v))?;
        guard_r(|| env.inner.write_tree_update_batch(b))
    };
    if variant == 0 || variant >= 3 {
        put(idx.iter().map(|i| (KeyHash(u.keys[*i]), Some(val(u, *i)))).collect(), 0)?;
    } else {
        let extra = KeyHash(key_from(&u.keys[*idx.first().unwrap_or(&0)], &[200]));
        put(vec![(extra, Some(vec![1]))], 0)?;
        for i in idx.iter().rev() {
            version += 1;
            put(vec![(KeyHash(u.keys[*i]), Some(val(u, *i)))], version)?;
        }
        version += 1;
        put(vec![(extra, None)], version)?;
    }
    let target = match variant {
        0 | 2 => 0,
        1 => version,
        3 => 1000,
        v if v < 72 => (1 << (v - 8)) - 1,
        v => 1 << (v - 72),
    };
    let entries: Vec<Entry> = m.iter().map(|(k, v)| (*k, v.clone())).collect();
    let direct = Env::default();
    let dt = mk_tree(&direct);
    let (r, b) = guard_r(|| dt.put_value_set(entries.iter().map(|(k, v)| (KeyHash(*k), Some(v.clone()))).collect::<Vec<_>>(), target))?;
    let root = smt::root(&m);
    if r.0 != root || guard_r(|| tree.get_root_hash(version))?.0 != root {
        return Err("root mismatch while building the source".into());
    }
    let mut proofs = vec![];
    for (k, _) in &entries {
        proofs.push(guard_r(|| tree.get_range_proof(KeyHash(*k), version))?);
    }
    Ok(Source {
        want_nodes: b.node_batch.nodes().clone().into_iter().collect(),
        uni: u.clone(),
        subset,
        variant,
        env,
        version,
        target,
        m,
        entries,
        root,
        proofs,
    })
}
impl Source {
    fn case(&self, more: Value) -> Value {
        json!({"restore": {"uni": self.uni.to_json(), "subset": self.subset, "variant": self.variant}, "run": more})
    }
    fn open(&self, env: &Env, kind: Kind) -> Result<Restore, String> {
        match kind {
            Kind::New(mig) => guard_r(|| Restore::new(Arc::new(env.clone()), self.target, RootHash(self.root), mig)),
            Kind::Overwrite => guard_r(|| Restore::new_overwrite(Arc::new(env.clone()), self.target, RootHash(self.root), true)),
        }
    }
    fn chunk(&self, a: usize, b: usize) -> Vec<(KeyHash, Vec<u8>)> {
        self.entries[a..b].iter().map(|(k, v)| (KeyHash(*k), v.clone())).collect()
    }
    fn feed(&self, r: &mut Restore, a: usize, b: usize) -> Result<(), String> {
        guard_r(|| r.add_chunk(self.chunk(a, b), self.proofs[b - 1].clone()))
    }
    /// Feeds entries from `from` on, cut as `cuts` says; returns how many entries were accepted before an error.
    fn feed_all(&self, r: &mut Restore, from: usize, cuts: &[usize]) -> Result<(), (usize, String)> {
        let mut a = from;
        for c in cuts {
            self.feed(r, a, a + c).map_err(|e| (a, e))?;
            a += c;
        }
        Ok(())
    }
    /// Index of the first entry a resumed restore needs.
    fn resume_at(&self, env: &Env) -> usize {
        let last = env.inner.nodes().filter_map(|(_, n)| if let Node::Leaf(l) = n { Some(l.key_hash().0) } else { None }).max();
        match last {
            None => 0,
            Some(k) => self.entries.iter().filter(|e| e.0 <= k).count(),
        }
    }
    pub fn resume_at_pub(&self, env: &Env) -> usize {
        self.resume_at(env)
    }
    fn judge(&self, env: &Env, exact_nodes: bool, leftovers: &BTreeMap<NodeKey, Node>) -> Verdict {
        let tree = mk_tree(env);
        let t = self.target;
        let a = guard_r(|| tree.get_root_hash(t)).map(|r| r.0);
        if a != Ok(self.root) {
            return bad("root", format!("root of the restored tree is {:?}, expected {}", a.map(|x| hx(&x)), hx(&self.root)));
        }
        let probes: BTreeSet<Key> = self.m.keys().copied().chain(self.uni.keys.iter().copied()).chain(self.uni.keys.iter().map(|k| flip(k, 255))).collect();
        for k in &probes {
            let want = self.m.get(k).cloned();
            match guard_r(|| tree.get_with_proof(KeyHash(*k), t)) {
                Ok((v, p)) => {
                    if v != want {
                        return bad("value", format!("restored tree reads {:?} for {}, expected {:?}", v, hx(k), want));
                    }
                    if let Err(e) = guard_r(|| p.verify(RootHash(self.root), KeyHash(*k), v.as_ref())) {
                        return bad("proof", format!("proof of {} from the restored tree does not verify: {}", hx(k), e));
                    }
                }
                Err(e) => return bad("value", format!("reading {} from the restored tree: {}", hx(k), e)),
            }
            let g = guard_r(|| env.inner.get(t.into(), KeyHash(*k)));
            if g != Ok(want.clone()) {
                return bad("value", format!("restored store holds {:?} for {}, expected {:?}", g, hx(k), want));
            }
        }
        if !self.m.is_empty() {
            let it = guard(|| {
                let mut out = vec![];
                let it = JellyfishMerkleIterator::new(Arc::new(env.clone()), t, KeyHash([0; 32])).map_err(|e| e.to_string())?;
                for x in it {
                    let (k, v) = x.map_err(|e| e.to_string())?;
                    out.push((k.0, v));
                    if out.len() > self.entries.len() {
                        break;
                    }
                }
                Ok::<_, String>(out)
            });
            if it != Ok(Ok(self.entries.clone())) {
                return bad("iterate", format!("iterating the restored tree gives {:?}", it));
            }
        }
        if exact_nodes {
            let lc = guard_r(|| tree.get_leaf_count(t));
            if lc != Ok(Some(self.m.len())) {
                return bad("leaf-count", format!("leaf count of the restored tree is {:?}, expected {}", lc, self.m.len()));
            }
        }
        let mut have: BTreeMap<NodeKey, Node> = env.inner.nodes().collect();
        have.retain(|k, n| self.want_nodes.contains_key(k) || leftovers.get(k) != Some(n));
        for (k, n) in &self.want_nodes {
            let ok = match have.get(k) {
                Some(x) if exact_nodes => x == n,
                Some(x) => std::mem::discriminant(x) == std::mem::discriminant(n),
                None => false,
            };
            if !ok {
                return bad("nodes", format!("node {:?} of the restored tree is {:?}, expected {:?}", k, have.get(k), n));
            }
        }
        if have.len() != self.want_nodes.len() {
            return bad("nodes", format!("restored tree has {} nodes, expected {}", have.len(), self.want_nodes.len()));
        }
        Ok(())
    }
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind {
    New(bool),
    Overwrite,
}
pub fn compositions(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    (0..1u32 << (n - 1))
        .map(|m| {
            let mut v = vec![1];
            for i in 0..n - 1 {
                if m >> i & 1 == 1 {
                    v.push(1);
                } else {
                    *v.last_mut().unwrap() += 1;
                }
            }
            v
        })
        .collect()
}
pub fn unis(n: usize, quick: bool) -> Vec<Uni> {
    let shapes: Vec<(&str, Vec<&[usize]>)> = vec![
        ("r-top", vec![&[], &[0], &[1], &[2], &[3], &[0, 3], &[0, 1], &[1, 2]]),
        ("r-chain", vec![&[], &[3], &[7], &[11], &[15], &[4], &[0], &[8]]),
        ("r-deep", vec![&[], &[255], &[0], &[252], &[251], &[254], &[247], &[128]]),
        ("r-mixed", vec![&[], &[1], &[6], &[6, 9], &[0], &[5], &[0, 4], &[0, 9]]),
        ("r-pairs", vec![&[], &[7], &[2], &[2, 6], &[0], &[0, 12], &[1], &[1, 255]]),
        // one side deeper than the other, which has several leaves next to each other below its own node
        ("r-near", vec![&[], &[9], &[0], &[0, 4], &[0, 5], &[0, 5, 6], &[1], &[0, 4, 7]]),
        ("r-far", vec![&[], &[4], &[5], &[0], &[0, 9], &[5, 6], &[0, 14], &[1]]),
    ];
    let mut out = vec![];
    for (i, (name, s)) in shapes.into_iter().enumerate() {
        for b in if quick { vec![i % 4] } else { vec![0, 1, 2, 3] } {
            let mut u = uni(name, b, &s[..n.min(s.len())], 3);
            u.vals.rotate_left(b % 3);
            out.push(u);
        }
    }
    // children in the first and the last position of their nodes, with more to their right
    let ends = ["1f0", "1ff", "10", "2", "1f8", "0f", "ff", "f0"];
    out.push(uni_hex("r-ends", &ends[..n.min(8)], 3));
    let ends = ["0f", "0ffff0", "0fffff", "f", "0ffe", "00", "fff", "0ff0"];
    out.push(uni_hex("r-last", &ends[..n.min(8)], 3));
    out
}

fn sources(ctx: &Ctx, n: usize, variants: &[u8], quick: bool, min: usize) -> Vec<Source> {
    let mut out = vec![];
    for u in unis(n, quick) {
        for sub in 0..1u32 << u.keys.len() {
            if (sub.count_ones() as usize) < min {
                continue;
            }
            for &v in variants {
                beat(|| json!({"building": [u.to_json(), sub, v]}));
                match source(&u, sub, v) {
                    Ok(s) => out.push(s),
                    // the source tree itself is wrong: other properties' business
                    Err(e) => ctx.count(&format!("sources that could not be built: {}", &e[..e.len().min(60)]), 1),
                }
            }
        }
    }
    out
}

/// Universes of 100 and 300 scattered keys.
fn large_sources(ctx: &Ctx, variants: &[u8], copies: u8) -> Vec<Source> {
    let mut unis = vec![];
    for n in [100u16, 300] {
        for c in 0..if n == 300 { 1 } else { copies } {
            let keys: Vec<Key> = (0..n).map(|i| smt::sha(&[b"restore", &[c], &i.to_be_bytes()])).collect();
            let probes: Vec<Key> = (0..6u8).map(|i| smt::sha(&[b"absent", &[i]])).collect();
            for v in variants {
                unis.push((Uni { name: format!("{} keys/{}", n, c), keys: keys.clone(), probes: probes.clone(), vals: vals_default(), first: 0 }, *v));
            }
        }
    }
    let out = std::sync::Mutex::new(vec![]);
    par(ctx, &unis, |(u, v)| match source(u, u32::MAX, *v) {
        Ok(s) => out.lock().unwrap().push(s),
        Err(e) => ctx.count(&format!("sources that could not be built: {}", &e[..e.len().min(60)]), 1),
    });
    let mut out = out.into_inner().unwrap();
    out.sort_by(|a, b| (&a.uni.name, a.variant).cmp(&(&b.uni.name, b.variant)));
    out
}
fn equal_chunks(n: usize, sizes: &[usize]) -> Vec<Vec<usize>> {
    let mut out: Vec<Vec<usize>> = vec![];
    for c in sizes {
        let mut v = vec![*c; n / c];
        if n % c > 0 {
            v.push(n % c);
        }
        if !out.contains(&v) {
            out.push(v);
        }
    }
    out
}

// ------------------------------------------------------------------------------------------------ J11
fn j11_one(ctx: &Ctx, s: &Source, kind: Kind, cuts: &[usize]) {
    ctx.tr(cuts.len() as u64 + 1);
    ctx.trace(1);
    let case = || s.case(json!({"kind": format!("{:?}", kind), "cuts": cuts}));
    beat(case);
    let env = if kind == Kind::Overwrite { Env::new(MockTreeStore::new(true)) } else { Env::default() };
    let mut left = BTreeMap::new();
    if kind == Kind::Overwrite {
        // an unrelated tree already sits at the target version
        let t = mk_tree(&env);
        let other: Vec<_> = s.uni.probes.iter().take(4).map(|k| (KeyHash(*k), Some(vec![0x77]))).collect();
        let Ok((_, b)) = guard_r(|| t.put_value_set(other, s.target)) else { return };
        left = b.node_batch.nodes().clone().into_iter().collect();
        if guard_r(|| env.inner.write_tree_update_batch(b)).is_err() {
            return;
        }
    }
    let mut r = match s.open(&env, kind) {
        Ok(r) => r,
        Err(e) => return ctx.fail("open", format!("opening a restore: {}", e), case()),
    };
    if let Err((i, e)) = s.feed_all(&mut r, 0, cuts) {
        return ctx.fail("chunk-refused", format!("the true chunk starting at entry {} was refused: {}", i, e), case());
    }
    if let Err(e) = guard_r(|| if cuts.len() % 2 == 0 { r.finish() } else { Box::new(r).finish_box() }) {
        return ctx.fail("finish", format!("finishing a complete restore failed: {}", e), case());
    }
    let mut judged = env.clone();
    if kind == Kind::Overwrite {
        // values of the overwritten tree are outside this property; only look at the restored entries
        judged = env.clone();
        let m2: Vec<Key> = s.uni.probes.iter().take(4).copied().collect();
        if m2.iter().any(|k| s.uni.keys.contains(k) || s.uni.keys.iter().any(|u| flip(u, 255) == *k)) {
            // stale values of the old tree would show through value reads; compare nodes and root only
            let a = guard_r(|| mk_tree(&env).get_root_hash(s.target)).map(|r| r.0);
            if a != Ok(s.root) {
                ctx.fail("root", format!("root after an overwriting restore: {:?}", a), case());
            }
            let have: BTreeMap<NodeKey, Node> = env.inner.nodes().collect();
            if s.want_nodes.iter().any(|(k, n)| have.get(k) != Some(n)) {
                ctx.fail("nodes", "an overwriting restore left a wrong node".into(), case());
            }
            return;
        }
    }
    if let Err(e) = s.judge(&judged, kind != Kind::New(false), &left) {
        ctx.fail(&e.0, e.1, case());
    }
}
pub fn run_j11(ctx: &Ctx) {
    let q = ctx.quick();
    let n = if q { 6 } else { 8 };
    let src = sources(ctx, n, &[0, 1, 2, 3], q, 0);
    par(ctx, &src, |s| {
        ctx.st(1);
        for cuts in compositions(s.entries.len()) {
            for kind in [Kind::New(true), Kind::New(false), Kind::Overwrite] {
                if ctx.stopped() {
                    return;
                }
                j11_one(ctx, s, kind, &cuts);
            }
        }
    });
    // one full-node tree: 31 keys, every cut into at most three chunks, and one by one
    let (mut u, _, _) = crate::plans::full_node(0);
    u.keys.truncate(31);
    if let Ok(s) = source(&u, (1u32 << 31) - 1, 1) {
        let n = s.entries.len();
        let mut cuts = vec![vec![1; n], vec![n]];
        for a in 1..n {
            cuts.push(vec![a, n - a]);
            for b in a + 1..n {
                cuts.push(vec![a, b - a, n - b]);
            }
        }
        par(ctx, &cuts, |c| j11_one(ctx, &s, Kind::New(true), c));
    }
    // trees of 100 and 300 entries in equal chunks of every size, and cut once at every place
    let big = large_sources(ctx, &[0, 1], 1);
    let work: Vec<(&Source, Vec<usize>)> = big
        .iter()
        .flat_map(|s| {
            let n = s.entries.len();
            let mut cuts = equal_chunks(n, &(1..=n).filter(|c| !q || *c < 20 || c % 9 == 0).collect::<Vec<_>>());
            cuts.extend((1..n).filter(|a| !q || a % 7 == 0).map(|a| vec![a, n - a]));
            cuts.into_iter().map(move |c| (s, c))
        })
        .collect();
    par(ctx, &work, |(s, c)| {
        for kind in [Kind::New(true), Kind::Overwrite] {
            j11_one(ctx, s, kind, c);
        }
    });
    ctx.scope(json!({"large source trees": big.len(), "keys": "100; 300", "chunkings": work.len(), "kinds": "equal chunks; one cut"}));
    // values of every length and of every byte, every order of magnitude of the version restored to
    let mut small: Vec<(Uni, u8)> = vec![];
    let vals = (0..=70usize).chain([127, 128, 255, 256, 257, 1000, 65535, 65536, 70000]).map(|n| vec![0xa5; n]).chain((0..=255u8).flat_map(|b| [vec![b], vec![b; 33]]));
    for v in vals {
        let mut u = uni("restored value", 0, &crate::plans::shapes3()[1].1, 1);
        u.vals = vec![v];
        small.push((u, 0));
    }
    for b in 0..64u8 {
        for (i, (name, flips)) in crate::plans::shapes3().into_iter().enumerate().take(3) {
            small.push((uni(name, i, &flips, 2), 8 + b));
            small.push((uni(name, i, &flips, 2), 72 + b));
        }
    }
    par(ctx, &small, |(u, v)| {
        let s = match source(u, 7, *v) {
            Ok(s) => s,
            Err(e) => return ctx.count(&format!("sources that could not be built: {}", &e[..e.len().min(60)]), 1),
        };
        for cuts in compositions(s.entries.len()) {
            for kind in [Kind::New(true), Kind::New(false), Kind::Overwrite] {
                j11_one(ctx, &s, kind, &cuts);
            }
        }
    });
    ctx.scope(json!({"value and version sweep": small.len()}));
    ctx.scope(json!({"source trees": src.len(), "keys per universe": n, "chunkings": "every composition of the entry list", "variants": "single/multi-version source, target version equal/lower/higher",
        "constructors": "new with and without leaf-count migration, new_overwrite over another tree"}));
    if let Some(s) = src.last() {
        ctx.sample(|| s.case(json!({"cuts": compositions(s.entries.len()).last()})));
    }
    ctx.assume("the target store applies one write_node_batch atomically");
}

// ------------------------------------------------------------------------------------------------ J12
fn j12_from(ctx: &Ctx, s: &Source, env: &Env, crashes_left: u32, chunkings: &dyn Fn(usize) -> Vec<Vec<usize>>, path: &mut Vec<Value>) {
    // resume on `env` with every chunking of what is left and every crash point
    let from = s.resume_at(env);
    let rest = s.entries.len() - from;
    for cuts in chunkings(rest) {
        // crash index c: the c-th write from now on (chunks then finish) does not happen; c == cuts.len()+1: no crash
        let max = cuts.len() + 1;
        let lo = if crashes_left == 0 { max } else { 0 };
        for c in lo..=max {
            if ctx.stopped() {
                return;
            }
            ctx.tr(c.min(cuts.len()) as u64 + 1);
            ctx.trace(1);
            let copy = clone_env(env);
            path.push(json!({"resume_at": from, "cuts": cuts, "crash_before_write": c}));
            let p = path.clone();
            let case = || s.case(json!({"runs": p}));
            beat(case);
            {
                let mut ctl = copy.ctl.lock().unwrap();
                ctl.writes = 0;
                ctl.crash_after_writes = if c == max { None } else { Some(c as u64) };
            }
            let mut r = match s.open(&copy, Kind::New(true)) {
                Ok(r) => r,
                Err(e) => {
                    ctx.fail("reopen", format!("opening a restore on an interrupted one failed: {}", e), case());
                    return;
                }
            };
            let res = s.feed_all(&mut r, from, &cuts);
            let crashed_in_chunk = c < cuts.len();
            match res {
                Ok(()) if crashed_in_chunk => {
                    ctx.fail("crash-ignored", "a failing write was not reported".into(), case());
                    return;
                }
                Err((i, e)) if !crashed_in_chunk => {
                    ctx.fail("chunk-refused", format!("after a resume the true chunk starting at entry {} was refused: {}", i, e), case());
                    return;
                }
                Err((_, e)) if is_panic(&e) => {
                    ctx.fail("panic", e, case());
                    return;
                }
                _ => {}
            }
            if !crashed_in_chunk {
                let f = guard_r(|| r.finish());
                match (&f, c == max) {
                    (Ok(()), true) => {
                        if let Err(e) = s.judge(&copy, true, &BTreeMap::new()) {
                            ctx.fail(&e.0, e.1, case());
                            return;
                        }
                        // reopening a completed restore
                        let before = snap(&copy);
                        match s.open(&copy, Kind::New(true)) {
                            Err(e) if !is_panic(&e) => {}
                            Err(e) => {
                                ctx.fail("reopen-completed-panic", e, case());
                                return;
                            }
                            Ok(_) if s.entries.is_empty() => {} // no leaf to recognise a completed restore by
                            Ok(_) => {
                                ctx.fail("reopen-completed", "opening a restore on a completed one succeeded".into(), case());
                                return;
                            }
                        }
                        if snap(&copy) != before {
                            ctx.fail("reopen-completed", "opening a restore on a completed one changed it".into(), case());
                            return;
                        }
                    }
                    (Err(e), true) => {
                        ctx.fail("finish", format!("finishing a resumed restore failed: {}", e), case());
                        return;
                    }
                    (Ok(()), false) => {
                        ctx.fail("crash-ignored", "a failing final write was not reported".into(), case());
                        return;
                    }
                    (Err(e), false) if is_panic(e) => {
                        ctx.fail("panic", e.clone(), case());
                        return;
                    }
                    _ => {}
                }
            }
            if c < max {
                {
                    let mut ctl = copy.ctl.lock().unwrap();
                    ctl.crash_after_writes = None;
                }
                j12_from(ctx, s, &copy, crashes_left - 1, chunkings, path);
            }
            path.pop();
        }
    }
}
/// A copy of the storage contents that shares nothing with the original.
pub fn clone_env(env: &Env) -> Env {
    let e = Env::default();
    let batches = env.ctl.lock().unwrap().written_batches.clone();
    for b in &batches {
        jmt::storage::TreeWriter::write_node_batch(&e.inner, b).expect("copying a store");
    }
    e.ctl.lock().unwrap().written_batches = batches;
    e
}
pub fn run_j12(ctx: &Ctx) {
    let q = ctx.quick();
    let scopes: Vec<(usize, u32)> = if q { vec![(6, 1), (4, 2)] } else { vec![(7, 1), (5, 2), (4, 3)] };
    for (n, crashes) in scopes {
        let src = sources(ctx, n, if q { &[0, 1][..] } else { &[0, 1, 3][..] }, q, 1);
        par(ctx, &src, |s| {
            ctx.st(1);
            j12_from(ctx, s, &Env::default(), crashes, &compositions, &mut vec![]);
        });
        ctx.scope(json!({"source trees": src.len(), "keys per universe": n, "interruptions per run": crashes, "crash points": "before every storage write, every chunking before and after"}));
        if let Some(s) = src.last() {
            ctx.sample(|| s.case(json!({"crashes": crashes})));
        }
    }
    // trees of 100 and 300 entries
    let src = large_sources(ctx, &[0], if q { 6 } else { 16 });
    par(ctx, &src, |s| {
        ctx.st(1);
        j12_from(ctx, s, &Env::default(), 1, &|n| equal_chunks(n, &[1, 17, 100, 300]), &mut vec![]);
    });
    ctx.scope(json!({"large source trees": src.len(), "keys": "100; 300", "chunk sizes before and after": [1, 17, 100, 300], "interruptions per run": 1, "crash points": "before every storage write"}));
    ctx.assume("the target store applies one write_node_batch atomically (a torn batch is outside the property)");
}

// ------------------------------------------------------------------------------------------------ J13
fn range_parts(p: &SparseMerkleRangeProof) -> Vec<[u8; 32]> {
    Vec::<[u8; 32]>::try_from_slice(&p.try_to_vec().unwrap()).unwrap()
}
fn range_build(s: &[[u8; 32]]) -> Option<SparseMerkleRangeProof> {
    SparseMerkleRangeProof::try_from_slice(&s.to_vec().try_to_vec().ok()?).ok()
}
/// How a restore got to the state in which the bad chunk arrives.
#[derive(Clone, Debug)]
struct Prefix {
    cuts: Vec<usize>,
    /// closed and reopened after the cuts
    reopened: bool,
}
fn bring(s: &Source, p: &Prefix) -> Result<(Env, Restore, usize), String> {
    let env = Env::default();
    let mut r = s.open(&env, Kind::New(true))?;
    s.feed_all(&mut r, 0, &p.cuts).map_err(|e| e.1)?;
    let mut next = p.cuts.iter().sum();
    if p.reopened {
        drop(r);
        next = s.resume_at(&env);
        r = s.open(&env, Kind::New(true))?;
    }
    Ok((env, r, next))
}
fn chunks_for(s: &Source, next: usize, wide: bool) -> Vec<Vec<Entry>> {
    let u = &s.uni;
    let other = b"other".to_vec();
    let mut pool: Vec<Entry> = vec![];
    for (i, k) in u.keys.iter().enumerate() {
        pool.push((*k, val(u, i)));
        if s.m.contains_key(k) {
            pool.push((*k, other.clone()));
        }
        pool.push((flip(k, 255), val(u, i)));
    }
    pool.sort();
    pool.dedup();
    let mut out: BTreeSet<Vec<Entry>> = BTreeSet::new();
    out.insert(vec![]);
    for a in &pool {
        out.insert(vec![a.clone()]);
        for b in &pool {
            if wide || a.0 != b.0 {
                out.insert(vec![a.clone(), b.clone()]);
            }
        }
    }
    for end in next + 1..=s.entries.len() {
        let t = s.entries[next..end].to_vec();
        for i in 0..t.len() {
            let mut x = t.clone();
            x.remove(i);
            out.insert(x);
            let mut x = t.clone();
            x.insert(i, t[i].clone());
            out.insert(x);
            let mut x = t.clone();
            x[i].1.push(0);
            out.insert(x);
            let mut x = t.clone();
            x.swap(i, (i + 1) % t.len());
            out.insert(x);
            for p in &pool {
                let mut x = t.clone();
                x.insert(i, p.clone());
                out.insert(x);
                let mut x = t.clone();
                x.insert(i + 1, p.clone());
                out.insert(x);
                let mut x = t.clone();
                x[i] = p.clone();
                out.insert(x);
            }
        }
        out.insert(t);
    }
    // what was already received, again
    if next > 0 {
        out.insert(s.entries[..next].to_vec());
        out.insert(s.entries[..].to_vec());
        out.insert(s.entries[next - 1..].to_vec());
    }
    out.into_iter().collect()
}
fn try_bad(ctx: &Ctx, s: &Source, p: &Prefix, chunk: &[Entry], sib: &[[u8; 32]], proof: &SparseMerkleRangeProof, restart: bool) -> bool {
    ctx.tr(1);
    ctx.trace(1);
    let case = || {
        s.case(json!({"prefix": p.cuts, "reopened": p.reopened, "chunk": chunk.iter().map(|(k, v)| json!([hx(k), hx(v)])).collect::<Vec<_>>(),
            "right_siblings": sib.iter().map(|x| hx(x)).collect::<Vec<_>>()}))
    };
    beat(case);
    let (env, mut r, next) = match bring(s, p) {
        Ok(x) => x,
        Err(_) => return true, // J11/J12
    };
    let before = snap(&env);
    let end = next + chunk.len();
    let genuine = !chunk.is_empty() && end <= s.entries.len() && s.entries[next..end] == *chunk && range_parts(&s.proofs[end - 1]) == sib;
    let c: Vec<_> = chunk.iter().map(|(k, v)| (KeyHash(*k), v.clone())).collect();
    let res = guard_r(|| r.add_chunk(c, proof.clone()));
    match (&res, genuine) {
        (Err(e), _) if is_panic(e) => {
            ctx.fail("panic", format!("a bad chunk crashed the restore: {}", e), case());
            return false;
        }
        (Err(e), true) => {
            ctx.fail("refused", format!("the true chunk was refused: {}", e), case());
            return false;
        }
        (Ok(()), false) => {
            ctx.fail("accepted", "a chunk that does not match the expected root was accepted".into(), case());
            return false;
        }
        _ => {}
    }
    let mut at = next;
    if genuine {
        at = end;
        ctx.count("genuine chunks", 1);
    } else {
        ctx.count("rejected chunks", 1);
        if snap(&env) != before {
            ctx.fail("written", "a rejected chunk left something in storage".into(), case());
            return false;
        }
    }
    let complete = at == s.entries.len();
    if !restart {
        // finish right away
        let before = snap(&env);
        match (guard_r(|| r.finish()), complete) {
            (Err(e), _) if is_panic(&e) => {
                ctx.fail("finish-panic", format!("finishing crashed: {}", e), case());
                false
            }
            (Ok(()), false) => {
                ctx.fail("finish-incomplete", "an incomplete restore finished successfully".into(), case());
                false
            }
            (Err(e), true) => {
                ctx.fail("finish-refused", format!("a complete restore could not be finished: {}", e), case());
                false
            }
            (Ok(()), true) => match s.judge(&env, true, &BTreeMap::new()) {
                Ok(()) => true,
                Err(e) => {
                    ctx.fail(&e.0, e.1, case());
                    false
                }
            },
            (Err(_), false) => {
                if snap(&env) != before {
                    ctx.fail("finish-written", "a refused finish left something in storage".into(), case());
                    return false;
                }
                true
            }
        }
    } else {
        // go on with the true rest: first one entry, then what is left
        let rest = s.entries.len() - at;
        let cuts: Vec<usize> = match rest {
            0 => vec![],
            1 => vec![1],
            n => vec![1, n - 1],
        };
        if let Err((i, e)) = s.feed_all(&mut r, at, &cuts) {
            ctx.fail("good-after-bad", format!("after a rejected chunk the true chunk starting at entry {} was refused: {}", i, e), case());
            return false;
        }
        if let Err(e) = guard_r(|| r.finish()) {
            ctx.fail("good-after-bad", format!("after a rejected chunk the complete restore could not be finished: {}", e), case());
            return false;
        }
        if let Err(e) = s.judge(&env, true, &BTreeMap::new()) {
            ctx.fail(&e.0, e.1, case());
            return false;
        }
        true
    }
}
pub fn run_j13(ctx: &Ctx) {
    let q = ctx.quick();
    let n = 4;
    let src = sources(ctx, n, if q { &[0][..] } else { &[0, 1][..] }, q, 0);
    let mut work: Vec<(&Source, Prefix)> = vec![];
    for s in &src {
        let e = s.entries.len();
        for i in 0..=e {
            let mut cs = vec![vec![1; i]];
            if i > 1 {
                cs.push(vec![i]);
            }
            for c in cs {
                work.push((s, Prefix { cuts: c.clone(), reopened: false }));
                if i > 0 {
                    work.push((s, Prefix { cuts: c, reopened: true }));
                }
            }
        }
    }
    par(ctx, &work, |(s, p)| {
        ctx.st(1);
        let Ok((_, r, next)) = bring(s, p) else {
            ctx.count("prefixes that could not be reached (J11/J12)", 1);
            return;
        };
        // finish at once
        let complete = next == s.entries.len();
        let case = || s.case(json!({"prefix": p.cuts, "reopened": p.reopened, "then": "finish"}));
        match (guard_r(|| r.finish()), complete) {
            (Err(e), _) if is_panic(&e) => return ctx.fail("finish-panic", format!("finishing after {} of {} entries crashed: {}", next, s.entries.len(), e), case()),
            (Ok(()), false) => return ctx.fail("finish-incomplete", format!("finishing after {} of {} entries succeeded", next, s.entries.len()), case()),
            (Err(e), true) => return ctx.fail("finish-refused", format!("finishing a complete restore failed: {}", e), case()),
            _ => {}
        }
        let chunks = chunks_for(s, next, !q);
        // proofs: every genuine one, those of a neighbouring tree, and alterations of the matching one
        let mut proofs: BTreeSet<Vec<[u8; 32]>> = s.proofs.iter().map(range_parts).collect();
        proofs.insert(vec![]);
        proofs.insert(vec![smt::PLACEHOLDER]);
        proofs.insert(vec![s.root]);
        for x in [s.subset ^ 1, s.subset ^ 2] {
            if let Ok(o) = source(&s.uni, x, 0) {
                proofs.extend(o.proofs.iter().map(range_parts));
            }
        }
        for c in &chunks {
            let built: Vec<_> = proofs.iter().filter_map(|p| range_build(p).map(|b| (p, b))).collect();
            for (sib, pr) in &built {
                for restart in [false, true] {
                    if ctx.stopped() || !try_bad(ctx, s, p, c, sib, pr, restart) {
                        return;
                    }
                }
            }
        }
        // the right chunks with altered proofs
        let pool = vec![smt::PLACEHOLDER, s.root, [0; 32]];
        for end in next + 1..=s.entries.len() {
            let g = range_parts(&s.proofs[end - 1]);
            for sib in list_mutations(&g, &pool) {
                let Some(pr) = range_build(&sib) else { continue };
                for restart in [false, true] {
                    if ctx.stopped() || !try_bad(ctx, s, p, &s.entries[next..end], &sib, &pr, restart) {
                        return;
                    }
                }
            }
        }
    });
    // trees of 100 entries: chunks of several sizes with one entry missing, altered or added, after every prefix
    let big = large_sources(ctx, &[0], 1);
    let mut work2: Vec<(&Source, Prefix)> = vec![];
    for s in big.iter().take(1) {
        for i in (0..s.entries.len()).filter(|i| !q || i % 7 == 0) {
            for reopened in [false, true] {
                work2.push((s, Prefix { cuts: if i == 0 { vec![] } else { vec![i] }, reopened: reopened && i > 0 }));
            }
        }
    }
    par(ctx, &work2, |(s, p)| {
        ctx.st(1);
        let Ok((_, _, next)) = bring(s, p) else { return };
        for len in [1, 2, 3, 16, 50, s.entries.len()] {
            let end = (next + len).min(s.entries.len());
            let t = s.entries[next..end].to_vec();
            let mut chunks = vec![];
            for i in [0, 1, t.len() / 2, t.len().wrapping_sub(2), t.len() - 1] {
                let Some(e) = t.get(i) else { continue };
                let mut x = t.clone();
                x.remove(i);
                chunks.push(x);
                let mut x = t.clone();
                x[i].1.push(0);
                chunks.push(x);
                for b in [0, 3, 8, 255] {
                    let mut x = t.clone();
                    x[i].0 = flip(&e.0, b);
                    chunks.push(x.clone());
                    x[i] = e.clone();
                    x.insert(i + (flip(&e.0, b) > e.0) as usize, (flip(&e.0, b), vec![1]));
                    chunks.push(x);
                }
            }
            let sib = range_parts(&s.proofs[end - 1]);
            for c in &chunks {
                for restart in [false, true] {
                    if ctx.stopped() || !try_bad(ctx, s, p, c, &sib, &s.proofs[end - 1], restart) {
                        return;
                    }
                }
            }
        }
    });
    ctx.scope(json!({"large source tree": "100 entries", "restore states": work2.len(), "chunks": "1, 2, 3, 16, 50, all that is left; one entry missing, altered, moved, added"}));
    ctx.scope(json!({"source trees": src.len(), "keys per universe": n, "restore states (prefix chunkings, fresh and reopened)": work.len()}));
    if let Some((s, p)) = work.last() {
        ctx.sample(|| s.case(json!({"prefix": p.cuts, "reopened": p.reopened})));
    }
    ctx.assume("SHA-256 has no collisions");
}
