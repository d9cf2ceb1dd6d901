//! J05 (proof soundness) and J07 (ICS23).
use crate::ctx::*;
use crate::jcore::*;
use crate::smt::{self, Key, Map};
use borsh::{BorshDeserialize, BorshSerialize};
use jmt::proof::{SparseMerkleProof, SparseMerkleRangeProof};
use jmt::storage::TreeReader;
use jmt::{KeyHash, Sha256};
use std::collections::{BTreeMap, BTreeSet};

pub type Proof = SparseMerkleProof<Sha256>;
pub type Leaf = (Key, [u8; 32]);
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug, BorshSerialize, BorshDeserialize)]
pub struct Parts {
    pub leaf: Option<Leaf>,
    pub sib: Vec<[u8; 32]>,
}
pub fn parts(p: &Proof) -> Option<Parts> {
    Parts::try_from_slice(&p.try_to_vec().ok()?).ok()
}
pub fn build(p: &Parts) -> Option<Proof> {
    Proof::try_from_slice(&p.try_to_vec().ok()?).ok()
}
pub fn truth(m: &Map, k: &Key, v: Option<&[u8]>) -> bool {
    m.get(k).map(|x| x.as_slice()) == v
}

/// Positions to touch in a list of n: all of them if it is short, otherwise both ends.
fn positions(n: usize) -> Vec<usize> {
    if n <= 12 {
        (0..n).collect()
    } else {
        (0..3).chain([n / 2, n - 2, n - 1]).collect()
    }
}
pub fn list_mutations(s: &[[u8; 32]], pool: &[[u8; 32]]) -> Vec<Vec<[u8; 32]>> {
    let mut out = vec![s.to_vec(), vec![]];
    let n = s.len();
    let mut rev = s.to_vec();
    rev.reverse();
    out.push(rev);
    for i in positions(n) {
        let mut a = s.to_vec();
        a.remove(i);
        out.push(a);
        let mut a = s.to_vec();
        a.insert(i, s[i]);
        out.push(a);
        if i + 1 < n {
            let mut a = s.to_vec();
            a.swap(i, i + 1);
            out.push(a);
        }
        out.push(s[..i].to_vec());
        out.push(s[i..].to_vec());
        for p in pool {
            let mut a = s.to_vec();
            a[i] = *p;
            out.push(a);
        }
        let mut a = s.to_vec();
        a[i][31] ^= 1;
        out.push(a);
        let mut a = s.to_vec();
        a[i][0] ^= 0x80;
        out.push(a);
    }
    for i in positions(n).into_iter().chain([n]) {
        for p in pool {
            let mut a = s.to_vec();
            a.insert(i, *p);
            out.push(a);
        }
    }
    for len in [255usize, 256, 257, 258, 300] {
        for top in [false, true] {
            if n < len {
                let pad = vec![smt::PLACEHOLDER; len - n];
                out.push(if top { [s, &pad].concat() } else { [&pad, s].concat() });
            }
        }
    }
    out
}

pub struct J05 {
    pub wide: bool,
}
impl Check for J05 {
    fn update_failed(&self, _e: &str) -> Verdict {
        Ok(()) // J01's business
    }
    fn state(&self, ctx: &Ctx, v: &View) -> Verdict {
        let vers: Vec<(u64, &Map)> = v.st.versions(v.u).collect();
        if vers.is_empty() {
            return Ok(());
        }
        let (ver, m) = *vers.last().unwrap();
        // worlds: distinct contents of this history, most recent first, plus the empty tree
        let mut worlds: Vec<([u8; 32], Map)> = vec![];
        for (_, m) in vers.iter().rev() {
            let r = smt::root(m);
            if !worlds.iter().any(|w| w.0 == r) && worlds.len() < 3 {
                worlds.push((r, (*m).clone()));
            }
        }
        if worlds.iter().all(|w| !w.1.is_empty()) {
            worlds.push((smt::PLACEHOLDER, Map::new()));
        }
        let live: Vec<Key> = v.u.keys.iter().take(4).copied().collect();
        let mut askers: BTreeSet<Key> = live.iter().copied().collect();
        for k in &live {
            for b in [0, 3, 4, 255] {
                askers.insert(flip(k, b));
            }
        }
        let askers: Vec<Key> = askers.into_iter().collect();
        let statement_keys: Vec<Key> = if self.wide { askers.clone() } else { live.iter().copied().chain([flip(&live[0], 255), flip(&live[1], 3)]).collect() };
        // genuine proofs, from the current and the first version
        let mut genuine: Vec<Parts> = vec![];
        for (pv, _) in [vers[0], (ver, m)] {
            for k in &askers {
                let Ok((_, p)) = guard_r(|| v.tree.get_with_proof(KeyHash(*k), pv)) else { continue };
                let Some(x) = parts(&p) else { return bad("encoding", "a proof does not survive borsh") };
                if build(&x).and_then(|q| parts(&q)).as_ref() != Some(&x) {
                    return bad("encoding", "a proof does not survive borsh");
                }
                if !genuine.contains(&x) {
                    genuine.push(x);
                }
            }
        }
        let mut leaves: Vec<Option<Leaf>> = vec![None];
        for k in &live {
            for x in v.u.vals.iter() {
                leaves.push(Some((*k, smt::value_hash(x))));
            }
        }
        for k in &statement_keys[live.len().min(statement_keys.len())..] {
            leaves.push(Some((*k, smt::value_hash(&v.u.vals[0]))));
        }
        let mut pool: Vec<[u8; 32]> = vec![smt::PLACEHOLDER, [0; 32], worlds[0].0];
        for (k, x) in m.iter().take(3) {
            pool.push(smt::leaf_hash(k, x));
            pool.push(smt::value_hash(x));
        }
        let mut cands: BTreeSet<Parts> = BTreeSet::new();
        for g in &genuine {
            for l in leaves.iter().cloned().chain([g.leaf]) {
                cands.insert(Parts { leaf: l, sib: g.sib.clone() });
            }
            for s in list_mutations(&g.sib, &pool) {
                cands.insert(Parts { leaf: g.leaf, sib: s.clone() });
                if self.wide || s.len() < g.sib.len() {
                    for l in &leaves {
                        cands.insert(Parts { leaf: *l, sib: s.clone() });
                    }
                }
            }
        }
        let (mut n, mut acc) = (0u64, 0u64);
        let stmts: Vec<Option<&[u8]>> = std::iter::once(None).chain(v.u.vals.iter().map(|x| Some(x.as_slice()))).collect();
        for c in &cands {
            if ctx.stopped() {
                return Ok(());
            }
            beat(|| v.st.case(v.u));
            let Some(p) = build(c) else { continue };
            for k in &statement_keys {
                for s in &stmts {
                    for (root, wm) in &worlds {
                        n += 1;
                        let r = guard(|| {
                            let a = p.verify(rh(root), KeyHash(*k), *s).is_ok();
                            let b = match s {
                                Some(x) => p.verify_existence(rh(root), KeyHash(*k), x).is_ok(),
                                None => p.verify_nonexistence(rh(root), KeyHash(*k)).is_ok(),
                            };
                            (a, b)
                        });
                        match r {
                            Err(e) => return bad("crash", format!("verifying a decodable proof crashed: {} (leaf {:?}, {} siblings)", e, c.leaf.map(|l| hx(&l.0)), c.sib.len())),
                            Ok((false, false)) => {}
                            Ok(_) if truth(wm, k, *s) => acc += 1,
                            Ok(_) => {
                                return bad("unsound", format!("false statement accepted: key {} {} under root {}; proof leaf {:?}, {} siblings {:?}", hx(k),
                                    s.map(|x| format!("= {}", hx(x))).unwrap_or("absent".into()), hx(root), c.leaf.map(|l| (hx(&l.0), hx(&l.1))), c.sib.len(),
                                    c.sib.iter().take(8).map(|s| hx(&s[..4])).collect::<Vec<_>>()));
                            }
                        }
                    }
                }
            }
        }
        // range proofs: whatever verifies names a leaf of the tree
        let mut rn = 0u64;
        for g in &genuine {
            let Some((lk, _)) = g.leaf else { continue };
            let d = g.sib.len();
            let lefts: Vec<_> = (0..d).filter(|i| smt::bit(&lk, d - 1 - i)).map(|i| g.sib[i]).collect();
            let rights: Vec<_> = (0..d).filter(|i| !smt::bit(&lk, d - 1 - i)).map(|i| g.sib[i]).collect();
            for l in leaves.iter().flatten().chain(g.leaf.iter()) {
                let Some(lp) = build(&Parts { leaf: Some(*l), sib: vec![] }) else { continue };
                let leaf = lp.leaf().unwrap();
                let small: Vec<[u8; 32]> = pool.iter().take(3).copied().collect();
                for ls in list_mutations(&lefts, &small[..1]) {
                    for rs in if self.wide { list_mutations(&rights, &small) } else { vec![rights.clone(), lefts.clone(), vec![], vec![smt::PLACEHOLDER; 257]] } {
                        let Ok(rp) = SparseMerkleRangeProof::try_from_slice(&rs.try_to_vec().unwrap()) else { continue };
                        for (root, wm) in &worlds {
                            rn += 1;
                            match guard(|| rp.verify(rh(root), leaf, ls.clone()).is_ok()) {
                                Err(e) => return bad("range-crash", format!("verifying a range proof crashed: {} ({} left, {} right siblings)", e, ls.len(), rs.len())),
                                Ok(true) if wm.get(&l.0).map(|x| smt::value_hash(x)) != Some(l.1) => {
                                    return bad("range-unsound", format!("range proof accepted for a leaf not in the tree: {}", hx(&l.0)));
                                }
                                _ => {}
                            }
                        }
                    }
                }
            }
        }
        ctx.count("altered proofs", cands.len() as u64);
        ctx.count("verifications", n);
        ctx.count("range-proof verifications", rn);
        ctx.count("accepted (true statements)", acc);
        Ok(())
    }
}
pub fn j05_plans(ctx: &Ctx) -> Vec<Plan> {
    use crate::plans::*;
    let q = ctx.quick();
    let mut out = vec![];
    for b in if q { vec![0] } else { vec![0, 1, 2, 3] } {
        for (i, (n, s)) in shapes3().into_iter().enumerate() {
            // the deepest shape keeps its node layout interesting but multiplies states; proofs depend on contents only
            let nv = if q { 1 } else { 2 };
            let depth = if i == 4 { 2 } else { usize::MAX };
            out.push(Plan::depth(uni(n, b, &s, nv), all_sets(3, nv), if q { depth.min(2) } else { depth.min(4) }, true));
        }
    }
    for (n, s) in deep3() {
        out.push(Plan::depth(uni(n, 1, &s, 1), all_sets(3, 1), if q { 1 } else { 2 }, true));
    }
    for (n, s) in shapes4() {
        out.push(Plan::depth(uni(n, 0, &s, 1), all_sets(4, 1), 1, true));
    }
    out
}

// ------------------------------------------------------------------------------------------------ J07
pub struct J07 {
    /// preimage of every key and probe
    pub pre: BTreeMap<Key, Vec<u8>>,
}
pub fn sha(p: &[u8]) -> Key {
    smt::sha(&[p])
}
/// The first preimage (counter order, tagged) whose hash shares exactly `bits` leading bits with `k`.
pub fn mine(k: &Key, bits: usize, tag: u8) -> Vec<u8> {
    for i in 0u64.. {
        let p = [&[tag][..], &i.to_be_bytes()[..]].concat();
        let h = sha(&p);
        if (0..bits).all(|b| smt::bit(&h, b) == smt::bit(k, b)) && smt::bit(&h, bits) != smt::bit(k, bits) {
            return p;
        }
    }
    unreachable!()
}
/// Universe of mined keys: `rel` gives, per further key, (index it relates to, shared bits).
pub fn mined(name: &str, first: &[u8], rel: &[(usize, usize)], probe_bits: &[usize], nvals: usize) -> (Uni, BTreeMap<Key, Vec<u8>>) {
    let mut pre: Vec<Vec<u8>> = vec![first.to_vec()];
    for (i, (r, bits)) in rel.iter().enumerate() {
        let k = sha(&pre[*r]);
        pre.push(mine(&k, *bits, 0x10 + i as u8));
    }
    let keys: Vec<Key> = pre.iter().map(|p| sha(p)).collect();
    let mut map: BTreeMap<Key, Vec<u8>> = pre.iter().map(|p| (sha(p), p.clone())).collect();
    for (i, k) in keys.iter().enumerate() {
        for b in probe_bits {
            let p = mine(k, *b, 0x80 + i as u8);
            map.insert(sha(&p), p);
        }
    }
    // keys of unusual shape
    for p in [vec![0u8], vec![0xff; 70], b"key".to_vec()] {
        map.insert(sha(&p), p);
    }
    let u = Uni {
        name: name.into(),
        keys,
        vals: vec![b"A".to_vec(), vec![9; 33]][..nvals].to_vec(),
        probes: map.keys().copied().collect(),
        first: 0,
    };
    (u, map)
}
impl Check for J07 {
    fn update_failed(&self, _e: &str) -> Verdict {
        Ok(())
    }
    fn state(&self, ctx: &Ctx, v: &View) -> Verdict {
        use ics23::HostFunctionsManager as Hm;
        for (k, p) in &self.pre {
            let _ = k;
            v.env.inner.put_key_preimage::<Sha256>(&jmt::reader::Preimage(p.clone()));
        }
        let spec = jmt::ics23_spec();
        let n = v.st.contents.len();
        for (i, (ver, m)) in v.st.versions(v.u).enumerate() {
            if m.is_empty() {
                continue;
            }
            let root = smt::root(m).to_vec();
            let step = 1 + v.u.keys.len() / 32;
            let keys: Vec<Key> = if i + 1 == n { self.pre.keys().copied().collect() } else { v.u.keys.iter().copied().step_by(step).collect() };
            for k in &keys {
                let Some(pre) = self.pre.get(k) else { continue };
                let want = m.get(k).cloned();
                let (val, proof) = match guard_r(|| v.tree.get_with_ics23_proof(pre.clone(), ver)) {
                    Ok(x) => x,
                    Err(e) => return bad("failed", format!("get_with_ics23_proof({}, v{}) failed: {}", hx(pre), ver, e)),
                };
                ctx.count("ics23 proofs", 1);
                if val != want {
                    return bad("value", format!("get_with_ics23_proof({}, v{}) returned {:?}, expected {:?}", hx(pre), ver, val, want));
                }
                let non = ics23::verify_non_membership::<Hm>(&proof, &spec, &root, pre);
                match &want {
                    Some(x) => {
                        if !x.is_empty() && !ics23::verify_membership::<Hm>(&proof, &spec, &root, pre, x) {
                            return bad("membership-rejected", format!("membership proof of {} at v{} does not verify", hx(pre), ver));
                        }
                        if non {
                            return bad("non-membership-accepted", format!("membership proof of {} at v{} verifies as non-membership", hx(pre), ver));
                        }
                        for y in v.u.vals.iter().chain([&b"other".to_vec()]) {
                            if y != x && ics23::verify_membership::<Hm>(&proof, &spec, &root, pre, y) {
                                return bad("wrong-value", format!("membership proof of {} at v{} verifies for another value", hx(pre), ver));
                            }
                        }
                    }
                    None => {
                        if !non {
                            return bad("non-membership-rejected", format!("non-membership proof of {} at v{} does not verify", hx(pre), ver));
                        }
                        for y in &v.u.vals {
                            if ics23::verify_membership::<Hm>(&proof, &spec, &root, pre, y) {
                                return bad("membership-accepted", format!("non-membership proof of {} at v{} verifies as membership", hx(pre), ver));
                            }
                        }
                    }
                }
                // a proof does not speak for the other keys either
                for k2 in v.u.keys.iter().step_by(step) {
                    if k2 == k {
                        continue;
                    }
                    let p2 = &self.pre[k2];
                    if m.contains_key(k2) && ics23::verify_non_membership::<Hm>(&proof, &spec, &root, p2) {
                        return bad("non-membership-accepted", format!("proof for {} at v{} shows absence of the present key {}", hx(pre), ver, hx(p2)));
                    }
                    for y in &v.u.vals {
                        if m.get(k2) != Some(y) && ics23::verify_membership::<Hm>(&proof, &spec, &root, p2, y) {
                            return bad("membership-accepted", format!("proof for {} at v{} shows a false value for {}", hx(pre), ver, hx(p2)));
                        }
                    }
                }
            }
            // without the neighbours' preimages the call must fail, not lie: covered by J16's missing-data runs
            let _ = v.env.get_rightmost_leaf();
        }
        Ok(())
    }
}
pub fn j07_universes(quick: bool) -> Vec<(Uni, BTreeMap<Key, Vec<u8>>)> {
    let pb: &[usize] = if quick { &[0, 1, 2, 3, 4, 5, 7, 8] } else { &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16] };
    let mut out = vec![];
    for (i, f) in [b"alpha".to_vec(), b"bravo".to_vec(), b"charlie".to_vec(), vec![0u8]].into_iter().enumerate() {
        if quick && i >= 2 {
            break;
        }
        let t = format!("mined{}", i);
        out.push(mined(&format!("{}/top", t), &f, &[(0, 0), (0, 1)], pb, 1));
        out.push(mined(&format!("{}/nibble", t), &f, &[(0, 3), (0, 2)], pb, 1));
        out.push(mined(&format!("{}/second", t), &f, &[(0, 4), (0, 0)], pb, 1));
        out.push(mined(&format!("{}/third", t), &f, &[(0, 9), (1, 11)], pb, 1));
        if !quick {
            out.push(mined(&format!("{}/deep", t), &f, &[(0, 19), (0, 16)], pb, 1));
            out.push(mined(&format!("{}/four", t), &f, &[(0, 6), (1, 8), (0, 1)], pb, 1));
        }
    }
    out
}

/// Preimages of every length, values of every length, versions of every magnitude, hundreds of entries.
pub fn j07_more(quick: bool) -> Vec<(Plan, BTreeMap<Key, Vec<u8>>)> {
    let mut out = vec![];
    let make = |name: String, pre: &[Vec<u8>], probes: &[Vec<u8>], vals: Vec<Vec<u8>>, first: u64| {
        let map: BTreeMap<Key, Vec<u8>> = pre.iter().chain(probes).map(|p| (sha(p), p.clone())).collect();
        (Uni { name, keys: pre.iter().map(|p| sha(p)).collect(), vals, probes: map.keys().copied().collect(), first }, map)
    };
    let sets = || vec![vec![(0, 1), (1, 1)], vec![(0, 1)], vec![(2, 1), (0, 0)]];
    let short = || vec![b"A".to_vec()];
    for n in (1..=70usize).chain([127, 128, 129, 255, 256, 257, 1000, 16383, 16384, 65535, 65536]) {
        let pre: Vec<Vec<u8>> = [0x00u8, 0x5a, 0xff].iter().map(|x| vec![*x; n]).collect();
        let mut probes: Vec<Vec<u8>> = vec![vec![0x5a; n + 1], [vec![0x5a; n], vec![0]].concat(), vec![7; n]];
        if n > 1 {
            probes.push(vec![0x5a; n - 1]);
        }
        let (u, m) = make(format!("keys of {} bytes", n), &pre, &probes, short(), 0);
        out.push((Plan::depth(u, sets(), 2, true), m));
    }
    let (b, c, d) = (b"bravo".to_vec(), b"charlie".to_vec(), b"delta".to_vec());
    let lens = (1..=70usize).chain([127, 128, 129, 255, 256, 257, 1000, 16383, 16384, 65535, 65536]).map(|n| vec![0x5a; n]);
    for v in lens.chain((0..=255u8).flat_map(|x| [vec![x], vec![x; 32]])) {
        let (u, m) = make(format!("value of {} bytes {:02x}", v.len(), v[0]), &[b.clone(), c.clone(), d.clone()], &[b"echo".to_vec()], vec![v], 0);
        out.push((Plan::depth(u, sets(), 2, true), m));
    }
    for bit in 0..64 {
        for first in [(1u64 << bit) - 1, (1u64 << bit) + 1] {
            let (u, m) = make(format!("first version {}", first), &[b.clone(), c.clone(), d.clone()], &[b"echo".to_vec()], short(), first.min(u64::MAX - 9));
            out.push((Plan::depth(u, sets(), 2, true), m));
        }
    }
    for n in if quick { vec![40u16, 300] } else { vec![17, 40, 100, 300, 600] } {
        let pre: Vec<Vec<u8>> = (0..n).map(|i| format!("entry {}", i).into_bytes()).collect();
        let probes: Vec<Vec<u8>> = (0..n / 4).map(|i| format!("absent {}", i).into_bytes()).collect();
        let (u, m) = make(format!("{} entries", n), &pre, &probes, short(), 0);
        let all: Set = (0..n).map(|k| (k, 1)).collect();
        let odd: Set = (0..n).filter(|k| k % 2 == 1).map(|k| (k, 0)).collect();
        out.push((Plan::from(u, vec![vec![all]], vec![vec![(0, 0)], odd, (1..n).map(|k| (k, 0)).collect()], 1, true), m));
    }
    out
}
