//! P06: every altered, foreign or malformed proof verifies to the truth or to an error.
use crate::ctx::*;
use crate::pchecks::{shapes, u};
use crate::pcore::*;
use crate::pmpt::*;
use pmt::{Trie, H256};
use serde_json::json;
use std::collections::BTreeSet;
use std::sync::Arc;

type Nodes = Vec<Vec<u8>>;

fn verify(t: &PTrie, root: &Hash, k: &[u8], p: &Nodes) -> Result<Option<Option<Vec<u8>>>, String> {
    match guard(|| t.verify_proof(H256(*root), k, p.clone())) {
        Ok(Ok(v)) => Ok(Some(v)),
        Ok(Err(_)) => Ok(None),
        Err(e) => Err(e),
    }
}
struct J<'a> {
    ctx: &'a Ctx,
    t: &'a PTrie,
    m: &'a PMap,
    root: Hash,
    keys: &'a [Vec<u8>],
}
impl J<'_> {
    /// Judges a proof against the true root (m is what the root stands for).
    fn judge(&self, what: &str, p: &Nodes) -> bool {
        for k in self.keys {
            self.ctx.tr(1);
            let case = || json!({"root_of": self.m.iter().map(|(k, v)| json!([hx(k), hx(v)])).collect::<Vec<_>>(), "key": hx(k), "proof": p.iter().map(|x| hx(x)).collect::<Vec<_>>()});
            match verify(self.t, &self.root, k, p) {
                Err(e) => {
                    self.ctx.fail("verify-crash", format!("verifying a proof ({}) crashed: {}", what, e), case());
                    return false;
                }
                Ok(Some(v)) => {
                    if v.as_ref() != self.m.get(k) {
                        self.ctx.fail("verify-unsound", format!("a proof ({}) shows {} = {:?}", what, hx(k), v.map(|x| hx(&x))), case());
                        return false;
                    }
                    self.ctx.count("altered proofs that verify to the truth", 1);
                }
                Ok(None) => self.ctx.count("altered proofs rejected", 1),
            }
        }
        true
    }
    /// Only the absence of a crash is judged: the root is not that of a real trie.
    fn crash_only(&self, what: &str, root: &Hash, p: &Nodes) -> bool {
        for k in self.keys {
            self.ctx.tr(1);
            if let Err(e) = verify(self.t, root, k, p) {
                let case = json!({"root": hx(root), "key": hx(k), "proof": p.iter().map(|x| hx(x)).collect::<Vec<_>>()});
                self.ctx.fail("verify-crash", format!("verifying a proof ({}) crashed: {}", what, e), case);
                return false;
            }
        }
        self.ctx.count("malformed proofs that do not crash", 1);
        true
    }
}
/// The proof with node i replaced and every reference to it (up to the root) adjusted.
fn relink(p: &Nodes, i: usize, new: Vec<u8>) -> (Hash, Nodes) {
    let mut p = p.clone();
    let mut old = keccak(&p[i]);
    p[i] = new;
    let mut cur = keccak(&p[i]);
    for j in (0..i).rev() {
        let before = keccak(&p[j]);
        if let Some(at) = p[j].windows(32).position(|w| w == old) {
            p[j][at..at + 32].copy_from_slice(&cur);
        }
        old = before;
        cur = keccak(&p[j]);
    }
    (cur, p)
}
fn alts(b: u8, wide: bool) -> Vec<u8> {
    let mut v: BTreeSet<u8> = [b ^ 1, b ^ 0x10, b.wrapping_add(1), b.wrapping_sub(1), 0, 0x80, 0xa0, 0xc0, 0xff].into_iter().collect();
    if wide {
        v.extend([b ^ 0x20, b ^ 0x40, b ^ 0x80, 0x20, 0x30, 0x10, 0x40, 0x7f, 0x81, 0xb7, 0xb8, 0xbf, 0xc1, 0xf7, 0xf8]);
    }
    v.remove(&b);
    v.into_iter().collect()
}
fn byte_variants(x: &[u8], wide: bool) -> Nodes {
    let mut out: Nodes = vec![];
    // the long runs inside values need not be visited byte by byte
    let pick = |i: usize| x.len() <= 200 || i < 90 || i + 60 > x.len() || i % 23 == 0;
    for i in (0..x.len()).filter(|i| pick(*i)) {
        out.push(x[..i].to_vec());
        for a in alts(x[i], wide) {
            let mut y = x.to_vec();
            y[i] = a;
            out.push(y);
        }
        let mut y = x.to_vec();
        y.remove(i);
        out.push(y);
        let mut y = x.to_vec();
        y.insert(i, x[i]);
        out.push(y);
    }
    for a in [0u8, 0x80, 0xc0] {
        let mut y = x.to_vec();
        y.push(a);
        out.push(y);
    }
    out
}
/// Structural edits on the RLP level: items dropped, doubled, swapped, emptied, turned into something else.
fn item_variants(x: &[u8]) -> Nodes {
    let r = rlp_items(x);
    let Some(items) = r else { return vec![] };
    let mut out = vec![];
    for i in 0..items.len() {
        let mut v = items.clone();
        v.remove(i);
        out.push(rlp_list(&v));
        let mut v = items.clone();
        v.insert(i, items[i].clone());
        out.push(rlp_list(&v));
        for e in [vec![0x80], vec![0x00], vec![0x05], vec![0xc0], vec![0xc2, 0x20, 0x01], vec![0xc2, 0x00, 0x80], vec![0xc2, 0x80, 0x80], vec![0xc2, 0x16, 0x80], rlp_str(&[7; 32]), rlp_str(&[7; 31]), rlp_str(&[7; 33])] {
            let mut v = items.clone();
            v[i] = e;
            out.push(rlp_list(&v));
        }
        for j in 0..i {
            let mut v = items.clone();
            v.swap(i, j);
            out.push(rlp_list(&v));
        }
    }
    out
}
/// Top-level items of an RLP list, as raw encodings.
fn rlp_items(x: &[u8]) -> Option<Vec<Vec<u8>>> {
    fn head(x: &[u8]) -> Option<(usize, usize)> {
        let b = *x.first()? as usize;
        let (h, n) = match b {
            0..=0x7f => (0, 1),
            0x80..=0xb7 => (1, b - 0x80),
            0xb8..=0xbf => {
                let l = b - 0xb7;
                (1 + l, x.get(1..1 + l)?.iter().fold(0usize, |a, c| a << 8 | *c as usize))
            }
            0xc0..=0xf7 => (1, b - 0xc0),
            _ => {
                let l = b - 0xf7;
                (1 + l, x.get(1..1 + l)?.iter().fold(0usize, |a, c| a << 8 | *c as usize))
            }
        };
        Some((h, n))
    }
    if *x.first()? < 0xc0 {
        return None;
    }
    let (h, n) = head(x)?;
    let mut b = x.get(h..h + n)?;
    let mut out = vec![];
    while !b.is_empty() {
        let (h, n) = head(b)?;
        out.push(b.get(..h + n)?.to_vec());
        b = &b[h + n..];
    }
    Some(out)
}
/// `levels` nested extension nodes (or branches) around a leaf.
fn nested(levels: usize, branch: bool) -> Vec<u8> {
    let mut rev: Vec<u8> = vec![0x01, 0x20, 0xc2];
    for _ in 0..levels {
        let inner = rev.len();
        let n = if branch {
            let mut r = vec![0x80; 16];
            r.append(&mut rev);
            rev = r;
            inner + 16
        } else {
            rev.push(0x11);
            inner + 1
        };
        let hd = if n < 56 {
            vec![0xc0 + n as u8]
        } else {
            let b: Vec<u8> = n.to_be_bytes().iter().copied().skip_while(|b| *b == 0).collect();
            let mut v = vec![0xf7 + b.len() as u8];
            v.extend(b);
            v
        };
        rev.extend(hd.iter().rev());
    }
    rev.reverse();
    rev
}
/// A chain of extension nodes without a path, each referring to the next by hash.
fn chain(levels: usize) -> Nodes {
    let mut p = vec![rlp_list(&[rlp_str(&compact(&[1, 2], true)), rlp_str(&[9; 40])])];
    for _ in 0..levels {
        let hsh = keccak(p.last().unwrap());
        p.push(rlp_list(&[rlp_str(&[0]), rlp_str(&hsh)]));
    }
    p.reverse();
    p
}

pub fn run(ctx: &Ctx) {
    self_test();
    let q = ctx.quick();
    // ---- nodes that are no nodes
    let t = PTrie::new(Arc::new(PDb::new(false)));
    let keys: Nodes = vec![vec![], vec![0x00], vec![0x12], vec![0x12, 0x34], vec![0xff; 4]];
    let m = PMap::new();
    let one = |what: &str, b: &[u8]| {
        let root = keccak(b);
        beat(|| json!({"proof": [if b.len() < 5000 { hx(b) } else { format!("{} bytes {}..", b.len(), hx(&b[..16])) }]}));
        J { ctx, t: &t, m: &m, root, keys: &keys }.crash_only(what, &root, &vec![b.to_vec()])
    };
    let firsts: Vec<u8> = (0..=255).collect();
    ctx.scope(json!({"scope": "single malformed nodes", "all_strings_up_to": if q { 2 } else { 3 }, "plus": "two-item nodes with every path byte, 17-item nodes with every odd item, runs, nesting, path-less chains"}));
    par(ctx, &firsts, |&f| {
        let mut b = vec![];
        if f == 0 {
            one("empty", &b);
        }
        b.push(f);
        one("one byte", &b);
        for a in 0..=255u8 {
            one("two bytes", &[f, a]);
            if !q {
                for c in 0..=255u8 {
                    one("three bytes", &[f, a, c]);
                }
            }
        }
        for n in 0..=12 {
            for fill in [0u8, 1, 0x7f, 0x80, 0xff] {
                let mut x = vec![f];
                x.extend(std::iter::repeat(fill).take(n));
                one("run", &x);
                let mut y = vec![0xc0 + x.len() as u8 + 1, 0x20];
                y.extend(&x);
                one("run in a leaf", &y);
                let mut y = vec![0xc0 + x.len() as u8 + 1, 0x11];
                y.extend(&x);
                one("run in an extension", &y);
                let mut y = vec![0xc0 + x.len() as u8 + 1];
                y.extend(&x);
                y.push(0x80);
                one("run as a path", &y);
            }
        }
        // [path, item] with every first path byte
        let its: Nodes = vec![
            vec![0x80], vec![0x01], vec![0xc0], rlp_str(&[5; 32]), rlp_str(&[5; 31]), rlp_str(&[5; 33]), rlp_list(&[vec![0x20], vec![0x01]]), rlp_list(&[vec![0x80], vec![0x01]]),
            rlp_list(&[vec![0x16], rlp_list(&[vec![0x20], vec![0x01]])]), rlp_list(&vec![vec![0x80]; 17]), rlp_list(&vec![vec![0x80]; 16]), rlp_list(&[vec![0x16], vec![0x80]]),
        ];
        for path in [vec![f], vec![f, 0x34], vec![f, 0x12, 0x34], vec![f; 4]] {
            for it in &its {
                let n = rlp_list(&[rlp_str(&path), it.clone()]);
                one("two items", &n);
                // and inside a branch and an extension
                if n.len() < 32 {
                    for slot in [0usize, 1, 15, 16] {
                        let mut v = vec![vec![0x80]; 17];
                        v[slot] = n.clone();
                        one("inside a branch", &rlp_list(&v));
                    }
                    one("inside an extension", &rlp_list(&[vec![0x12], n.clone()]));
                }
                // referred to by hash
                let hsh = keccak(&n);
                let r = rlp_list(&[vec![0x11], rlp_str(&hsh)]);
                let root = keccak(&r);
                let mut n2 = n.clone();
                n2.resize(n2.len().max(32), 0);
                J { ctx, t: &t, m: &m, root, keys: &keys }.crash_only("behind a hash", &root, &vec![r, n]);
                let h2 = keccak(&n2);
                let r = rlp_list(&[vec![0x11], rlp_str(&h2)]);
                let root = keccak(&r);
                J { ctx, t: &t, m: &m, root, keys: &keys }.crash_only("behind a hash, padded", &root, &vec![r, n2]);
            }
        }
        for slot in 0..17usize {
            for x in [vec![f], rlp_str(&[f; 2]), rlp_str(&[f; 32]), rlp_list(&[rlp_str(&[f]), vec![0x01]])] {
                let mut v = vec![vec![0x80]; 17];
                v[slot] = x;
                one("branch with an odd item", &rlp_list(&v));
            }
        }
    });
    let levels: Vec<usize> = if q { vec![1, 5, 8, 9, 10, 11, 100, 10_000, 400_000] } else { (1..=60).chain([100, 1000, 10_000, 100_000, 1_000_000]).collect() };
    par(ctx, &levels, |&l| {
        for br in [false, true] {
            // branches cost 17 bytes a level
            if !(br && l > 100_000) {
                one("nesting", &nested(l, br));
            }
        }
        if l <= 200_000 {
            let c = chain(l);
            let root = keccak(&c[0]);
            beat(|| json!({"chain": l}));
            J { ctx, t: &t, m: &m, root, keys: &keys }.crash_only("chain of extensions without a path", &root, &c);
        }
    });
    // ---- alterations of genuine proofs
    let mut items: Vec<(PUni, Base)> = vec![];
    let mut us: Vec<PUni> = shapes(&[1, 40], false);
    us.extend(shapes(&[40], true));
    us.push(u("boundary", &[b"\x12\x34", b"\x12\x35", b"\x12"], &[25, 28, 29, 30, 31], false));
    for x in us {
        for b in all_bases(&x, &[Mode::Committed]) {
            let n = b.assign.iter().filter(|a| **a > 0).count();
            if !q || n >= 3 || (n >= 1 && x.lens.len() == 1) {
                items.push((x.clone(), b));
            }
        }
    }
    // nodes of other tries, to be mixed in
    let foreign: Nodes = {
        let mut s: BTreeSet<Vec<u8>> = BTreeSet::new();
        for x in shapes(&[40], false).into_iter().take(3) {
            for b in all_bases(&x, &[Mode::Fresh]).into_iter().rev().step_by(5) {
                s.extend(reference(&b.map(&x)).nodes.into_values().map(|n| n.0));
            }
        }
        s.into_iter().collect()
    };
    ctx.scope(json!({"scope": "alterations of genuine proofs", "tries": items.len(), "foreign_nodes": foreign.len(),
        "alterations": "every subset and order of the nodes, every byte, every item, every truncation, every foreign node; with the references to an altered node adjusted"}));
    par(ctx, &items, |(x, b)| {
        let db = PDb::new(false);
        beat(|| json!({"trie": x.json(), "start": b.assign}));
        let Ok(st) = start(x, b, &db) else { return };
        let Some((root, m)) = st.roots.last().cloned() else { return };
        if reference(&m).root != root {
            return; // P02's business
        }
        ctx.st(1);
        let keys: Vec<Vec<u8>> = x.keys.iter().cloned().chain(x.probes().into_iter().take(3)).collect();
        let j = J { ctx, t: &st.trie, m: &m, root, keys: &keys };
        let mut seen: BTreeSet<Nodes> = BTreeSet::new();
        for k in &keys {
            let mut c = st.trie.clone();
            let Ok(p) = guard_r(|| c.get_proof(k)) else { continue };
            if !seen.insert(p.clone()) {
                continue;
            }
            ctx.trace(1);
            beat(|| json!({"trie": x.json(), "start": b.assign, "key": hx(k)}));
            // subsets, orders, repetitions
            let n = p.len();
            for mask in 0..1u32 << n {
                let sub: Nodes = (0..n).filter(|i| mask >> i & 1 == 1).map(|i| p[i].clone()).collect();
                if !j.judge("subset", &sub) {
                    return;
                }
                let mut r = sub.clone();
                r.reverse();
                let mut d = sub.clone();
                d.extend(sub.clone());
                if !j.judge("reversed", &r) || !j.judge("doubled", &d) {
                    return;
                }
            }
            for i in 0..n {
                for f in &foreign {
                    let mut y = p.clone();
                    y[i] = f.clone();
                    if !j.judge("foreign node in place", &y) {
                        return;
                    }
                    y.insert(0, f.clone());
                    y[i + 1] = p[i].clone();
                    if !j.judge("foreign node added", &y) {
                        return;
                    }
                }
                beat(|| json!({"trie": x.json(), "start": b.assign, "key": hx(k), "node": i}));
                for v in byte_variants(&p[i], !q).into_iter().chain(item_variants(&p[i])) {
                    let mut y = p.clone();
                    y[i] = v.clone();
                    if !j.judge("altered node", &y) {
                        return;
                    }
                    let (r2, y) = relink(&p, i, v);
                    if !j.crash_only("altered node, references adjusted", &r2, &y) {
                        return;
                    }
                }
            }
        }
    });
    // values and keys of every length, a trie of 300 entries: fewer alterations each
    let mut items: Vec<(PUni, Base)> = vec![];
    for p in crate::pchecks::sweep_plans(ctx, "P06").into_iter().chain([crate::pchecks::large_plan("P06")]) {
        for b in &p.bases {
            if b.mode == Mode::Reopened && b.assign.iter().any(|a| *a > 0) {
                items.push((p.u.clone(), b.clone()));
            }
        }
    }
    ctx.scope(json!({"scope": "alterations of genuine proofs, lengths and sizes", "tries": items.len(), "alterations": "every subset and order of the nodes, foreign nodes, every item, some bytes; with the references to an altered node adjusted"}));
    par(ctx, &items, |(x, b)| {
        let db = PDb::new(false);
        beat(|| json!({"trie": x.json(), "start": b.assign}));
        let Ok(st) = start(x, b, &db) else { return };
        let Some((root, m)) = st.roots.last().cloned() else { return };
        if reference(&m).root != root {
            return; // P02's business
        }
        ctx.st(1);
        let keys: Vec<Vec<u8>> = x.keys.iter().cloned().chain(x.fixed.iter().step_by(29).cloned()).chain(x.probes().into_iter().take(3)).collect();
        let j = J { ctx, t: &st.trie, m: &m, root, keys: &keys };
        for k in &keys {
            let mut c = st.trie.clone();
            let Ok(p) = guard_r(|| c.get_proof(k)) else { continue };
            ctx.trace(1);
            let n = p.len();
            for mask in 0..1u32 << n {
                let sub: Nodes = (0..n).filter(|i| mask >> i & 1 == 1).map(|i| p[i].clone()).collect();
                let rev = sub.iter().rev().cloned().collect();
                if !j.judge("subset", &sub) || !j.judge("reversed", &rev) {
                    return;
                }
            }
            for i in 0..n {
                let mut vs = item_variants(&p[i]);
                let len = p[i].len();
                for at in [0, 1, 2, 3, 4, len / 2, len.saturating_sub(2), len.wrapping_sub(1)].into_iter().filter(|a| *a < len) {
                    for a in alts(p[i][at], false) {
                        let mut y = p[i].clone();
                        y[at] = a;
                        vs.push(y);
                    }
                }
                vs.extend([1, 2, 31, 32, 33, 55, 56, 57].into_iter().filter(|l| *l < len).map(|l| p[i][..l].to_vec()));
                vs.extend(foreign.iter().step_by(7).cloned());
                if len > 20000 {
                    vs.truncate(16);
                }
                for v in vs {
                    let mut y = p.clone();
                    y[i] = v.clone();
                    if !j.judge("altered node", &y) {
                        return;
                    }
                    let (r2, y) = relink(&p, i, v);
                    if !j.crash_only("altered node, references adjusted", &r2, &y) {
                        return;
                    }
                }
            }
        }
    });
    ctx.assume("keccak-256 has no collisions");
}
