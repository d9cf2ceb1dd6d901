//! Every internal node with few children: its hash, and the child and siblings on the way to each nibble, against the
//! four-level binary tree they stand for.
use crate::ctx::*;
use crate::jcore::*;
use crate::plans::shapes3;
use crate::smt;
use jmt::storage::{Node, NodeKey};
use serde_json::{json, Value};

/// (hash, is a leaf) per position
type Kids = [Option<([u8; 32], bool)>; 16];

fn range(k: &Kids, start: usize, width: usize) -> ([u8; 32], Option<usize>) {
    let here: Vec<usize> = (start..start + width).filter(|i| k[*i].is_some()).collect();
    match here[..] {
        [] => (smt::PLACEHOLDER, None),
        [i] if width == 1 || k[i].unwrap().1 => (k[i].unwrap().0, Some(i)),
        _ => (smt::internal_hash(&range(k, start, width / 2).0, &range(k, start + width / 2, width / 2).0), None),
    }
}
/// Siblings from the top, the child met at the end.
fn way(k: &Kids, n: usize) -> (Vec<[u8; 32]>, Option<usize>) {
    let (mut s, mut w, mut sib) = (0, 16, vec![]);
    loop {
        w /= 2;
        let (mine, other) = if n & w != 0 { (s + w, s) } else { (s, s + w) };
        sib.push(range(k, other, w).0);
        s = mine;
        let here = (s..s + w).filter(|i| k[*i].is_some()).count();
        if here == 0 {
            return (sib, None);
        }
        if let (_, Some(i)) = range(k, s, w) {
            return (sib, Some(i));
        }
    }
}

fn sample(ctx: &Ctx) -> Option<(NodeKey, Value, Value)> {
    let u = uni("node", 0, &shapes3()[0].1, 1);
    let st = run_hist(&u, &[vec![(0, 1), (1, 1), (2, 1)]]).ok()?;
    let env = mk_store(&st).ok()?;
    let key = reachable(&env, &mk_tree(&env), 0, &st.cur()).ok()?.into_iter().flatten().next()?;
    let node = jmt::storage::TreeReader::get_node_option(&env, &key).ok()??;
    let Node::Internal(i) = &node else { return None };
    let leaf = i.children_sorted().next()?.1.clone();
    let _ = ctx;
    Some((key, serde_json::to_value(&node).ok()?, serde_json::to_value(&leaf).ok()?))
}

pub fn run(ctx: &Ctx) {
    let Some((key, node, leaf)) = sample(ctx) else {
        ctx.count("no sample node to derive others from", 1);
        return;
    };
    let max = 16;
    let shapes: Vec<u32> = (1..1u32 << 16).filter(|b| b.count_ones() <= max || b.count_ones() >= 15 || *b & (*b >> 1) == 0 && b.count_ones() == 8).collect();
    let nodes = std::sync::atomic::AtomicU64::new(0);
    par(ctx, &shapes, |b| {
        let at: Vec<usize> = (0..16).filter(|i| b >> i & 1 == 1).collect();
        let all = 1u32 << at.len().min(5);
        for leaves in 0..all {
            if at.len() == 1 && leaves == 1 {
                continue;
            }
            let mut kids: Kids = [None; 16];
            for (j, i) in at.iter().enumerate() {
                kids[*i] = Some((smt::sha(&[b"child", &[*i as u8]]), leaves >> (j % 5) & 1 == 1));
            }
            let case = json!({"node_positions": at, "leaves": leaves});
            beat(|| case.clone());
            // the sample's form with other children
            let cs: Vec<Value> = (0..16)
                .map(|i| match kids[i] {
                    None => Value::Null,
                    Some((h, l)) => {
                        let mut c = leaf.clone();
                        c["hash"] = json!(h);
                        c["version"] = json!(100 + i);
                        if !l {
                            c["node_type"] = json!({"Internal": {"leaf_count": 2}});
                        }
                        c
                    }
                })
                .collect();
            let mut x = node.clone();
            x["Internal"]["children"]["children"] = json!(cs);
            if x["Internal"]["children"].get("num_children").is_some() {
                x["Internal"]["children"]["num_children"] = json!(at.len());
            }
            let Ok(Node::Internal(n)) = serde_json::from_value::<Node>(x) else {
                ctx.count("nodes not derivable from the sample", 1);
                continue;
            };
            if n.children_sorted().map(|(i, c)| (i.as_usize(), c.version)).ne(at.iter().map(|i| (*i, 100 + *i as u64))) {
                ctx.count("nodes not derivable from the sample", 1);
                continue;
            }
            nodes.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
            ctx.tr(16);
            let mut e = guard(|| n.hash()).and_then(|h| if h == range(&kids, 0, 16).0 { Ok(()) } else { Err(format!("hash {}", hx(&h))) });
            for t in 0..16usize {
                if e.is_err() {
                    break;
                }
                let (sib, end) = way(&kids, t);
                e = guard(|| {
                    let (c, s) = n.get_child_with_siblings(&key, (t as u8).into());
                    let o = n.get_child_without_siblings(&key, (t as u8).into());
                    (c, s, o)
                })
                .and_then(|(c, s, o)| {
                    if o != c {
                        Err(format!("nibble {:x}: with siblings {:?}, without {:?}", t, c, o))
                    } else if c.map(|c| c.version()) != end.map(|i| 100 + i as u64) {
                        Err(format!("nibble {:x}: expected the child at {:?}", t, end))
                    } else if s != sib {
                        Err(format!("nibble {:x}: siblings {:?}", t, s.iter().map(|h| hx(h)).collect::<Vec<_>>()))
                    } else {
                        Ok(())
                    }
                });
            }
            if let Err(m) = e {
                ctx.fail("node", format!("an internal node with children at {:?} (leaves {:b}): {}", at, leaves, m), case);
            }
        }
    });
    ctx.scope(json!({"scope": "internal nodes derived from a stored one", "children_at_most": max, "and": "15 or 16 children, 8 children without neighbours", "nodes": nodes.into_inner(), "nibbles": 16,
        "compared": "hash, child and siblings towards every nibble, with a four-level binary tree"}));
}

/// J15: numbers of every size and paths of every length in keys, nodes, stale records and statistics.
pub fn run15(ctx: &Ctx) {
    use crate::jser::{borsh_rt, serde_rt};
    use jmt::storage::{NodeStats, StaleNodeIndex};
    let mut numbers: Vec<u64> = (0..64).flat_map(|b| [(1u64 << b) - 1, 1u64 << b, (1u64 << b) + 1]).chain([u64::MAX - 1, u64::MAX]).collect();
    numbers.sort();
    numbers.dedup();
    let Some((key, node, leaf)) = sample(ctx) else {
        ctx.count("no sample node to derive others from", 1);
        return;
    };
    let derived = std::sync::atomic::AtomicU64::new(0);
    let path = |len: usize| -> Option<serde_json::Value> {
        let mut k = serde_json::to_value(&key).ok()?;
        let mut bytes: Vec<u8> = (0..(len + 1) / 2).map(|i| 0x9d ^ (i * 7) as u8).collect();
        if len % 2 == 1 {
            *bytes.last_mut()? &= 0xf0;
        }
        let p = k.get_mut("nibble_path")?;
        *p.get_mut("num_nibbles")? = json!(len);
        *p.get_mut("bytes")? = json!(bytes);
        Some(k)
    };
    par(ctx, &numbers, |&n| {
        let case = json!({"number": n});
        beat(|| case.clone());
        let e = (|| -> Verdict {
            for i in 0..4 {
                let mut x = NodeStats::default();
                let f = [&mut x.new_nodes, &mut x.new_leaves, &mut x.stale_nodes, &mut x.stale_leaves];
                *f.into_iter().nth(i).unwrap() = n as usize;
                borsh_rt("statistics", &x)?;
            }
            let mut keys: Vec<NodeKey> = vec![];
            for len in 0..=64 {
                if let Some(mut k) = path(len) {
                    k["version"] = json!(n);
                    if let Ok(k) = serde_json::from_value::<NodeKey>(k) {
                        keys.push(k);
                    }
                }
            }
            for k in keys {
                if k.version() != n {
                    continue;
                }
                derived.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                ctx.tr(1);
                borsh_rt("a node key", &k)?;
                serde_rt("a node key", &k)?;
                borsh_rt("a stale record", &StaleNodeIndex { stale_since_version: n, node_key: k })?;
            }
            for (leaves, version) in [(n, 1), (2, n), (n, n)] {
                let Some(total) = leaves.checked_add(1) else { continue };
                let mut a = leaf.clone();
                let mut b = leaf.clone();
                a["version"] = json!(version);
                b["version"] = json!(version);
                b["node_type"] = json!({"Internal": {"leaf_count": leaves}});
                let mut x = node.clone();
                x["Internal"]["children"]["children"] = json!((0..16).map(|i| if i == 3 { a.clone() } else if i == 12 { b.clone() } else { Value::Null }).collect::<Vec<_>>());
                if x["Internal"]["children"].get("num_children").is_some() {
                    x["Internal"]["children"]["num_children"] = json!(2);
                }
                if x["Internal"].get("leaf_count").is_some() {
                    x["Internal"]["leaf_count"] = json!(total);
                }
                let Ok(x) = serde_json::from_value::<Node>(x) else {
                    ctx.count("nodes not derivable from the sample", 1);
                    continue;
                };
                derived.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                ctx.tr(1);
                borsh_rt("a node", &x)?;
                serde_rt("a node", &x)?;
                // what is read back names the same children
                let Node::Internal(i) = &x else { continue };
                if guard(|| i.leaf_count()) != Ok(Some(total as usize)) {
                    continue;
                }
                let bytes = borsh::BorshSerialize::try_to_vec(&x).unwrap();
                let back = guard(|| <Node as borsh::BorshDeserialize>::try_from_slice(&bytes).ok());
                match back {
                    Ok(Some(Node::Internal(j))) if j.leaf_count() == i.leaf_count() && j.children_sorted().eq(i.children_sorted()) => {}
                    r => return bad("round-trip", format!("an internal node with {} leaves and version {} reads back as {:?}", total, version, r)),
                }
            }
            Ok(())
        })();
        if let Err((s, m)) = e {
            ctx.fail(&s, m, case);
        }
    });
    ctx.scope(json!({"scope": "numbers of every size, node paths of every length", "numbers": numbers.len(), "path_lengths": 65, "objects": derived.into_inner()}));
}
