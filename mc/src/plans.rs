//! The bounded state spaces the JMT checks explore.
use crate::ctx::{par, Ctx};
use serde_json::json;
use crate::jcore::*;

pub fn shapes3() -> Vec<(&'static str, Vec<&'static [usize]>)> {
    vec![
        ("top", vec![&[], &[0], &[1]]),
        ("siblings", vec![&[], &[3], &[2]]),
        ("nibble1", vec![&[], &[4], &[0]]),
        ("second", vec![&[], &[7], &[5]]),
        ("deep-mixed", vec![&[], &[251], &[11]]),
    ]
}
pub fn deep3() -> Vec<(&'static str, Vec<&'static [usize]>)> {
    vec![("deepest", vec![&[], &[255], &[252]]), ("deep+shallow", vec![&[], &[255], &[0]])]
}
pub fn shapes4() -> Vec<(&'static str, Vec<&'static [usize]>)> {
    vec![
        ("four-mixed", vec![&[], &[1], &[6], &[6, 9]]),
        ("four-root", vec![&[], &[3], &[2], &[0]]),
        ("four-chain", vec![&[], &[3], &[7], &[11]]),
        ("four-deep", vec![&[], &[255], &[254], &[0]]),
    ]
}
/// Sets touching at most `n` keys.
pub fn small(sets: Vec<Set>, n: usize) -> Vec<Set> {
    sets.into_iter().filter(|s| s.len() <= n).collect()
}
/// A universe whose base state fills all 16 children of the root node (and of a second-level node), of which only the
/// first `live` keys are then updated.
pub fn full_node(base: usize) -> (Uni, Vec<Set>, Vec<Set>) {
    let b = base_key(base);
    let mut keys = vec![];
    for x in 0..16u8 {
        let mut f = vec![];
        for i in 0..4 {
            if x >> i & 1 == 1 {
                f.push(i as usize);
            }
        }
        let mut k = b;
        for i in &f {
            k = flip(&k, *i);
        }
        // scramble the tail deterministically
        keys.push(if x == 0 { k } else { key_from(&k, &[9 + x as usize]) });
    }
    // a second full node below child 0
    for x in 1..16u8 {
        let mut k = b;
        for i in 0..4 {
            if x >> i & 1 == 1 {
                k = flip(&k, 4 + i as usize);
            }
        }
        keys.push(key_from(&k, &[30 + x as usize]));
    }
    let u = Uni {
        name: format!("full-nodes/base{}", base),
        probes: probes_for(&keys[..6]).into_iter().chain(keys.iter().copied()).collect(),
        keys,
        vals: vals_default()[..1].to_vec(),
        first: 0,
    };
    // touched afterwards: 0 (below both full nodes), 1 (root child), 16 (second node), 15
    let live = [0u16, 1, 16, 15];
    let mut sets = vec![vec![]];
    for k in live {
        for v in 0..2 {
            sets.push(vec![(k, v)]);
        }
    }
    for (i, a) in live.iter().enumerate() {
        for b in &live[i + 1..] {
            for v in 0..4u8 {
                sets.push(vec![(*a, v & 1), (*b, v >> 1)]);
            }
        }
    }
    // everything but one key of each node removed, and everything removed
    let n = u.keys.len() as u16;
    sets.push((2..n).map(|k| (k, 0)).collect());
    sets.push((0..n).map(|k| (k, 0)).collect());
    sets.push((0..n).map(|k| (k, 1)).collect());
    let base: Vec<Set> = vec![(0..n).map(|k| (k, 1)).collect()];
    (u, base, sets)
}

/// Long runs: histories of many versions cycling over a fixed pattern (versions beyond one decimal digit, many stale
/// records).
pub fn long_base(u: &Uni, n: usize) -> Vec<Set> {
    let k = u.keys.len() as u16;
    let nv = u.vals.len() as u8;
    (0..n)
        .map(|i| {
            let i = i as u16;
            match i % 5 {
                0 => vec![(i % k, 1)],
                1 => vec![(i % k, 1 + i as u8 % nv), ((i + 1) % k, 1)],
                2 => vec![((i + 2) % k, 0)],
                3 => vec![(i % k, 0), (i % k, 1)],
                _ => vec![((i / 5) % k, nv)],
            }
        })
        .collect()
}

pub struct Opts {
    /// values per key in the closed spaces
    pub nvals: usize,
    pub deep: bool,
    pub four: bool,
    pub seqs: bool,
    pub tree_like: bool,
}
impl Default for Opts {
    fn default() -> Self {
        Opts { nvals: 2, deep: true, four: true, seqs: true, tree_like: true }
    }
}

pub fn standard(ctx: &Ctx, o: Opts) -> Vec<Plan> {
    let q = ctx.quick();
    let mut out = vec![];
    let bases: &[usize] = if q { &[0, 1] } else { &[0, 1, 2, 3] };
    let nv = if q { o.nvals } else { o.nvals.max(2) };
    // 1. closed spaces over three keys: every set of updates from every reachable state
    for &b in bases {
        for (n, s) in shapes3() {
            out.push(Plan::closed(uni(n, b, &s, nv), all_sets(3, nv)));
        }
    }
    if o.deep {
        for (i, (n, s)) in deep3().into_iter().enumerate() {
            for &b in if q { &[2usize, 1][i..i + 1] } else { &[0usize, 1, 2, 3][..] } {
                out.push(Plan::closed(uni(n, b, &s, 1), all_sets(3, 1)));
            }
        }
    }
    // children in the first and the last position of their nodes
    out.push(Plan::closed(uni_hex("ends", &["1f", "1ff", "2"], nv), all_sets(3, nv)));
    out.push(Plan::closed(uni_hex("ends-deep", &["0f", "0ffff", "0fff"], 1), all_sets(3, 1)));
    if !q {
        out.push(Plan::closed(uni_hex("ends4", &["0f", "0fff", "f", "ff0"], 1), all_sets(4, 1)));
    }
    // 2. trees whose first version is not 0
    out.push(Plan::closed(uni("first-version", 0, &shapes3()[2].1, 1).at(1), all_sets(3, 1)));
    out.push(Plan::depth(uni("first-version", 1, &shapes3()[0].1, 1).at(5), all_sets(3, 1), 3, true));
    out.push(Plan::depth(uni("first-version", 1, &shapes3()[3].1, 1).at(u32::MAX as u64 - 1), all_sets(3, 1), 3, true));
    // 3. ordered sequences of single operations within one version, keys repeated
    if o.seqs {
        out.push(Plan::depth(uni("sequences", 0, &shapes3()[2].1[..2], 2), all_seqs(2, 2, if q { 3 } else { 4 }), usize::MAX, true));
        out.push(Plan::depth(uni("sequences3", 1, &shapes3()[2].1, 1), all_seqs(3, 1, if q { 3 } else { 4 }), if q { 2 } else { usize::MAX }, true));
    }
    // 4. the same without merging states: complete histories
    if o.tree_like {
        out.push(Plan::depth(uni("histories", 0, &shapes3()[2].1[..2], 1), all_sets(2, 1), if q { 4 } else { 5 }, false));
        out.push(Plan::depth(uni("histories", 1, &shapes3()[0].1, 1), all_sets(3, 1), if q { 2 } else { 3 }, false));
    }
    // versions written by the general and by the insert-only batch API, in every order
    for (i, (n, s)) in shapes3().into_iter().chain(deep3()).enumerate() {
        if !q || i % 2 == 0 {
            out.push(Plan::closed(uni(&format!("both-apis-{}", n), i % 4, &s, 1), with_batch(all_sets(3, 1))));
        }
    }
    out.push(Plan::closed(uni_hex("both-apis-ends", &["1f", "1ff", "2"], 1), with_batch(all_sets(3, 1))));
    // 5. four keys
    if o.four {
        for (i, (n, s)) in shapes4().into_iter().enumerate() {
            if !q || i < 2 {
                for &b in if q { &[0usize][..] } else { &[0usize, 1][..] } {
                    let sets = all_sets(4, 1);
                    let sets = if q { small(sets, 2) } else { sets };
                    out.push(Plan::depth(uni(n, b, &s, 1), sets, if i == 3 { 4 } else { usize::MAX }, true));
                }
            }
        }
    }
    // 6. full 16-child nodes
    for b in if q { vec![0] } else { vec![0, 1, 2, 3] } {
        let (u, base, sets) = full_node(b);
        out.push(Plan::from(u, vec![base], sets, if q { 1 } else { 2 }, true));
    }
    // 7. long histories
    let u = uni("long-history", 0, &shapes3()[2].1, 2);
    let b = long_base(&u, if q { 12 } else { 40 });
    out.push(Plan::from(u, vec![b], all_sets(3, 2), 1, true));
    out
}

/// Hundreds of entries, hundreds of versions.
pub fn large(ctx: &Ctx, id: &str, ck: &dyn Check) {
    let q = ctx.quick();
    let n = 300u16;
    let keys: Vec<_> = (0..n).map(|i| crate::smt::sha(&[b"large", &i.to_be_bytes()])).collect();
    let u = Uni {
        name: "300 keys".into(),
        probes: keys.iter().step_by(23).copied().chain((0..6u8).map(|i| crate::smt::sha(&[b"absent", &[i]]))).collect(),
        keys,
        vals: vals_default()[..1].to_vec(),
        first: 0,
    };
    let all = |x: u8| -> Set { (0..n).map(|k| (k, x)).collect() };
    let some = |d: u16, r: u16, x: u8| -> Set { (0..n).filter(|k| k % d == r).map(|k| (k, x)).collect() };
    let bases = vec![vec![all(1)], vec![some(3, 0, 1), some(3, 1, 1), some(2, 0, 0), some(3, 2, 1)]];
    let mut sets = vec![vec![(0, 0)], vec![(299, 1), (1, 0)], some(2, 1, 0), all(0), (1..n).map(|k| (k, 0)).collect()];
    let mut back = all(1);
    back.reverse();
    sets.push(back);
    let dear = ["J03", "J05", "J15"].contains(&id);
    explore(ctx, &Plan::from(u, bases, if dear { sets[..2].to_vec() } else { sets }, if dear { 0 } else { 1 }, true), ck);
    if !dear {
        let mut u = uni("270-versions", 0, &shapes3()[2].1, 1);
        u.probes = [&u.keys[..], &u.probes[..2]].concat();
        let b = long_base(&u, 270);
        explore(ctx, &Plan::from(u, vec![b], small(all_sets(3, 1), if q { 1 } else { 3 }), 1, true), ck);
    }
}

/// Many small universes: values of every length up to a bound and of every byte, trees whose first version lies just
/// below every power of two at which an encoding might change.
pub fn sweep(ctx: &Ctx, id: &str, ck: &dyn Check) {
    let q = ctx.quick();
    let dear = ["J03", "J05", "J15", "J16"].contains(&id);
    let depth = if dear { 1 } else if q { 2 } else { 3 };
    let mut vals: Vec<Vec<u8>> = (0..=255u8).filter(|b| !dear || !q || b % 16 == 0 || *b == 0x7f).flat_map(|b| [vec![b], vec![b; 33]]).collect();
    let lens: Vec<usize> = if dear { vec![2, 31, 32, 64, 127, 128, 255, 256, 65536] } else { (2..=70).chain([127, 128, 129, 255, 256, 257, 1000, 65535, 65536, 70000]).collect() };
    vals.extend(lens.iter().map(|n| vec![0xa5; *n]));
    let mut plans = vec![];
    for v in &vals {
        let mut u = uni("value", 0, &shapes3()[1].1, 1);
        u.name = format!("value of {} bytes {:02x}", v.len(), v[0]);
        u.probes = [&u.keys[..], &u.probes[..2]].concat();
        u.vals = vec![v.clone()];
        plans.push(Plan::depth(u, vec![vec![(0, 1)], vec![(0, 1), (1, 1)], vec![(1, 1), (2, 0)]], depth, true));
    }
    let firsts: Vec<u64> = [7, 8, 14, 15, 16, 21, 24, 28, 31, 32, 35, 42, 48, 49, 53, 56, 63].iter().map(|b| (1u64 << b) - 1).chain([u64::MAX - 9]).collect();
    let nf = firsts.len();
    for (i, f) in firsts.into_iter().enumerate() {
        if dear && q && i % 3 != 0 {
            continue;
        }
        let mut u = uni("version", 1, &shapes3()[2].1, 1).at(f);
        u.name = format!("first version {}", f);
        u.probes = [&u.keys[..], &u.probes[..4]].concat();
        plans.push(Plan::depth(u, small(all_sets(3, 1), if dear { 1 } else if q { 2 } else { 3 }), if dear || q { 2 } else { 3 }, true));
    }
    let t = std::time::Instant::now();
    par(ctx, &plans, |p| {
        explore_quiet(ctx, p, ck, false);
    });
    if std::env::var("MC_VERBOSE").is_ok() {
        eprintln!("  sweep {:.1}s", t.elapsed().as_secs_f64());
    }
    ctx.scope(json!({"scope": "value and version sweep", "values": vals.len(), "longest_value": lens.last(), "first_versions": nf, "all_first_versions": !(dear && q),
        "depth": depth, "depth_of_version_universes": if dear || q { 2 } else { 3 }}));
}
