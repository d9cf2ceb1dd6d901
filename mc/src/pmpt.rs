//! Reference Merkle-Patricia trie: keccak-256, RLP and the Ethereum trie root, written from their definitions and
//! computed from a plain map. Shares nothing with the code under test.
use std::collections::{BTreeMap, HashMap};

pub type PMap = BTreeMap<Vec<u8>, Vec<u8>>;
pub type Hash = [u8; 32];

pub fn keccak(data: &[u8]) -> Hash {
    const RC: [u64; 24] = [
        0x0000000000000001, 0x0000000000008082, 0x800000000000808a, 0x8000000080008000, 0x000000000000808b, 0x0000000080000001,
        0x8000000080008081, 0x8000000000008009, 0x000000000000008a, 0x0000000000000088, 0x0000000080008009, 0x000000008000000a,
        0x000000008000808b, 0x800000000000008b, 0x8000000000008089, 0x8000000000008003, 0x8000000000008002, 0x8000000000000080,
        0x000000000000800a, 0x800000008000000a, 0x8000000080008081, 0x8000000000008080, 0x0000000080000001, 0x8000000080008008,
    ];
    const ROT: [[u32; 5]; 5] = [[0, 36, 3, 41, 18], [1, 44, 10, 45, 2], [62, 6, 43, 15, 61], [28, 55, 25, 21, 56], [27, 20, 39, 8, 14]];
    let mut a = [[0u64; 5]; 5]; // a[x][y]
    let f = |a: &mut [[u64; 5]; 5]| {
        for rc in RC {
            let mut c = [0u64; 5];
            for x in 0..5 {
                c[x] = a[x][0] ^ a[x][1] ^ a[x][2] ^ a[x][3] ^ a[x][4];
            }
            for x in 0..5 {
                let d = c[(x + 4) % 5] ^ c[(x + 1) % 5].rotate_left(1);
                for y in 0..5 {
                    a[x][y] ^= d;
                }
            }
            let mut b = [[0u64; 5]; 5];
            for x in 0..5 {
                for y in 0..5 {
                    b[y][(2 * x + 3 * y) % 5] = a[x][y].rotate_left(ROT[x][y]);
                }
            }
            for x in 0..5 {
                for y in 0..5 {
                    a[x][y] = b[x][y] ^ (!b[(x + 1) % 5][y] & b[(x + 2) % 5][y]);
                }
            }
            a[0][0] ^= rc;
        }
    };
    let rate = 136;
    let mut p = data.to_vec();
    p.push(0x01);
    while p.len() % rate != 0 {
        p.push(0);
    }
    let l = p.len();
    p[l - 1] |= 0x80;
    for block in p.chunks(rate) {
        for (i, w) in block.chunks(8).enumerate() {
            a[i % 5][i / 5] ^= u64::from_le_bytes(w.try_into().unwrap());
        }
        f(&mut a);
    }
    let mut out = [0u8; 32];
    for i in 0..4 {
        out[i * 8..i * 8 + 8].copy_from_slice(&a[i][0].to_le_bytes());
    }
    out
}

fn be(mut n: usize) -> Vec<u8> {
    let mut v = vec![];
    while n > 0 {
        v.insert(0, (n & 255) as u8);
        n >>= 8;
    }
    v
}
fn hdr(base: u8, n: usize) -> Vec<u8> {
    if n < 56 {
        vec![base + n as u8]
    } else {
        let b = be(n);
        let mut v = vec![base + 55 + b.len() as u8];
        v.extend(b);
        v
    }
}
pub fn rlp_str(s: &[u8]) -> Vec<u8> {
    if s.len() == 1 && s[0] < 0x80 {
        return s.to_vec();
    }
    let mut v = hdr(0x80, s.len());
    v.extend_from_slice(s);
    v
}
pub fn rlp_list(items: &[Vec<u8>]) -> Vec<u8> {
    let n = items.iter().map(|x| x.len()).sum();
    let mut v = hdr(0xc0, n);
    for i in items {
        v.extend_from_slice(i);
    }
    v
}
pub fn compact(nib: &[u8], leaf: bool) -> Vec<u8> {
    let f = if leaf { 2u8 } else { 0 };
    let mut v = vec![];
    let rest = if nib.len() % 2 == 1 {
        v.push((f + 1) << 4 | nib[0]);
        &nib[1..]
    } else {
        v.push(f << 4);
        nib
    };
    for p in rest.chunks(2) {
        v.push(p[0] << 4 | p[1]);
    }
    v
}
pub fn nibbles(k: &[u8]) -> Vec<u8> {
    k.iter().flat_map(|b| [b >> 4, b & 15]).collect()
}

/// The trie of some contents: its root, every node stored under its hash (with the number of places that refer to
/// it), in the order they are met from the root.
#[derive(Clone, Debug, Default)]
pub struct Ref {
    pub root: Hash,
    pub nodes: HashMap<Hash, (Vec<u8>, usize)>,
}
type Item<'a> = (Vec<u8>, &'a [u8]);
fn node(items: &[Item], from: usize, out: &mut Ref) -> Vec<u8> {
    if items.is_empty() {
        return vec![0x80];
    }
    if items.len() == 1 {
        return rlp_list(&[rlp_str(&compact(&items[0].0[from..], true)), rlp_str(items[0].1)]);
    }
    let first = &items[0].0;
    let mut cp = first.len() - from;
    for (k, _) in items {
        let c = k[from..].iter().zip(&first[from..]).take_while(|(a, b)| a == b).count();
        cp = cp.min(c);
    }
    if cp > 0 {
        let child = link(node(items, from + cp, out), out);
        return rlp_list(&[rlp_str(&compact(&first[from..from + cp], false)), child]);
    }
    let mut parts = vec![];
    for n in 0..16u8 {
        let sub: Vec<Item> = items.iter().filter(|(k, _)| k.len() > from && k[from] == n).cloned().collect();
        let e = node(&sub, from + 1, out);
        parts.push(link(e, out));
    }
    parts.push(match items.iter().find(|(k, _)| k.len() == from) {
        Some((_, v)) => rlp_str(v),
        None => vec![0x80],
    });
    rlp_list(&parts)
}
fn link(e: Vec<u8>, out: &mut Ref) -> Vec<u8> {
    if e.len() < 32 {
        return e;
    }
    let h = keccak(&e);
    out.nodes.entry(h).or_insert((e, 0)).1 += 1;
    rlp_str(&h)
}
pub fn reference(m: &PMap) -> Ref {
    let items: Vec<Item> = m.iter().map(|(k, v)| (nibbles(k), v.as_slice())).collect();
    let mut r = Ref::default();
    let e = node(&items, 0, &mut r);
    r.root = keccak(&e);
    r.nodes.entry(r.root).or_insert((e, 0)).1 += 1;
    r
}

/// The encoded nodes on the path of a key that are not embedded in another one, from the root.
pub fn path(m: &PMap, key: &[u8]) -> Vec<Vec<u8>> {
    let key = nibbles(key);
    let mut items: Vec<Item> = m.iter().map(|(k, v)| (nibbles(k), v.as_slice())).collect();
    let mut from = 0;
    let mut out = vec![];
    loop {
        let e = node(&items, from, &mut Ref::default());
        if out.is_empty() || e.len() >= 32 {
            out.push(e);
        }
        if items.len() < 2 {
            return out;
        }
        let first = items[0].0.clone();
        let cp = items.iter().map(|(k, _)| k[from..].iter().zip(&first[from..]).take_while(|(a, b)| a == b).count()).min().unwrap();
        if cp > 0 {
            if !key[from..].starts_with(&first[from..from + cp]) {
                return out;
            }
            from += cp;
            continue;
        }
        let Some(n) = key.get(from) else { return out };
        items.retain(|(k, _)| k.get(from) == Some(n));
        from += 1;
        if items.is_empty() {
            return out;
        }
    }
}

/// Where (after which nibbles) each stored node is.
pub fn places(m: &PMap) -> HashMap<Hash, Vec<Vec<u8>>> {
    fn go(items: &[Item], from: usize, root: bool, out: &mut HashMap<Hash, Vec<Vec<u8>>>) {
        let e = node(items, from, &mut Ref::default());
        if root || e.len() >= 32 {
            out.entry(keccak(&e)).or_default().push(items.first().map(|x| x.0[..from].to_vec()).unwrap_or_default());
        }
        if items.len() < 2 {
            return;
        }
        let first = &items[0].0;
        let cp = items.iter().map(|(k, _)| k[from..].iter().zip(&first[from..]).take_while(|(a, b)| a == b).count()).min().unwrap();
        if cp > 0 {
            return go(items, from + cp, false, out);
        }
        for n in 0..16 {
            let sub: Vec<Item> = items.iter().filter(|(k, _)| k.get(from) == Some(&n)).cloned().collect();
            if !sub.is_empty() {
                go(&sub, from + 1, false, out);
            }
        }
    }
    let items: Vec<Item> = m.iter().map(|(k, v)| (nibbles(k), v.as_slice())).collect();
    let mut out = HashMap::new();
    go(&items, 0, true, &mut out);
    out
}

/// Known answers, so that the reference itself is anchored.
pub fn self_test() {
    let h = |s: &str| -> Hash { hex::decode(s).unwrap().try_into().unwrap() };
    assert_eq!(keccak(b""), h("c5d2460186f7233c927e7db2dcc703c0e500b653ca82273b7bfad8045d85a470"));
    assert_eq!(keccak(b"abc"), h("4e03657aea45a94fc7d47ba826c8d667c0d1e6e33a64a036ec44f58fa12d6c45"));
    assert_eq!(reference(&PMap::new()).root, h("56e81f171bcc55a6ff8345e692c0f86e5b48e01b996cadc001622fb5e363b421"));
    // ethereum/tests trieanyorder "dogs", "puppy"
    let m: PMap = [("doe", "reindeer"), ("dog", "puppy"), ("dogglesworth", "cat")].iter().map(|(k, v)| (k.as_bytes().to_vec(), v.as_bytes().to_vec())).collect();
    assert_eq!(reference(&m).root, h("8aad789dff2f538bca5d8ea56e8abe10f4c7ba3a5dea95fea4cd6e7c3a1168d3"));
    let m: PMap = [("do", "verb"), ("horse", "stallion"), ("doge", "coin"), ("dog", "puppy")].iter().map(|(k, v)| (k.as_bytes().to_vec(), v.as_bytes().to_vec())).collect();
    assert_eq!(reference(&m).root, h("5991bb8c6514148a29db676a14ac506cd2cd5775ace63c30a4fe457715e9ac84"));
}
