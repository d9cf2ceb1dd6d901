//! Boring reference model of the sparse Merkle commitment: a function of the sorted list of entries only.
use sha2::{Digest, Sha256};
use std::collections::BTreeMap;

pub type Key = [u8; 32];
pub type Map = BTreeMap<Key, Vec<u8>>;
pub const PLACEHOLDER: [u8; 32] = *b"SPARSE_MERKLE_PLACEHOLDER_HASH__";

pub fn sha(parts: &[&[u8]]) -> [u8; 32] {
    let mut h = Sha256::new();
    for p in parts {
        h.update(p);
    }
    h.finalize().into()
}
pub fn value_hash(v: &[u8]) -> [u8; 32] {
    sha(&[v])
}
pub fn leaf_hash_vh(k: &Key, vh: &[u8; 32]) -> [u8; 32] {
    sha(&[b"JMT::LeafNode", k, vh])
}
pub fn leaf_hash(k: &Key, v: &[u8]) -> [u8; 32] {
    leaf_hash_vh(k, &value_hash(v))
}
pub fn internal_hash(l: &[u8; 32], r: &[u8; 32]) -> [u8; 32] {
    sha(&[b"JMT::IntrnalNode", l, r])
}
pub fn bit(k: &Key, i: usize) -> bool {
    k[i / 8] >> (7 - i % 8) & 1 == 1
}
fn root_of(e: &[(&Key, &Vec<u8>)], depth: usize) -> [u8; 32] {
    match e.len() {
        0 => PLACEHOLDER,
        1 => leaf_hash(e[0].0, e[0].1),
        _ => {
            let m = e.partition_point(|(k, _)| !bit(k, depth));
            internal_hash(&root_of(&e[..m], depth + 1), &root_of(&e[m..], depth + 1))
        }
    }
}
pub fn root(m: &Map) -> [u8; 32] {
    root_of(&m.iter().collect::<Vec<_>>(), 0)
}

/// The unique minimal proof the commitment scheme allows for `key`: the leaf at the end of the path (if any) and the
/// siblings from the bottom to the root.
pub fn proof(m: &Map, key: &Key) -> (Option<(Key, [u8; 32])>, Vec<[u8; 32]>) {
    let all: Vec<_> = m.iter().collect();
    let mut e = &all[..];
    let mut sib = vec![];
    let mut d = 0;
    while e.len() > 1 {
        let p = e.partition_point(|(k, _)| !bit(k, d));
        let (l, r) = (&e[..p], &e[p..]);
        if bit(key, d) {
            sib.push(root_of(l, d + 1));
            e = r;
        } else {
            sib.push(root_of(r, d + 1));
            e = l;
        }
        d += 1;
    }
    sib.reverse();
    (e.first().map(|(k, v)| (**k, value_hash(v))), sib)
}

/// Reference verification of a proof given as data (leaf, siblings bottom-up).
pub fn verify(
    root: &[u8; 32],
    key: &Key,
    value: Option<&[u8]>,
    leaf: Option<(Key, [u8; 32])>,
    sib: &[[u8; 32]],
) -> bool {
    if sib.len() > 256 {
        return false;
    }
    let depth = sib.len();
    let mut h = match (value, leaf) {
        (Some(v), Some((k, vh))) => {
            if k != *key || vh != value_hash(v) {
                return false;
            }
            leaf_hash_vh(&k, &vh)
        }
        (Some(_), None) => return false,
        (None, Some((k, vh))) => {
            if k == *key || (0..depth).any(|i| bit(&k, i) != bit(key, i)) {
                return false;
            }
            leaf_hash_vh(&k, &vh)
        }
        (None, None) => PLACEHOLDER,
    };
    for (i, s) in sib.iter().enumerate() {
        h = if bit(key, depth - 1 - i) { internal_hash(s, &h) } else { internal_hash(&h, s) };
    }
    h == *root
}

/// Root of a tree whose values are already hashed (for trees with another value hash).
pub fn root_vh(m: &BTreeMap<Key, [u8; 32]>) -> [u8; 32] {
    fn go(e: &[(&Key, &[u8; 32])], depth: usize) -> [u8; 32] {
        match e.len() {
            0 => PLACEHOLDER,
            1 => leaf_hash_vh(e[0].0, e[0].1),
            _ => {
                let m = e.partition_point(|(k, _)| !bit(k, depth));
                internal_hash(&go(&e[..m], depth + 1), &go(&e[m..], depth + 1))
            }
        }
    }
    go(&m.iter().collect::<Vec<_>>(), 0)
}
