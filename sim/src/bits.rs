//! Big-integer reading of words and bytes, independent of enumset.
use std::collections::BTreeSet;

/// The bits set in a little-endian sequence of words.
pub fn of_words(w: &[u64]) -> BTreeSet<u32> {
    let mut s = BTreeSet::new();
    for (i, w) in w.iter().enumerate() {
        for b in 0..64 {
            if w >> b & 1 == 1 {
                s.insert(i as u32 * 64 + b);
            }
        }
    }
    s
}
pub fn to_words(s: &BTreeSet<u32>, len: usize) -> Vec<u64> {
    let mut w = vec![0; len];
    for d in s {
        if let Some(x) = w.get_mut(*d as usize / 64) {
            *x |= 1 << (d % 64);
        }
    }
    w
}
pub fn to_u128(s: &BTreeSet<u32>) -> u128 {
    s.iter().filter(|d| **d < 128).fold(0, |x, d| x | 1 << d)
}
pub fn to_bytes(w: &[u64]) -> Vec<u8> {
    w.iter().flat_map(|x| x.to_le_bytes()).collect()
}
/// `len` words of `b`, cut or extended with zeros.
pub fn from_bytes(b: &[u8], len: usize) -> Vec<u64> {
    (0..len)
        .map(|i| {
            let mut x = [0u8; 8];
            for k in 0..8 {
                x[k] = b.get(i * 8 + k).copied().unwrap_or(0);
            }
            u64::from_le_bytes(x)
        })
        .collect()
}
