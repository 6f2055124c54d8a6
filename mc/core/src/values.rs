//! Value alphabets (simplest first).
use std::collections::BTreeSet;

fn key(v: i128) -> (i128, i128) {
    (v.abs(), v)
}
fn done(s: BTreeSet<i128>, lo: i128, hi: i128) -> Vec<i128> {
    let mut v: Vec<i128> = s.into_iter().filter(|x| *x >= lo && *x <= hi).collect();
    v.sort_by_key(|x| key(*x));
    v
}
/// +-(2^k + d) for |d| <= spread, within lo..=hi, and lo/hi themselves.
pub fn boundaries(lo: i128, hi: i128, spread: i128) -> Vec<i128> {
    let mut s = BTreeSet::new();
    for k in 0..66 {
        for d in -spread..=spread {
            let v = (1i128 << k) + d;
            s.insert(v);
            s.insert(-v);
        }
    }
    for d in 0..=spread {
        s.insert(lo + d);
        s.insert(hi - d);
    }
    s.insert(0);
    done(s, lo, hi)
}
/// Boundaries plus values with one or two distinguished bytes (reveals swapped or dropped groups).
pub fn patterned(lo: i128, hi: i128) -> Vec<i128> {
    let mut s: BTreeSet<i128> = boundaries(lo, hi, 3).into_iter().collect();
    for k in 0..64 {
        for g in [0x2ai128, 0x55, 0x7f, 0x81, 0xa5, 0xff] {
            s.insert(g << k);
            s.insert(-(g << k));
        }
    }
    for x in [0x0123456789abcdefi128, 0xfedcba9876543210, 0x5555555555555555, 0xaaaaaaaaaaaaaaaa, 0xdeadbeefcafebabe] {
        for k in 0..64 {
            s.insert(x >> k);
            s.insert(-(x >> k));
        }
    }
    done(s, lo, hi)
}
/// A handful of values: zero, one, minus one, extremes and middle.
pub fn few(lo: i128, hi: i128) -> Vec<i128> {
    let mut s = BTreeSet::new();
    for v in [0, 1, -1, lo, hi, (lo + hi) / 2] {
        s.insert(v);
    }
    done(s, lo, hi)
}
/// Lengths around every allocation / prefix threshold.
pub fn lengths(all_to: usize, more: &[usize]) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=all_to).collect();
    v.extend_from_slice(more);
    v.sort();
    v.dedup();
    v
}
