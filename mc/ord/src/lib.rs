//! Hash maps whose iteration order is a choice of the explorer.
//!
//! `std::collections::{HashMap, HashSet}` iterate in an order that depends on a random seed. These
//! stand-ins keep the elements in the real collections (with a fixed hasher) but take the order in
//! which they hand them out from choice points: when a collection is iterated, every key that has
//! no place yet is inserted at a chosen position of the order. An order stays the same until the
//! collection changes, and clones inherit it, as with the real ones.
//!
//! MC_CHOICES="<number>:<alternative>,..." deviates from the default at the given choice points,
//! MC_POLICY=front makes the default "before all others" instead of "behind all others",
//! MC_TRACE=<file> receives the number of alternatives of every choice point met.
use std::borrow::Borrow;
use std::cell::RefCell;
use std::collections::hash_map::DefaultHasher;
use std::collections::{HashMap as SMap, HashSet as SSet};
use std::fmt;
use std::hash::{BuildHasherDefault, Hash, Hasher};
use std::io::Write;
use std::ops::{Deref, DerefMut, Index};
use std::sync::Mutex;

type Fixed = BuildHasherDefault<DefaultHasher>;

pub mod collections {
    pub use super::{HashMap, HashSet};
    pub use std::collections::*;
    pub mod hash_map {
        pub use crate::HashMap;
        pub use std::collections::hash_map::*;
    }
    pub mod hash_set {
        pub use crate::HashSet;
        pub use std::collections::hash_set::*;
    }
}

struct Chooser {
    at: usize,
    deviate: Vec<(usize, usize)>,
    front: bool,
    trace: Option<std::fs::File>,
}
static CHOOSER: Mutex<Option<Chooser>> = Mutex::new(None);

/// Position among `n` (at least 2).
fn choose(n: usize) -> usize {
    let mut g = CHOOSER.lock().unwrap_or_else(|e| e.into_inner());
    let c = g.get_or_insert_with(|| Chooser {
        at: 0,
        deviate: std::env::var("MC_CHOICES")
            .unwrap_or_default()
            .split(',')
            .filter_map(|x| x.split_once(':'))
            .map(|(a, b)| (a.parse().unwrap(), b.parse().unwrap()))
            .collect(),
        front: std::env::var("MC_POLICY").is_ok_and(|x| x == "front"),
        trace: std::env::var("MC_TRACE").ok().map(|p| std::fs::OpenOptions::new().append(true).create(true).open(p).unwrap()),
    });
    let k = c.at;
    c.at += 1;
    if let Some(t) = &mut c.trace {
        let _ = writeln!(t, "{n}");
    }
    let alt = c.deviate.iter().find(|x| x.0 == k).map_or(0, |x| x.1);
    let default = if c.front { 0 } else { n - 1 };
    (default + alt) % n
}
fn ident<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}
/// The order of the keys seen so far.
#[derive(Clone, Default)]
struct Order(RefCell<Vec<u64>>);
impl Order {
    fn place<'a, K: Hash + 'a>(&self, keys: impl Iterator<Item = &'a K>) -> SMap<u64, usize> {
        let ids: Vec<u64> = keys.map(ident).collect();
        let mut o = self.0.borrow_mut();
        let now: SSet<u64> = ids.iter().copied().collect();
        o.retain(|x| now.contains(x));
        let old: SSet<u64> = o.iter().copied().collect();
        for x in ids {
            if !old.contains(&x) {
                let at = if o.is_empty() { 0 } else { choose(o.len() + 1) };
                o.insert(at, x);
            }
        }
        o.iter().enumerate().map(|(i, x)| (*x, i)).collect()
    }
}
fn sorted<T, K: Hash>(p: &SMap<u64, usize>, v: impl Iterator<Item = T>, key: impl Fn(&T) -> &K) -> std::vec::IntoIter<T> {
    let mut v: Vec<(usize, T)> = v.map(|x| (p[&ident(key(&x))], x)).collect();
    v.sort_by_key(|x| x.0);
    v.into_iter().map(|x| x.1).collect::<Vec<_>>().into_iter()
}

pub struct HashMap<K, V> {
    m: SMap<K, V, Fixed>,
    o: Order,
}
impl<K, V> HashMap<K, V> {
    pub fn new() -> Self {
        HashMap { m: SMap::default(), o: Order::default() }
    }
    pub fn with_capacity(_: usize) -> Self {
        Self::new()
    }
}
impl<K: Hash, V> HashMap<K, V> {
    pub fn iter(&self) -> std::vec::IntoIter<(&K, &V)> {
        sorted(&self.o.place(self.m.keys()), self.m.iter(), |x| x.0)
    }
    pub fn iter_mut(&mut self) -> std::vec::IntoIter<(&K, &mut V)> {
        let p = self.o.place(self.m.keys());
        sorted(&p, self.m.iter_mut(), |x| x.0)
    }
    pub fn keys(&self) -> std::vec::IntoIter<&K> {
        self.iter().map(|x| x.0).collect::<Vec<_>>().into_iter()
    }
    pub fn values(&self) -> std::vec::IntoIter<&V> {
        self.iter().map(|x| x.1).collect::<Vec<_>>().into_iter()
    }
    pub fn values_mut(&mut self) -> std::vec::IntoIter<&mut V> {
        self.iter_mut().map(|x| x.1).collect::<Vec<_>>().into_iter()
    }
    pub fn into_keys(self) -> std::vec::IntoIter<K> {
        self.into_iter().map(|x| x.0).collect::<Vec<_>>().into_iter()
    }
    pub fn into_values(self) -> std::vec::IntoIter<V> {
        self.into_iter().map(|x| x.1).collect::<Vec<_>>().into_iter()
    }
    pub fn drain(&mut self) -> std::vec::IntoIter<(K, V)> {
        let p = self.o.place(self.m.keys());
        sorted(&p, self.m.drain(), |x| &x.0)
    }
}
impl<K: Hash + Eq, V> HashMap<K, V> {
    pub fn retain(&mut self, mut f: impl FnMut(&K, &mut V) -> bool) {
        let p = self.o.place(self.m.keys());
        for (k, mut v) in sorted(&p, self.m.drain(), |x| &x.0) {
            if f(&k, &mut v) {
                self.m.insert(k, v);
            }
        }
    }
}
impl<K, V> Deref for HashMap<K, V> {
    type Target = SMap<K, V, Fixed>;
    fn deref(&self) -> &Self::Target {
        &self.m
    }
}
impl<K, V> DerefMut for HashMap<K, V> {
    fn deref_mut(&mut self) -> &mut Self::Target {
        &mut self.m
    }
}
impl<K, V> Default for HashMap<K, V> {
    fn default() -> Self {
        Self::new()
    }
}
impl<K: Clone, V: Clone> Clone for HashMap<K, V> {
    fn clone(&self) -> Self {
        HashMap { m: self.m.clone(), o: self.o.clone() }
    }
}
impl<K: Hash + fmt::Debug, V: fmt::Debug> fmt::Debug for HashMap<K, V> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_map().entries(self.iter()).finish()
    }
}
impl<K: Hash + Eq, V: PartialEq> PartialEq for HashMap<K, V> {
    fn eq(&self, o: &Self) -> bool {
        self.m == o.m
    }
}
impl<K: Hash + Eq, V: Eq> Eq for HashMap<K, V> {}
impl<K: Hash + Eq + Borrow<Q>, Q: Hash + Eq + ?Sized, V> Index<&Q> for HashMap<K, V> {
    type Output = V;
    fn index(&self, k: &Q) -> &V {
        &self.m[k]
    }
}
impl<K: Hash + Eq, V> FromIterator<(K, V)> for HashMap<K, V> {
    fn from_iter<T: IntoIterator<Item = (K, V)>>(i: T) -> Self {
        HashMap { m: i.into_iter().collect(), o: Order::default() }
    }
}
impl<K: Hash + Eq, V> Extend<(K, V)> for HashMap<K, V> {
    fn extend<T: IntoIterator<Item = (K, V)>>(&mut self, i: T) {
        self.m.extend(i)
    }
}
impl<K: Hash + Eq, V, const N: usize> From<[(K, V); N]> for HashMap<K, V> {
    fn from(a: [(K, V); N]) -> Self {
        a.into_iter().collect()
    }
}
impl<K: Hash, V> IntoIterator for HashMap<K, V> {
    type Item = (K, V);
    type IntoIter = std::vec::IntoIter<(K, V)>;
    fn into_iter(self) -> Self::IntoIter {
        let p = self.o.place(self.m.keys());
        sorted(&p, self.m.into_iter(), |x| &x.0)
    }
}
impl<'a, K: Hash, V> IntoIterator for &'a HashMap<K, V> {
    type Item = (&'a K, &'a V);
    type IntoIter = std::vec::IntoIter<(&'a K, &'a V)>;
    fn into_iter(self) -> Self::IntoIter {
        self.iter()
    }
}
impl<'a, K: Hash, V> IntoIterator for &'a mut HashMap<K, V> {
    type Item = (&'a K, &'a mut V);
    type IntoIter = std::vec::IntoIter<(&'a K, &'a mut V)>;
    fn into_iter(self) -> Self::IntoIter {
        self.iter_mut()
    }
}

pub struct HashSet<K> {
    m: SSet<K, Fixed>,
    o: Order,
}
impl<K> HashSet<K> {
    pub fn new() -> Self {
        HashSet { m: SSet::default(), o: Order::default() }
    }
    pub fn with_capacity(_: usize) -> Self {
        Self::new()
    }
}
impl<K: Hash> HashSet<K> {
    pub fn iter(&self) -> std::vec::IntoIter<&K> {
        sorted(&self.o.place(self.m.iter()), self.m.iter(), |x| *x)
    }
    pub fn drain(&mut self) -> std::vec::IntoIter<K> {
        let p = self.o.place(self.m.iter());
        sorted(&p, self.m.drain(), |x| x)
    }
}
impl<K: Hash + Eq> HashSet<K> {
    pub fn retain(&mut self, mut f: impl FnMut(&K) -> bool) {
        let p = self.o.place(self.m.iter());
        for k in sorted(&p, self.m.drain(), |x| x) {
            if f(&k) {
                self.m.insert(k);
            }
        }
    }
    pub fn union<'a>(&'a self, o: &'a HashSet<K>) -> std::vec::IntoIter<&'a K> {
        self.iter().chain(o.iter().filter(|x| !self.m.contains(*x))).collect::<Vec<_>>().into_iter()
    }
    pub fn intersection<'a>(&'a self, o: &'a HashSet<K>) -> std::vec::IntoIter<&'a K> {
        self.iter().filter(|x| o.m.contains(*x)).collect::<Vec<_>>().into_iter()
    }
    pub fn difference<'a>(&'a self, o: &'a HashSet<K>) -> std::vec::IntoIter<&'a K> {
        self.iter().filter(|x| !o.m.contains(*x)).collect::<Vec<_>>().into_iter()
    }
}
impl<K> Deref for HashSet<K> {
    type Target = SSet<K, Fixed>;
    fn deref(&self) -> &Self::Target {
        &self.m
    }
}
impl<K> DerefMut for HashSet<K> {
    fn deref_mut(&mut self) -> &mut Self::Target {
        &mut self.m
    }
}
impl<K> Default for HashSet<K> {
    fn default() -> Self {
        Self::new()
    }
}
impl<K: Clone> Clone for HashSet<K> {
    fn clone(&self) -> Self {
        HashSet { m: self.m.clone(), o: self.o.clone() }
    }
}
impl<K: Hash + fmt::Debug> fmt::Debug for HashSet<K> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_set().entries(self.iter()).finish()
    }
}
impl<K: Hash + Eq> PartialEq for HashSet<K> {
    fn eq(&self, o: &Self) -> bool {
        self.m == o.m
    }
}
impl<K: Hash + Eq> Eq for HashSet<K> {}
impl<K: Hash + Eq> FromIterator<K> for HashSet<K> {
    fn from_iter<T: IntoIterator<Item = K>>(i: T) -> Self {
        HashSet { m: i.into_iter().collect(), o: Order::default() }
    }
}
impl<K: Hash + Eq> Extend<K> for HashSet<K> {
    fn extend<T: IntoIterator<Item = K>>(&mut self, i: T) {
        self.m.extend(i)
    }
}
impl<'a, K: Hash + Eq + Copy + 'a> Extend<&'a K> for HashSet<K> {
    fn extend<T: IntoIterator<Item = &'a K>>(&mut self, i: T) {
        self.m.extend(i.into_iter().copied())
    }
}
impl<K: Hash + Eq, const N: usize> From<[K; N]> for HashSet<K> {
    fn from(a: [K; N]) -> Self {
        a.into_iter().collect()
    }
}
impl<K: Hash> IntoIterator for HashSet<K> {
    type Item = K;
    type IntoIter = std::vec::IntoIter<K>;
    fn into_iter(self) -> Self::IntoIter {
        let p = self.o.place(self.m.iter());
        sorted(&p, self.m.into_iter(), |x| x)
    }
}
impl<'a, K: Hash> IntoIterator for &'a HashSet<K> {
    type Item = &'a K;
    type IntoIter = std::vec::IntoIter<&'a K>;
    fn into_iter(self) -> Self::IntoIter {
        self.iter()
    }
}
