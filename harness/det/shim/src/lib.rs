//! The standard library, but for the order in which hash maps and sets are iterated: with RandomState that order
//! is a different one in every process. Here it is a symbolic permutation, chosen anew for every map.
//! The crates under test are compiled with this crate under the name `std`.
#![allow(clippy::all)]
pub use ::std::*;
use ::std::cell::{Cell, RefCell};
thread_local! { static ANY: Cell<usize> = const { Cell::new(0) }; static USED: Cell<bool> = const { Cell::new(false) }; }
/// how many maps, whichever they are, may be iterated in another order than the fixed one
pub fn any_order(maps: usize) { ANY.with(|x| x.set(maps)) }
/// whether the order of any map with two or more entries was asked for
pub fn order_used() -> bool { USED.with(|x| x.get()) }
#[derive(Clone, Default)]
struct Order(RefCell<Vec<usize>>);
impl Order {
    /// the order of n entries: all permutations of up to four, rotations forwards and backwards of more; a map keeps its order while its size stays the same
    fn of(&self, n: usize) -> Vec<usize> {
        let mut o = self.0.borrow_mut();
        if o.len() != n {
            *o = (0..n).collect();
            let left = ANY.with(|x| x.get());
            if n < 2 || left == 0 { return o.clone() }
            USED.with(|x| x.set(true));
            if !vf::flag() { return o.clone() }
            ANY.with(|x| x.set(left - 1));
            if n <= 4 { for i in 0..n - 1 { let k = i + vf::pick(n - i); o.swap(i, k) } } else { if vf::flag() { o.reverse() } let k = vf::pick(n); o.rotate_left(k) }
        }
        o.clone()
    }
    fn apply<T>(&self, v: Vec<T>) -> ::std::vec::IntoIter<T> {
        let mut v: Vec<Option<T>> = v.into_iter().map(Some).collect();
        let r: Vec<T> = self.of(v.len()).into_iter().map(|i| v[i].take().unwrap()).collect();
        r.into_iter()
    }
}
pub mod hash {
    pub use ::std::hash::*;
    /// a fixed hash, so that lookups cost no decisions
    #[derive(Clone, Copy, Default, Debug)]
    pub struct RandomState;
    impl RandomState { pub fn new() -> Self { RandomState } }
    #[derive(Clone, Debug)]
    pub struct DefaultHasher(u64);
    impl Default for DefaultHasher { fn default() -> Self { DefaultHasher(0xcbf29ce484222325) } }
    impl DefaultHasher { pub fn new() -> Self { Self::default() } }
    impl Hasher for DefaultHasher { fn write(&mut self, b: &[u8]) { for x in b { self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100000001b3) } } fn finish(&self) -> u64 { self.0 ^ (self.0 >> 29) } }
    impl BuildHasher for RandomState { type Hasher = DefaultHasher; fn build_hasher(&self) -> DefaultHasher { DefaultHasher::default() } }
}
pub mod collections {
    pub use self::hash_map::HashMap;
    pub use self::hash_set::HashSet;
    pub use ::std::collections::*;
    pub mod hash_map {
        use crate::{hash::RandomState, Order};
        use ::std::borrow::Borrow;
        pub use ::std::collections::hash_map::*;
        pub use crate::hash::{DefaultHasher, RandomState as _RandomState};
        use ::std::collections::HashMap as Real;
        use ::std::hash::{BuildHasher, Hash};
        use ::std::ops::{Deref, DerefMut, Index};
        #[derive(Clone)]
        pub struct HashMap<K, V, S = RandomState>(Real<K, V, S>, Order);
        impl<K, V> HashMap<K, V, RandomState> { pub fn new() -> Self { Self::default() } pub fn with_capacity(n: usize) -> Self { HashMap(Real::with_capacity_and_hasher(n, RandomState), Order::default()) } }
        impl<K, V, S> HashMap<K, V, S> {
            pub fn with_hasher(s: S) -> Self { HashMap(Real::with_hasher(s), Order::default()) }
            pub fn with_capacity_and_hasher(n: usize, s: S) -> Self { HashMap(Real::with_capacity_and_hasher(n, s), Order::default()) }
            pub fn iter(&self) -> ::std::vec::IntoIter<(&K, &V)> { self.1.apply(self.0.iter().collect()) }
            pub fn iter_mut(&mut self) -> ::std::vec::IntoIter<(&K, &mut V)> { self.1.apply(self.0.iter_mut().collect()) }
            pub fn keys(&self) -> ::std::vec::IntoIter<&K> { self.1.apply(self.0.keys().collect()) }
            pub fn values(&self) -> ::std::vec::IntoIter<&V> { self.1.apply(self.0.values().collect()) }
            pub fn values_mut(&mut self) -> ::std::vec::IntoIter<&mut V> { self.1.apply(self.0.values_mut().collect()) }
            pub fn drain(&mut self) -> ::std::vec::IntoIter<(K, V)> { let v = self.0.drain().collect(); self.1.apply(v) }
            pub fn into_keys(self) -> ::std::vec::IntoIter<K> { self.1.apply(self.0.into_keys().collect()) }
            pub fn into_values(self) -> ::std::vec::IntoIter<V> { self.1.apply(self.0.into_values().collect()) }
        }
        impl<K, V, S> Deref for HashMap<K, V, S> { type Target = Real<K, V, S>; fn deref(&self) -> &Real<K, V, S> { &self.0 } }
        impl<K, V, S> DerefMut for HashMap<K, V, S> { fn deref_mut(&mut self) -> &mut Real<K, V, S> { &mut self.0 } }
        impl<K, V, S: Default> Default for HashMap<K, V, S> { fn default() -> Self { HashMap(Real::default(), Order::default()) } }
        impl<K: ::std::fmt::Debug, V: ::std::fmt::Debug, S> ::std::fmt::Debug for HashMap<K, V, S> { fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result { f.debug_map().entries(self.iter()).finish() } }
        impl<K: Eq + Hash, V: PartialEq, S: BuildHasher> PartialEq for HashMap<K, V, S> { fn eq(&self, o: &Self) -> bool { self.0 == o.0 } }
        impl<K: Eq + Hash, V: Eq, S: BuildHasher> Eq for HashMap<K, V, S> {}
        impl<K: Eq + Hash + Borrow<Q>, Q: Eq + Hash + ?Sized, V, S: BuildHasher> Index<&Q> for HashMap<K, V, S> { type Output = V; fn index(&self, k: &Q) -> &V { &self.0[k] } }
        impl<K: Eq + Hash, V, S: BuildHasher + Default> FromIterator<(K, V)> for HashMap<K, V, S> { fn from_iter<I: IntoIterator<Item = (K, V)>>(i: I) -> Self { HashMap(Real::from_iter(i), Order::default()) } }
        impl<K: Eq + Hash, V, const N: usize> From<[(K, V); N]> for HashMap<K, V, RandomState> { fn from(x: [(K, V); N]) -> Self { x.into_iter().collect() } }
        impl<K: Eq + Hash, V, S: BuildHasher> Extend<(K, V)> for HashMap<K, V, S> { fn extend<I: IntoIterator<Item = (K, V)>>(&mut self, i: I) { self.0.extend(i) } }
        impl<'a, K: Eq + Hash + Copy, V: Copy, S: BuildHasher> Extend<(&'a K, &'a V)> for HashMap<K, V, S> { fn extend<I: IntoIterator<Item = (&'a K, &'a V)>>(&mut self, i: I) { self.0.extend(i) } }
        impl<K, V, S> IntoIterator for HashMap<K, V, S> { type Item = (K, V); type IntoIter = ::std::vec::IntoIter<(K, V)>; fn into_iter(self) -> Self::IntoIter { self.1.apply(self.0.into_iter().collect()) } }
        impl<'a, K, V, S> IntoIterator for &'a HashMap<K, V, S> { type Item = (&'a K, &'a V); type IntoIter = ::std::vec::IntoIter<(&'a K, &'a V)>; fn into_iter(self) -> Self::IntoIter { self.iter() } }
        impl<'a, K, V, S> IntoIterator for &'a mut HashMap<K, V, S> { type Item = (&'a K, &'a mut V); type IntoIter = ::std::vec::IntoIter<(&'a K, &'a mut V)>; fn into_iter(self) -> Self::IntoIter { self.iter_mut() } }
    }
    pub mod hash_set {
        use crate::{hash::RandomState, Order};
        pub use ::std::collections::hash_set::*;
        use ::std::collections::HashSet as Real;
        use ::std::hash::{BuildHasher, Hash};
        use ::std::ops::{Deref, DerefMut};
        #[derive(Clone)]
        pub struct HashSet<T, S = RandomState>(Real<T, S>, Order);
        impl<T> HashSet<T, RandomState> { pub fn new() -> Self { Self::default() } pub fn with_capacity(n: usize) -> Self { HashSet(Real::with_capacity_and_hasher(n, RandomState), Order::default()) } }
        impl<T, S> HashSet<T, S> {
            pub fn with_hasher(s: S) -> Self { HashSet(Real::with_hasher(s), Order::default()) }
            pub fn iter(&self) -> ::std::vec::IntoIter<&T> { self.1.apply(self.0.iter().collect()) }
            pub fn drain(&mut self) -> ::std::vec::IntoIter<T> { let v = self.0.drain().collect(); self.1.apply(v) }
        }
        impl<T: Eq + Hash, S: BuildHasher> HashSet<T, S> {
            pub fn difference<'a>(&'a self, o: &'a Self) -> ::std::vec::IntoIter<&'a T> { self.1.apply(self.0.difference(&o.0).collect()) }
            pub fn symmetric_difference<'a>(&'a self, o: &'a Self) -> ::std::vec::IntoIter<&'a T> { self.1.apply(self.0.symmetric_difference(&o.0).collect()) }
            pub fn intersection<'a>(&'a self, o: &'a Self) -> ::std::vec::IntoIter<&'a T> { self.1.apply(self.0.intersection(&o.0).collect()) }
            pub fn union<'a>(&'a self, o: &'a Self) -> ::std::vec::IntoIter<&'a T> { self.1.apply(self.0.union(&o.0).collect()) }
        }
        impl<T, S> Deref for HashSet<T, S> { type Target = Real<T, S>; fn deref(&self) -> &Real<T, S> { &self.0 } }
        impl<T, S> DerefMut for HashSet<T, S> { fn deref_mut(&mut self) -> &mut Real<T, S> { &mut self.0 } }
        impl<T, S: Default> Default for HashSet<T, S> { fn default() -> Self { HashSet(Real::default(), Order::default()) } }
        impl<T: ::std::fmt::Debug, S> ::std::fmt::Debug for HashSet<T, S> { fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result { f.debug_set().entries(self.iter()).finish() } }
        impl<T: Eq + Hash, S: BuildHasher> PartialEq for HashSet<T, S> { fn eq(&self, o: &Self) -> bool { self.0 == o.0 } }
        impl<T: Eq + Hash, S: BuildHasher> Eq for HashSet<T, S> {}
        impl<T: Eq + Hash, S: BuildHasher + Default> FromIterator<T> for HashSet<T, S> { fn from_iter<I: IntoIterator<Item = T>>(i: I) -> Self { HashSet(Real::from_iter(i), Order::default()) } }
        impl<T: Eq + Hash, const N: usize> From<[T; N]> for HashSet<T, RandomState> { fn from(x: [T; N]) -> Self { x.into_iter().collect() } }
        impl<T: Eq + Hash, S: BuildHasher> Extend<T> for HashSet<T, S> { fn extend<I: IntoIterator<Item = T>>(&mut self, i: I) { self.0.extend(i) } }
        impl<'a, T: Eq + Hash + Copy, S: BuildHasher> Extend<&'a T> for HashSet<T, S> { fn extend<I: IntoIterator<Item = &'a T>>(&mut self, i: I) { self.0.extend(i) } }
        impl<T, S> IntoIterator for HashSet<T, S> { type Item = T; type IntoIter = ::std::vec::IntoIter<T>; fn into_iter(self) -> Self::IntoIter { self.1.apply(self.0.into_iter().collect()) } }
        impl<'a, T, S> IntoIterator for &'a HashSet<T, S> { type Item = &'a T; type IntoIter = ::std::vec::IntoIter<&'a T>; fn into_iter(self) -> Self::IntoIter { self.iter() } }
    }
}
