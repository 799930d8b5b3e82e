//! `std` with the hash-based collections replaced by association lists of the
//! same observable behaviour (crates get it as their `std`), so that hashing and
//! SIMD probing stay out of the symbolic execution.
#![no_std]
#![feature(prelude_import)]
extern crate std as real;
pub use real::*;
pub mod collections {
    pub use real::collections::*;
    pub use super::map::{HashMap, HashSet};
    pub use super::tree::{BTreeMap, BTreeSet};
    pub mod btree_set { pub use super::super::tree::BTreeSet; }
    pub mod btree_map { pub use super::super::tree::{BTreeMap, Entry, OccupiedEntry, VacantEntry}; }
    pub mod hash_map {
        pub use super::super::map::{Entry, HashMap, OccupiedEntry, VacantEntry};
    }
    pub mod hash_set {
        pub use super::super::map::HashSet;
    }
}
mod map {
    use real::prelude::rust_2021::*;
    use core::borrow::Borrow;
    use core::marker::PhantomData;

    pub struct HashMap<K, V, S = ()> { e: Vec<(K, V)>, p: PhantomData<S> }
    impl<K: Clone, V: Clone, S> Clone for HashMap<K, V, S> { fn clone(&self) -> Self { HashMap { e: self.e.clone(), p: PhantomData } } }
    impl<K, V, S> core::fmt::Debug for HashMap<K, V, S> { fn fmt(&self, _: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { Ok(()) } }
    impl<K, V, S> Default for HashMap<K, V, S> { fn default() -> Self { HashMap { e: Vec::new(), p: PhantomData } } }
    impl<K, V> HashMap<K, V> {
        pub fn new() -> Self { Self::default() }
        pub fn with_capacity(n: usize) -> Self { HashMap { e: Vec::with_capacity(n), p: PhantomData } }
    }
    impl<K: Eq, V, S> HashMap<K, V, S> {
        fn pos<Q: ?Sized + Eq>(&self, k: &Q) -> Option<usize> where K: Borrow<Q> {
            let mut i = 0;
            while i < self.e.len() { if self.e[i].0.borrow() == k { return Some(i); } i += 1; }
            None
        }
        pub fn get<Q: ?Sized + Eq>(&self, k: &Q) -> Option<&V> where K: Borrow<Q> { match self.pos(k) { Some(i) => Some(&self.e[i].1), None => None } }
        pub fn get_mut<Q: ?Sized + Eq>(&mut self, k: &Q) -> Option<&mut V> where K: Borrow<Q> { match self.pos(k) { Some(i) => Some(&mut self.e[i].1), None => None } }
        pub fn get_key_value<Q: ?Sized + Eq>(&self, k: &Q) -> Option<(&K, &V)> where K: Borrow<Q> { match self.pos(k) { Some(i) => Some((&self.e[i].0, &self.e[i].1)), None => None } }
        pub fn contains_key<Q: ?Sized + Eq>(&self, k: &Q) -> bool where K: Borrow<Q> { self.pos(k).is_some() }
        pub fn insert(&mut self, k: K, v: V) -> Option<V> {
            match self.pos(&k) { Some(i) => Some(core::mem::replace(&mut self.e[i].1, v)), None => { self.e.push((k, v)); None } }
        }
        pub fn remove<Q: ?Sized + Eq>(&mut self, k: &Q) -> Option<V> where K: Borrow<Q> { match self.pos(k) { Some(i) => Some(self.e.remove(i).1), None => None } }
        pub fn remove_entry<Q: ?Sized + Eq>(&mut self, k: &Q) -> Option<(K, V)> where K: Borrow<Q> { match self.pos(k) { Some(i) => Some(self.e.remove(i)), None => None } }
        pub fn entry(&mut self, k: K) -> Entry<'_, K, V> {
            match self.pos(&k) { Some(i) => Entry::Occupied(OccupiedEntry { m: &mut self.e, i }), None => Entry::Vacant(VacantEntry { m: &mut self.e, k }) }
        }
    }
    impl<K, V, S> HashMap<K, V, S> {
        pub fn len(&self) -> usize { self.e.len() }
        pub fn is_empty(&self) -> bool { self.e.is_empty() }
        pub fn clear(&mut self) { self.e.clear() }
        pub fn reserve(&mut self, _: usize) {}
        pub fn iter(&self) -> Iter<'_, K, V> { Iter(self.e.iter()) }
        pub fn iter_mut(&mut self) -> IterMut<'_, K, V> { IterMut(self.e.iter_mut()) }
        pub fn keys(&self) -> impl ExactSizeIterator<Item = &K> + Clone { self.e.iter().map(|p| &p.0) }
        pub fn values(&self) -> impl ExactSizeIterator<Item = &V> + Clone { self.e.iter().map(|p| &p.1) }
        pub fn values_mut(&mut self) -> impl ExactSizeIterator<Item = &mut V> { self.e.iter_mut().map(|p| &mut p.1) }
        pub fn into_keys(self) -> impl ExactSizeIterator<Item = K> { self.e.into_iter().map(|p| p.0) }
        pub fn into_values(self) -> impl ExactSizeIterator<Item = V> { self.e.into_iter().map(|p| p.1) }
        pub fn drain(&mut self) -> impl ExactSizeIterator<Item = (K, V)> + '_ { self.e.drain(..) }
        pub fn retain<F: FnMut(&K, &mut V) -> bool>(&mut self, mut f: F) { self.e.retain_mut(|p| f(&p.0, &mut p.1)) }
    }
    pub struct Iter<'a, K, V>(core::slice::Iter<'a, (K, V)>);
    impl<'a, K, V> Clone for Iter<'a, K, V> { fn clone(&self) -> Self { Iter(self.0.clone()) } }
    impl<'a, K, V> Iterator for Iter<'a, K, V> { type Item = (&'a K, &'a V); fn next(&mut self) -> Option<Self::Item> { match self.0.next() { Some(p) => Some((&p.0, &p.1)), None => None } } fn size_hint(&self) -> (usize, Option<usize>) { self.0.size_hint() } }
    impl<'a, K, V> ExactSizeIterator for Iter<'a, K, V> {}
    pub struct IterMut<'a, K, V>(core::slice::IterMut<'a, (K, V)>);
    impl<'a, K, V> Iterator for IterMut<'a, K, V> { type Item = (&'a K, &'a mut V); fn next(&mut self) -> Option<Self::Item> { match self.0.next() { Some(p) => Some((&p.0, &mut p.1)), None => None } } fn size_hint(&self) -> (usize, Option<usize>) { self.0.size_hint() } }
    impl<K, V, S> IntoIterator for HashMap<K, V, S> { type Item = (K, V); type IntoIter = real::vec::IntoIter<(K, V)>; fn into_iter(self) -> Self::IntoIter { self.e.into_iter() } }
    impl<'a, K, V, S> IntoIterator for &'a HashMap<K, V, S> { type Item = (&'a K, &'a V); type IntoIter = Iter<'a, K, V>; fn into_iter(self) -> Self::IntoIter { self.iter() } }
    impl<'a, K, V, S> IntoIterator for &'a mut HashMap<K, V, S> { type Item = (&'a K, &'a mut V); type IntoIter = IterMut<'a, K, V>; fn into_iter(self) -> Self::IntoIter { self.iter_mut() } }
    impl<K: Eq, V, S> Extend<(K, V)> for HashMap<K, V, S> { fn extend<I: IntoIterator<Item = (K, V)>>(&mut self, i: I) { for (k, v) in i { self.insert(k, v); } } }
    impl<K: Eq, V, S> FromIterator<(K, V)> for HashMap<K, V, S> { fn from_iter<I: IntoIterator<Item = (K, V)>>(i: I) -> Self { let mut s = Self::default(); for (k, v) in i { s.insert(k, v); } s } }
    impl<K: Eq, V, const N: usize> From<[(K, V); N]> for HashMap<K, V> { fn from(a: [(K, V); N]) -> Self { a.into_iter().collect() } }
    impl<K: Eq, V: PartialEq, S> PartialEq for HashMap<K, V, S> { fn eq(&self, o: &Self) -> bool { self.len() == o.len() && self.iter().all(|(k, v)| o.get(k) == Some(v)) } }
    impl<K: Eq, V: Eq, S> Eq for HashMap<K, V, S> {}
    impl<K: Eq + Borrow<Q>, Q: ?Sized + Eq, V, S> core::ops::Index<&Q> for HashMap<K, V, S> { type Output = V; fn index(&self, k: &Q) -> &V { self.get(k).expect("no entry found for key") } }
    pub struct OccupiedEntry<'a, K, V> { m: &'a mut Vec<(K, V)>, i: usize }
    pub struct VacantEntry<'a, K, V> { m: &'a mut Vec<(K, V)>, k: K }
    pub enum Entry<'a, K, V> { Occupied(OccupiedEntry<'a, K, V>), Vacant(VacantEntry<'a, K, V>) }
    impl<'a, K, V> OccupiedEntry<'a, K, V> {
        pub fn key(&self) -> &K { &self.m[self.i].0 }
        pub fn get(&self) -> &V { &self.m[self.i].1 }
        pub fn get_mut(&mut self) -> &mut V { &mut self.m[self.i].1 }
        pub fn into_mut(self) -> &'a mut V { &mut self.m[self.i].1 }
        pub fn insert(&mut self, v: V) -> V { core::mem::replace(&mut self.m[self.i].1, v) }
        pub fn remove(self) -> V { self.m.remove(self.i).1 }
        pub fn remove_entry(self) -> (K, V) { self.m.remove(self.i) }
    }
    impl<'a, K, V> VacantEntry<'a, K, V> {
        pub fn key(&self) -> &K { &self.k }
        pub fn into_key(self) -> K { self.k }
        pub fn insert(self, v: V) -> &'a mut V { self.m.push((self.k, v)); let n = self.m.len() - 1; &mut self.m[n].1 }
    }
    impl<'a, K, V> Entry<'a, K, V> {
        pub fn insert_entry(self, v: V) -> OccupiedEntry<'a, K, V> { match self { Entry::Occupied(mut o) => { o.insert(v); o } Entry::Vacant(x) => { x.m.push((x.k, v)); let i = x.m.len() - 1; OccupiedEntry { m: x.m, i } } } }
        pub fn insert(self, v: V) -> OccupiedEntry<'a, K, V> { self.insert_entry(v) }
        pub fn key(&self) -> &K { match self { Entry::Occupied(o) => o.key(), Entry::Vacant(v) => v.key() } }
        pub fn or_insert(self, v: V) -> &'a mut V { match self { Entry::Occupied(o) => o.into_mut(), Entry::Vacant(x) => x.insert(v) } }
        pub fn or_insert_with<F: FnOnce() -> V>(self, f: F) -> &'a mut V { match self { Entry::Occupied(o) => o.into_mut(), Entry::Vacant(x) => x.insert(f()) } }
        pub fn or_default(self) -> &'a mut V where V: Default { self.or_insert_with(V::default) }
        pub fn and_modify<F: FnOnce(&mut V)>(mut self, f: F) -> Self { if let Entry::Occupied(o) = &mut self { f(o.get_mut()) } self }
    }

    pub struct HashSet<K, S = ()> { e: Vec<K>, p: PhantomData<S> }
    impl<K: Clone, S> Clone for HashSet<K, S> { fn clone(&self) -> Self { HashSet { e: self.e.clone(), p: PhantomData } } }
    impl<K, S> core::fmt::Debug for HashSet<K, S> { fn fmt(&self, _: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { Ok(()) } }
    impl<K, S> Default for HashSet<K, S> { fn default() -> Self { HashSet { e: Vec::new(), p: PhantomData } } }
    impl<K> HashSet<K> { pub fn new() -> Self { Self::default() } pub fn with_capacity(_: usize) -> Self { Self::default() } }
    impl<K: Eq, S> HashSet<K, S> {
        pub fn contains<Q: ?Sized + Eq>(&self, k: &Q) -> bool where K: Borrow<Q> { let mut i = 0; while i < self.e.len() { if self.e[i].borrow() == k { return true; } i += 1; } false }
        pub fn insert(&mut self, k: K) -> bool { if self.contains(&k) { false } else { self.e.push(k); true } }
        pub fn remove<Q: ?Sized + Eq>(&mut self, k: &Q) -> bool where K: Borrow<Q> { let mut i = 0; while i < self.e.len() { if self.e[i].borrow() == k { self.e.remove(i); return true; } i += 1; } false }
        pub fn is_subset(&self, o: &Self) -> bool { self.e.iter().all(|k| o.contains(k)) }
    }
    impl<K, S> HashSet<K, S> {
        pub fn len(&self) -> usize { self.e.len() }
        pub fn is_empty(&self) -> bool { self.e.is_empty() }
        pub fn iter(&self) -> core::slice::Iter<'_, K> { self.e.iter() }
        pub fn drain(&mut self) -> impl ExactSizeIterator<Item = K> + '_ { self.e.drain(..) }
    }
    impl<K, S> IntoIterator for HashSet<K, S> { type Item = K; type IntoIter = real::vec::IntoIter<K>; fn into_iter(self) -> Self::IntoIter { self.e.into_iter() } }
    impl<'a, K, S> IntoIterator for &'a HashSet<K, S> { type Item = &'a K; type IntoIter = core::slice::Iter<'a, K>; fn into_iter(self) -> Self::IntoIter { self.e.iter() } }
    impl<K: Eq, S> Extend<K> for HashSet<K, S> { fn extend<I: IntoIterator<Item = K>>(&mut self, i: I) { for k in i { self.insert(k); } } }
    impl<K: Eq, S> FromIterator<K> for HashSet<K, S> { fn from_iter<I: IntoIterator<Item = K>>(i: I) -> Self { let mut s = Self::default(); s.extend(i); s } }
    impl<K: Eq, const N: usize> From<[K; N]> for HashSet<K> { fn from(a: [K; N]) -> Self { a.into_iter().collect() } }
    impl<K: Eq, S> PartialEq for HashSet<K, S> { fn eq(&self, o: &Self) -> bool { self.len() == o.len() && self.is_subset(o) } }
    impl<K: Eq, S> Eq for HashSet<K, S> {}
}
mod tree {
    //! Sorted vectors with the observable behaviour of the B-tree collections.
    use real::prelude::rust_2021::*;
    use core::borrow::Borrow;
    use core::cmp::Ordering;
    fn find<T, Q: ?Sized + Ord>(e: &[T], k: &Q, f: impl Fn(&T) -> &Q) -> Result<usize, usize> {
        let mut i = 0;
        while i < e.len() { match f(&e[i]).cmp(k) { Ordering::Less => i += 1, Ordering::Equal => return Ok(i), Ordering::Greater => return Err(i) } }
        Err(i)
    }
    #[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
    pub struct BTreeSet<K> { e: Vec<K> }
    impl<K> Default for BTreeSet<K> { fn default() -> Self { BTreeSet { e: Vec::new() } } }
    impl<K> BTreeSet<K> {
        pub const fn new() -> Self { BTreeSet { e: Vec::new() } }
        pub fn len(&self) -> usize { self.e.len() }
        pub fn is_empty(&self) -> bool { self.e.is_empty() }
        pub fn iter(&self) -> core::slice::Iter<'_, K> { self.e.iter() }
        pub fn clear(&mut self) { self.e.clear() }
        pub fn first(&self) -> Option<&K> { self.e.first() }
        pub fn last(&self) -> Option<&K> { self.e.last() }
    }
    impl<K: Ord> BTreeSet<K> {
        pub fn insert(&mut self, k: K) -> bool { match find(&self.e, &k, |x| x) { Ok(_) => false, Err(i) => { self.e.insert(i, k); true } } }
        pub fn contains<Q: ?Sized + Ord>(&self, k: &Q) -> bool where K: Borrow<Q> { find(&self.e, k, |x| x.borrow()).is_ok() }
        pub fn remove<Q: ?Sized + Ord>(&mut self, k: &Q) -> bool where K: Borrow<Q> { match find(&self.e, k, |x| x.borrow()) { Ok(i) => { self.e.remove(i); true } Err(_) => false } }
    }
    impl<K> IntoIterator for BTreeSet<K> { type Item = K; type IntoIter = real::vec::IntoIter<K>; fn into_iter(self) -> Self::IntoIter { self.e.into_iter() } }
    impl<'a, K> IntoIterator for &'a BTreeSet<K> { type Item = &'a K; type IntoIter = core::slice::Iter<'a, K>; fn into_iter(self) -> Self::IntoIter { self.e.iter() } }
    impl<K: Ord> Extend<K> for BTreeSet<K> { fn extend<I: IntoIterator<Item = K>>(&mut self, i: I) { for k in i { self.insert(k); } } }
    impl<K: Ord> FromIterator<K> for BTreeSet<K> { fn from_iter<I: IntoIterator<Item = K>>(i: I) -> Self { let mut s = Self::default(); s.extend(i); s } }
    impl<K: Ord, const N: usize> From<[K; N]> for BTreeSet<K> { fn from(a: [K; N]) -> Self { a.into_iter().collect() } }

    #[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
    pub struct BTreeMap<K, V> { e: Vec<(K, V)> }
    impl<K, V> Default for BTreeMap<K, V> { fn default() -> Self { BTreeMap { e: Vec::new() } } }
    impl<K, V> BTreeMap<K, V> {
        pub const fn new() -> Self { BTreeMap { e: Vec::new() } }
        pub fn len(&self) -> usize { self.e.len() }
        pub fn is_empty(&self) -> bool { self.e.is_empty() }
        pub fn clear(&mut self) { self.e.clear() }
        pub fn iter(&self) -> impl DoubleEndedIterator<Item = (&K, &V)> + ExactSizeIterator + Clone { self.e.iter().map(|p| (&p.0, &p.1)) }
        pub fn iter_mut(&mut self) -> impl DoubleEndedIterator<Item = (&K, &mut V)> + ExactSizeIterator { self.e.iter_mut().map(|p| (&p.0, &mut p.1)) }
        pub fn keys(&self) -> impl DoubleEndedIterator<Item = &K> + ExactSizeIterator + Clone { self.e.iter().map(|p| &p.0) }
        pub fn values(&self) -> impl DoubleEndedIterator<Item = &V> + ExactSizeIterator + Clone { self.e.iter().map(|p| &p.1) }
        pub fn values_mut(&mut self) -> impl DoubleEndedIterator<Item = &mut V> + ExactSizeIterator { self.e.iter_mut().map(|p| &mut p.1) }
        pub fn into_keys(self) -> impl DoubleEndedIterator<Item = K> + ExactSizeIterator { self.e.into_iter().map(|p| p.0) }
        pub fn into_values(self) -> impl DoubleEndedIterator<Item = V> + ExactSizeIterator { self.e.into_iter().map(|p| p.1) }
        pub fn first_key_value(&self) -> Option<(&K, &V)> { self.e.first().map(|p| (&p.0, &p.1)) }
        pub fn last_key_value(&self) -> Option<(&K, &V)> { self.e.last().map(|p| (&p.0, &p.1)) }
    }
    impl<K: Ord, V> BTreeMap<K, V> {
        pub fn get<Q: ?Sized + Ord>(&self, k: &Q) -> Option<&V> where K: Borrow<Q> { match find(&self.e, k, |x| x.0.borrow()) { Ok(i) => Some(&self.e[i].1), Err(_) => None } }
        pub fn get_mut<Q: ?Sized + Ord>(&mut self, k: &Q) -> Option<&mut V> where K: Borrow<Q> { match find(&self.e, k, |x| x.0.borrow()) { Ok(i) => Some(&mut self.e[i].1), Err(_) => None } }
        pub fn contains_key<Q: ?Sized + Ord>(&self, k: &Q) -> bool where K: Borrow<Q> { find(&self.e, k, |x| x.0.borrow()).is_ok() }
        pub fn insert(&mut self, k: K, v: V) -> Option<V> { match find(&self.e, &k, |x| &x.0) { Ok(i) => Some(core::mem::replace(&mut self.e[i].1, v)), Err(i) => { self.e.insert(i, (k, v)); None } } }
        pub fn remove<Q: ?Sized + Ord>(&mut self, k: &Q) -> Option<V> where K: Borrow<Q> { match find(&self.e, k, |x| x.0.borrow()) { Ok(i) => Some(self.e.remove(i).1), Err(_) => None } }
        pub fn entry(&mut self, k: K) -> Entry<'_, K, V> { match find(&self.e, &k, |x| &x.0) { Ok(i) => Entry::Occupied(OccupiedEntry { m: &mut self.e, i }), Err(i) => Entry::Vacant(VacantEntry { m: &mut self.e, i, k }) } }
    }
    pub enum Entry<'a, K, V> { Vacant(VacantEntry<'a, K, V>), Occupied(OccupiedEntry<'a, K, V>) }
    pub struct OccupiedEntry<'a, K, V> { m: &'a mut Vec<(K, V)>, i: usize }
    pub struct VacantEntry<'a, K, V> { m: &'a mut Vec<(K, V)>, i: usize, k: K }
    impl<'a, K, V> OccupiedEntry<'a, K, V> {
        pub fn key(&self) -> &K { &self.m[self.i].0 }
        pub fn get(&self) -> &V { &self.m[self.i].1 }
        pub fn get_mut(&mut self) -> &mut V { &mut self.m[self.i].1 }
        pub fn into_mut(self) -> &'a mut V { &mut self.m[self.i].1 }
        pub fn insert(&mut self, v: V) -> V { core::mem::replace(&mut self.m[self.i].1, v) }
        pub fn remove(self) -> V { self.m.remove(self.i).1 }
        pub fn remove_entry(self) -> (K, V) { self.m.remove(self.i) }
    }
    impl<'a, K, V> VacantEntry<'a, K, V> {
        pub fn key(&self) -> &K { &self.k }
        pub fn into_key(self) -> K { self.k }
        pub fn insert(self, v: V) -> &'a mut V { self.m.insert(self.i, (self.k, v)); &mut self.m[self.i].1 }
    }
    impl<'a, K, V> Entry<'a, K, V> {
        pub fn key(&self) -> &K { match self { Entry::Occupied(o) => o.key(), Entry::Vacant(v) => v.key() } }
        pub fn or_insert_with<F: FnOnce() -> V>(self, f: F) -> &'a mut V { match self { Entry::Occupied(o) => o.into_mut(), Entry::Vacant(x) => x.insert(f()) } }
        pub fn or_insert(self, v: V) -> &'a mut V { self.or_insert_with(|| v) }
        pub fn or_default(self) -> &'a mut V where V: Default { self.or_insert_with(V::default) }
        pub fn and_modify<F: FnOnce(&mut V)>(mut self, f: F) -> Self { if let Entry::Occupied(o) = &mut self { f(o.get_mut()) } self }
    }
    impl<K, V> IntoIterator for BTreeMap<K, V> { type Item = (K, V); type IntoIter = real::vec::IntoIter<(K, V)>; fn into_iter(self) -> Self::IntoIter { self.e.into_iter() } }
    impl<K: Ord, V> Extend<(K, V)> for BTreeMap<K, V> { fn extend<I: IntoIterator<Item = (K, V)>>(&mut self, i: I) { for (k, v) in i { self.insert(k, v); } } }
    impl<K: Ord, V> FromIterator<(K, V)> for BTreeMap<K, V> { fn from_iter<I: IntoIterator<Item = (K, V)>>(i: I) -> Self { let mut s = Self::default(); s.extend(i); s } }
    impl<K: Ord, V, const N: usize> From<[(K, V); N]> for BTreeMap<K, V> { fn from(a: [(K, V); N]) -> Self { a.into_iter().collect() } }
}
