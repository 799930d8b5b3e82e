//! Association-list model of im's persistent maps: same observable map/set
//! behaviour (last insert wins, clone is a snapshot), iteration in insertion order.
pub mod hashmap {
    use std::borrow::Borrow;
    /// `f` (the first entry) is stored inline so that a one-entry map stays a
    /// plain value for the symbolic executor; later entries go to `r`.
    #[derive(Clone, Debug)]
    pub struct HashMap<K, V> { f: Option<(K, V)>, r: Vec<(K, V)> }
    impl<K, V> Default for HashMap<K, V> { fn default() -> Self { HashMap { f: None, r: Vec::new() } } }
    impl<K: Eq, V> HashMap<K, V> {
        pub fn new() -> Self { Self::default() }
        fn pos<Q: ?Sized + Eq>(&self, k: &Q) -> Option<usize> where K: Borrow<Q> {
            let mut i = 0;
            while i < self.r.len() {
                if self.r[i].0.borrow() == k { return Some(i); }
                i += 1;
            }
            None
        }
        pub fn get<Q: ?Sized + Eq>(&self, k: &Q) -> Option<&V> where K: Borrow<Q> {
            if let Some((a, v)) = &self.f { if a.borrow() == k { return Some(v); } }
            match self.pos(k) { Some(i) => Some(&self.r[i].1), None => None }
        }
        pub fn get_mut<Q: ?Sized + Eq>(&mut self, k: &Q) -> Option<&mut V> where K: Borrow<Q> {
            let hit = match &self.f { Some((a, _)) => a.borrow() == k, None => false };
            if hit { return match &mut self.f { Some((_, v)) => Some(v), None => None }; }
            match self.pos(k) { Some(i) => Some(&mut self.r[i].1), None => None }
        }
        pub fn contains_key<Q: ?Sized + Eq>(&self, k: &Q) -> bool where K: Borrow<Q> { self.get(k).is_some() }
        pub fn insert(&mut self, k: K, v: V) -> Option<V> {
            match &mut self.f {
                None => { if self.r.is_empty() { self.f = Some((k, v)); return None; } }
                Some((a, old)) => { if *a == k { return Some(core::mem::replace(old, v)); } }
            }
            match self.pos(&k) {
                Some(i) => Some(core::mem::replace(&mut self.r[i].1, v)),
                None => {
                    if self.r.capacity() == 0 { self.r.reserve_exact(16); }
                    self.r.push((k, v)); None
                }
            }
        }
        pub fn update(&self, k: K, v: V) -> Self where K: Clone, V: Clone { let mut s = self.clone(); s.insert(k, v); s }
        pub fn remove<Q: ?Sized + Eq>(&mut self, k: &Q) -> Option<V> where K: Borrow<Q> {
            let hit = match &self.f { Some((a, _)) => a.borrow() == k, None => false };
            if hit { return match self.f.take() { Some((_, v)) => Some(v), None => None }; }
            match self.pos(k) { Some(i) => Some(self.r.remove(i).1), None => None }
        }
        pub fn union(self, other: Self) -> Self { let mut s = self; for (k, v) in other { if !s.contains_key(&k) { s.insert(k, v); } } s }
    }
    impl<K, V> HashMap<K, V> {
        pub fn len(&self) -> usize { self.f.is_some() as usize + self.r.len() }
        pub fn is_empty(&self) -> bool { self.len() == 0 }
        pub fn iter(&self) -> Iter<'_, K, V> { Iter(self.f.as_ref(), self.r.iter()) }
        pub fn keys(&self) -> Keys<'_, K, V> { Keys(self.iter()) }
        pub fn values(&self) -> Values<'_, K, V> { Values(self.iter()) }
    }
    pub struct Iter<'a, K, V>(Option<&'a (K, V)>, core::slice::Iter<'a, (K, V)>);
    impl<'a, K, V> Clone for Iter<'a, K, V> { fn clone(&self) -> Self { Iter(self.0, self.1.clone()) } }
    impl<'a, K, V> Iterator for Iter<'a, K, V> {
        type Item = (&'a K, &'a V);
        fn next(&mut self) -> Option<Self::Item> {
            if let Some(p) = self.0.take() { return Some((&p.0, &p.1)); }
            match self.1.next() { Some(p) => Some((&p.0, &p.1)), None => None }
        }
        fn size_hint(&self) -> (usize, Option<usize>) { let n = self.0.is_some() as usize + self.1.len(); (n, Some(n)) }
    }
    impl<'a, K, V> ExactSizeIterator for Iter<'a, K, V> {}
    pub struct Keys<'a, K, V>(Iter<'a, K, V>);
    impl<'a, K, V> Clone for Keys<'a, K, V> { fn clone(&self) -> Self { Keys(self.0.clone()) } }
    impl<'a, K, V> Iterator for Keys<'a, K, V> { type Item = &'a K; fn next(&mut self) -> Option<Self::Item> { match self.0.next() { Some(p) => Some(p.0), None => None } } fn size_hint(&self) -> (usize, Option<usize>) { self.0.size_hint() } }
    pub struct Values<'a, K, V>(Iter<'a, K, V>);
    impl<'a, K, V> Clone for Values<'a, K, V> { fn clone(&self) -> Self { Values(self.0.clone()) } }
    impl<'a, K, V> Iterator for Values<'a, K, V> { type Item = &'a V; fn next(&mut self) -> Option<Self::Item> { match self.0.next() { Some(p) => Some(p.1), None => None } } fn size_hint(&self) -> (usize, Option<usize>) { self.0.size_hint() } }
    pub struct IntoIter<K, V>(Option<(K, V)>, std::vec::IntoIter<(K, V)>);
    impl<K, V> Iterator for IntoIter<K, V> {
        type Item = (K, V);
        fn next(&mut self) -> Option<Self::Item> { if let Some(p) = self.0.take() { return Some(p); } self.1.next() }
        fn size_hint(&self) -> (usize, Option<usize>) { let n = self.0.is_some() as usize + self.1.len(); (n, Some(n)) }
    }
    impl<K, V> ExactSizeIterator for IntoIter<K, V> {}
    impl<K, V> IntoIterator for HashMap<K, V> { type Item = (K, V); type IntoIter = IntoIter<K, V>; fn into_iter(self) -> Self::IntoIter { IntoIter(self.f, self.r.into_iter()) } }
    impl<'a, K, V> IntoIterator for &'a HashMap<K, V> { type Item = (&'a K, &'a V); type IntoIter = Iter<'a, K, V>; fn into_iter(self) -> Self::IntoIter { self.iter() } }
    impl<K: Eq, V> Extend<(K, V)> for HashMap<K, V> { fn extend<I: IntoIterator<Item = (K, V)>>(&mut self, i: I) { for (k, v) in i { self.insert(k, v); } } }
    impl<K: Eq, V> FromIterator<(K, V)> for HashMap<K, V> { fn from_iter<I: IntoIterator<Item = (K, V)>>(i: I) -> Self { let mut s = Self::default(); for (k, v) in i { s.insert(k, v); } s } }
    impl<K: Eq, V: PartialEq> PartialEq for HashMap<K, V> { fn eq(&self, o: &Self) -> bool { self.len() == o.len() && self.iter().all(|(k, v)| o.get(k) == Some(v)) } }
    impl<K: Eq, V: Eq> Eq for HashMap<K, V> {}
    impl<K: Eq, V> std::ops::Index<&K> for HashMap<K, V> { type Output = V; fn index(&self, k: &K) -> &V { self.get(k).expect("key") } }
}
pub mod hashset {
    #[derive(Clone, Debug)]
    pub struct HashSet<K> { e: Vec<K> }
    impl<K> Default for HashSet<K> { fn default() -> Self { HashSet { e: Vec::new() } } }
    impl<K: Eq> HashSet<K> {
        pub fn new() -> Self { Self::default() }
        pub fn contains(&self, k: &K) -> bool { let mut i = 0; while i < self.e.len() { if &self.e[i] == k { return true; } i += 1; } false }
        pub fn insert(&mut self, k: K) -> Option<K> { if !self.contains(&k) { if self.e.capacity() == 0 { self.e.reserve_exact(16); } self.e.push(k); } None }
    }
    impl<K> HashSet<K> {
        pub fn len(&self) -> usize { self.e.len() }
        pub fn is_empty(&self) -> bool { self.e.is_empty() }
        pub fn iter(&self) -> std::slice::Iter<'_, K> { self.e.iter() }
    }
    impl<K: Eq> FromIterator<K> for HashSet<K> { fn from_iter<I: IntoIterator<Item = K>>(i: I) -> Self { let mut s = Self::default(); for k in i { s.insert(k); } s } }
    impl<K: Eq> Extend<K> for HashSet<K> { fn extend<I: IntoIterator<Item = K>>(&mut self, i: I) { for k in i { self.insert(k); } } }
    impl<K> IntoIterator for HashSet<K> { type Item = K; type IntoIter = std::vec::IntoIter<K>; fn into_iter(self) -> Self::IntoIter { self.e.into_iter() } }
    impl<'a, K> IntoIterator for &'a HashSet<K> { type Item = &'a K; type IntoIter = std::slice::Iter<'a, K>; fn into_iter(self) -> Self::IntoIter { self.e.iter() } }
}
pub use hashmap::HashMap;
pub use hashset::HashSet;
