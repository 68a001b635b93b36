pub use self::btree_map::BTreeMap;
pub use self::hash_map::HashMap;
pub use self::hash_set::HashSet;
pub use self::hash_set::HashSet as BTreeSet;
pub use std::collections::*;

pub mod hash_map {
    use crate::vec::Vec;
    use std::borrow::Borrow;
    /// Insertion-ordered association list (sorted on insertion when `SORTED`).
    #[derive(Clone, Debug)]
    pub struct Map<K, V, const SORTED: bool> {
        keys: Vec<K>,
        vals: Vec<V>,
    }
    pub type HashMap<K, V> = Map<K, V, false>;
    impl<K, V, const S: bool> Map<K, V, S> {
        pub fn new() -> Self {
            Map { keys: Vec::new(), vals: Vec::new() }
        }
        pub fn len(&self) -> usize {
            self.keys.len()
        }
        pub fn is_empty(&self) -> bool {
            self.keys.is_empty()
        }
        pub fn keys(&self) -> std::slice::Iter<'_, K> {
            self.keys.iter()
        }
        pub fn values(&self) -> std::slice::Iter<'_, V> {
            self.vals.iter()
        }
        pub fn values_mut(&mut self) -> std::slice::IterMut<'_, V> {
            self.vals.iter_mut()
        }
        pub fn into_values(self) -> crate::vec::IntoIter<V> {
            self.vals.into_iter()
        }
        pub fn iter(&self) -> std::iter::Zip<std::slice::Iter<'_, K>, std::slice::Iter<'_, V>> {
            self.keys.iter().zip(self.vals.iter())
        }
        /// Model only.
        pub fn slices(&self) -> (&[K], &[V]) {
            (&self.keys, &self.vals)
        }
        fn find<Q: ?Sized + PartialEq>(&self, k: &Q) -> Option<usize>
        where
            K: Borrow<Q>,
        {
            let mut i = 0;
            while i < self.keys.len() {
                if self.keys[i].borrow() == k {
                    return Some(i);
                }
                i += 1;
            }
            None
        }
        pub fn contains_key<Q: ?Sized + PartialEq>(&self, k: &Q) -> bool
        where
            K: Borrow<Q>,
        {
            self.find(k).is_some()
        }
        pub fn get<Q: ?Sized + PartialEq>(&self, k: &Q) -> Option<&V>
        where
            K: Borrow<Q>,
        {
            self.find(k).map(|i| &self.vals[i])
        }
        pub fn get_mut<Q: ?Sized + PartialEq>(&mut self, k: &Q) -> Option<&mut V>
        where
            K: Borrow<Q>,
        {
            self.find(k).map(|i| &mut self.vals[i])
        }
        pub fn remove<Q: ?Sized + PartialEq>(&mut self, k: &Q) -> Option<V>
        where
            K: Borrow<Q>,
        {
            let i = self.find(k)?;
            self.keys.remove(i);
            Some(self.vals.remove(i))
        }
    }
    impl<K: Ord, V, const S: bool> Map<K, V, S> {
        pub fn insert(&mut self, k: K, v: V) -> Option<V> {
            let mut i = 0;
            while i < self.keys.len() {
                if self.keys[i] == k {
                    return Some(std::mem::replace(&mut self.vals[i], v));
                }
                if S && self.keys[i] > k {
                    break;
                }
                i += 1;
            }
            if S {
                self.keys.insert(i, k);
                self.vals.insert(i, v);
            } else {
                self.keys.push(k);
                self.vals.push(v);
            }
            None
        }
        pub fn entry(&mut self, k: K) -> Entry<'_, K, V, S> {
            let mut i = 0;
            while i < self.keys.len() {
                if self.keys[i] == k {
                    return Entry::Occupied(OccupiedEntry { m: self, i, k });
                }
                i += 1;
            }
            Entry::Vacant(VacantEntry { m: self, k })
        }
    }
    impl<K, V, const S: bool> Default for Map<K, V, S> {
        fn default() -> Self {
            Self::new()
        }
    }
    impl<'a, K, V, const S: bool> IntoIterator for &'a Map<K, V, S> {
        type Item = (&'a K, &'a V);
        type IntoIter = std::iter::Zip<std::slice::Iter<'a, K>, std::slice::Iter<'a, V>>;
        fn into_iter(self) -> Self::IntoIter {
            self.iter()
        }
    }
    impl<K, V, const S: bool> IntoIterator for Map<K, V, S> {
        type Item = (K, V);
        type IntoIter = std::iter::Zip<crate::vec::IntoIter<K>, crate::vec::IntoIter<V>>;
        fn into_iter(self) -> Self::IntoIter {
            self.keys.into_iter().zip(self.vals.into_iter())
        }
    }
    impl<K: Ord, V, const S: bool> FromIterator<(K, V)> for Map<K, V, S> {
        fn from_iter<I: IntoIterator<Item = (K, V)>>(it: I) -> Self {
            let mut m = Self::new();
            for (k, v) in it {
                m.insert(k, v);
            }
            m
        }
    }
    pub enum Entry<'a, K, V, const S: bool> {
        Occupied(OccupiedEntry<'a, K, V, S>),
        Vacant(VacantEntry<'a, K, V, S>),
    }
    pub struct OccupiedEntry<'a, K, V, const S: bool> {
        m: &'a mut Map<K, V, S>,
        i: usize,
        k: K,
    }
    impl<'a, K, V, const S: bool> OccupiedEntry<'a, K, V, S> {
        pub fn key(&self) -> &K {
            &self.k
        }
        pub fn get(&self) -> &V {
            &self.m.vals[self.i]
        }
        pub fn get_mut(&mut self) -> &mut V {
            &mut self.m.vals[self.i]
        }
        pub fn into_mut(self) -> &'a mut V {
            &mut self.m.vals[self.i]
        }
        pub fn insert(&mut self, v: V) -> V {
            std::mem::replace(&mut self.m.vals[self.i], v)
        }
    }
    pub struct VacantEntry<'a, K, V, const S: bool> {
        m: &'a mut Map<K, V, S>,
        k: K,
    }
    impl<'a, K: Ord, V, const S: bool> VacantEntry<'a, K, V, S> {
        pub fn key(&self) -> &K {
            &self.k
        }
        pub fn insert(self, v: V) -> &'a mut V {
            let mut i = self.m.keys.len();
            if S {
                i = 0;
                while i < self.m.keys.len() && self.m.keys[i] < self.k {
                    i += 1;
                }
            }
            self.m.keys.insert(i, self.k);
            self.m.vals.insert(i, v);
            &mut self.m.vals[i]
        }
    }
}
pub mod btree_map {
    pub use super::hash_map::Entry;
    pub type BTreeMap<K, V> = super::hash_map::Map<K, V, true>;
}
pub mod hash_set {
    use crate::vec::Vec;
    #[derive(Clone, Debug)]
    pub struct HashSet<K> {
        keys: Vec<K>,
    }
    impl<K: PartialEq> HashSet<K> {
        pub fn new() -> Self {
            HashSet { keys: Vec::new() }
        }
        pub fn len(&self) -> usize {
            self.keys.len()
        }
        pub fn is_empty(&self) -> bool {
            self.keys.is_empty()
        }
        pub fn contains<Q: ?Sized + PartialEq>(&self, k: &Q) -> bool
        where
            K: std::borrow::Borrow<Q>,
        {
            let mut i = 0;
            while i < self.keys.len() {
                if self.keys[i].borrow() == k {
                    return true;
                }
                i += 1;
            }
            false
        }
        pub fn insert(&mut self, k: K) -> bool {
            let mut i = 0;
            while i < self.keys.len() {
                if self.keys[i] == k {
                    return false;
                }
                i += 1;
            }
            self.keys.push(k);
            true
        }
        pub fn iter(&self) -> std::slice::Iter<'_, K> {
            self.keys.iter()
        }
    }
    impl<K: PartialEq> Default for HashSet<K> {
        fn default() -> Self {
            Self::new()
        }
    }
}
