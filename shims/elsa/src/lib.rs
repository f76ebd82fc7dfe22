//! Stand-in for elsa's FrozenMap: an insert-only map; inserting under a key that is there changes nothing.
use std::borrow::Borrow;
use std::cell::UnsafeCell;
use std::collections::HashMap;
use std::hash::Hash;
use std::ops::Deref;

pub struct FrozenMap<K, V> {
    map: UnsafeCell<HashMap<K, V>>,
}
impl<K: Eq + Hash, V> FrozenMap<K, V> {
    pub fn new() -> Self {
        Self { map: UnsafeCell::new(HashMap::new()) }
    }
    pub fn len(&self) -> usize {
        unsafe { (*self.map.get()).len() }
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
}
// SAFETY: entries are never removed or replaced, and what the values deref to does not move with them.
impl<K: Eq + Hash, V: Deref> FrozenMap<K, V> {
    pub fn insert(&self, k: K, v: V) -> &V::Target {
        unsafe { (*self.map.get()).entry(k).or_insert(v) }
    }
    pub fn get<Q: ?Sized + Hash + Eq>(&self, k: &Q) -> Option<&V::Target>
    where
        K: Borrow<Q>,
    {
        unsafe { (*self.map.get()).get(k).map(|v| &**v) }
    }
}
impl<K: Eq + Hash, V> FrozenMap<K, V> {
    pub fn map_get<Q: ?Sized + Hash + Eq, T, F: FnOnce(&V) -> T>(&self, k: &Q, f: F) -> Option<T>
    where
        K: Borrow<Q>,
    {
        unsafe { (*self.map.get()).get(k).map(f) }
    }
    pub fn into_map(self) -> HashMap<K, V> {
        self.map.into_inner()
    }
}
impl<K: Eq + Hash, V> Default for FrozenMap<K, V> {
    fn default() -> Self {
        Self::new()
    }
}
impl<K: Eq + Hash + Clone, V: Clone> Clone for FrozenMap<K, V> {
    fn clone(&self) -> Self {
        Self { map: UnsafeCell::new(unsafe { (*self.map.get()).clone() }) }
    }
}
impl<K: Eq + Hash, V> From<HashMap<K, V>> for FrozenMap<K, V> {
    fn from(map: HashMap<K, V>) -> Self {
        Self { map: UnsafeCell::new(map) }
    }
}
