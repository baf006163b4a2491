//! Stand-in for lru-cache 0.1: a map which evicts its least recently used entry.
use std::borrow::Borrow;
use std::collections::hash_map::RandomState;
use std::collections::HashMap;
use std::hash::{BuildHasher, Hash};

pub struct LruCache<K: Eq + Hash, V, S: BuildHasher = RandomState> {
    map: HashMap<K, (u64, V), S>,
    clock: u64,
    max_size: usize,
}

impl<K: Eq + Hash, V> LruCache<K, V> {
    pub fn new(capacity: usize) -> Self {
        LruCache { map: HashMap::new(), clock: 0, max_size: capacity }
    }
}

impl<K: Eq + Hash, V, S: BuildHasher> LruCache<K, V, S> {
    fn tick(&mut self) -> u64 {
        self.clock += 1;
        self.clock
    }

    pub fn contains_key<Q: ?Sized + Eq + Hash>(&mut self, key: &Q) -> bool
    where
        K: Borrow<Q>,
    {
        self.get_mut(key).is_some()
    }

    pub fn get_mut<Q: ?Sized + Eq + Hash>(&mut self, key: &Q) -> Option<&mut V>
    where
        K: Borrow<Q>,
    {
        let now = self.tick();
        self.map.get_mut(key).map(|entry| {
            entry.0 = now;
            &mut entry.1
        })
    }

    pub fn remove<Q: ?Sized + Eq + Hash>(&mut self, key: &Q) -> Option<V>
    where
        K: Borrow<Q>,
    {
        self.map.remove(key).map(|(_, v)| v)
    }

    pub fn capacity(&self) -> usize {
        self.max_size
    }

    pub fn len(&self) -> usize {
        self.map.len()
    }

    pub fn is_empty(&self) -> bool {
        self.map.is_empty()
    }

    pub fn clear(&mut self) {
        self.map.clear()
    }
}

impl<K: Eq + Hash + Clone, V, S: BuildHasher> LruCache<K, V, S> {
    pub fn insert(&mut self, key: K, value: V) -> Option<V> {
        let now = self.tick();
        let old = self.map.insert(key, (now, value)).map(|(_, v)| v);
        while self.map.len() > self.max_size {
            self.remove_lru();
        }
        old
    }

    pub fn remove_lru(&mut self) -> Option<(K, V)> {
        let key = self.map.iter().min_by_key(|(_, (t, _))| *t).map(|(k, _)| k.clone())?;
        self.map.remove_entry(&key).map(|(k, (_, v))| (k, v))
    }

    pub fn set_capacity(&mut self, capacity: usize) {
        self.max_size = capacity;
        while self.map.len() > self.max_size {
            self.remove_lru();
        }
    }
}
