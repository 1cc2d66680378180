//! Stands in for the crate of this name, which cannot be had here.  A filter
//! that forgets nothing and never errs is one of those it may be.
use std::{
    collections::{hash_map::DefaultHasher, HashSet},
    hash::{Hash, Hasher},
    marker::PhantomData,
};

pub trait BloomFilter {
    fn insert<T: Hash>(&mut self, item: &T);
    fn contains<T: Hash>(&self, item: &T) -> bool;
    fn reset(&mut self);
}

pub struct DefaultBuildHashKernels<B>(PhantomData<B>);

impl<B> DefaultBuildHashKernels<B> {
    pub fn new(_start: usize, _hasher: B) -> Self {
        DefaultBuildHashKernels(PhantomData)
    }
}

pub struct StableBloomFilter<K>(HashSet<u64>, PhantomData<K>);

fn digest<T: Hash>(item: &T) -> u64 {
    let mut h = DefaultHasher::new();
    item.hash(&mut h);
    h.finish()
}

impl<K> StableBloomFilter<K> {
    pub fn new(_cells: usize, _bits: u8, _rate: f64, _kernels: K) -> Self {
        StableBloomFilter(HashSet::new(), PhantomData)
    }
}

impl<K> BloomFilter for StableBloomFilter<K> {
    fn insert<T: Hash>(&mut self, item: &T) {
        self.0.insert(digest(item));
    }
    fn contains<T: Hash>(&self, item: &T) -> bool {
        self.0.contains(&digest(item))
    }
    fn reset(&mut self) {
        self.0.clear()
    }
}
