//! stand-in for `hamt-sync`, which is not installed here: a persistent map, kept as a shared ordered list
use std::sync::Arc;
#[derive(Debug)]
pub struct Map<K, V>(Arc<Vec<(K, V)>>);
impl<K, V> Clone for Map<K, V> {
    fn clone(&self) -> Self {
        Map(self.0.clone())
    }
}
impl<K: Clone + PartialEq, V: Clone> Map<K, V> {
    #[allow(clippy::new_without_default)]
    pub fn new() -> Self {
        Map(Arc::new(vec![]))
    }
    pub fn find(&self, k: &K) -> Option<&V> {
        self.0.iter().find(|(x, _)| x == k).map(|(_, v)| v)
    }
    pub fn insert(&self, k: K, v: V) -> Self {
        let mut r: Vec<(K, V)> = self.0.iter().filter(|(x, _)| *x != k).cloned().collect();
        r.push((k, v));
        Map(Arc::new(r))
    }
}
