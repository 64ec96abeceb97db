//! stand-in for `sequence_trie`, which is not installed here: paths and the values stored under them
use std::hash::Hash;
#[derive(Debug)]
pub struct SequenceTrie<K, V>(Vec<(Vec<K>, V)>);
impl<K: Clone + Eq + Hash, V> SequenceTrie<K, V> {
    #[allow(clippy::new_without_default)]
    pub fn new() -> Self {
        SequenceTrie(vec![])
    }
    fn key<'a, I: IntoIterator<Item = &'a K>>(p: I) -> Vec<K>
    where
        K: 'a,
    {
        p.into_iter().cloned().collect()
    }
    pub fn get_mut<'a, I: IntoIterator<Item = &'a K>>(&mut self, p: I) -> Option<&mut V>
    where
        K: 'a,
    {
        let k = Self::key(p);
        self.0.iter_mut().find(|(x, _)| *x == k).map(|(_, v)| v)
    }
    pub fn get<'a, I: IntoIterator<Item = &'a K>>(&self, p: I) -> Option<&V>
    where
        K: 'a,
    {
        let k = Self::key(p);
        self.0.iter().find(|(x, _)| *x == k).map(|(_, v)| v)
    }
    pub fn insert<'a, I: IntoIterator<Item = &'a K>>(&mut self, p: I, v: V)
    where
        K: 'a,
    {
        let k = Self::key(p);
        self.0.retain(|(x, _)| *x != k);
        self.0.push((k, v));
    }
    pub fn get_node<'a, I: IntoIterator<Item = &'a K>>(&self, p: I) -> Option<Node<'_, K, V>>
    where
        K: 'a,
    {
        let k = Self::key(p);
        self.0.iter().any(|(x, _)| x.starts_with(&k)).then(|| Node(self, k.len(), k))
    }
}
pub struct Node<'t, K, V>(&'t SequenceTrie<K, V>, usize, Vec<K>);
impl<'t, K: Clone + Eq + Hash, V> Node<'t, K, V> {
    pub fn iter(&self) -> impl Iterator<Item = (Vec<&'t K>, &'t V)> {
        let (n, k, t) = (self.1, self.2.clone(), self.0);
        t.0.iter().filter(move |(x, _)| x.starts_with(&k)).map(move |(x, v)| (x[n..].iter().collect(), v))
    }
}
