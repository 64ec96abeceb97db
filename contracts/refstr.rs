// ===== shared strings and the text-keyed hash map (std::rc::Rc<str>, hashbrown::HashMap): contracts ASSUMED =====
pub mod rs {
use vstd::prelude::*;

#[verifier::external_body]
pub struct RefStr { _p: () }
impl View for RefStr { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl Clone for RefStr {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r@ == self@ { unimplemented!() }
}
impl RefStr {
    #[verifier::external_body]
    pub fn as_ref(&self) -> (r: &str) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn from<T: TextSource>(t: T) -> (r: RefStr) ensures r@ == t.chars_of() { unimplemented!() }
}
pub trait TextSource { spec fn chars_of(&self) -> Seq<char>; }
impl TextSource for String { open spec fn chars_of(&self) -> Seq<char> { self@ } }
impl<'a> TextSource for &'a str { open spec fn chars_of(&self) -> Seq<char> { self@ } }

// a shared string is its text
pub broadcast axiom fn axiom_ref_cloned(a: RefStr, b: RefStr)
    requires #[trigger] vstd::pervasive::cloned(a, b),
    ensures a@ == b@;

#[verifier::external_body]
pub fn same_text(a: Option<&str>, b: &RefStr) -> (r: bool)
    ensures r == (a matches Some(s) && s@ == b@)
{ unimplemented!() }

pub trait TextKey { spec fn key_text(&self) -> Seq<char>; }
impl TextKey for RefStr { open spec fn key_text(&self) -> Seq<char> { self@ } }
impl TextKey for str { open spec fn key_text(&self) -> Seq<char> { self@ } }

#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct HashMap<K, V> { _k: core::marker::PhantomData<K>, _v: core::marker::PhantomData<V> }
impl<V> View for HashMap<RefStr, V> { type V = Map<Seq<char>, V>; uninterp spec fn view(&self) -> Map<Seq<char>, V>; }
impl<V> HashMap<RefStr, V> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<Seq<char>, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn with_capacity(n: usize) -> (r: Self) ensures r@ == Map::<Seq<char>, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn get<Q: TextKey + ?Sized>(&self, k: &Q) -> (r: Option<&V>)
        ensures
            self@.contains_key(k.key_text()) ==> r == Some(&self@[k.key_text()]),
            !self@.contains_key(k.key_text()) ==> r is None,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key<Q: TextKey + ?Sized>(&self, k: &Q) -> (r: bool) ensures r == self@.contains_key(k.key_text()) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: RefStr, v: V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert(k@, v) { unimplemented!() }
    #[verifier::external_body]
    pub fn entry<'a>(&'a mut self, k: RefStr) -> (r: Entry<'a, V>)
        ensures
            r matches Entry::Occupied(e) ==> old(self)@.contains_key(k@) && *e.map == *old(self) && *final(e.map) == *final(self) && e.key@ == k@,
            r matches Entry::Vacant(e) ==> !old(self)@.contains_key(k@) && *e.map == *old(self) && *final(e.map) == *final(self) && e.key@ == k@,
    { unimplemented!() }
}
pub enum Entry<'a, V> { Occupied(OccupiedEntry<'a, V>), Vacant(VacantEntry<'a, V>) }
pub struct OccupiedEntry<'a, V> { pub map: &'a mut HashMap<RefStr, V>, pub key: RefStr }
pub struct VacantEntry<'a, V> { pub map: &'a mut HashMap<RefStr, V>, pub key: RefStr }
impl<'a, V> OccupiedEntry<'a, V> {
    #[verifier::external_body]
    pub fn get(&self) -> (r: &V) ensures *r == old(self.map)@[self.key@] { unimplemented!() }
}
impl<'a, V> VacantEntry<'a, V> {
    #[verifier::external_body]
    pub fn insert(self, v: V) -> (r: &'a mut V)
        ensures *r == v, final(self.map)@ == old(self.map)@.insert(self.key@, *final(r))
    { unimplemented!() }
}
// Iterator::enumerate over a slice
#[verifier::external_body]
pub fn enumerated<'a, T>(s: &'a [T]) -> (r: Vec<(usize, &'a T)>)
    ensures r@.len() == s@.len(), forall|i: int| 0 <= i < s@.len() ==> (#[trigger] r@[i]).0 == i && *r@[i].1 == s@[i]
{ s.iter().enumerate().collect() }
}
pub use rs::*;
pub mod hash_map { pub use super::rs::{Entry, OccupiedEntry, VacantEntry, HashMap}; }
broadcast use rs::axiom_ref_cloned;
pub assume_specification<'a, T: Copy> [ Option::<&'a T>::copied ](o: Option<&'a T>) -> (r: Option<T>)
    ensures r == (match o { Some(x) => Some(*x), None => None });
