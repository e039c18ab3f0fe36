//! A trusted subtree: a sorted vector behind the tree interface.  Used where the component under
//! test is the collection or the enclosing tree, not the subtree.
use std::borrow::Borrow;
use veb_tree::key::MaybeBorrowed;
use veb_tree::tree::VebTreeMarker;
use veb_tree::VebTree;

#[derive(Clone, Debug, PartialEq)]
pub struct Plain<K, V>(pub Vec<(K, V)>);
pub struct PlainM;
impl<K: Ord + Clone, V> VebTreeMarker<K, V> for PlainM {
    type Tree = Plain<K, V>;
}
impl<K: Ord, V> Plain<K, V> {
    fn at(&self, k: &K) -> Result<usize, usize> { self.0.binary_search_by(|e| e.0.cmp(k)) }
    fn rest(self) -> Option<Self> { if self.0.is_empty() { None } else { Some(self) } }
}
fn r<K, V>(e: &(K, V)) -> (MaybeBorrowed<'_, K>, &V) { (MaybeBorrowed::Borrowed(&e.0), &e.1) }
fn m<K, V>(e: &mut (K, V)) -> (MaybeBorrowed<'_, K>, &mut V) { (MaybeBorrowed::Borrowed(&e.0), &mut e.1) }

impl<K: Ord + Clone, V> VebTree for Plain<K, V> {
    type Key = K;
    type Value = V;
    fn from_monad(key: K, val: V) -> Self { Plain(vec![(key, val)]) }
    fn is_monad(&self) -> bool { self.0.len() == 1 }
    fn len_hint(&self) -> (usize, Option<usize>) { (self.0.len(), Some(self.0.len())) }
    fn into_monad(mut self) -> Result<(K, V), Self> { if self.0.len() == 1 { Ok(self.0.pop().unwrap()) } else { Err(self) } }
    fn min_val(&self) -> (MaybeBorrowed<'_, K>, &V) { r(&self.0[0]) }
    fn min_val_mut(&mut self) -> (MaybeBorrowed<'_, K>, &mut V) { m(&mut self.0[0]) }
    fn max_val(&self) -> (MaybeBorrowed<'_, K>, &V) { r(self.0.last().unwrap()) }
    fn max_val_mut(&mut self) -> (MaybeBorrowed<'_, K>, &mut V) { m(self.0.last_mut().unwrap()) }
    fn find<Q: Borrow<K>>(&self, k: Q) -> Option<(MaybeBorrowed<'_, K>, &V)> { self.at(k.borrow()).ok().map(|i| r(&self.0[i])) }
    fn find_mut<Q: Borrow<K>>(&mut self, k: Q) -> Option<(MaybeBorrowed<'_, K>, &mut V)> {
        self.at(k.borrow()).ok().map(|i| m(&mut self.0[i]))
    }
    fn predecessor<Q: Borrow<K>>(&self, k: Q) -> Option<(MaybeBorrowed<'_, K>, &V)> {
        let (Ok(i) | Err(i)) = self.at(k.borrow());
        if i == 0 { None } else { Some(r(&self.0[i - 1])) }
    }
    fn predecessor_mut<Q: Borrow<K>>(&mut self, k: Q) -> Option<(MaybeBorrowed<'_, K>, &mut V)> {
        let (Ok(i) | Err(i)) = self.at(k.borrow());
        if i == 0 { None } else { Some(m(&mut self.0[i - 1])) }
    }
    fn successor<Q: Borrow<K>>(&self, k: Q) -> Option<(MaybeBorrowed<'_, K>, &V)> {
        let i = match self.at(k.borrow()) { Ok(i) => i + 1, Err(i) => i };
        self.0.get(i).map(r)
    }
    fn successor_mut<Q: Borrow<K>>(&mut self, k: Q) -> Option<(MaybeBorrowed<'_, K>, &mut V)> {
        let i = match self.at(k.borrow()) { Ok(i) => i + 1, Err(i) => i };
        self.0.get_mut(i).map(m)
    }
    fn insert(&mut self, k: K, v: V) -> Option<(K, V)> {
        match self.at(&k) {
            Ok(i) => Some(std::mem::replace(&mut self.0[i], (k, v))),
            Err(i) => { self.0.insert(i, (k, v)); None }
        }
    }
    fn remove<Q: Borrow<K>>(mut self, k: Q) -> Result<(Option<Self>, (K, V)), Self> {
        match self.at(k.borrow()) {
            Ok(i) => { let e = self.0.remove(i); Ok((self.rest(), e)) }
            Err(_) => Err(self),
        }
    }
    fn remove_min(mut self) -> (Option<Self>, (K, V)) { let e = self.0.remove(0); (self.rest(), e) }
    fn remove_max(mut self) -> (Option<Self>, (K, V)) { let e = self.0.pop().unwrap(); (self.rest(), e) }
}

/// A caller's own tree that knows its size only roughly.
pub struct Loose<K, V>(pub Plain<K, V>);
impl<K: Ord + Clone, V> VebTree for Loose<K, V> {
    type Key = K;
    type Value = V;
    fn from_monad(key: K, val: V) -> Self { Loose(Plain::from_monad(key, val)) }
    fn is_monad(&self) -> bool { self.0.is_monad() }
    fn len_hint(&self) -> (usize, Option<usize>) { let n = self.0 .0.len(); (n.div_ceil(2), Some(2 * n + 3)) }
    fn into_monad(self) -> Result<(K, V), Self> { self.0.into_monad().map_err(Loose) }
    fn min_val(&self) -> (MaybeBorrowed<'_, K>, &V) { self.0.min_val() }
    fn min_val_mut(&mut self) -> (MaybeBorrowed<'_, K>, &mut V) { self.0.min_val_mut() }
    fn max_val(&self) -> (MaybeBorrowed<'_, K>, &V) { self.0.max_val() }
    fn max_val_mut(&mut self) -> (MaybeBorrowed<'_, K>, &mut V) { self.0.max_val_mut() }
    fn find<Q: Borrow<K>>(&self, k: Q) -> Option<(MaybeBorrowed<'_, K>, &V)> { self.0.find(k) }
    fn find_mut<Q: Borrow<K>>(&mut self, k: Q) -> Option<(MaybeBorrowed<'_, K>, &mut V)> { self.0.find_mut(k) }
    fn predecessor<Q: Borrow<K>>(&self, k: Q) -> Option<(MaybeBorrowed<'_, K>, &V)> { self.0.predecessor(k) }
    fn predecessor_mut<Q: Borrow<K>>(&mut self, k: Q) -> Option<(MaybeBorrowed<'_, K>, &mut V)> { self.0.predecessor_mut(k) }
    fn successor<Q: Borrow<K>>(&self, k: Q) -> Option<(MaybeBorrowed<'_, K>, &V)> { self.0.successor(k) }
    fn successor_mut<Q: Borrow<K>>(&mut self, k: Q) -> Option<(MaybeBorrowed<'_, K>, &mut V)> { self.0.successor_mut(k) }
    fn insert(&mut self, k: K, v: V) -> Option<(K, V)> { self.0.insert(k, v) }
    fn remove<Q: Borrow<K>>(self, k: Q) -> Result<(Option<Self>, (K, V)), Self> {
        match self.0.remove(k) { Ok((t, e)) => Ok((t.map(Loose), e)), Err(t) => Err(Loose(t)) }
    }
    fn remove_min(self) -> (Option<Self>, (K, V)) { let (t, e) = self.0.remove_min(); (t.map(Loose), e) }
    fn remove_max(self) -> (Option<Self>, (K, V)) { let (t, e) = self.0.remove_max(); (t.map(Loose), e) }
}
