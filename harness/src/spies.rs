//! Trusted summary and subtree-collection components that report what a tree does with them.
//! Every component belongs to a level (`TAG`) and records its creation, every key it gains or
//! loses, its end, and every unconditional removal asked of it; TraceStruct.tla judges.
use crate::keys::KeyDom;
use crate::plain::{Plain, PlainM};
use crate::sut::{Holder, Sut};
use std::borrow::Borrow;
use std::cell::RefCell;
use std::collections::HashMap;
use std::fmt::{Debug, Write};
use veb_tree::collection::{CollectionKV, TreeCollection, TreeInsertResult, TreeMaybeRemoveResult, TreeRemoveResult, VebTreeCollectionMarker};
use veb_tree::key::{MaybeBorrowed, VebKey, VebKeyRef, U4};
use veb_tree::markers::VebTreeType;
use veb_tree::tree::{TreeMarker, VebTreeMarker};
use veb_tree::{MaybeRemoveResult, RemoveResult, VebTree};

#[derive(Default)]
pub struct Log { pub out: String, pub events: u64, next: u64, names: HashMap<String, usize>, off: bool }
thread_local! { pub static LOG: RefCell<Log> = RefCell::new(Log::default()); }
fn log(what: &str, tag: usize, id: u64, key: Option<&dyn Debug>) {
    let _ = LOG.try_with(|l| {
        let mut l = l.borrow_mut();
        if l.off { return; }
        // high keys as small numbers
        let k = match key {
            None => 0,
            Some(k) => { let n = l.names.len() + 1; *l.names.entry(format!("{tag}:{k:?}")).or_insert(n) }
        };
        let _ = writeln!(l.out, "[\"{what}\",{tag},{id},{k}]");
        l.events += 1;
    });
}
/// a tree operation has returned
pub fn quiescent(name: &str, a: usize) {
    LOG.with(|l| { let mut l = l.borrow_mut(); let _ = writeln!(l.out, "[\"op\",\"{name}\",{a},0]"); l.events += 1; });
}
/// start of another walk: what is still alive is no longer watched
pub fn start(name: &str) {
    LOG.with(|l| {
        let mut l = l.borrow_mut();
        l.off = false;
        l.names.clear();
        let _ = writeln!(l.out, "[\"run\",\"{name}\",0,0]");
        l.events += 1;
    });
}
pub fn stop() { LOG.with(|l| l.borrow_mut().off = true); }

/// registered identity of a live component
struct Reg { what: &'static str, tag: usize, id: u64 }
impl Reg {
    fn new(sum: bool, tag: usize, key: &dyn Debug) -> Reg {
        let id = LOG.with(|l| { let mut l = l.borrow_mut(); l.next += 1; l.next });
        log(if sum { "s-new" } else { "c-new" }, tag, id, Some(key));
        Reg { what: if sum { "s" } else { "c" }, tag, id }
    }
    fn add(&self, key: &dyn Debug) { log(&format!("{}-add", self.what), self.tag, self.id, Some(key)); }
    fn del(&self, key: &dyn Debug) { log(&format!("{}-del", self.what), self.tag, self.id, Some(key)); }
    fn ask(&self, key: &dyn Debug) { log("c-take", self.tag, self.id, Some(key)); }
}
impl Drop for Reg {
    fn drop(&mut self) { log(&format!("{}-end", self.what), self.tag, self.id, None); }
}

// ---------------------------------------------------------------- summary
pub struct SpySum<K> { keys: Plain<K, ()>, reg: Reg }
pub struct SpySumM<const TAG: usize>;
impl<K: Ord + Clone + Debug, const TAG: usize> VebTreeMarker<K, ()> for SpySumM<TAG> {
    type Tree = SpySumT<K, TAG>;
}
pub struct SpySumT<K, const TAG: usize>(SpySum<K>);
impl<K: Ord + Clone + Debug, const TAG: usize> SpySumT<K, TAG> {
    fn back(r: RemoveResult<Plain<K, ()>>, reg: Reg) -> RemoveResult<Self> {
        let (rest, kv) = r;
        reg.del(&kv.0);
        (rest.map(|keys| SpySumT(SpySum { keys, reg })), kv)
    }
}
impl<K: Ord + Clone + Debug, const TAG: usize> VebTree for SpySumT<K, TAG> {
    type Key = K;
    type Value = ();
    fn from_monad(key: K, _: ()) -> Self {
        let reg = Reg::new(true, TAG, &key);
        SpySumT(SpySum { keys: Plain::from_monad(key, ()), reg })
    }
    fn is_monad(&self) -> bool { self.0.keys.is_monad() }
    fn into_monad(self) -> Result<(K, ()), Self> {
        let SpySum { keys, reg } = self.0;
        keys.into_monad().map_err(|keys| SpySumT(SpySum { keys, reg }))
    }
    fn min_val(&self) -> (MaybeBorrowed<'_, K>, &()) { self.0.keys.min_val() }
    fn min_val_mut(&mut self) -> (MaybeBorrowed<'_, K>, &mut ()) { self.0.keys.min_val_mut() }
    fn max_val(&self) -> (MaybeBorrowed<'_, K>, &()) { self.0.keys.max_val() }
    fn max_val_mut(&mut self) -> (MaybeBorrowed<'_, K>, &mut ()) { self.0.keys.max_val_mut() }
    fn find<Q: Borrow<K>>(&self, k: Q) -> Option<(MaybeBorrowed<'_, K>, &())> { self.0.keys.find(k) }
    fn find_mut<Q: Borrow<K>>(&mut self, k: Q) -> Option<(MaybeBorrowed<'_, K>, &mut ())> { self.0.keys.find_mut(k) }
    fn predecessor<Q: Borrow<K>>(&self, k: Q) -> Option<(MaybeBorrowed<'_, K>, &())> { self.0.keys.predecessor(k) }
    fn predecessor_mut<Q: Borrow<K>>(&mut self, k: Q) -> Option<(MaybeBorrowed<'_, K>, &mut ())> { self.0.keys.predecessor_mut(k) }
    fn successor<Q: Borrow<K>>(&self, k: Q) -> Option<(MaybeBorrowed<'_, K>, &())> { self.0.keys.successor(k) }
    fn successor_mut<Q: Borrow<K>>(&mut self, k: Q) -> Option<(MaybeBorrowed<'_, K>, &mut ())> { self.0.keys.successor_mut(k) }
    fn insert(&mut self, k: K, _: ()) -> Option<(K, ())> {
        let old = self.0.keys.insert(k.clone(), ());
        if old.is_none() { self.0.reg.add(&k); }
        old
    }
    fn remove<Q: Borrow<K>>(self, k: Q) -> MaybeRemoveResult<Self> {
        let SpySum { keys, reg } = self.0;
        match keys.remove(k) {
            Ok(r) => Ok(Self::back(r, reg)),
            Err(keys) => Err(SpySumT(SpySum { keys, reg })),
        }
    }
    fn remove_min(self) -> RemoveResult<Self> { Self::back(self.0.keys.remove_min(), self.0.reg) }
    fn remove_max(self) -> RemoveResult<Self> { Self::back(self.0.keys.remove_max(), self.0.reg) }
}

// ---------------------------------------------------------------- collection
pub struct SpyCol<H, T, const TAG: usize> { rows: Vec<(H, T)>, reg: Reg }
pub struct SpyColM<M, const TAG: usize>(std::marker::PhantomData<M>);
impl<K: VebKey, V, M: VebTreeMarker<K::Lo, V>, const TAG: usize> VebTreeCollectionMarker<K, V> for SpyColM<M, TAG>
where K::Hi: Clone + Debug {
    type TreeCollection = SpyCol<K::Hi, M::Tree, TAG>;
}
impl<H: Ord, T, const TAG: usize> SpyCol<H, T, TAG> {
    fn at(&self, h: &H) -> Result<usize, usize> { self.rows.binary_search_by(|r| r.0.cmp(h)) }
}
pub const ABSENT: &str = "spy collection: unconditional removal from a subtree that is absent";
impl<H: Ord + Clone + Debug, T: VebTree, const TAG: usize> TreeCollection for SpyCol<H, T, TAG> {
    type Hi = H;
    type Tree = T;
    fn create(h: &H, tree: T) -> Self { SpyCol { rows: vec![(h.clone(), tree)], reg: Reg::new(false, TAG, h) } }
    fn get(&self, h: &H) -> Option<&T> { self.at(h).ok().map(|i| &self.rows[i].1) }
    fn get_mut(&mut self, h: &H) -> Option<&mut T> { self.at(h).ok().map(|i| &mut self.rows[i].1) }
    fn insert_key(&mut self, h: H, (k, v): CollectionKV<Self>) -> TreeInsertResult<Self> {
        match self.at(&h) {
            Ok(i) => { let old = self.rows[i].1.insert(k, v); Err((h, old)) }
            Err(i) => {
                self.rows.insert(i, (h.clone(), T::from_monad(k, v)));
                self.reg.add(&h);
                Ok(h)
            }
        }
    }
    fn remove_key<Q: Borrow<H>, R: FnOnce(T) -> RemoveResult<T>>(mut self, h: Q, r: R) -> TreeRemoveResult<Self> {
        self.reg.ask(h.borrow());
        let i = self.at(h.borrow()).unwrap_or_else(|_| panic!("{ABSENT}"));
        let (h, t) = self.rows.remove(i);
        let (t, kv) = r(t);
        let gone = t.is_none();
        match t { None => self.reg.del(&h), Some(t) => self.rows.insert(i, (h, t)) }
        (if self.rows.is_empty() { None } else { Some((self, gone)) }, kv)
    }
    fn maybe_remove_key<Q: Borrow<H>, R: FnOnce(T) -> MaybeRemoveResult<T>>(mut self, h: Q, r: R) -> TreeMaybeRemoveResult<Self> {
        let Ok(i) = self.at(h.borrow()) else { return Err(self) };
        let (h, t) = self.rows.remove(i);
        match r(t) {
            Err(t) => { self.rows.insert(i, (h, t)); Err(self) }
            Ok((t, kv)) => {
                let gone = t.is_none();
                match t { None => self.reg.del(&h), Some(t) => self.rows.insert(i, (h, t)) }
                Ok((if self.rows.is_empty() { None } else { Some((self, gone)) }, kv))
            }
        }
    }
}

type Spied<C, const TAG: usize> = TreeMarker<SpySumM<TAG>, SpyColM<C, TAG>>;
type L1<const A: usize> = Spied<PlainM, A>;
type L2<const A: usize, const B: usize> = Spied<L1<B>, A>;
type L3 = Spied<L2<2, 3>, 1>;
type L4 = Spied<Spied<L2<3, 4>, 2>, 1>;

pub struct SpyConfig { pub name: &'static str, pub bits: u32, pub make: Box<dyn Fn(&[u128]) -> Box<dyn Sut>> }
pub fn all() -> Vec<SpyConfig> {
    fn c<T: VebTree<Value = u64> + 'static>(name: &'static str) -> SpyConfig where T::Key: KeyDom {
        SpyConfig { name, bits: T::Key::BITS, make: Box::new(|o| Box::new(Holder::<T>::new(o, |_| None, |_| None))) }
    }
    vec![
        c::<VebTreeType<u16, u64, L1<1>>>("spy-u16"),
        c::<VebTreeType<i16, u64, L1<1>>>("spy-i16"),
        c::<VebTreeType<U4, u64, L1<1>>>("spy-u4"),
        c::<VebTreeType<u8, u64, L3>>("spy-u8-deep"),
        c::<VebTreeType<u32, u64, L2<1, 2>>>("spy-u32"),
        c::<VebTreeType<[u8; 3], u64, L2<1, 2>>>("spy-u8x3"),
        c::<VebTreeType<i64, u64, L3>>("spy-i64"),
        c::<VebTreeType<u128, u64, L4>>("spy-u128"),
        c::<VebTreeType<[String; 4], u64, L2<1, 2>>>("spy-str4"),
        c::<VebTreeType<[i8; 5], u64, L3>>("spy-i8x5"),
    ]
}
#[allow(dead_code)]
fn _bounds<K: VebKey + VebKeyRef<K::Hi, K::Lo>>() {}
