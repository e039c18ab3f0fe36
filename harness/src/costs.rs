//! Keys that count what a tree does with them: comparisons, splits, joins, hashes and slot
//! computations; arrays and collections that count how often they are reached into.
use crate::plain::PlainM;
use std::borrow::Borrow;
use std::cell::Cell;
use std::cmp::Ordering;
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, DefaultHasher, Hash, Hasher};
use veb_tree::collection::array::{ArrayMarker, ArrayTreeCollectionMarker, GenericArrayMarker, OptionArray};
use veb_tree::collection::hash::HashMapMarker;
use veb_tree::collection::{CollectionKV, TreeCollection, TreeInsertResult, TreeMaybeRemoveResult, TreeRemoveResult, VebTreeCollectionMarker};
use veb_tree::key::{MaybeBorrowed, SizedVebKey, VebKey, VebKeyRef};
use veb_tree::markers::{BoxMarker, VebTreeType};
use veb_tree::tree::{TreeMarker, VebTreeMarker};
use veb_tree::{MaybeRemoveResult, RemoveResult, VebTree};

thread_local! { static WORK: [Cell<u64>; 6] = const { [const { Cell::new(0) }; 6] }; }
fn tick(i: usize) { WORK.with(|w| w[i].set(w[i].get() + 1)); }
/// the counts since the last call
pub fn take() -> [u64; 6] { WORK.with(|w| std::array::from_fn(|i| w[i].take())) }

pub trait Raw: Ord + Clone { fn raw(&self) -> u64; fn of(r: u64) -> Self; const WIDTH: u32; }
thread_local! { static ALIVE: Cell<i64> = const { Cell::new(0) }; }
/// how many counting keys exist
pub fn alive() -> i64 { ALIVE.with(|a| a.get()) }
/// part of every counting key
#[derive(Debug)]
pub struct Alive;
impl Alive { fn new() -> Alive { ALIVE.with(|a| a.set(a.get() + 1)); Alive } }
impl Clone for Alive { fn clone(&self) -> Alive { Alive::new() } }
impl Drop for Alive { fn drop(&mut self) { ALIVE.with(|a| a.set(a.get() - 1)); } }

macro_rules! counting { ($($n:ident $w:literal $($h:ident $hw:literal)?;)*) => { $(
    #[derive(Clone, Debug)]
    pub struct $n(pub u64, Alive);
    impl Raw for $n {
        const WIDTH: u32 = $w;
        fn raw(&self) -> u64 { self.0 }
        fn of(r: u64) -> Self { $n(r, Alive::new()) }
    }
    impl PartialEq for $n { fn eq(&self, o: &Self) -> bool { tick(0); self.0 == o.0 } }
    impl Eq for $n {}
    impl Ord for $n { fn cmp(&self, o: &Self) -> Ordering { tick(0); self.0.cmp(&o.0) } }
    impl PartialOrd for $n { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { Some(self.cmp(o)) } }
    impl Hash for $n { fn hash<S: Hasher>(&self, s: &mut S) { tick(3); s.write_u64(self.0); } }
    $(
        impl VebKey for $n {
            type Hi = $h;
            type Lo = $h;
            fn split_val(self) -> ($h, $h) { tick(1); ($h::of(self.0 >> $hw), $h::of(self.0 & ((1 << $hw) - 1))) }
            fn join<'a>(hi: MaybeBorrowed<'a, $h>, lo: MaybeBorrowed<'a, $h>) -> Self { tick(2); $n::of(hi.0 << $hw | lo.0) }
        }
        impl VebKeyRef<$h, $h> for $n {
            fn split_ref<F: FnOnce(&$h, &$h) -> R, R>(&self, f: F) -> R { let (h, l) = self.clone().split_val(); f(&h, &l) }
        }
    )?
)* } }
counting! { K64 64 K32 32; K32 32 K16 16; K16 16 K8 8; K8 8 K4 4; K4 4 K2 2; K2 2 K1 1; K1 1; }
/// lopsided keys of many levels: two bits, then the rest; or all but two bits, then the last two
macro_rules! chains { ($($n:ident $w:literal $h:ident $l:ident $lw:literal;)*) => { $(
    #[derive(Clone, Debug)]
    pub struct $n(pub u64, Alive);
    impl Raw for $n {
        const WIDTH: u32 = $w;
        fn raw(&self) -> u64 { self.0 }
        fn of(r: u64) -> Self { $n(r, Alive::new()) }
    }
    impl PartialEq for $n { fn eq(&self, o: &Self) -> bool { tick(0); self.0 == o.0 } }
    impl Eq for $n {}
    impl Ord for $n { fn cmp(&self, o: &Self) -> Ordering { tick(0); self.0.cmp(&o.0) } }
    impl PartialOrd for $n { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { Some(self.cmp(o)) } }
    impl Hash for $n { fn hash<S: Hasher>(&self, s: &mut S) { tick(3); s.write_u64(self.0); } }
    impl VebKey for $n {
        type Hi = $h;
        type Lo = $l;
        fn split_val(self) -> ($h, $l) { tick(1); ($h::of(self.0 >> $lw), $l::of(self.0 & ((1 << $lw) - 1))) }
        fn join<'a>(hi: MaybeBorrowed<'a, $h>, lo: MaybeBorrowed<'a, $l>) -> Self { tick(2); $n::of(hi.0 << $lw | lo.0) }
    }
    impl VebKeyRef<$h, $l> for $n {
        fn split_ref<F: FnOnce(&$h, &$l) -> R, R>(&self, f: F) -> R { let (h, l) = self.clone().split_val(); f(&h, &l) }
    }
)* } }
chains! {
    L2 4 K2 K2 2; L3 6 K2 L2 4; L4 8 K2 L3 6; L5 10 K2 L4 8; L6 12 K2 L5 10; L7 14 K2 L6 12; L8 16 K2 L7 14; L9 18 K2 L8 16; L10 20 K2 L9 18;
    L11 22 K2 L10 20; L12 24 K2 L11 22; L13 26 K2 L12 24; L14 28 K2 L13 26; L15 30 K2 L14 28; L16 32 K2 L15 30; L17 34 K2 L16 32; L18 36 K2 L17 34;
    L19 38 K2 L18 36; L20 40 K2 L19 38;
    T3 6 L2 K2 2; T4 8 T3 K2 2; T5 10 T4 K2 2; T6 12 T5 K2 2; T7 14 T6 K2 2; T8 16 T7 K2 2; T9 18 T8 K2 2; T10 20 T9 K2 2; T11 22 T10 K2 2; T12 24 T11 K2 2;
    T13 26 T12 K2 2; T14 28 T13 K2 2; T15 30 T14 K2 2; T16 32 T15 K2 2; T17 34 T16 K2 2; T18 36 T17 K2 2; T19 38 T18 K2 2; T20 40 T19 K2 2;
}
/// a leaf under four nodes, towards the low and towards the high part
type N4<M> = Fr<PlainM, Fr<PlainM, Fr<PlainM, Fr<PlainM, M>>>>;
type U4<M> = Fr<Fr<Fr<Fr<M, PlainM>, PlainM>, PlainM>, PlainM>;
type Long = Fr<PlainM, Fr<PlainM, Fr<PlainM, N4<N4<N4<N4<PlainM>>>>>>>;
type High = Fr<Fr<Fr<U4<U4<U4<U4<PlainM>>>>, PlainM>, PlainM>, PlainM>;
macro_rules! slots { ($($n:ident $c:ty, $cap:literal;)*) => { $(
    impl SizedVebKey for $n {
        const CARDINALITY: usize = $cap;
        type Cardinality = $c;
        fn index(&self) -> usize { tick(4); self.0 as usize }
    }
)* } }
slots! { K8 typenum::U256, 256; K4 typenum::U16, 16; K2 typenum::U4, 4; K1 typenum::U2, 2; }

/// A trusted collection that does no work on keys at all.
pub struct Free<H, T> { rows: HashMap<u64, (H, T)> }
pub struct FreeM<M>(std::marker::PhantomData<M>);
impl<K: VebKey, V, M: VebTreeMarker<K::Lo, V>> VebTreeCollectionMarker<K, V> for FreeM<M> where K::Hi: Raw {
    type TreeCollection = Free<K::Hi, M::Tree>;
}
impl<H: Raw, T: VebTree> TreeCollection for Free<H, T> {
    type Hi = H;
    type Tree = T;
    fn create(h: &H, t: T) -> Self { Free { rows: HashMap::from([(h.raw(), (h.clone(), t))]) } }
    fn get(&self, h: &H) -> Option<&T> { tick(5); self.rows.get(&h.raw()).map(|r| &r.1) }
    fn get_mut(&mut self, h: &H) -> Option<&mut T> { tick(5); self.rows.get_mut(&h.raw()).map(|r| &mut r.1) }
    fn insert_key(&mut self, h: H, (k, v): CollectionKV<Self>) -> TreeInsertResult<Self> {
        tick(5);
        match self.rows.get_mut(&h.raw()) {
            Some(r) => { let o = r.1.insert(k, v); Err((h, o)) }
            None => { self.rows.insert(h.raw(), (h.clone(), T::from_monad(k, v))); Ok(h) }
        }
    }
    fn remove_key<Q: Borrow<H>, R: FnOnce(T) -> RemoveResult<T>>(mut self, h: Q, r: R) -> TreeRemoveResult<Self> {
        tick(5);
        let (h, t) = self.rows.remove(&h.borrow().raw()).expect("present");
        let (t, kv) = r(t);
        let gone = t.is_none();
        if let Some(t) = t { self.rows.insert(h.raw(), (h, t)); }
        (if self.rows.is_empty() { None } else { Some((self, gone)) }, kv)
    }
    fn maybe_remove_key<Q: Borrow<H>, R: FnOnce(T) -> MaybeRemoveResult<T>>(mut self, h: Q, r: R) -> TreeMaybeRemoveResult<Self> {
        tick(5);
        let Some((h, t)) = self.rows.remove(&h.borrow().raw()) else { return Err(self) };
        match r(t) {
            Err(t) => { self.rows.insert(h.raw(), (h, t)); Err(self) }
            Ok((t, kv)) => {
                let gone = t.is_none();
                if let Some(t) = t { self.rows.insert(h.raw(), (h, t)); }
                Ok((if self.rows.is_empty() { None } else { Some((self, gone)) }, kv))
            }
        }
    }
}

/// An array of subtrees that counts how often its slots are reached into.
pub struct Slots<T>(Vec<Option<T>>);
pub struct SlotsM<M>(std::marker::PhantomData<M>);
impl<K: SizedVebKey, V, M: VebTreeMarker<K, V>> ArrayMarker<K, V> for SlotsM<M> { type Array = Slots<M::Tree>; }
impl<T: VebTree, C: typenum::Unsigned> OptionArray<C> for Slots<T> {
    type V = T;
    fn create() -> Self { Slots((0..C::USIZE).map(|_| None).collect()) }
    fn get(&self, i: usize) -> &Option<T> { tick(5); &self.0[i] }
    fn get_mut(&mut self, i: usize) -> &mut Option<T> { tick(5); &mut self.0[i] }
}

type Sl<S, C> = TreeMarker<S, ArrayTreeCollectionMarker<SlotsM<C>>>;
type S4 = Sl<Sl<PlainM, PlainM>, Sl<PlainM, PlainM>>;
type S8 = Sl<S4, S4>;
type S16 = Sl<S8, S8>;
type Fr<S, C> = TreeMarker<S, FreeM<C>>;
type Hs<S, C> = TreeMarker<S, HashMapMarker<C, BuildHasherDefault<DefaultHasher>>>;
type Ar<S, C> = TreeMarker<S, ArrayTreeCollectionMarker<BoxMarker<C>>>;
type Ge<S, C> = TreeMarker<S, ArrayTreeCollectionMarker<GenericArrayMarker<C>>>;
type F2 = Fr<PlainM, PlainM>;
type F4 = Fr<F2, F2>;
type F8 = Fr<F4, F4>;
type F16 = Fr<F8, F8>;
type F32 = Fr<F16, F16>;
type F64 = Fr<F32, F32>;
type H2 = Hs<PlainM, PlainM>;
type H4 = Hs<H2, H2>;
type H8 = Hs<H4, H4>;
type H16 = Hs<H8, H8>;
type H32 = Hs<H16, H16>;
type H64 = Hs<H32, H32>;
type A2 = Ar<PlainM, PlainM>;
type A4 = Ar<A2, A2>;
type A8 = Ar<A4, A4>;
type A16 = Ar<A8, A8>;
type B2 = Hs<BLeaf, BLeaf>;
type B4 = Hs<B2, B2>;
type B8 = Hs<B4, B4>;
type B16 = Hs<B8, B8>;
/// leaves that are standard ordered maps
struct BLeaf;
impl<K: Ord, V> VebTreeMarker<K, V> for BLeaf { type Tree = std::collections::BTreeMap<K, V>; }
type G8 = Ge<Ge<A2, A2>, Ge<A2, A2>>;
type G16 = Hs<G8, G8>;

#[derive(Copy, Clone, PartialEq, Debug)]
pub enum W { Find, FindM, Pred, PredM, Succ, SuccM, Min, Max, Ins, Rem, RemMin, RemMax, MinM, MaxM, IsMonad, Len, Into, Next, Back }
pub const WS: [(W, &str); 19] = [(W::Find, "find"), (W::FindM, "findm"), (W::Pred, "pred"), (W::PredM, "predm"), (W::Succ, "succ"), (W::SuccM, "succm"),
    (W::Min, "min"), (W::Max, "max"), (W::Ins, "ins"), (W::Rem, "rem"), (W::RemMin, "remmin"), (W::RemMax, "remmax"),
    (W::MinM, "minm"), (W::MaxM, "maxm"), (W::IsMonad, "ismonad"), (W::Len, "len"), (W::Into, "into"), (W::Next, "next"), (W::Back, "back")];
pub trait CostSut {
    /// performs the call, returns the key it named or removed, if any
    fn apply(&mut self, w: W, k: u64) -> Option<u64>;
    fn live(&self) -> bool;
    /// walks over the tree from both ends, reporting every step
    fn walk(&self, front: &mut dyn FnMut() -> bool, allocs: fn() -> u64, step: &mut dyn FnMut(W, u64, [u64; 6], u64) -> bool);
}
struct Cs<T>(Option<T>);
impl<T: VebTree<Value = ()>> CostSut for Cs<T> where T::Key: Raw {
    fn live(&self) -> bool { self.0.is_some() }
    fn walk(&self, front: &mut dyn FnMut() -> bool, allocs: fn() -> u64, step: &mut dyn FnMut(W, u64, [u64; 6], u64) -> bool) {
        let Some(t) = &self.0 else { return };
        let mut it = veb_tree::Iter::from(t);
        loop {
            let front = front();
            take();
            let before = allocs();
            let k = if front { it.next() } else { it.next_back() }.map(|e| e.0.raw());
            let (c, n) = (take(), allocs() - before);
            if !step(if front { W::Next } else { W::Back }, k.unwrap_or(0), c, n) || k.is_none() { return; }
        }
    }
    fn apply(&mut self, w: W, k: u64) -> Option<u64> {
        let k = T::Key::of(k);
        let Some(t) = self.0.as_mut() else { self.0 = Some(T::from_monad(k, ())); return None };
        match w {
            W::Find => t.find(&k).map(|e| e.0.raw()),
            W::FindM => t.find_mut(&k).map(|e| e.0.raw()),
            W::Pred => t.predecessor(&k).map(|e| e.0.raw()),
            W::PredM => t.predecessor_mut(&k).map(|e| e.0.raw()),
            W::Succ => t.successor(&k).map(|e| e.0.raw()),
            W::SuccM => t.successor_mut(&k).map(|e| e.0.raw()),
            W::Min => Some(t.min_val().0.raw()),
            W::Max => Some(t.max_val().0.raw()),
            W::Ins => t.insert(k, ()).map(|e| e.0.raw()),
            W::Rem => match self.0.take().unwrap().remove(&k) {
                Ok((t, e)) => { self.0 = t; Some(e.0.raw()) }
                Err(t) => { self.0 = Some(t); None }
            },
            W::MinM => Some(t.min_val_mut().0.raw()),
            W::MaxM => Some(t.max_val_mut().0.raw()),
            W::IsMonad => { std::hint::black_box(t.is_monad()); None }
            W::Len => { std::hint::black_box(t.len_hint()); None }
            W::Into => match self.0.take().unwrap().into_monad() {
                Ok((k, ())) => Some(k.raw()),
                Err(t) => { self.0 = Some(t); None }
            },
            W::Next | W::Back => unreachable!(),
            W::RemMin => { let (t, e) = self.0.take().unwrap().remove_min(); self.0 = t; Some(e.0.raw()) }
            W::RemMax => { let (t, e) = self.0.take().unwrap().remove_max(); self.0 = t; Some(e.0.raw()) }
        }
    }
}
pub struct CostConfig {
    pub name: &'static str, pub width: u32, pub levels: u32,
    /// growing the collection's own table re-hashes keys: inserts are constant only on average
    pub amortised: bool,
    pub make: Box<dyn Fn() -> Box<dyn CostSut>>,
}
pub fn all() -> Vec<CostConfig> {
    fn c<T: VebTree<Value = ()> + 'static>(name: &'static str, levels: u32, amortised: bool) -> CostConfig where T::Key: Raw {
        CostConfig { name, width: T::Key::WIDTH, levels, amortised, make: Box::new(|| Box::new(Cs::<T>(None))) }
    }
    vec![
        c::<VebTreeType<K64, (), F64>>("free-64", 7, false),
        c::<VebTreeType<K32, (), F32>>("free-32", 6, false),
        c::<VebTreeType<K16, (), F16>>("free-16", 5, false),
        c::<VebTreeType<K8, (), F8>>("free-8", 4, false),
        c::<VebTreeType<K4, (), F4>>("free-4", 3, false),
        c::<VebTreeType<K2, (), F2>>("free-2", 2, false),
        c::<VebTreeType<L20, (), Long>>("long-40", 20, false),
        c::<VebTreeType<T20, (), High>>("high-40", 20, false),
        c::<VebTreeType<K64, (), H64>>("hash-64", 7, true),
        c::<VebTreeType<K16, (), H16>>("hash-16", 5, true),
        c::<VebTreeType<K16, (), A16>>("array-16", 5, false),
        c::<VebTreeType<K16, (), S16>>("slots-16", 5, false),
        c::<VebTreeType<K16, (), G16>>("inline-16", 5, true),
        c::<VebTreeType<K16, (), B16>>("btree-16", 5, true),
        c::<veb_tree::SizedVebTree<Box<VebTreeType<K64, (), F64>>>>("sized-box-64", 7, false),
    ]
}
