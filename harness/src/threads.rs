//! Several trees of one assembly, used by several threads (Threads.tla).
use crate::keys::KeyDom;
use crate::sut::{Res, Val};
use crate::trees::*;
use std::cell::{Cell, UnsafeCell};
use std::collections::BTreeMap;
use std::marker::PhantomData;
use std::rc::Rc;
use veb_tree::bitset::{ByteMap, ByteSet};
use veb_tree::key::MaybeBorrowed;
use veb_tree::markers::*;
use veb_tree::{Iter, SizedVebTree, VebTree};

#[derive(Copy, Clone, Debug, PartialEq)]
pub enum C { From, Ins, Rem, RemMin, RemMax, FindM, Find, Pred, Succ, Min, Max, Drop }
pub const CS: [(C, &str); 12] = [(C::From, "from"), (C::Ins, "ins"), (C::Rem, "rem"), (C::RemMin, "remmin"), (C::RemMax, "remmax"), (C::FindM, "findm"),
    (C::Find, "find"), (C::Pred, "pred"), (C::Succ, "succ"), (C::Min, "min"), (C::Max, "max"), (C::Drop, "drop")];

/// Whoever calls must keep to the ownership rules of Threads.tla: `call` only on a tree that is the
/// calling thread's, `read` only on one that nobody changes meanwhile.
pub trait Group {
    fn call(&self, i: usize, c: C, a: usize, b: u64) -> Res;
    fn read(&self, i: usize, c: C, a: usize) -> Res;
    /// in order, then every key looked up, with its neighbours
    fn everything(&self, i: usize) -> Res;
    fn live(&self, i: usize) -> bool;
    /// exchanges two places (the trees move in memory), if that is possible
    fn swap(&self, i: usize, j: usize) -> bool;
    fn key_str(&self, r: usize) -> String;
    fn unit(&self) -> bool;
}
/// asserts for the compiler what the specification's ownership rules ensure
pub struct Force<T>(pub T);
unsafe impl<T> Send for Force<T> {}
unsafe impl<T> Sync for Force<T> {}

struct Slots<T: VebTree> { keys: Vec<T::Key>, slots: Vec<UnsafeCell<Option<T>>> }
impl<T: VebTree> Slots<T> where T::Key: KeyDom, T::Value: Val {
    fn rank(&self, k: &T::Key) -> i64 { self.keys.binary_search(k).map_or(-1, |i| i as i64 + 1) }
    fn ent(&self, e: Option<(MaybeBorrowed<'_, T::Key>, &T::Value)>) -> Res { e.map_or(vec![], |(k, v)| vec![self.rank(&k), v.id()]) }
    fn own(&self, e: Option<(T::Key, T::Value)>) -> Res { e.map_or(vec![], |(k, v)| vec![self.rank(&k), v.id()]) }
    fn get(&self, i: usize) -> &T { unsafe { &*self.slots[i].get() }.as_ref().expect("tree") }
    fn query(&self, t: &T, c: C, a: usize) -> Res {
        match c {
            C::Find => self.ent(t.find(&self.keys[a - 1])),
            C::Pred => self.ent(t.predecessor(&self.keys[a - 1])),
            C::Succ => self.ent(t.successor(&self.keys[a - 1])),
            C::Min => self.ent(Some(t.min_val())),
            C::Max => self.ent(Some(t.max_val())),
            _ => unreachable!(),
        }
    }
}
impl<T: VebTree> Group for Slots<T> where T::Key: KeyDom, T::Value: Val {
    fn live(&self, i: usize) -> bool { unsafe { &*self.slots[i].get() }.is_some() }
    fn key_str(&self, r: usize) -> String { if r >= 1 && r <= self.keys.len() { format!("{:?}", self.keys[r - 1]) } else { String::new() } }
    fn swap(&self, i: usize, j: usize) -> bool {
        if i != j { unsafe { std::mem::swap(&mut *self.slots[i].get(), &mut *self.slots[j].get()) } }
        true
    }
    fn unit(&self) -> bool { T::Value::unit() }
    fn read(&self, i: usize, c: C, a: usize) -> Res { self.query(self.get(i), c, a) }
    fn everything(&self, i: usize) -> Res {
        let t = self.get(i);
        let mut r = vec![];
        for (k, v) in Iter::from(t).take(self.keys.len() + 1) { r.push(self.rank(&k)); r.push(v.id()); }
        for a in 1..=self.keys.len() { for c in [C::Find, C::Pred, C::Succ] { let e = self.query(t, c, a); r.push(e.len() as i64); r.extend(e); } }
        r
    }
    fn call(&self, i: usize, c: C, a: usize, b: u64) -> Res {
        let s = unsafe { &mut *self.slots[i].get() };
        let key = || self.keys[a - 1].clone();
        match c {
            C::From => { *s = Some(T::from_monad(key(), T::Value::make(b))); vec![] }
            C::Drop => { *s = None; vec![] }
            C::Ins => self.own(s.as_mut().expect("tree").insert(key(), T::Value::make(b))),
            C::FindM => match s.as_mut().expect("tree").find_mut(key()) {
                None => vec![],
                Some((k, v)) => { let r = vec![self.rank(&k), v.id()]; *v = T::Value::make(b); r }
            },
            C::Rem => match s.take().expect("tree").remove(key()) {
                Err(t) => { *s = Some(t); vec![] }
                Ok((t, e)) => { *s = t; self.own(Some(e)) }
            },
            C::RemMin => { let (t, e) = s.take().expect("tree").remove_min(); *s = t; self.own(Some(e)) }
            C::RemMax => { let (t, e) = s.take().expect("tree").remove_max(); *s = t; self.own(Some(e)) }
            _ => self.query(s.as_ref().expect("tree"), c, a),
        }
    }
}

/// trees of several types in turn
struct Mixed(Vec<Box<dyn Group>>);
impl Mixed { fn of(&self, i: usize) -> &dyn Group { &*self.0[i % self.0.len()] } }
impl Group for Mixed {
    fn call(&self, i: usize, c: C, a: usize, b: u64) -> Res { self.of(i).call(i, c, a, b) }
    fn read(&self, i: usize, c: C, a: usize) -> Res { self.of(i).read(i, c, a) }
    fn everything(&self, i: usize) -> Res { self.of(i).everything(i) }
    fn live(&self, i: usize) -> bool { self.of(i).live(i) }
    fn swap(&self, i: usize, j: usize) -> bool { i % self.0.len() == j % self.0.len() && self.of(i).swap(i, j) }
    fn key_str(&self, r: usize) -> String { self.0[0].key_str(r) }
    fn unit(&self) -> bool { self.0[0].unit() }
}

struct Probe<T>(PhantomData<T>);
trait Not { fn send(&self) -> bool { false } fn sync(&self) -> bool { false } }
impl<T> Not for Probe<T> {}
impl<T: Send> Probe<T> { fn send(&self) -> bool { true } }
impl<T: Sync> Probe<T> { fn sync(&self) -> bool { true } }

pub struct ThreadConfig {
    pub name: &'static str,
    pub bits: u32,
    pub make: Box<dyn Fn(&[u128], usize) -> Box<dyn Group>>,
    /// (type, may it be sent and shared, should it be)
    pub facts: Vec<(String, [bool; 2], [bool; 2])>,
}
type T<K, V, M> = VebTreeType<K, V, M>;
macro_rules! list { ($( $name:literal $k:ty, $v:ty, $m:ty; )* types: $( $tname:literal $t:ty; )*) => { vec![
    $( list!(@one $name, T<$k, $v, $m>, [
        (concat!($name, " holding Rc"), T<$k, Rc<u64>, <$m as AnyValue>::With>, [false, false]),
        (concat!("an iterator over ", $name, " holding Rc"), Iter<'static, T<$k, Rc<u64>, <$m as AnyValue>::With>>, [false, false]),
        (concat!($name, " holding Cell"), T<$k, Cell<u64>, <$m as AnyValue>::With>, [true, false]),
        (concat!("an iterator over ", $name, " holding Cell"), Iter<'static, T<$k, Cell<u64>, <$m as AnyValue>::With>>, [false, false]),
        (concat!($name, " with its size, holding Rc"), SizedVebTree<T<$k, Rc<u64>, <$m as AnyValue>::With>>, [false, false]),
        (concat!($name, " with its size"), SizedVebTree<T<$k, u64, <$m as AnyValue>::With>>, [true, true])
    ]), )*
    $( list!(@one $tname, $t, [
        ("a tree over keys holding Rc", T<[Rc<u64>; 3], u64, Hsh<BLeaf, Hsh<BLeaf, BLeaf>>>, [false, false]),
        ("an iterator over keys holding Rc", Iter<'static, T<[Rc<u64>; 3], u64, Hsh<BLeaf, Hsh<BLeaf, BLeaf>>>>, [false, false]),
        ("a key handle holding Rc", MaybeBorrowed<'static, Rc<u64>>, [false, false])
    ]), )*
] };
(@one $name:literal, $t:ty, [$(($fname:expr, $ft:ty, $want:expr)),*]) => { {
    fn make(o: &[u128], n: usize) -> Box<dyn Group> {
        let keys: Vec<<$t as VebTree>::Key> = o.iter().map(|o| KeyDom::of(*o)).collect();
        Box::new(Slots::<$t> { keys, slots: (0..n).map(|_| UnsafeCell::new(None)).collect() })
    }
    let f = |name: &str, a: bool, b: bool, w: [bool; 2]| (name.to_string(), [a, b], w);
    ThreadConfig { name: $name, bits: <<$t as VebTree>::Key as KeyDom>::BITS, make: Box::new(make), facts: vec![
        f($name, Probe::<$t>(PhantomData).send(), Probe::<$t>(PhantomData).sync(), [true, true]),
        f(concat!("an iterator over ", $name), Probe::<Iter<'static, $t>>(PhantomData).send(), Probe::<Iter<'static, $t>>(PhantomData).sync(), [true, true]),
        f(concat!("a key handle of ", $name), Probe::<MaybeBorrowed<'static, <$t as VebTree>::Key>>(PhantomData).send(), Probe::<MaybeBorrowed<'static, <$t as VebTree>::Key>>(PhantomData).sync(), [true, true]),
        $( f($fname, Probe::<$ft>(PhantomData).send(), Probe::<$ft>(PhantomData).sync(), $want), )*
    ] }
} } }
/// the same marker works for every value type
trait AnyValue { type With; }
impl<M> AnyValue for M { type With = M; }

pub fn all() -> Vec<ThreadConfig> {
    let mut v = plain();
    for (name, parts) in [
        ("thr-mix16", &["thr-marker16", "thr-b16"][..]), ("thr-mix16h", &["thr-b16", "thr-generic", "thr-boxb"]), ("thr-mix64", &["thr-h64", "thr-h32"]),
        ("thr-mix8", &["thr-deep8", "thr-bytemap"]), ("thr-mix-wrapped", &["thr-box-sized", "thr-sized"]), ("thr-mix-set", &["thr-byteset", "thr-h32e"]),
    ] {
        let (bits, makes): (Vec<u32>, Vec<_>) = parts.iter().map(|p| { let c = plain().into_iter().find(|c| c.name == *p).unwrap(); (c.bits, c.make) }).unzip();
        let low = *bits.iter().min().unwrap();
        // the same digits for each, at the top of wider keys
        v.push(ThreadConfig { name, bits: low, facts: vec![], make: Box::new(move |o, n| {
            Box::new(Mixed(makes.iter().zip(&bits).map(|(m, b)| { let o: Vec<u128> = o.iter().map(|x| x << (b - low)).collect(); m(&o, n) }).collect()))
        }) });
    }
    v
}
fn plain() -> Vec<ThreadConfig> {
    list! {
        "thr-marker8" u8, u64, Marker8;
        "thr-marker16" u16, u64, Marker16;
        "thr-h16" i16, u64, H16;
        "thr-b16" u16, u64, B16;
        "thr-h32" u32, u64, H32;
        "thr-h64" u64, u64, H64;
        "thr-boxb" u16, u64, BoxB<S8, M8>;
        "thr-generic" u16, u64, Gen<S8, M8>;
        "thr-deep8" u8, u64, DeepU8;
        "thr-str3" [String; 3], u64, Hsh<BLeaf, Hsh<BLeaf, BLeaf>>;
        types:
        "thr-byteset" ByteSet;
        "thr-h32e" T<u32, (), H32e>;
        "thr-bytemap" ByteMap<std::collections::VecDeque<u64>>;
        "thr-btree" BTreeMap<u16, u64>;
        "thr-sized" SizedVebTree<T<u32, u64, H32>>;
        "thr-box-sized" Box<SizedVebTree<Box<T<u16, u64, H16>>>>;
    }
}
