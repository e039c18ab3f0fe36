//! Cloneable assemblies, several handles at a time (VebClone.tla).
use crate::keys::KeyDom;
use crate::sut::{Holder, Op, Res, Sut, Val};
use crate::trees::*;
use std::collections::BTreeMap;
use veb_tree::bitset::ByteSet;
use veb_tree::key::{U2, U4};
use veb_tree::markers::*;
use veb_tree::{Iter, VebTree};

pub trait Multi {
    fn live(&self, i: usize) -> bool;
    fn apply(&mut self, i: usize, op: Op, a: usize, b: u64, q: u8) -> Res;
    fn dup(&mut self, from: usize, to: usize, in_place: bool);
    fn discard(&mut self, i: usize);
    fn key_str(&self, r: usize) -> String;
    fn unit(&self) -> bool;
}
struct Many<T: VebTree>(Vec<Holder<T>>);
impl<T: VebTree + Clone> Multi for Many<T>
where T::Key: KeyDom, T::Value: Val {
    fn live(&self, i: usize) -> bool { self.0[i].live() }
    fn apply(&mut self, i: usize, op: Op, a: usize, b: u64, q: u8) -> Res { self.0[i].apply(op, a, b, q) }
    fn dup(&mut self, from: usize, to: usize, in_place: bool) {
        let (a, b) = if from < to { let (x, y) = self.0.split_at_mut(to); (&x[from], &mut y[0]) } else { let (x, y) = self.0.split_at_mut(from); (&y[0], &mut x[to]) };
        b.clone_of(a, in_place);
    }
    fn discard(&mut self, i: usize) { self.0[i].clear() }
    fn key_str(&self, r: usize) -> String { self.0[0].key_str(r) }
    fn unit(&self) -> bool { T::Value::unit() }
}
pub struct CloneConfig { pub name: &'static str, pub bits: u32, pub make: Box<dyn Fn(&[u128], usize) -> Box<dyn Multi>> }
fn no<T>(_: &T) -> Option<usize> { None }
fn no_it<'a, T: VebTree>(_: &Iter<'a, T>) -> Option<usize> { None }
fn cfg<T: VebTree + Clone + 'static>(name: &'static str) -> CloneConfig
where T::Key: KeyDom, T::Value: Val {
    CloneConfig { name, bits: T::Key::BITS, make: Box::new(|o, n| Box::new(Many::<T>((0..n).map(|_| Holder::new(o, no, no_it)).collect()))) }
}
type T<K, V, M> = VebTreeType<K, V, M>;
type C16 = Hsh<S8, BLeaf>;
type C32 = Hsh<H16e, C16>;
pub fn all() -> Vec<CloneConfig> {
    vec![
        cfg::<ByteSet>("clone-byteset"),
        cfg::<T<u16, (), H16e>>("clone-h16e"),
        cfg::<T<u32, (), H32e>>("clone-h32e"),
        cfg::<T<u64, (), H64e>>("clone-h64e"),
        cfg::<T<u16, u64, C16>>("clone-h16"),
        cfg::<T<i16, u64, One<S8, BLeaf>>>("clone-h16-one-bucket"),
        cfg::<T<u32, u64, C32>>("clone-h32"),
        cfg::<T<[u8; 3], u64, Hsh<S8, C16>>>("clone-u8x3"),
        cfg::<T<u16, u64, BoxH<BoxMarker<S8>, BoxMarker<BLeaf>>>>("clone-boxh16"),
        cfg::<T<[String; 3], u64, Hsh<BLeaf, Hsh<BLeaf, BLeaf>>>>("clone-str3"),
        cfg::<T<U2, u64, DeepU2>>("clone-deep-u2"),
        cfg::<T<U4, u64, Hsh<DeepU2, DeepU2>>>("clone-deep-u4"),
        cfg::<T<i8, u64, DeepU8h>>("clone-deep-i8"),
        cfg::<Box<T<u32, u64, C32>>>("clone-box-h32"),
        cfg::<BTreeMap<u16, u64>>("clone-btree"),
    ]
}
