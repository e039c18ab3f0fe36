//! Assemblies: every shipped tree, collection and wrapper, plus the caller-side markers needed to
//! plug a `BTreeMap`, a boxed collection or a wrapper into a tree.
use std::collections::BTreeMap;
use std::hash::{BuildHasher, Hasher};
use std::marker::PhantomData;
use veb_tree::bitset::*;
use veb_tree::collection::array::*;
use veb_tree::collection::hash::HashMapMarker;
use veb_tree::collection::{SuperTreeCollection, TreeCollection, VebTreeCollectionMarker};
use veb_tree::key::VebKey;
use veb_tree::markers::*;
use veb_tree::tree::{TreeMarker, VebTreeMarker};
use veb_tree::{SizedVebTree, VebTree};

/// a standard ordered map as a (leaf) tree
pub struct BLeaf;
impl<K: Ord, V> VebTreeMarker<K, V> for BLeaf {
    type Tree = BTreeMap<K, V>;
}
/// size-memorising wrapper as a component
pub struct SizedM<T>(PhantomData<T>);
impl<K, V, T: VebTreeMarker<K, V>> VebTreeMarker<K, V> for SizedM<T> {
    type Tree = SizedVebTree<T::Tree>;
}
/// boxed collection
pub struct BoxColl<M>(PhantomData<M>);
impl<K: VebKey, V, M: VebTreeCollectionMarker<K, V>> VebTreeCollectionMarker<K, V> for BoxColl<M>
where
    M::TreeCollection: TreeCollection<Hi = K::Hi>,
    <M::TreeCollection as TreeCollection>::Tree: VebTree<Key = K::Lo, Value = V>,
    Box<M::TreeCollection>: SuperTreeCollection<K, V>,
{
    type TreeCollection = Box<M::TreeCollection>;
}

/// every key in one bucket
#[derive(Clone, Default)]
pub struct OneBucket;
pub struct OneBucketH;
impl Hasher for OneBucketH {
    fn finish(&self) -> u64 { 42 }
    fn write(&mut self, _: &[u8]) {}
}
impl BuildHasher for OneBucket {
    type Hasher = OneBucketH;
    fn build_hasher(&self) -> OneBucketH { OneBucketH }
}

pub type S8 = ByteSetMarker;
pub type M8 = ByteTreeMarker<VecDequeMarker>;
pub type Arr<S, C> = TreeMarker<S, ArrayTreeCollectionMarker<BoxMarker<C>>>;
pub type Gen<S, C> = TreeMarker<S, ArrayTreeCollectionMarker<GenericArrayMarker<C>>>;
pub type Hsh<S, C> = TreeMarker<S, HashMapMarker<C>>;
pub type One<S, C> = TreeMarker<S, HashMapMarker<C, OneBucket>>;
pub type Byt<S, C> = TreeMarker<S, ByteCollectionMarker<VecDequeMarker, C>>;
pub type BoxH<S, C> = TreeMarker<S, BoxColl<HashMapMarker<C>>>;
pub type BoxA<S, C> = TreeMarker<S, BoxColl<ArrayTreeCollectionMarker<BoxMarker<C>>>>;
pub type BoxB<S, C> = TreeMarker<S, BoxColl<ByteCollectionMarker<VecDequeMarker, C>>>;

pub type H16e = Hsh<S8, S8>;
pub type H16 = Hsh<S8, M8>;
pub type H32e = Hsh<H16e, H16e>;
pub type H32 = Hsh<H16e, H16>;
pub type H64e = Hsh<H32e, H32e>;
pub type H64 = Hsh<H32e, H32>;
pub type H128 = Hsh<H64e, H64>;
/// byte-collection nodes, hash above
pub type B16e = Byt<S8, S8>;
pub type B16 = Byt<S8, M8>;
pub type B32e = Hsh<B16e, B16e>;
pub type B32 = Hsh<B16e, B16>;
pub type B64 = Hsh<B32e, B32>;
/// array nodes below, hash above
pub type AH64 = Hsh<Hsh<Marker16Empty, Marker16Empty>, Hsh<Marker16Empty, Marker16>>;
/// split all the way down: u8 -> U4 -> U2 -> bool
pub type D2<C> = Hsh<BLeaf, C>;
pub type DeepU2 = Hsh<BLeaf, BLeaf>;
pub type DeepU4 = Arr<DeepU2, DeepU2>;
pub type DeepU8 = Arr<DeepU4, DeepU4>;
pub type DeepU8h = Hsh<Hsh<DeepU2, DeepU2>, Hsh<DeepU2, DeepU2>>;
pub type DeepU16 = Arr<DeepU8, DeepU8>;
pub type DeepU32 = Hsh<DeepU16, DeepU16>;
