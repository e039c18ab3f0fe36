#![allow(unused_imports, unused_macros, dead_code)]
//! The registry of assemblies under test.
use crate::keys::KeyDom;
use crate::odd::*;
use crate::plain::Loose;
use crate::sut::{Holder, Sut, Token, Val};
use crate::trees::*;
use std::collections::BTreeMap;
use veb_tree::bitset::ByteSet;
use veb_tree::key::{U2, U4};
use veb_tree::markers::*;
use veb_tree::{Iter, SizedVebTree, VebTree};

pub struct Config {
    pub name: &'static str,
    pub bits: u32,
    /// relative cost of building a tree (1 = cheap)
    pub cost: usize,
    pub tags: &'static [&'static str],
    pub make: Box<dyn Fn(&[u128]) -> Box<dyn Sut>>,
}
fn no<T>(_: &T) -> Option<usize> { None }
fn no_it<'a, T: VebTree>(_: &Iter<'a, T>) -> Option<usize> { None }
fn sized<V: VebTree>(t: &SizedVebTree<V>) -> Option<usize> { Some(t.len().get()) }
fn sized_it<'a, V: VebTree>(i: &Iter<'a, SizedVebTree<V>>) -> Option<usize> where V::Key: Clone { Some(i.len()) }

/// The number of members; for C20 also whether the set equals one built by another history, and
/// its own extremes (a number no set has stands for a difference).
pub static CANON: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
pub const UNEQUAL: usize = 9_000_001;
pub const EXTREMES: usize = 9_000_002;
pub const MASK: usize = 9_000_003;
fn byteset(t: &ByteSet) -> Option<usize> {
    if CANON.load(std::sync::atomic::Ordering::Relaxed) {
        let m: Vec<u8> = (0..=255u8).filter(|k| t.find(k).is_some()).collect();
        let (lo, hi) = (*m.first()?, *m.last()?);
        if t.lowest() != lo || t.highest() != hi { return Some(EXTREMES); }
        // a 256-bit array cut down to the members: all, none, every other one, the lower half
        for a in [[u128::MAX; 2], [0; 2], [u128::MAX / 3; 2], [u128::MAX, 0], [u128::MAX / 5, u128::MAX / 17 * 2]] {
            let mut b = a;
            b &= *t;
            let bit = |w: &[u128; 2], k: u8| w[k as usize / 128] >> (k % 128) & 1 == 1;
            if (0..=255u8).any(|k| bit(&b, k) != (bit(&a, k) && t.find(&k).is_some())) { return Some(MASK); }
        }
        // descending, with a passing visitor
        let mut o = ByteSet::from_monad(hi, ());
        for k in m.iter().rev().skip(1) { o.insert(*k, ()); }
        let v = !m[m.len() / 2];
        if t.find(&v).is_none() {
            if o == *t && o.find(&v).is_none() { o.insert(v, ()); if o == *t || *t == o { return Some(UNEQUAL); } }
            match o.remove(v) { Ok((Some(s), _)) => o = s, Err(s) => o = s, _ => {} }
        }
        if o != *t || *t != o { return Some(UNEQUAL); }
        if let (Some(s), _) = o.remove_max() { if s == *t || *t == s { return Some(UNEQUAL); } }
        if let (Some(s), _) = o.remove_min() { if s == *t || *t == s { return Some(UNEQUAL); } }
        #[allow(clippy::clone_on_copy)]
        let (c, d) = (*t, t.clone());
        if c != *t || d != *t { return Some(UNEQUAL); }
    }
    Some(t.len().get())
}

fn plain<T: VebTree + 'static>(name: &'static str, cost: usize, tags: &'static [&'static str], exact: fn(&T) -> Option<usize>,
    exact_it: for<'a> fn(&Iter<'a, T>) -> Option<usize>) -> Config
where T::Key: KeyDom, T::Value: Val {
    Config { name, bits: T::Key::BITS, cost, tags, make: Box::new(move |o| Box::new(Holder::<T>::new(o, exact, exact_it))) }
}
macro_rules! cfgs {
    ($v:ident; $( $name:literal $cost:literal [$($tag:literal)*] $k:ty, $val:ty, $m:ty; )*) => {
        $( $v.push(plain::<VebTreeType<$k, $val, $m>>($name, $cost, &[$($tag),*], no, no_it)); )*
    };
}
macro_rules! types {
    ($v:ident; $( $name:literal $cost:literal [$($tag:literal)*] $t:ty; )*) => {
        $( $v.push(plain::<$t>($name, $cost, &[$($tag),*], no, no_it)); )*
    };
}
macro_rules! sizes {
    ($v:ident; $( $name:literal $cost:literal [$($tag:literal)*] $t:ty; )*) => {
        $( $v.push(plain::<SizedVebTree<$t>>($name, $cost, &[$($tag),*], sized, sized_it)); )*
    };
}
type T<K, V, M> = VebTreeType<K, V, M>;

/// The byte set alone.
pub fn bytes() -> Config { plain::<ByteSet>("byteset", 1, &["byteset", "leaf"], byteset, no_it) }

/// Assemblies without wrappers.
#[cfg(feature = "trees")]
pub fn trees() -> Vec<Config> {
    let mut v: Vec<Config> = vec![];
    v.push(bytes());
    cfgs! { v;
        "bytemap" 1 ["leaf"] u8, u64, M8;
        "m16" 2 ["core"] u16, u64, Marker16;
        "m16-i16" 2 ["signed"] i16, u64, Marker16;
        "m16-u8x2" 2 ["array"] [u8; 2], u64, Marker16;
        "m16-i8x2" 2 ["array" "signed"] [i8; 2], u64, Arr<BLeaf, BLeaf>;
        "m16e" 2 ["unit"] u16, (), Marker16Empty;
        "g16" 2 ["core"] u16, u64, Gen<S8, M8>;
        "h16" 1 ["core"] u16, u64, H16;
        "h16-one" 1 ["core"] u16, u64, One<S8, M8>;
        "b16" 1 ["core"] u16, u64, B16;
        "b16e" 1 ["unit"] u16, (), B16e;
        "boxh16" 1 ["box"] u16, u64, BoxH<S8, BoxMarker<M8>>;
        "boxb16" 1 ["box"] u16, u64, BoxB<BoxMarker<S8>, M8>;
        "boxa16" 2 ["box"] u16, u64, BoxA<S8, BoxMarker<M8>>;
        "m16-mapsum" 2 ["core"] u16, u64, Arr<M8, M8>;
        "h16-btree" 1 ["btree"] u16, u64, Hsh<BLeaf, BLeaf>;
        "h16-sized" 1 ["sized-inside"] u16, u64, Hsh<SizedM<S8>, SizedM<M8>>;
        "b16-sized" 1 ["sized-inside"] i16, u64, Byt<SizedM<S8>, BoxMarker<SizedM<M8>>>;
        "u8x3-byte" 1 ["array" "deep"] [u8; 3], u64, Byt<S8, B16>;
        "u8x4-h" 1 ["array" "deep"] [u8; 4], u64, Hsh<H16e, B16>;
        "u8x5-h" 1 ["array" "deep"] [u8; 5], u64, Hsh<B16e, Hsh<S8, H16>>;
        "h32" 1 ["deep" "core"] u32, u64, H32;
        "h32-i32" 1 ["deep" "signed"] i32, u64, B32;
        "m32" 200 ["deep" "heavy"] u32, u64, Marker32;
        "m32-i16x2" 200 ["deep" "heavy" "signed"] [i16; 2], u64, Marker32;
        "h64" 1 ["deep"] u64, u64, H64;
        "b64-i64" 1 ["deep" "signed"] i64, u64, B64;
        "ah64" 2 ["deep"] u64, u64, AH64;
        "h128" 1 ["deep"] u128, u64, H128;
        "h128-i128" 1 ["deep" "signed"] i128, u64, Hsh<B32As64, B64>;
        "str2" 1 ["array"] [String; 2], u64, Hsh<BLeaf, BLeaf>;
        "str3" 1 ["array" "deep"] [String; 3], u64, Hsh<BLeaf, Hsh<BLeaf, BLeaf>>;
        "deep-u2" 1 ["deep" "tiny"] U2, u64, DeepU2;
        "deep-u4" 1 ["deep" "tiny"] U4, u64, DeepU4;
        "deep-u8" 1 ["deep"] u8, u64, DeepU8;
        "deep-i8" 1 ["deep" "signed"] i8, u64, DeepU8h;
        "deep-u16" 2 ["deep"] u16, u64, DeepU16;
    }
    types! { v;
        "user" 1 ["user"] Loose<u16, u64>;
    }
    v
}
type B32As64 = Hsh<B32e, B32e>;

/// Further key shapes and assemblies, explored by the thorough tier.
#[cfg(feature = "more")]
pub fn more_trees() -> Vec<Config> {
    let mut v: Vec<Config> = vec![];
    cfgs! { v;
        "m32-u16x2" 200 ["deep" "heavy"] [u16; 2], u64, Marker32;
        "m32e" 200 ["deep" "heavy" "unit"] i32, (), Marker32Empty;
        "u8x6" 1 ["array" "deep"] [u8; 6], u64, Hsh<Hsh<S8, H16e>, Byt<S8, B16>>;
        "u8x7" 1 ["array" "deep"] [u8; 7], u64, Hsh<Byt<S8, B16e>, H32>;
        "u8x8" 1 ["array" "deep"] [u8; 8], u64, H64;
        "u8x16" 1 ["array" "deep"] [u8; 16], u64, H128;
        "u16x4" 1 ["array" "deep"] [u16; 4], u64, Hsh<Hsh<H16e, H16e>, Hsh<B16e, B16>>;
        "i32x2" 1 ["array" "deep" "signed"] [i32; 2], u64, Hsh<H32e, B32>;
        "u8x2x2" 1 ["array" "deep"] [[u8; 2]; 2], u64, Hsh<H16e, B16>;
        "h64e" 1 ["deep" "unit"] u64, (), H64e;
        "deep-u32" 2 ["deep"] u32, u64, DeepU32;
        "str5" 1 ["array" "deep"] [String; 5], u64, Hsh<Hsh<BLeaf, BLeaf>, Hsh<BLeaf, Hsh<BLeaf, BLeaf>>>;
        "odd-flat" 1 ["odd"] Flat, u64, Hsh<BLeaf, H16>;
        "odd-tall" 1 ["odd"] Tall, u64, Hsh<B16e, BLeaf>;
        "odd-skew" 1 ["odd"] Skew, u64, Byt<S8, B16>;
        "odd-steep" 1 ["odd"] Steep, u64, Hsh<H16e, M8>;
        "odd-thousands" 1 ["odd"] Thousands, u64, Byt<S8, H16>;
        "odd-mixed" 1 ["odd" "deep"] Mixed, u64, Hsh<Hsh<H16e, BLeaf>, Hsh<BLeaf, B16>>;
        "odd-text" 1 ["odd"] Text, u64, Byt<S8, BLeaf>;
        "odd-unit" 1 ["odd"] (), u64, Hsh<BLeaf, BLeaf>;
        "g16-one32" 1 ["deep"] u32, u64, One<One<S8, S8>, One<S8, M8>>;
    }
    v
}

/// Wrapped assemblies; the second name is the plain assembly with the same key type.
#[cfg(feature = "wrappers")]
pub fn wrappers() -> Vec<(Config, &'static str)> {
    let mut v: Vec<Config> = vec![];
    types! { v;
        "box-m16" 2 ["wrap"] Box<T<u16, u64, Marker16>>;
        "box-box-h16" 1 ["wrap"] Box<Box<T<u16, u64, H16>>>;
        "box-sized-h16" 1 ["wrap"] Box<SizedVebTree<T<u16, u64, H16>>>;
        "box-bytemap" 1 ["wrap"] Box<T<u8, u64, M8>>;
        "box-byteset" 1 ["wrap"] Box<ByteSet>;
        "btree-u16" 1 ["wrap" "btree"] BTreeMap<u16, u64>;
        "btree-i64" 1 ["wrap" "btree"] BTreeMap<i64, u64>;
        "btree-str" 1 ["wrap" "btree"] BTreeMap<[String; 2], u64>;
        "box-btree" 1 ["wrap" "btree"] Box<BTreeMap<u8, u64>>;
        "box-user" 1 ["wrap" "user"] Box<Loose<u16, u64>>;
    }
    sizes! { v;
        "sized-m16" 2 ["wrap" "sized"] T<u16, u64, Marker16>;
        "sized-byteset" 1 ["wrap" "sized"] ByteSet;
        "sized-bytemap" 1 ["wrap" "sized"] T<u8, u64, M8>;
        "sized-h64" 1 ["wrap" "sized"] T<u64, u64, H64>;
        "sized-b16e" 1 ["wrap" "sized"] T<u16, (), B16e>;
        "sized-box-b16" 1 ["wrap" "sized"] Box<T<u16, u64, B16>>;
        "sized-sized-h16" 1 ["wrap" "sized"] SizedVebTree<T<u16, u64, H16>>;
        "sized-btree" 1 ["wrap" "sized" "btree"] BTreeMap<u32, u64>;
        "sized-user" 1 ["wrap" "sized" "user"] Loose<u16, u64>;
        "sized-deep" 1 ["wrap" "sized"] T<[u8; 3], u64, Byt<S8, B16>>;
    }
    v.into_iter().map(|c| {
        let plain = match c.name {
            n if n.ends_with("byteset") => "byteset",
            n if n.ends_with("bytemap") || n == "box-btree" => "bytemap",
            n if n.ends_with("m16") => "m16",
            "sized-h64" => "h64",
            "btree-i64" => "b64-i64",
            "btree-str" => "str2",
            "sized-b16e" => "b16e",
            "sized-box-b16" => "b16",
            "sized-btree" => "h32",
            "sized-deep" => "u8x3-byte",
            "box-user" | "sized-user" | "btree-u16" | "box-box-h16" | "box-sized-h16" | "sized-sized-h16" => "h16",
            n => panic!("no plain counterpart for {n}"),
        };
        (c, plain)
    }).collect()
}

/// Assemblies holding drop-counting values.
#[cfg(feature = "owned")]
pub fn owned() -> Vec<Config> {
    let mut v: Vec<Config> = vec![];
    cfgs! { v;
        "own-bytemap" 1 ["own"] u8, Token, M8;
        "own-m16" 2 ["own"] u16, Token, Marker16;
        "own-g16" 2 ["own"] i16, Token, Gen<S8, M8>;
        "own-h16" 1 ["own"] u16, Token, H16;
        "own-b16" 1 ["own"] u16, Token, B16;
        "own-h32" 1 ["own"] u32, Token, H32;
        "own-u8x3" 1 ["own"] [u8; 3], Token, BoxB<S8, B16>;
        "own-b64" 1 ["own"] i64, Token, B64;
        "own-ah64" 2 ["own"] u64, Token, AH64;
        "own-deep" 1 ["own"] u8, Token, DeepU8;
        "own-str3" 1 ["own"] [String; 3], Token, BoxH<BLeaf, Hsh<BLeaf, BLeaf>>;
    }
    types! { v;
        "own-btree" 1 ["own"] BTreeMap<u16, Token>;
        "own-box" 2 ["own"] Box<T<u16, Token, Marker16>>;
        "own-sized" 1 ["own"] SizedVebTree<T<u32, Token, H32>>;
        "own-box-sized" 1 ["own"] Box<SizedVebTree<Box<T<u8, Token, M8>>>>;
    }
    v
}

/// every assembly compiled in: (set, assembly, name of the plain counterpart)
pub fn all() -> Vec<(&'static str, Config, Option<&'static str>)> {
    #[allow(unused_mut)]
    let mut v: Vec<(&'static str, Config, Option<&'static str>)> = vec![];
    #[cfg(all(feature = "bytes", not(feature = "trees")))]
    v.push(("trees", bytes(), None));
    #[cfg(feature = "trees")]
    v.extend(trees().into_iter().map(|c| ("trees", c, None)));
    #[cfg(feature = "more")]
    v.extend(more_trees().into_iter().map(|c| ("more", c, None)));
    #[cfg(feature = "wrappers")]
    v.extend(wrappers().into_iter().map(|(c, p)| ("wrappers", c, Some(p))));
    #[cfg(feature = "owned")]
    v.extend(owned().into_iter().map(|c| ("owned", c, None)));
    v
}

