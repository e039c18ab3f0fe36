//! Caller-supplied key types: the tree must work for any key whose split is an order-preserving
//! bijection, however lopsided.
use crate::keys::KeyDom;
use veb_tree::key::{MaybeBorrowed, VebKey, VebKeyRef};

macro_rules! odd {
    ($( $(#[$d:meta])* $n:ident($t:ty) $bits:literal: $hi:ty, $lo:ty; |$o:ident| $split:expr; |$h:ident, $l:ident| $join:expr; )*) => { $(
        $(#[$d])*
        #[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
        pub struct $n(pub $t);
        impl KeyDom for $n {
            const BITS: u32 = $bits;
            fn of(o: u128) -> Self { $n(o as $t) }
            fn ord(&self) -> u128 { self.0 as u128 }
        }
        impl VebKey for $n {
            type Hi = $hi;
            type Lo = $lo;
            fn split_val(self) -> ($hi, $lo) { let $o = self.0; $split }
            fn join<'a>(hi: MaybeBorrowed<'a, $hi>, lo: MaybeBorrowed<'a, $lo>) -> Self {
                let ($h, $l) = (hi.into_or_clone(), lo.into_or_clone());
                $n($join)
            }
        }
        impl VebKeyRef<$hi, $lo> for $n {
            fn split_ref<F: FnOnce(&$hi, &$lo) -> R, R>(&self, f: F) -> R {
                let (h, l) = self.clone().split_val();
                f(&h, &l)
            }
        }
    )* };
}
odd! {
    /// everything in the low part
    Flat(u16) 16: (), u16; |o| ((), o); |_h, l| l;
    /// everything in the high part
    Tall(u16) 16: u16, (); |o| (o, ()); |h, _l| h;
    Skew(u16) 16: u8, u16; |o| ((o >> 13) as u8, o & 0x1fff); |h, l| (h as u16) << 13 | l;
    Steep(u16) 16: u16, u8; |o| (o >> 3, (o & 7) as u8); |h, l| h << 3 | l as u16;
    /// not a power of two
    Thousands(u16) 16: u8, u16; |o| ((o / 1000) as u8, o % 1000); |h, l| h as u16 * 1000 + l;
    /// halves that are lopsided themselves
    Mixed(u32) 32: Tall, Flat; |o| (Tall((o >> 16) as u16), Flat(o as u16)); |h, l| (h.0 as u32) << 16 | l.0 as u32;
}

/// text: the first byte and the rest
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Text(pub String);
impl KeyDom for Text {
    const BITS: u32 = 16;
    /// strictly increasing in the ordinal: two letters for the high byte, up to 15 for the low
    fn of(o: u128) -> Self {
        if o == 0 { return Text(String::new()); }
        let mut s = String::new();
        s.push((b'A' + (o >> 12) as u8) as char);
        if o & 0xfff != 0 {
            s.push((b'a' + (o >> 8 & 15) as u8) as char);
            s.push((b'a' + (o >> 4 & 15) as u8) as char);
            for _ in 0..o & 15 { s.push('z'); }
        }
        Text(s)
    }
    fn ord(&self) -> u128 { unimplemented!() }
}
impl VebKey for Text {
    type Hi = u8;
    type Lo = String;
    fn split_val(self) -> (u8, String) {
        match self.0.chars().next() { None => (0, String::new()), Some(c) => (c as u8, self.0[1..].to_string()) }
    }
    fn join<'a>(hi: MaybeBorrowed<'a, u8>, lo: MaybeBorrowed<'a, String>) -> Self {
        if *hi == 0 { return Text(String::new()); }
        let mut s = String::from(*hi as char);
        s.push_str(&lo);
        Text(s)
    }
}
impl VebKeyRef<u8, String> for Text {
    fn split_ref<F: FnOnce(&u8, &String) -> R, R>(&self, f: F) -> R {
        let (h, l) = self.clone().split_val();
        f(&h, &l)
    }
}
