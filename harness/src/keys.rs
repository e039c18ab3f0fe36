//! Concrete key domains.  A key type is presented to the specification as a strictly monotone
//! function from an unsigned ordinal of `BITS` bits, so a set of ordinals is an embedding of the
//! specification's integer keys into the real key type.
use crate::rng::Rng;
use std::fmt::Debug;
use veb_tree::key::{U2, U4};

pub trait KeyDom: Ord + Clone + Debug + 'static {
    const BITS: u32;
    fn of(ord: u128) -> Self;
    /// inverse of `of` (not for arrays of more than 128 bits)
    fn ord(&self) -> u128;
    /// the key as digits of `g` bits, most significant first (Keys.tla); a value outside the
    /// type's range shows as an illegal digit
    fn digits(&self, g: u32, out: &mut Vec<u32>) {
        let o = self.ord();
        if Self::BITS < 128 && o >> Self::BITS != 0 { out.push(u32::MAX >> 1); }
        for i in (0..Self::BITS / g).rev() { out.push((o >> (i * g)) as u32 & ((1 << g) - 1)); }
    }
    /// the key with these digits
    fn take(g: u32, it: &mut dyn Iterator<Item = u32>) -> Self {
        let mut o = 0u128;
        for _ in 0..Self::BITS / g { o = o << (g % 128) | it.next().expect("digit") as u128; }
        Self::of(o)
    }
    fn ndigits(g: u32) -> usize { (Self::BITS / g) as usize }
}
macro_rules! uint { ($($t:ty),*) => { $(impl KeyDom for $t {
    const BITS: u32 = <$t>::BITS;
    fn of(o: u128) -> Self { o as $t }
    fn ord(&self) -> u128 { *self as u128 }
})* } }
uint!(u8, u16, u32, u64, u128);
macro_rules! sint { ($($t:ty),*) => { $(impl KeyDom for $t {
    const BITS: u32 = <$t>::BITS;
    fn of(o: u128) -> Self { (o as $t).wrapping_add(<$t>::MIN) }
    fn ord(&self) -> u128 { (*self as i128 as u128).wrapping_sub(<$t>::MIN as i128 as u128) }
})* } }
sint!(i8, i16, i32, i64, i128);
impl KeyDom for U4 {
    const BITS: u32 = 4;
    fn of(o: u128) -> Self { U4::from(o as u8) }
    fn ord(&self) -> u128 { u8::from(*self) as u128 }
}
impl KeyDom for U2 {
    const BITS: u32 = 2;
    fn of(o: u128) -> Self { U2::from(o as u8) }
    fn ord(&self) -> u128 { u8::from(U4::from(*self)) as u128 }
}
impl KeyDom for () {
    const BITS: u32 = 0;
    fn of(_: u128) -> Self {}
    fn ord(&self) -> u128 { 0 }
}
impl KeyDom for bool {
    const BITS: u32 = 1;
    fn of(o: u128) -> Self { o & 1 == 1 }
    fn ord(&self) -> u128 { *self as u128 }
}
impl<T: KeyDom, const N: usize> KeyDom for [T; N] {
    const BITS: u32 = if T::BITS * N as u32 > 128 { 128 } else { T::BITS * N as u32 };
    fn of(o: u128) -> Self {
        std::array::from_fn(|i| {
            let sh = T::BITS * (N - 1 - i) as u32;
            T::of(if sh >= 128 { 0 } else { (o >> sh) & (u128::MAX >> (128 - T::BITS)) })
        })
    }
    fn ord(&self) -> u128 { self.iter().fold(0, |a, t| a << (T::BITS % 128) | t.ord()) }
    fn digits(&self, g: u32, out: &mut Vec<u32>) { for t in self { t.digits(g, out); } }
    fn take(g: u32, it: &mut dyn Iterator<Item = u32>) -> Self { std::array::from_fn(|_| T::take(g, it)) }
    fn ndigits(g: u32) -> usize { T::ndigits(g) * N }
}
impl KeyDom for String {
    const BITS: u32 = 8;
    /// strings of different lengths, prefixes of each other, and the empty string
    fn of(o: u128) -> Self {
        let o = o as u8;
        if o == 0 { return String::new(); }
        let mut s = String::new();
        s.push((b'a' + o / 16) as char);
        for _ in 0..o % 16 { s.push('x'); }
        s
    }
    fn ord(&self) -> u128 {
        match self.as_bytes() { [] => 0, [c, r @ ..] => (*c as u128 - b'a' as u128) * 16 + r.len() as u128 }
    }
}

/// How the ordinals of an embedding are chosen.
pub const STYLES: usize = 8;

fn mask(bits: u32) -> u128 { if bits >= 128 { u128::MAX } else { (1u128 << bits) - 1 } }

/// `n` distinct ascending ordinals of `bits` bits (fewer only if the domain is smaller).
pub fn embedding(rng: &mut Rng, bits: u32, n: usize) -> Vec<u128> {
    let style = rng.below(STYLES);
    embedding_in(rng, bits, n, style)
}
pub const RUN: usize = 1;
/// every value of one digit (as far as `n` reaches), the other digits fixed
pub const LANE: usize = 8;
pub fn embedding_in(rng: &mut Rng, bits: u32, n: usize, style: usize) -> Vec<u128> {
    if bits == 0 { return vec![0]; }
    let m = mask(bits);
    let n = if bits < 20 { n.min(1usize << bits) } else { n };
    let mut set = std::collections::BTreeSet::new();
    match style {
        // independent random keys
        0 => {}
        // a dense run, often touching an end of the range
        1 => {
            let start = match rng.below(3) {
                0 => 0,
                1 => m - (n as u128 - 1),
                _ => rng.u128() & m,
            };
            for i in 0..n as u128 { set.insert(start.wrapping_add(i) & m); }
        }
        // ends of the range, powers of two and their neighbours
        2 => {
            let mut tries = 0;
            while set.len() < n && tries < 64 * n {
                tries += 1;
                let b = 1u128 << rng.below(bits.min(127) as usize + 1).min(bits as usize - 1);
                let k = match rng.below(8) {
                    0 => 0, 1 => m, 2 => 1, 3 => m - 1,
                    4 => b, 5 => b.wrapping_sub(1), 6 => b.wrapping_add(1),
                    _ => m ^ b,
                };
                set.insert(k & m);
            }
        }
        LANE => {
            let w = (usize::BITS - (n - 1).leading_zeros()).clamp(1, bits);
            let at = if bits % w == 0 || bits > w { w * rng.below((bits / w) as usize) as u32 } else { 0 };
            let fixed = match rng.below(4) { 0 => 0, 1 => m, _ => rng.u128() & m } & !(mask(w) << at);
            for i in 0..n as u128 { set.insert((fixed | (i << at)) & m); }
        }
        // dense run crossing a boundary between two subtrees (at any level)
        3 => {
            let lv = [bits / 2, bits / 4, bits - bits / 2, 7, 8, 16][rng.below(6)].clamp(1, bits.max(2) - 1);
            let hi = (rng.u128() & m) >> lv;
            let base = hi << lv;
            for i in 0..n as u128 { set.insert(base.wrapping_add(i).wrapping_sub(n as u128 / 2) & m); }
        }
        // few values per digit: keys share high parts and low parts at every split point
        _ => {
            let digit = [8u32, 8, 4, 16, 2, 1][rng.below(6)].min((bits + 1) / 2).max(1);
            let nd = (bits + digit - 1) / digit;
            let varied = 1 + rng.below(nd as usize);           // digits that vary at all
            let mut vary: Vec<bool> = (0..nd as usize).map(|i| i < varied).collect();
            rng.shuffle(&mut vary);
            let pool = 2 + rng.below(3);
            let pools: Vec<Vec<u128>> = (0..nd as usize).map(|i| {
                let dm = mask(digit);
                (0..if vary[i] { pool } else { 1 }).map(|_| match rng.below(6) {
                    0 => 0, 1 => dm, 2 => dm >> 1, 3 => (dm >> 1) + 1, _ => rng.u128() & dm,
                }).collect()
            }).collect();
            for _ in 0..n * 20 {
                if set.len() >= n { break; }
                let mut k = 0u128;
                for p in &pools { k = (k << digit) | p[rng.below(p.len())]; }
                set.insert(k & m);
            }
        }
    }
    let near = style >= 4 && n < 2000;
    while set.len() < n {
        let k = rng.u128() & m;
        if near && !set.is_empty() && rng.chance(1, 2) {
            // close to an existing key
            let v: Vec<_> = set.iter().copied().collect();
            set.insert(v[rng.below(v.len())].wrapping_add(1 + rng.below(3) as u128) & m);
        } else {
            set.insert(k);
        }
    }
    while set.len() > n {
        let v: Vec<_> = set.iter().copied().collect();
        set.remove(&v[rng.below(v.len())]);
    }
    set.into_iter().collect()
}
