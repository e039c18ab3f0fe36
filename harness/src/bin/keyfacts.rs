//! Records how the real key types split, join, compare, number and convert, as facts for
//! TraceKeys.tla, and checks the specified equations directly on every 32-bit key.
use conform::args::Args;
use conform::keys::KeyDom;
use conform::report;
use conform::rng::Rng;
use std::cmp::Ordering;
use std::io::Write;
use veb_tree::key::{MaybeBorrowed, SizedVebKey, VebKey, VebKeyRef, U2, U4};

type W = std::io::BufWriter<std::fs::File>;
trait Split: KeyDom + VebKey<Hi = <Self as Split>::H, Lo = <Self as Split>::L> + VebKeyRef<<Self as Split>::H, <Self as Split>::L> {
    type H: KeyDom;
    type L: KeyDom;
}
impl<K, H: KeyDom, L: KeyDom> Split for K where K: KeyDom + VebKey<Hi = H, Lo = L> + VebKeyRef<H, L> { type H = H; type L = L; }

fn dig<K: KeyDom>(k: &K, g: u32) -> Vec<u32> { let mut v = vec![]; k.digits(g, &mut v); v }
fn sgn(o: Ordering) -> i32 { o as i32 }

struct Rec { out: W, c11: bool, c12: bool, facts: u64, keys: u64 }
impl Rec {
    fn key<K: Split>(&mut self, g: u32, d: &[u32], wide: bool) {
        let k = K::take(g, &mut d.iter().copied());
        report::text(format!("key {k:?}"), true);
        let hn = K::H::ndigits(g);
        let (hi, lo) = k.clone().split_val();
        let (hr, lr) = k.split_ref(|h: &K::H, l: &K::L| (dig(h, g), dig(l, g)));
        // parts that do not come from the code's own split
        let (h, l) = (K::H::take(g, &mut d[..hn].iter().copied()), K::L::take(g, &mut d[hn..].iter().copied()));
        let mut js = vec![K::join(MaybeBorrowed::Borrowed(&h), MaybeBorrowed::Owned(l.clone()))];
        if wide {
            js.push(K::join(MaybeBorrowed::Owned(h.clone()), MaybeBorrowed::Borrowed(&l)));
            js.push(K::join(MaybeBorrowed::Borrowed(&h), MaybeBorrowed::Borrowed(&l)));
            js.push(K::join(h.clone().into(), l.clone().into()));
            let (mh, ml) = (MaybeBorrowed::Borrowed(&h), MaybeBorrowed::Owned(l.clone()));
            js.push(K::join(mh.borrow(), ml.borrow()));
        }
        let (h2, l2) = js[0].clone().split_val();
        let jd: Vec<Vec<u32>> = js.iter().map(|j| dig(j, g)).collect();
        writeln!(self.out, "[\"key\",{:?},{:?},{:?},{:?},{:?},{:?},{:?},{:?}]", dig(&k, g), dig(&hi, g), dig(&lo, g), hr, lr, jd, dig(&h2, g), dig(&l2, g)).unwrap();
        self.facts += 1;
        self.keys += 1;
    }
    fn cmp<K: Split>(&mut self, g: u32, d: &[u32], e: &[u32]) {
        let (a, b) = (K::take(g, &mut d.iter().copied()), K::take(g, &mut e.iter().copied()));
        report::text(format!("compare {a:?} with {b:?}"), true);
        let s = sgn(a.cmp(&b));
        let t = sgn(a.clone().split_val().cmp(&b.clone().split_val()));
        writeln!(self.out, "[\"cmp\",{d:?},{e:?},{s},{t}]").unwrap();
        self.facts += 1;
    }
    /// digit sequences that exercise every digit position and every pair of positions
    fn wide_digits(rng: &mut Rng, g: u32, n: usize, random: usize) -> Vec<Vec<u32>> {
        let m = (1u32 << g) - 1;
        let pool = [0, 1, m >> 1, (m >> 1) + 1, m];
        let mut v: Vec<Vec<u32>> = vec![];
        for fill in [0, m, m >> 1, (m >> 1) + 1] { v.push(vec![fill; n]); }
        // all digits different: a swap of two digits shows
        v.push((0..n as u32).map(|i| (i * 7 + 1) & m).collect());
        v.push((0..n as u32).map(|i| m - ((i * 5 + 1) & m)).collect());
        for fill in [0, m] { for i in 0..n { for b in 0..g { let mut d = vec![fill; n]; d[i] ^= 1 << b; v.push(d); } } }
        for i in 0..n { for j in 0..n { if i != j { for x in pool { for y in pool {
            if n > 8 && rng.chance(2, 3) { continue; }
            let mut d: Vec<u32> = if rng.chance(1, 2) { (0..n).map(|_| rng.next() as u32 & m).collect() } else { vec![pool[rng.below(5)]; n] };
            d[i] = x; d[j] = y;
            v.push(d);
        } } } } }
        // around every carry: x..x m..m and its successor
        for i in 0..n {
            for _ in 0..4 {
                let mut d: Vec<u32> = (0..n).map(|_| rng.next() as u32 & m).collect();
                for x in d.iter_mut().skip(i + 1) { *x = m; }
                d[i] = d[i].min(m - 1);
                v.push(d.clone());
                d[i] += 1;
                for x in d.iter_mut().skip(i + 1) { *x = 0; }
                v.push(d);
            }
        }
        for _ in 0..random {
            v.push((0..n).map(|_| match rng.below(4) { 0 => pool[rng.below(5)], _ => rng.next() as u32 & m }).collect());
        }
        v
    }
    fn digit_lists(rng: &mut Rng, g: u32, n: usize, random: usize) -> (Vec<Vec<u32>>, bool) {
        if g as usize * n <= 16 {
            let all: Vec<Vec<u32>> = (0..1u32 << (g as usize * n)).map(|o| (0..n).rev().map(|i| o >> (i as u32 * g) & ((1 << g) - 1)).collect()).collect();
            return (all, true);
        }
        let mut v = Self::wide_digits(rng, g, n, random);
        v.sort();
        v.dedup();
        (v, false)
    }
    fn splits<K: Split>(&mut self, name: &str, g: u32, rng: &mut Rng, random: usize) {
        if !self.c11 { return; }
        let n = K::ndigits(g);
        report::begin(name, &[], &[], "facts about a key type, checked by TraceKeys".into());
        writeln!(self.out, "[\"type\",\"{name}\",{},{n},[]]", 1u64 << g).unwrap();
        let (list, all) = Self::digit_lists(rng, g, n, random);
        for d in &list { self.key::<K>(g, d, !all || list.len() <= 256 || rng.chance(1, 8)); }
        // every pair of a small type; neighbours and random pairs of the others
        if list.len() <= 256 {
            for d in &list { for e in &list { self.cmp::<K>(g, d, e); } }
        } else {
            for w in list.windows(2) { if !all || rng.chance(1, 4) { self.cmp::<K>(g, &w[0], &w[1]); self.cmp::<K>(g, &w[1], &w[0]); } }
            for _ in 0..3000 {
                let (d, mut e) = (list[rng.below(list.len())].clone(), list[rng.below(list.len())].clone());
                if rng.chance(1, 2) { let c = rng.below(n + 1); e[..c].copy_from_slice(&d[..c]); }
                self.cmp::<K>(g, &d, &e);
            }
        }
    }
    fn slot_digits(g: u32, n: usize, v: u128) -> Vec<u32> {
        // one digit more than the key; anything larger shows as an illegal digit
        if v >> (g as usize * n) as u32 > 1 { return vec![u32::MAX >> 1; n + 1]; }
        (0..=n).rev().map(|i| (v >> (i as u32 * g)) as u32 & ((1 << g) - 1)).collect()
    }
    fn slots<K: KeyDom + SizedVebKey>(&mut self, name: &str, g: u32, slots: u128, rng: &mut Rng, random: usize) {
        if !self.c12 { return; }
        let n = K::ndigits(g);
        report::begin(name, &[], &[], "slots of a key type, checked by TraceKeys".into());
        writeln!(self.out, "[\"type\",\"{name}\",{},{n},{:?}]", 1u64 << g, Self::slot_digits(g, n, slots)).unwrap();
        let (list, _) = Self::digit_lists(rng, g, n, random);
        let mut fact = |d: &Vec<u32>, e: &Vec<u32>| {
            let (a, b) = (K::take(g, &mut d.iter().copied()), K::take(g, &mut e.iter().copied()));
            report::text(format!("slots of {a:?} and {b:?}"), true);
            let (s, r) = (Self::slot_digits(g, n, a.index() as u128), Self::slot_digits(g, n, b.index() as u128));
            writeln!(self.out, "[\"slot\",{d:?},{s:?},{e:?},{r:?}]").unwrap();
            self.facts += 1;
        };
        self.keys += list.len() as u64;
        if list.len() <= 256 { for d in &list { for e in &list { fact(d, e); } } }
        else { for w in list.windows(2) { fact(&w[0], &w[1]); } for _ in 0..3000 { let (d, e) = (rng.below(list.len()), rng.below(list.len())); fact(&list[d], &list[e]); } }
    }
    fn small(&mut self, bits: u32, op: &str, a: i64, b: i64, r: i64) {
        writeln!(self.out, "[\"small\",{bits},\"{op}\",{a},{b},{r}]").unwrap();
        self.facts += 1;
    }
    fn smalls(&mut self) {
        report::begin("U2/U4", &[], &[], "2- and 4-bit integers, checked by TraceKeys".into());
        report::text("operations of U2 and U4".into(), true);
        let u2 = |x: U2| u8::from(U4::from(x)) as i64;
        let u4 = |x: U4| u8::from(x) as i64;
        self.small(4, "max", 0, 0, U4::MAX as i64);
        self.small(4, "bits", 0, 0, U4::BITS as i64);
        self.small(2, "max", 0, 0, U2::MAX as i64);
        self.small(2, "bits", 0, 0, U2::BITS as i64);
        for a in 0..=255u8 {
            let (x, y) = (U4::from(a), U2::from(a));
            self.small(4, "from", a as i64, 0, u4(x));
            self.small(2, "from", a as i64, 0, u2(y));
            self.small(2, "from", a as i64, 0, u2(U2::from(x)));
        }
        for a in 0..16u8 {
            let x = U4::from(a);
            self.small(4, "into", a as i64, 0, u4(x));
            self.small(2, "from", a as i64, 0, u2(U2::from(x)));
            for s in 0..8usize {
                self.small(4, "shl", a as i64, s as i64, u4(x << s));
                self.small(4, "shr", a as i64, s as i64, u4(x >> s));
            }
            for b in 0..16u8 {
                self.small(4, "or", a as i64, b as i64, u4(x | U4::from(b)));
                self.small(4, "cmp", a as i64, b as i64, sgn(x.cmp(&U4::from(b))) as i64);
            }
        }
        for a in 0..4u8 {
            let x = U2::from(a);
            self.small(2, "into", a as i64, 0, u2(x));
            self.small(1, "low", a as i64, 0, bool::from(x) as i64);
            for s in 0..8usize {
                self.small(2, "shl", a as i64, s as i64, u2(x << s));
                self.small(2, "shr", a as i64, s as i64, u2(x >> s));
            }
            for b in 0..4u8 {
                self.small(2, "or", a as i64, b as i64, u2(x | U2::from(b)));
                self.small(2, "cmp", a as i64, b as i64, sgn(x.cmp(&U2::from(b))) as i64);
            }
        }
    }
}

macro_rules! groups { ($r:ident, $rng:ident, $n:ident, $part:ident; $($i:expr => { $($body:stmt);* $(;)? }),* $(,)?) => {
    match $part { $($i => { $($body)* })* _ => {} }
} }
fn record(r: &mut Rec, rng: &mut Rng, n: usize, part: u64) {
    macro_rules! s { ($t:ty, $g:expr) => { r.splits::<$t>(stringify!($t), $g, rng, n) } }
    macro_rules! i { ($t:ty, $g:expr) => { r.slots::<$t>(stringify!($t), $g, card::<$t>(), rng, n) } }
    groups! { r, rng, n, part;
        0 => { s!((), 1); s!(U2, 1); s!(U4, 2); s!(u8, 4); i!((), 1); i!(U2, 2); i!(U4, 2); i!(u8, 4); },
        1 => { s!(i8, 4); i!(i8, 4); },
        2 => { s!(u16, 4); i!(u16, 4); },
        3 => { s!(i16, 4); i!(i16, 4); },
        4 => { s!(u32, 8); s!(i32, 8); i!(u32, 8); i!(i32, 8); },
        5 => { s!(u64, 8); s!(i64, 8); i!(u64, 8); i!(i64, 8); },
        6 => { s!(u128, 8); s!(i128, 8); },
        7 => { s!([u8; 2], 4); s!([u8; 3], 8); s!([i8; 3], 8); s!([U2; 3], 2); s!([U2; 5], 2); s!([U4; 2], 2); s!([U4; 3], 4); s!([bool; 5], 1); s!([bool; 7], 1); s!([(); 2], 1); s!([(); 3], 1); },
        8 => { s!([u8; 4], 8); s!([i8; 4], 8); s!([u8; 5], 8); s!([u8; 6], 8); s!([u16; 2], 8); s!([i16; 3], 8); s!([String; 2], 8); s!([String; 3], 8); },
        9 => { s!([u8; 7], 8); s!([i8; 7], 8); s!([u8; 8], 8); s!([String; 5], 8); s!([String; 4], 8); s!([String; 6], 8); },
        10 => { s!([u8; 16], 8); s!([i8; 8], 8); s!([U4; 16], 4); s!([bool; 16], 1); s!([u64; 2], 8); },
        11 => { s!([u16; 8], 8); s!([[u8; 2]; 4], 8); s!([i32; 4], 8); s!([String; 7], 8); s!([String; 8], 8); s!([String; 16], 8); s!([i128; 2], 8); s!([[i8; 3]; 3], 8); },
        12 => { r.smalls(); },
    }
}
fn card<K: SizedVebKey>() -> u128 {
    use veb_tree::key::SizedVebKey as S;
    type Big = typenum::operator_aliases::Shleft<typenum::U1, typenum::U64>;
    match <<K as S>::Cardinality as typenum::Unsigned>::U64 {
        // 2^64 does not fit and shows as 0
        0 if std::any::TypeId::of::<<K as S>::Cardinality>() == std::any::TypeId::of::<Big>() => 1 << 64,
        n => n as u128,
    }
}

/// The equations of Keys.tla with base 2^16, on every key of 32 bits: the key with digits <<h, l>>
/// splits into h and l and is joined from them, and its slot is h * 2^16 + l.
fn exhaustive(prop: &str, threads: u64, stride: u64) -> u64 {
    fn run<K, H, L>(prop: &str, name: &str, threads: u64, stride: u64, k: impl Fn(u32) -> K + Copy + Send, h: impl Fn(u32) -> H + Copy + Send, l: impl Fn(u32) -> L + Copy + Send, slot: impl Fn(&K) -> Option<usize> + Copy + Send) -> u64
    where K: Copy + Eq + std::fmt::Debug + VebKey<Hi = H, Lo = L> + VebKeyRef<H, L>, H: Copy + Eq + Ord + std::fmt::Debug, L: Copy + Eq + Ord + std::fmt::Debug {
        let c12 = prop == "C12";
        report::begin(name, &[], &[], "every key of 32 bits".into());
        std::thread::scope(|s| {
            for t in 0..threads {
                s.spawn(move || { let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    let mut hi = t * stride;
                    while hi < 1 << 16 {
                        report::idle();
                        let hh = h(hi as u32);
                        for lo in 0..1u32 << 16 {
                            let o = (hi as u32) << 16 | lo;
                            let key = k(o);
                            let ok = if c12 { slot(&key).is_none_or(|x| x == o as usize) } else {
                                let ll = l(lo);
                                let (a, b) = key.split_val();
                                a == hh && b == ll && key.split_ref(|x, y| *x == hh && *y == ll) && K::join(MaybeBorrowed::Borrowed(&hh), MaybeBorrowed::Owned(ll)) == key
                            };
                            if !ok {
                                let (a, b) = key.split_val();
                                report::violation(prop, &format!("key {key:?} of type {name} (number {o}): split into ({a:?}, {b:?}), by reference into {:?}; parts ({hh:?}, {:?}) join to {:?}; slot {:?}",
                                    key.split_ref(|x, y| (*x, *y)), l(lo), K::join(MaybeBorrowed::Borrowed(&hh), MaybeBorrowed::Owned(l(lo))), slot(&key)));
                            }
                        }
                        hi += threads * stride;
                    }
                })); if r.is_err() { let m = report::lock(&report::PANIC).clone(); report::violation(prop, &format!("{name}: panic: {m}")) } });
            }
        });
        (1 << 32) / stride
    }
    let mut n = 0;
    n += run(prop, "u32", threads, stride, |o| o, |h| h as u16, |l| l as u16, |k| Some(k.index()));
    n += run(prop, "i32", threads, stride, |o| (o as i32).wrapping_add(i32::MIN), |h| h as u16, |l| l as u16, |k| Some(k.index()));
    if prop != "C12" {
        n += run(prop, "[u8; 4]", threads, stride, |o| o.to_be_bytes(), |h| (h as u16).to_be_bytes(), |l| (l as u16).to_be_bytes(), |_| None);
        n += run(prop, "[i16; 2]", threads, stride, |o| [(o >> 16) as u16 as i16, o as u16 as i16], |h| h as u16 as i16, |l| l as u16 as i16, |_| None);
    }
    n
}

/// The same equations on the keys of a wider type that differ from `fill` in 32 adjacent bits.
fn lanes(prop: &str, threads: u64, seed: u64, fills: usize, step: u32) -> u64 {
    fn run<K, H, L>(prop: &str, name: &str, threads: u64, bits: u32, fills: &[u128], step: u32, k: impl Fn(u128) -> K + Copy + Send, h: impl Fn(u128) -> H + Copy + Send, l: impl Fn(u128) -> L + Copy + Send, slot: impl Fn(&K) -> Option<usize> + Copy + Send) -> u64
    where K: Copy + Eq + std::fmt::Debug + VebKey<Hi = H, Lo = L> + VebKeyRef<H, L>, H: Copy + Eq + Ord + std::fmt::Debug, L: Copy + Eq + Ord + std::fmt::Debug {
        let c12 = prop == "C12";
        report::begin(name, &[], &[], "every key that differs from a given one in 32 adjacent bits".into());
        let mut n = 0;
        for &fill in fills { for off in (0..=bits - 32).step_by(step as usize) {
            n += 1u64 << 32;
            std::thread::scope(|s| { for t in 0..threads { s.spawn(move || {
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    let (from, to) = (t * (1 << 32) / threads, (t + 1) * (1 << 32) / threads);
                    for x in from..to {
                        if x & 0xfffff == 0 { report::idle(); }
                        let o = fill ^ ((x as u128) << off);
                        let key = k(o);
                        let ok = if c12 { slot(&key).is_none_or(|x| x as u128 == o) } else {
                            let (hh, ll) = (h(o >> (bits / 2)), l(o));
                            let (a, b) = key.split_val();
                            a == hh && b == ll && key.split_ref(|x, y| *x == hh && *y == ll) && K::join(MaybeBorrowed::Borrowed(&hh), MaybeBorrowed::Owned(ll)) == key
                        };
                        if !ok {
                            let (hh, ll) = (h(o >> (bits / 2)), l(o));
                            report::violation(prop, &format!("key {key:?} of type {name} (number {o}): split into {:?}, by reference into {:?}; parts ({hh:?}, {ll:?}) join to {:?}; slot {:?}",
                                key.split_val(), key.split_ref(|x, y| (*x, *y)), K::join(MaybeBorrowed::Borrowed(&hh), MaybeBorrowed::Owned(ll)), slot(&key)));
                        }
                    }
                }));
                if r.is_err() { let m = report::lock(&report::PANIC).clone(); report::violation(prop, &format!("{name}: panic: {m}")) }
            }); } });
        } }
        n
    }
    let mut rng = Rng::stream(seed, "lanes", 0);
    let mut f: Vec<u128> = vec![0, u128::MAX];
    while f.len() < fills { f.push(rng.u128()); }
    f.truncate(fills);
    let f64: Vec<u128> = f.iter().map(|x| *x as u64 as u128).collect();
    let mut n = 0;
    n += run(prop, "u64", threads, 64, &f64, step, |o| o as u64, |h| h as u32, |l| l as u32, |k| Some(k.index()));
    n += run(prop, "i64", threads, 64, &f64, step, |o| (o as i64).wrapping_add(i64::MIN), |h| h as u32, |l| l as u32, |k| Some(k.index()));
    if prop != "C12" {
        n += run(prop, "u128", threads, 128, &f, step, |o| o, |h| h as u64, |l| l as u64, |_| None);
        n += run(prop, "i128", threads, 128, &f, step, |o| (o as i128).wrapping_add(i128::MIN), |h| h as u64, |l| l as u64, |_| None);
    }
    n
}

fn main() { report::guard(body) }
fn body() {
    let a = Args::get();
    let prop = a.str("prop");
    report::install(&prop, a.num("hang", 60));
    if let Some(j) = a.opt("journal") { report::journal_to(&j); }
    if let Some(s) = a.opt("all32") {
        let threads = a.num("threads", 8);
        let r = std::panic::catch_unwind(|| exhaustive(&prop, threads, s.parse().unwrap()) + lanes(&prop, threads, a.num("seed", 1), a.num("fills", 0) as usize, a.num("lane", 16) as u32));
        match r {
            Ok(n) => println!("@@STATS config=all-32-bit-keys exhaustive_keys={n}"),
            Err(_) => { let m = report::lock(&report::PANIC).clone(); report::violation(&prop, &format!("panic: {m}")) }
        }
        return;
    }
    let part = a.num("part", 0);
    let mut r = Rec { out: std::io::BufWriter::new(std::fs::File::create(a.str("out")).expect("out")), c11: prop != "C12", c12: prop == "C12", facts: 0, keys: 0 };
    let mut rng = Rng::stream(a.num("seed", 1), "keyfacts", part);
    let n = a.num("n", 1000) as usize;
    let e = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| record(&mut r, &mut rng, n, part)));
    if e.is_err() {
        let m = report::own_panic(&prop);
        report::violation(&prop, &format!("panic: {m}"));
    }
    r.out.flush().unwrap();
    println!("@@STATS config=part{part} facts={} keys={}", r.facts, r.keys);
}
