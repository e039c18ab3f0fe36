//! The real tree behind the specification's interface: one erased object per assembly and
//! embedding, operated with key ranks and integer values.
use crate::keys::KeyDom;
use std::cell::RefCell;
use std::collections::BTreeMap;
use veb_tree::key::MaybeBorrowed;
use veb_tree::{Iter, VebTree};

pub type Res = Vec<i64>;

#[derive(Copy, Clone, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
#[repr(u8)]
pub enum Op {
    From, Find, Pred, Succ, Min, Max, IsMonad, Len, Dump,
    FindM, PredM, SuccM, MinM, MaxM, Ins, Rem, RemMin, RemMax, Into, Drop,
    /// iterate: a = number of steps, bit i % 64 of b = direction of step i (1 = from the back)
    Iter,
}
pub const OPS: [(Op, &str); 21] = [
    (Op::From, "from"), (Op::Find, "find"), (Op::Pred, "pred"), (Op::Succ, "succ"), (Op::Min, "min"), (Op::Max, "max"),
    (Op::IsMonad, "ismonad"), (Op::Len, "len"), (Op::Dump, "dump"), (Op::FindM, "findm"), (Op::PredM, "predm"),
    (Op::SuccM, "succm"), (Op::MinM, "minm"), (Op::MaxM, "maxm"), (Op::Ins, "ins"), (Op::Rem, "rem"),
    (Op::RemMin, "remmin"), (Op::RemMax, "remmax"), (Op::Into, "into"), (Op::Drop, "drop"), (Op::Iter, "iter"),
];
impl Op {
    pub fn name(self) -> &'static str { OPS[self as usize].1 }
    pub fn parse(s: &str) -> Option<Op> { OPS.iter().find(|o| o.1 == s).map(|o| o.0) }
    pub const fn bit(self) -> u32 { 1 << self as u8 }
    pub fn is_mut_query(self) -> bool { matches!(self, Op::FindM | Op::PredM | Op::SuccM | Op::MinM | Op::MaxM) }
    pub fn is_update(self) -> bool {
        matches!(self, Op::From | Op::Ins | Op::Rem | Op::RemMin | Op::RemMax | Op::Into | Op::Drop)
    }
}
pub const fn mask(ops: &[Op]) -> u32 {
    let mut m = 0;
    let mut i = 0;
    while i < ops.len() { m |= ops[i].bit(); i += 1; }
    m
}

/// Zero the value positions of a result (assemblies whose values carry no information).
pub fn unvalue(op: Op, r: &mut [i64]) {
    match op {
        Op::IsMonad | Op::Len => {}
        Op::Drop => r.iter_mut().for_each(|x| *x = 0),
        Op::Iter => r.iter_mut().skip(4).step_by(5).for_each(|x| *x = 0),
        Op::Dump => r.iter_mut().skip(1).step_by(2).for_each(|x| *x = 0),
        _ => if r.len() > 1 { let n = r.len() - 1; r[n] = 0; },
    }
}

pub trait Val: 'static {
    fn make(v: u64) -> Self;
    fn id(&self) -> i64;
    fn unit() -> bool { false }
}
impl Val for u64 {
    fn make(v: u64) -> Self { v }
    fn id(&self) -> i64 { *self as i64 }
}
impl Val for () {
    fn make(_: u64) {}
    fn id(&self) -> i64 { 0 }
    fn unit() -> bool { true }
}

thread_local! {
    static DROPS: RefCell<(bool, BTreeMap<u64, i64>)> = const { RefCell::new((false, BTreeMap::new())) };
}
/// Drop-counting value: not `Clone`, so it can only be moved, forgotten or dropped.
/// Balance of a token: 0 unknown/gone, 1 alive.
#[derive(Debug)]
pub struct Token(u64, Box<u64>);
impl Val for Token {
    fn make(v: u64) -> Self {
        DROPS.with(|d| *d.borrow_mut().1.entry(v).or_insert(0) += 1);
        Token(v, Box::new(v))
    }
    fn id(&self) -> i64 { *self.1 as i64 }
}
impl Drop for Token {
    fn drop(&mut self) {
        DROPS.with(|d| *d.borrow_mut().1.entry(self.0).or_insert(0) -= 1);
    }
}
/// (id, balance) of every token whose balance is not zero
pub fn tokens_alive() -> Vec<(u64, i64)> {
    DROPS.with(|d| {
        let d = &mut d.borrow_mut().1;
        d.retain(|_, v| *v != 0);
        d.iter().map(|(k, v)| (*k, *v)).collect()
    })
}
pub fn tokens_reset() { DROPS.with(|d| d.borrow_mut().1.clear()) }

thread_local! { pub static FOREIGN: RefCell<String> = const { RefCell::new(String::new()) }; }

pub trait Sut {
    fn live(&self) -> bool;
    fn clear(&mut self);
    fn apply(&mut self, op: Op, a: usize, b: u64, q: u8) -> Res;
    fn key_str(&self, r: usize) -> String;
    fn n(&self) -> usize;
    fn unit(&self) -> bool;
}

pub struct Holder<T: VebTree> {
    keys: Vec<T::Key>,
    tree: Option<T>,
    exact: fn(&T) -> Option<usize>,
    exact_it: for<'a> fn(&Iter<'a, T>) -> Option<usize>,
}
impl<T: VebTree> Holder<T>
where
    T::Key: KeyDom,
{
    pub fn new(ords: &[u128], exact: fn(&T) -> Option<usize>, exact_it: for<'a> fn(&Iter<'a, T>) -> Option<usize>) -> Self {
        let keys: Vec<T::Key> = ords.iter().map(|o| T::Key::of(*o)).collect();
        assert!(keys.windows(2).all(|w| w[0] < w[1]), "embedding not monotone");
        Holder { keys, tree: None, exact, exact_it }
    }
}
impl<T: VebTree + Clone> Holder<T> {
    /// make this handle hold a clone of the other's tree
    pub fn clone_of(&mut self, other: &Self, in_place: bool) {
        match (&mut self.tree, &other.tree, in_place) {
            (Some(a), Some(b), true) => a.clone_from(b),
            (a, b, _) => *a = b.clone(),
        }
    }
}
fn rank<K: KeyDom>(keys: &[K], k: &K) -> i64 {
    match keys.binary_search(k) {
        Ok(i) => i as i64 + 1,
        Err(_) => {
            FOREIGN.with(|f| *f.borrow_mut() = format!("{k:?}"));
            -1
        }
    }
}
fn ent<K: KeyDom, V: Val>(keys: &[K], e: Option<(MaybeBorrowed<'_, K>, &V)>) -> Res {
    match e {
        None => vec![],
        Some((k, v)) => vec![rank(keys, &k), v.id()],
    }
}
fn entm<K: KeyDom, V: Val>(keys: &[K], e: Option<(MaybeBorrowed<'_, K>, &mut V)>, w: u64) -> Res {
    match e {
        None => vec![],
        Some((k, v)) => {
            let r = vec![rank(keys, &k), v.id()];
            if w != 0 { *v = V::make(w); }
            r
        }
    }
}

/// Does some derived form of iteration, used after `at` steps, differ from repeated single steps?
fn derived<T: VebTree>(t: &T, at: usize, bits: u64, n: usize) -> Option<i64>
where
    T::Key: KeyDom,
    T::Value: Val,
{
    let start = || {
        let mut it = Iter::from(t);
        for i in 0..at { if bits >> (i % 64) & 1 == 0 { it.next() } else { it.next_back() }; }
        it
    };
    let e = |x: (MaybeBorrowed<'_, T::Key>, &T::Value)| ((*x.0).clone(), x.1.id());
    let mut front = vec![];
    let mut it = start();
    while let Some(x) = it.next() { front.push(e(x)); if front.len() > 70_000 { return None; } }
    let back: Vec<_> = front.iter().rev().cloned().collect();
    let len = front.len();
    if start().count() != len { return Some(1); }
    if start().last().map(e) != front.last().cloned() { return Some(2); }
    if !start().map(e).eq(front.iter().cloned()) { return Some(3); }
    if !start().rev().map(e).eq(back.iter().cloned()) { return Some(4); }
    if start().fold(vec![], |mut v, x| { v.push(e(x)); v }) != front { return Some(5); }
    if start().rfold(vec![], |mut v, x| { v.push(e(x)); v }) != back { return Some(6); }
    let mut it = start();
    if it.nth(n).map(e) != front.get(n).cloned() || it.next().map(e) != front.get(n + 1).cloned() { return Some(7); }
    if it.next_back().map(e) != (if len > n + 2 { front.last().cloned() } else { None }) { return Some(8); }
    let mut it = start();
    if it.nth_back(n).map(e) != back.get(n).cloned() || it.next_back().map(e) != back.get(n + 1).cloned() { return Some(9); }
    if it.next().map(e) != (if len > n + 2 { front.first().cloned() } else { None }) { return Some(10); }
    let mut it = start();
    if it.by_ref().take(n).count() != n.min(len) || it.next().map(e) != front.get(n).cloned() { return Some(11); }
    let mut it = start();
    if !it.by_ref().step_by(n + 1).map(e).eq(front.iter().step_by(n + 1).cloned()) { return Some(12); }
    let mut it = start();
    if let Some(x) = front.get(n) {
        let k = x.0.clone();
        if it.find(|y| *y.0 == k).map(e) != Some(x.clone()) || it.next().map(e) != front.get(n + 1).cloned() { return Some(13); }
    }
    let mut it = start();
    if let Some(x) = back.get(n) {
        let k = x.0.clone();
        if it.rfind(|y| *y.0 == k).map(e) != Some(x.clone()) || it.next_back().map(e) != back.get(n + 1).cloned() { return Some(14); }
    }
    None
}

impl<T: VebTree> Sut for Holder<T>
where
    T::Key: KeyDom,
    T::Value: Val,
{
    fn live(&self) -> bool { self.tree.is_some() }
    fn clear(&mut self) { self.tree = None }
    fn n(&self) -> usize { self.keys.len() }
    fn unit(&self) -> bool { T::Value::unit() }
    fn key_str(&self, r: usize) -> String {
        if r >= 1 && r <= self.keys.len() { format!("{:?}", self.keys[r - 1]) } else { String::from("-") }
    }
    fn apply(&mut self, op: Op, a: usize, b: u64, q: u8) -> Res {
        let keys = &self.keys;
        macro_rules! query { ($t:expr, $m:ident) => { { let k = &keys[a - 1]; match q % 4 {
            0 => $t.$m(k), 1 => $t.$m(k.clone()), 2 => $t.$m(MaybeBorrowed::Borrowed(k)), _ => $t.$m(MaybeBorrowed::Owned(k.clone())),
        } } } }
        match op {
            Op::From => { self.tree = Some(T::from_monad(keys[a - 1].clone(), T::Value::make(b))); return vec![]; }
            Op::Ins => {
                return match self.tree.as_mut().unwrap().insert(keys[a - 1].clone(), T::Value::make(b)) {
                    None => vec![],
                    Some((k, v)) => vec![rank(keys, &k), v.id()],
                };
            }
            Op::Rem => {
                let t = self.tree.take().unwrap();
                return match query!(t, remove) {
                    Err(t) => { self.tree = Some(t); vec![0] }
                    Ok((t, (k, v))) => {
                        let r = vec![1, t.is_some() as i64, rank(keys, &k), v.id()];
                        self.tree = t;
                        r
                    }
                };
            }
            Op::RemMin | Op::RemMax => {
                let t = self.tree.take().unwrap();
                let (t, (k, v)) = if op == Op::RemMin { t.remove_min() } else { t.remove_max() };
                let r = vec![t.is_some() as i64, rank(keys, &k), v.id()];
                self.tree = t;
                return r;
            }
            Op::Into => {
                return match self.tree.take().unwrap().into_monad() {
                    Ok((k, v)) => vec![1, rank(keys, &k), v.id()],
                    Err(t) => { self.tree = Some(t); vec![0] }
                };
            }
            Op::Drop => { self.tree = None; return vec![]; }
            _ => {}
        }
        let exact = self.exact;
        let t = self.tree.as_mut().unwrap();
        match op {
            Op::Find => ent(keys, query!(t, find)),
            Op::Pred => ent(keys, query!(t, predecessor)),
            Op::Succ => ent(keys, query!(t, successor)),
            Op::FindM => entm(keys, query!(t, find_mut), b),
            Op::PredM => entm(keys, query!(t, predecessor_mut), b),
            Op::SuccM => entm(keys, query!(t, successor_mut), b),
            Op::Min => ent(keys, Some(t.min_val())),
            Op::Max => ent(keys, Some(t.max_val())),
            Op::MinM => entm(keys, Some(t.min_val_mut()), b),
            Op::MaxM => entm(keys, Some(t.max_val_mut()), b),
            Op::IsMonad => vec![t.is_monad() as i64],
            Op::Len => {
                let (lo, hi) = t.len_hint();
                let cap = |x: usize| x.min(i64::MAX as usize) as i64;
                vec![cap(lo), hi.map_or(-1, cap), exact(t).map_or(-1, cap)]
            }
            Op::Dump => {
                let mut r = vec![];
                let mut left = keys.len() + 2;
                for (k, v) in Iter::from(&*t) {
                    r.push(rank(keys, &k));
                    r.push(v.id());
                    left -= 1;
                    if left == 0 { break; }
                }
                r
            }
            // per step: size hint (lower, upper or -1, exact or -1) before it, then the entry (0 0: none);
            // a last record holds the final size hint
            Op::Iter => {
                let cap = |x: usize| x.min(i64::MAX as usize) as i64;
                let mut r = vec![];
                let mut it = Iter::from(&*t);
                for i in 0..=a {
                    let (lo, hi) = it.size_hint();
                    r.extend([cap(lo), hi.map_or(-1, cap), (self.exact_it)(&it).map_or(-1, cap)]);
                    let e = if i == a { None } else if b >> (i % 64) & 1 == 0 { it.next() } else { it.next_back() };
                    match e { None => r.extend([0, 0]), Some((k, v)) => r.extend([rank(keys, &k), v.id()]) }
                }
                // the derived forms of iteration (skipping, counting, folding) mean repeated steps
                if q % 4 == 0 {
                    let at = (b as usize >> 7) % (a + 1);
                    if let Some(kind) = derived(&*t, at, b, q as usize / 4 + b as usize % 5) { r[3] = -8; r[4] = kind; }
                }
                r
            }
            _ => unreachable!(),
        }
    }
}
