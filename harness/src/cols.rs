//! Subtree collections behind the specification's interface (Collection.tla).
use crate::keys::KeyDom;
use crate::plain::Plain;
use crate::sut::{Op, Res, Sut};
use crate::trees::OneBucket;
use generic_array::GenericArray;
use hashbrown::HashMap;
use std::collections::VecDeque;
use veb_tree::bitset::ByteMap;
use veb_tree::collection::array::ArrayTreeCollection;
use veb_tree::collection::TreeCollection;
use veb_tree::key::{SizedVebKey, U2, U4};
use veb_tree::VebTree;

pub type Sub = Plain<u32, u64>;


#[derive(Clone, Debug, PartialEq)]
pub struct COp { pub name: String, pub h: usize, pub how: usize, pub l: usize, pub v: u64 }

pub trait ColSut {
    fn live(&self) -> bool;
    /// `row`: the subtree a `create` puts in
    fn apply(&mut self, o: &COp, row: &[i64], q: bool) -> Res;
    fn hi_str(&self, r: usize) -> String;
}
pub struct Holder<C: TreeCollection> { his: Vec<C::Hi>, los: Vec<u32>, col: Option<C> }

impl<C: TreeCollection<Tree = Sub>> ColSut for Holder<C>
where
    C::Hi: KeyDom,
{
    fn live(&self) -> bool { self.col.is_some() }
    fn hi_str(&self, r: usize) -> String { if r == 0 { "-".into() } else { format!("{:?}", self.his[r - 1]) } }
    fn apply(&mut self, o: &COp, row: &[i64], q: bool) -> Res {
        let los = self.los.clone();
        let lo = |l: usize| los[l - 1];
        let rank = |k: u32| los.binary_search(&k).map_or(-1, |i| i as i64 + 1);
        let pair = |(k, v): (u32, u64)| vec![rank(k), v as i64];
        let show = |t: &Sub| -> Res { t.0.iter().flat_map(|e| pair(*e)).collect() };
        let h = if o.h == 0 { self.his[0].clone() } else { self.his[o.h - 1].clone() };
        let name = o.name.as_str();
        if name == "create" {
            let t = Plain(row.chunks(2).map(|c| (lo(c[0] as usize), c[1] as u64)).collect());
            self.col = Some(C::create(&h, t));
            return row.to_vec();
        }
        if name == "drop" { self.col = None; return vec![]; }
        if name == "remk" || name == "mrem" {
            let c = self.col.take().unwrap();
            let mut given: Vec<Res> = vec![];
            let (how, l, v) = (o.how, o.l, o.v);
            let take = |t: Sub| -> (Option<Sub>, (u32, u64)) {
                match how {
                    1 => t.remove_min(),
                    2 => t.remove_max(),
                    3 => match t.remove(lo(l)) { Ok(x) => x, Err(t) => { let e = t.0[0]; (Some(t), (u32::MAX - 7, e.1)) } },
                    4 => { let e = t.0[0]; (None, e) }
                    _ => { let e = *t.0.last().unwrap(); (Some(Plain::from_monad(lo(l), v)), e) }
                }
            };
            let fin = |given: Vec<Res>, mut r: Res| -> Res {
                match given.len() { 0 => {} 1 => r.extend(&given[0]), n => { r.push(-100 - n as i64) } }
                r
            };
            if name == "remk" {
                let f = |t: Sub| { given.push(show(&t)); take(t) };
                let (c, e) = if q { c.remove_key(h, f) } else { c.remove_key(&h, f) };
                let mut r = match &c { None => vec![0, 1], Some((_, gone)) => vec![1, *gone as i64] };
                self.col = c.map(|c| c.0);
                r.extend(pair(e));
                return fin(given, r);
            }
            let f = |t: Sub| {
                given.push(show(&t));
                if how == 6 || (how == 3 && t.find(lo(l)).is_none()) { Err(t) } else { Ok(take(t)) }
            };
            return match if q { c.maybe_remove_key(h, f) } else { c.maybe_remove_key(&h, f) } {
                Err(c) => { self.col = Some(c); fin(given, vec![0]) }
                Ok((c, e)) => {
                    let mut r = match &c { None => vec![1, 0, 1], Some((_, gone)) => vec![1, 1, *gone as i64] };
                    self.col = c.map(|c| c.0);
                    r.extend(pair(e));
                    fin(given, r)
                }
            };
        }
        let c = self.col.as_mut().unwrap();
        match name {
            "get" => c.get(&h).map_or(vec![], show),
            "getm" => c.get_mut(&h).map_or(vec![], |t| show(t)),
            "getmi" => match c.get_mut(&h) {
                None => vec![-1, -1],
                Some(t) => t.insert(lo(o.l), o.v).map_or(vec![], pair),
            },
            "insk" => match c.insert_key(h.clone(), (lo(o.l), o.v)) {
                Ok(x) if x == h => vec![1],
                Err((x, e)) if x == h => [vec![0], e.map_or(vec![], pair)].concat(),
                Ok(_) => vec![-2],
                Err(_) => vec![-3],
            },
            n => panic!("no collection operation {n}"),
        }
    }
}

/// A collection as a map from whole keys: key rank r is (high key (r-1)/w, low key (r-1)%w).
pub struct Flat<C: TreeCollection> { his: Vec<C::Hi>, w: usize, col: Option<C> }
impl<C: TreeCollection<Tree = Sub>> Sut for Flat<C>
where
    C::Hi: KeyDom,
{
    fn live(&self) -> bool { self.col.is_some() }
    fn clear(&mut self) { self.col = None }
    fn n(&self) -> usize { self.his.len() * self.w }
    fn unit(&self) -> bool { false }
    fn key_str(&self, r: usize) -> String { format!("{:?}/{}", self.his[(r - 1) / self.w], (r - 1) % self.w) }
    fn apply(&mut self, op: Op, a: usize, b: u64, q: u8) -> Res {
        let (i, l, w) = ((a - 1) / self.w, ((a - 1) % self.w) as u32, self.w);
        let h = &self.his[i];
        let key = |l: u32| (i * w + l as usize + 1) as i64;
        match op {
            Op::From => { self.col = Some(C::create(h, Plain::from_monad(l, b))); vec![] }
            Op::Find => self.col.as_ref().unwrap().get(h).and_then(|t| t.find(l)).map_or(vec![], |(k, v)| vec![key(*k), *v as i64]),
            Op::FindM => match self.col.as_mut().unwrap().get_mut(h).and_then(|t| t.find_mut(l)) {
                None => vec![],
                Some((k, v)) => { let r = vec![key(*k), *v as i64]; if b != 0 { *v = b; } r }
            },
            Op::Ins => match self.col.as_mut().unwrap().insert_key(h.clone(), (l, b)) {
                Ok(x) if x == *h => vec![],
                Err((x, e)) if x == *h => e.map_or(vec![], |(k, v)| vec![key(k), v as i64]),
                _ => vec![-2],
            },
            Op::Rem => {
                let c = self.col.take().unwrap();
                // (did the remover take the whole subtree, was it called)
                let mut gone = None;
                let (c, e) = if q % 2 == 0 && c.get(h).is_some_and(|t| t.find(l).is_some()) {
                    let f = |t: Sub| { let (t, e) = t.remove(l).unwrap(); gone = Some(t.is_none()); (t, e) };
                    c.remove_key(h, f)
                } else {
                    let f = |t: Sub| match t.remove(l) { Ok((t, e)) => { gone = Some(t.is_none()); Ok((t, e)) } Err(t) => Err(t) };
                    match c.maybe_remove_key(h.clone(), f) { Err(c) => { self.col = Some(c); return vec![0]; } Ok(x) => x }
                };
                let said = c.as_ref().map(|c| c.1);
                self.col = c.map(|c| c.0);
                let flag = if said.is_some() && said != gone { -4 } else { self.col.is_some() as i64 };
                vec![1, flag, key(e.0), e.1 as i64]
            }
            _ => unreachable!(),
        }
    }
}

pub struct ColConfig {
    pub name: &'static str,
    pub bits: u32,
    pub cost: usize,
    pub make: Box<dyn Fn(&[u128], &[u32]) -> Box<dyn ColSut>>,
    pub flat: Box<dyn Fn(&[u128], usize) -> Box<dyn Sut>>,
}
fn cfg<C: TreeCollection<Tree = Sub> + 'static>(name: &'static str, cost: usize) -> ColConfig
where C::Hi: KeyDom {
    ColConfig { name, bits: C::Hi::BITS, cost, make: Box::new(|o, l| {
        Box::new(Holder::<C> { his: o.iter().map(|o| C::Hi::of(*o)).collect(), los: l.to_vec(), col: None })
    }), flat: Box::new(|o, w| Box::new(Flat::<C> { his: o.iter().map(|o| C::Hi::of(*o)).collect(), w, col: None })) }
}
type Boxed<H> = ArrayTreeCollection<H, Box<[Option<Sub>]>>;
type Inline<H> = ArrayTreeCollection<H, GenericArray<Option<Sub>, <H as SizedVebKey>::Cardinality>>;
pub fn all() -> Vec<ColConfig> {
    vec![
        cfg::<Boxed<()>>("array-unit", 1),
        cfg::<Boxed<U2>>("array-u2", 1),
        cfg::<Boxed<U4>>("array-u4", 1),
        cfg::<Boxed<u8>>("array-u8", 1),
        cfg::<Boxed<i8>>("array-i8", 1),
        cfg::<Boxed<u16>>("array-u16", 40),
        cfg::<Boxed<i16>>("array-i16", 40),
        cfg::<Inline<U2>>("inline-u2", 1),
        cfg::<Inline<U4>>("inline-u4", 1),
        cfg::<Inline<u8>>("inline-u8", 1),
        cfg::<Inline<i8>>("inline-i8", 1),
        cfg::<HashMap<u8, Sub>>("hash-u8", 1),
        cfg::<HashMap<i32, Sub>>("hash-i32", 1),
        cfg::<HashMap<u64, Sub, OneBucket>>("hash-one-u64", 1),
        cfg::<HashMap<[String; 2], Sub>>("hash-str2", 1),
        cfg::<HashMap<[u8; 3], Sub, OneBucket>>("hash-one-u8x3", 1),
        cfg::<ByteMap<VecDeque<Sub>>>("byte", 1),
        cfg::<Box<Boxed<u8>>>("box-array-u8", 1),
        cfg::<Box<Inline<i8>>>("box-inline-i8", 1),
        cfg::<Box<HashMap<u16, Sub>>>("box-hash-u16", 1),
        cfg::<Box<ByteMap<VecDeque<Sub>>>>("box-byte", 1),
        cfg::<Box<Box<ByteMap<VecDeque<Sub>>>>>("box-box-byte", 1),
    ]
}
