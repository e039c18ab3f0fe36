//! Byte maps over a list that reports how it is used; the record is validated by TraceLeaf.tla.
use conform::args::Args;
use conform::keys::embedding;
use conform::plain::Plain;
use conform::report;
use conform::rng::Rng;
use conform::sut::{Holder, Op, Sut};
use std::cell::{Cell, RefCell};
use std::fmt::Write as _;
use std::io::Write;
use std::num::NonZeroUsize;
use std::panic::{catch_unwind, AssertUnwindSafe};
use veb_tree::bitset::{ByteMap, ByteTreeMarker, List, ListMarker, TreeList};
use veb_tree::bitset::{ByteCollectionMarker, TreeListMarker};
use veb_tree::collection::TreeCollection;
use veb_tree::markers::VebTreeType;
use veb_tree::{MaybeRemoveResult, RemoveResult, VebTree};

thread_local! {
    static LOG: RefCell<String> = const { RefCell::new(String::new()) };
    /// shared accesses show the list instead of being recorded
    static PROBE: Cell<bool> = const { Cell::new(false) };
    static SHOWN: RefCell<Vec<u64>> = const { RefCell::new(vec![]) };
}
fn log(what: &str, a: usize, b: usize, c: u64) { LOG.with(|l| { let _ = writeln!(l.borrow_mut(), "[\"{what}\",{a},{b},{c}]"); }); }
/// an access outside the list: it is on record, and ends the run
const OUT: &str = "spy list: position out of range";

struct SpyList<V>(Vec<V>);
struct SpyM;
trait Show { fn id(&self) -> u64; }
impl Show for u64 { fn id(&self) -> u64 { *self } }
/// a subtree is shown as the value of its entries: its high key
impl Show for Plain<u32, u64> { fn id(&self) -> u64 { self.0[0].1 } }
impl<V: Show> SpyList<V> {
    fn probe(&self) -> bool {
        if PROBE.with(|p| p.get()) { SHOWN.with(|s| *s.borrow_mut() = self.0.iter().map(|v| v.id()).collect()); true } else { false }
    }
    fn at(&self, what: &str, i: usize, end: usize) {
        // while showing the list only accesses outside it are recorded
        if i < end && self.probe() { return; }
        log(what, i, self.0.len(), 0);
        assert!(i < end, "{OUT}");
    }
    fn insert(&mut self, i: usize, v: V) {
        log("put", i, self.0.len(), v.id());
        assert!(i <= self.0.len(), "{OUT}");
        self.0.insert(i, v);
    }
}
impl<V: Show> ListMarker<V> for SpyM { type List = SpyList<V>; }
impl<V: Show> List for SpyList<V> {
    type Value = V;
    fn from_monad(v: V) -> Self { log("new", v.id() as usize, 0, 0); SpyList(vec![v]) }
    fn len(&self) -> usize { self.probe(); self.0.len() }
    fn get(&self, i: usize) -> &V { self.at("get", i, self.0.len()); &self.0[i] }
    fn get_mut(&mut self, i: usize) -> &mut V { self.at("set", i, self.0.len()); &mut self.0[i] }
    fn insert_value(&mut self, i: usize, v: V) { self.insert(i, v) }
    fn remove_value(mut self, i: usize) -> (Option<Self>, V) {
        self.at("take", i, self.0.len());
        let v = self.0.remove(i);
        (if self.0.is_empty() { None } else { Some(self) }, v)
    }
}
impl<T: VebTree + Show> TreeListMarker<T> for SpyM { type List = SpyList<T>; }
impl<T: VebTree + Show> TreeList for SpyList<T> {
    type Tree = T;
    fn from_monad(v: T) -> Self { log("new", v.id() as usize, 0, 0); SpyList(vec![v]) }
    fn len(&self) -> NonZeroUsize { self.probe(); NonZeroUsize::new(self.0.len()).expect(OUT) }
    fn get(&self, i: usize) -> &T { self.at("get", i, self.0.len()); &self.0[i] }
    fn get_mut(&mut self, i: usize) -> &mut T { self.at("set", i, self.0.len()); &mut self.0[i] }
    fn insert_tree(&mut self, i: usize, v: T) { self.insert(i, v) }
    fn remove_key<F: FnOnce(T) -> RemoveResult<T>>(mut self, i: usize, f: F) -> (Option<(Self, bool)>, (T::Key, T::Value)) {
        self.at("try", i, self.0.len());
        let t = self.0.remove(i);
        let (t, e) = f(t);
        let gone = t.is_none();
        match t { Some(t) => self.0.insert(i, t), None => log("take", i, self.0.len() + 1, 0) }
        (if self.0.is_empty() { None } else { Some((self, gone)) }, e)
    }
    fn maybe_remove_key<F: FnOnce(T) -> MaybeRemoveResult<T>>(mut self, i: usize, f: F) -> Result<(Option<(Self, bool)>, (T::Key, T::Value)), Self> {
        self.at("try", i, self.0.len());
        let t = self.0.remove(i);
        match f(t) {
            Err(t) => { self.0.insert(i, t); Err(self) }
            Ok((t, e)) => {
                let gone = t.is_none();
                match t { Some(t) => self.0.insert(i, t), None => log("take", i, self.0.len() + 1, 0) }
                Ok((if self.0.is_empty() { None } else { Some((self, gone)) }, e))
            }
        }
    }
}
type Leaf = VebTreeType<u8, u64, ByteTreeMarker<SpyM>>;
type Col = ByteMap<SpyList<Plain<u32, u64>>>;
#[allow(dead_code)]
type ColM = ByteCollectionMarker<SpyM, u64>;

/// Runs one call; the record gets the call and the list's elements.  False: the run is over.
fn done(name: &str, a: usize, b: u64, r: std::thread::Result<bool>, probe: impl FnOnce()) -> bool {
    match r {
        Err(_) => {
            report::own_panic("");
            false
        }
        Ok(live) => {
            SHOWN.with(|s| s.borrow_mut().clear());
            if live {
                PROBE.with(|p| p.set(true));
                let ok = catch_unwind(AssertUnwindSafe(probe)).is_ok();
                PROBE.with(|p| p.set(false));
                if !ok { report::own_panic(""); return false; }
            }
            let shown = SHOWN.with(|s| s.borrow().clone());
            LOG.with(|l| { let _ = writeln!(l.borrow_mut(), "[\"{name}\",{a},{b},{shown:?}]"); });
            true
        }
    }
}
fn start(name: &str) { LOG.with(|l| { let _ = writeln!(l.borrow_mut(), "[\"run\",\"{name}\",0,0]"); }); }

fn main() { report::guard(body) }
fn body() {
    let a = Args::get();
    let prop = a.str("prop");
    report::install(&prop, a.num("hang", 60));
    if let Some(j) = a.opt("journal") { report::journal_to(&j); }
    let kind = a.str("config");
    let mut rng = Rng::stream(a.num("seed", 1), &kind, 78);
    let mut out = std::io::BufWriter::new(std::fs::File::create(a.str("out")).expect("out"));
    let limit = a.num("events", 30_000);
    let (mut walks, mut calls, mut lines, mut ended) = (0u64, 0u64, 0u64, 0u64);
    while lines < limit {
        let n = [5, 12, 60, 256][(walks % 4) as usize];
        let ords = embedding(&mut rng, 8, n);
        report::begin(&kind, &ords, &[], "spied run".into());
        start(&kind);
        walks += 1;
        let mut fresh = 1000u64;
        let steps = [120, 150, 250, 700][(walks as usize - 1) % 4];
        if kind == "leaf" {
            let mut sut: Box<dyn Sut> = Box::new(Holder::<Leaf>::new(&ords, |_| None, |_| None));
            for i in 0..steps {
                fresh += 1;
                let ins = if n == 256 { [97, 97, 30, 60][i * 4 / steps] } else { [75, 40, 20, 50][i * 4 / steps] };
                let k = 1 + rng.below(n);
                let (op, k, b) = if !sut.live() { (Op::From, k, fresh) }
                    else if rng.chance(1, 4) { let q = [Op::Find, Op::Pred, Op::Succ, Op::Min, Op::Max, Op::IsMonad, Op::Dump][rng.below(7)]; (q, if matches!(q, Op::Find | Op::Pred | Op::Succ) { k } else { 0 }, 0) }
                    else if rng.chance(1, 5) { let q = [Op::FindM, Op::PredM, Op::SuccM, Op::MinM, Op::MaxM][rng.below(5)]; (q, if matches!(q, Op::MinM | Op::MaxM) { 0 } else { k }, if rng.chance(2, 3) { fresh } else { 0 }) }
                    else if rng.chance(ins, 100) { (Op::Ins, k, fresh) }
                    else { match rng.below(10) { 0 | 1 => (Op::RemMin, 0, 0), 2 | 3 => (Op::RemMax, 0, 0), 4 => (Op::Into, 0, 0), 5 if rng.chance(1, 20) => (Op::Drop, 0, 0), _ => (Op::Rem, k, 0) } };
                report::step(op, k, b, 0);
                calls += 1;
                let q = rng.below(4) as u8;
                let r = catch_unwind(AssertUnwindSafe(|| { sut.apply(op, k, b, q); sut.live() }));
                if !done(op.name(), k, b, r, || { sut.apply(Op::Min, 0, 0, 0); }) { ended += 1; break; }
            }
        } else {
            let his: Vec<u8> = ords.iter().map(|o| *o as u8).collect();
            let mut col: Option<Col> = None;
            for i in 0..steps {
                fresh += 1;
                let ins = if n == 256 { [97, 97, 30, 60][i * 4 / steps] } else { [75, 40, 20, 50][i * 4 / steps] };
                let k = 1 + rng.below(n);
                let h = his[k - 1];
                calls += 1;
                report::text(format!("high key {h}"), false);
                let (name, r) = if col.is_none() {
                    ("cins", catch_unwind(AssertUnwindSafe(|| { col = Some(Col::create(&h, Plain(vec![(fresh as u32, k as u64)]))); true })))
                } else if rng.chance(1, 4) {
                    ("query", catch_unwind(AssertUnwindSafe(|| { let c = col.as_mut().unwrap(); c.get(&h); c.get_mut(&h); true })))
                } else if rng.chance(ins, 100) {
                    ("cins", catch_unwind(AssertUnwindSafe(|| { let _ = col.as_mut().unwrap().insert_key(h, (fresh as u32, k as u64)); true })))
                } else if rng.chance(1, 8) {
                    // a removal whose remover declines
                    ("query", catch_unwind(AssertUnwindSafe(|| { if let Err(c) = col.take().unwrap().maybe_remove_key(h, Err) { col = Some(c); } col.is_some() })))
                } else if rng.chance(1, 3) && matches!(catch_unwind(AssertUnwindSafe(|| col.as_ref().unwrap().get(&h).is_some())), Ok(true)) {
                    let c = col.take().unwrap();
                    ("crem", catch_unwind(AssertUnwindSafe(|| { col = c.remove_key(h, |t| if t.0.len() % 2 == 0 { t.remove_min() } else { t.remove_max() }).0.map(|c| c.0); col.is_some() })))
                } else {
                    let c = col.take().unwrap();
                    ("cmrem", catch_unwind(AssertUnwindSafe(|| { match c.maybe_remove_key(&h, |t| Ok(t.remove_min())) { Err(c) => col = Some(c), Ok((c, _)) => col = c.map(|c| c.0) } col.is_some() })))
                };
                let name = if name == "query" { "cget" } else { name };
                if !done(name, k, 0, r, || { let c = col.as_ref().unwrap(); for h in 0..=255u8 { if c.get(&h).is_some() { break; } } }) { ended += 1; break; }
            }
        }
        let t = LOG.with(|l| std::mem::take(&mut *l.borrow_mut()));
        lines += t.lines().count() as u64;
        out.write_all(t.as_bytes()).unwrap();
    }
    out.flush().unwrap();
    println!("@@STATS config={kind} walks={walks} calls={calls} events={lines} abandoned={ended}");
}
