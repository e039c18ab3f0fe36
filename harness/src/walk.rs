//! Replaying the specification's transition graph and simulated behaviours into a real tree.
use crate::configs::Config;
use crate::keys::{embedding, embedding_in, LANE, RUN};
use crate::lts::{Edge, IterLts, MapLts, SimStep};
use crate::report;
use crate::rng::Rng;
use crate::sut::*;
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// Which calls a property is about.  Only these can make a check report a violation; anything
/// else that goes wrong ends the walk without a verdict (it belongs to another property).
#[derive(Clone)]
pub struct Judge {
    pub prop: String,
    /// transitions that may be taken
    pub moves: u32,
    pub writes: bool,
    /// transitions whose result and effect are judged
    pub judged: u32,
    /// queries made (and judged) in every state
    pub queries: u32,
    /// queries through which the effect of a judged transition is observed
    pub readout: u32,
    pub tokens: bool,
    /// iterate in every state: entries and order (C09), size hints (C10)
    pub iter: Option<std::rc::Rc<IterLts>>,
}
const HISTORY: u32 = mask(&[Op::From, Op::Ins, Op::Rem, Op::RemMin, Op::RemMax]);
const READ: u32 = mask(&[Op::Find, Op::Min, Op::Max, Op::Pred, Op::Succ, Op::Dump]);
const WRITES: u32 = mask(&[Op::FindM, Op::PredM, Op::SuccM, Op::MinM, Op::MaxM]);
const ALLQ: u32 = READ | WRITES | mask(&[Op::IsMonad, Op::Len]);
pub fn judge(prop: &str) -> Judge {
    let mut j = Judge { prop: prop.into(), moves: HISTORY | mask(&[Op::Into, Op::Drop]), writes: true, judged: 0, queries: 0, readout: 0, tokens: false, iter: None };
    match prop {
        "C01" => j.queries = mask(&[Op::Find, Op::FindM]),
        "C02" => j.queries = mask(&[Op::Min, Op::Max, Op::MinM, Op::MaxM]),
        "C03" => j.queries = mask(&[Op::Pred, Op::Succ, Op::PredM, Op::SuccM]),
        "C04" => { j.judged = Op::Ins.bit(); j.readout = READ; }
        "C05" => { j.judged = Op::Rem.bit(); j.readout = READ; }
        "C06" => { j.judged = mask(&[Op::RemMin, Op::RemMax]); j.readout = READ; }
        "C07" => {
            j.judged = mask(&[Op::Into, Op::From]);
            j.queries = Op::IsMonad.bit();
            j.readout = READ;
        }
        "C08" => { j.judged = WRITES; j.readout = READ | mask(&[Op::IsMonad]); }
        "C09" => {}
        "C10" => j.queries = Op::Len.bit(),
        "C16" => { j.queries = 0; j.readout = ALLQ; j.tokens = true; }
        "C18" => { j.readout = ALLQ; }
        "C20" | "C21" => {
            j.judged = (j.moves | WRITES) & !Op::Drop.bit();
            j.queries = ALLQ;
        }
        _ => panic!("no walk for {prop}"),
    }
    j
}

/// An embedding: rank r of the specification stands for a block of consecutive concrete keys
/// (usually one), all absent or all present with the same value.  Blocks.tla proves the reading of
/// block results used here.
pub struct Blk {
    pub sut: Box<dyn Sut>,
    start: Vec<usize>,
    present: Vec<bool>,
    block_of: Vec<usize>,
    rng: Rng,
    log: bool,
    pub calls: u64,
}
const BAD: i64 = -9;
impl Blk {
    pub fn new(sut: Box<dyn Sut>, sizes: &[usize], rng: Rng, log: bool) -> Blk {
        let mut start = vec![1];
        let mut block_of = vec![0];
        for (i, s) in sizes.iter().enumerate() {
            start.push(start[i] + s);
            for _ in 0..*s { block_of.push(i + 1); }
        }
        assert_eq!(sut.n() + 1, block_of.len());
        Blk { sut, start, present: vec![false; sizes.len() + 1], block_of, rng, log, calls: 0 }
    }
    pub fn size(&self, r: usize) -> usize { self.start[r] - self.start[r - 1] }
    fn first(&self, r: usize) -> usize { self.start[r - 1] }
    fn last(&self, r: usize) -> usize { self.start[r] - 1 }
    fn any(&mut self, r: usize) -> usize { let n = self.size(r); self.first(r) + if n == 1 { 0 } else { self.rng.below(n) } }
    fn order(&mut self, r: usize) -> Vec<usize> {
        let mut v: Vec<usize> = (self.first(r)..=self.last(r)).collect();
        match self.rng.below(4) { 0 => {} 1 => v.reverse(), _ => self.rng.shuffle(&mut v) }
        v
    }
    fn call(&mut self, op: Op, a: usize, b: u64) -> Res {
        let q = (self.rng.next() >> 60) as u8;
        if self.log { report::step(op, a, b, q); } else { report::idle(); }
        self.calls += 1;
        self.sut.apply(op, a, b, q)
    }
    pub fn stored(&self) -> usize { (1..self.present.len()).filter(|r| self.present[*r]).map(|r| self.size(r)).sum() }
    pub fn clear(&mut self) { self.sut.clear(); self.present.iter_mut().for_each(|p| *p = false); }
    /// concrete entry -> abstract entry, requiring a particular end of the block
    fn lift(&self, e: &[i64], end: i8) -> Res {
        if e.is_empty() { return vec![]; }
        let m = e[0];
        if m < 1 || m as usize >= self.block_of.len() { return vec![m, e[1]]; }
        let r = self.block_of[m as usize];
        let ok = match end { -1 => self.first(r) == m as usize, 1 => self.last(r) == m as usize, _ => true };
        if ok { vec![r as i64, e[1]] } else { vec![BAD, m, e[1]] }
    }
    fn rest(&mut self, r: usize, except: i64, w: u64, v: i64) -> bool {
        for m in self.first(r)..=self.last(r) {
            if m as i64 != except && self.call(Op::FindM, m, w) != [m as i64, v] { return false; }
        }
        true
    }
    pub fn apply(&mut self, op: Op, a: usize, b: u64) -> Res {
        match op {
            Op::From | Op::Ins => {
                let was = op == Op::Ins && self.present[a];
                let mut old = None;
                let mut bad = None;
                for (i, m) in self.order(a).into_iter().enumerate() {
                    let r = self.call(if i == 0 { op } else { Op::Ins }, m, b);
                    let ok = if was { r.len() == 2 && r[0] == m as i64 && *old.get_or_insert(r[1]) == r[1] } else { r.is_empty() };
                    if !ok && bad.is_none() { bad = Some(r); }
                }
                self.present[a] = true;
                if let Some(r) = bad { return if self.size(a) == 1 { self.lift(&r, 0) } else { [vec![BAD], r].concat() }; }
                match old { None => vec![], Some(v) => vec![a as i64, v] }
            }
            Op::Rem => {
                let was = self.present[a];
                let mut out = vec![0];
                for (i, m) in self.order(a).into_iter().enumerate() {
                    if !self.sut.live() { return vec![BAD, 0]; }
                    let r = self.call(Op::Rem, m, 0);
                    if was {
                        if r.len() != 4 || r[0] != 1 || r[2] != m as i64 { return if self.size(a) == 1 { r } else { [vec![BAD], r].concat() }; }
                        if i > 0 && out[3] != r[3] { return vec![BAD, 1]; }
                        if i > 0 && out[1] != 1 { return vec![BAD, 2]; }
                        out = vec![1, r[1], a as i64, r[3]];
                    } else if r != [0] { return if self.size(a) == 1 { r } else { [vec![BAD], r].concat() }; }
                }
                self.present[a] = false;
                out
            }
            Op::RemMin | Op::RemMax => {
                let r0 = self.call(op, 0, 0);
                let e = self.lift(&r0[1..], if op == Op::RemMin { -1 } else { 1 });
                if e.len() != 2 || e[0] < 1 { return [vec![BAD], r0, e].concat(); }
                let r = e[0] as usize;
                let mut flag = r0[0];
                for i in 1..self.size(r) {
                    if flag != 1 || !self.sut.live() { return vec![BAD, 3]; }
                    let m = if op == Op::RemMin { self.first(r) + i } else { self.last(r) - i } as i64;
                    let x = self.call(op, 0, 0);
                    if x[1] != m || x[2] != e[1] { return [vec![BAD, 4, m], x].concat(); }
                    flag = x[0];
                }
                self.present[r] = false;
                vec![flag, e[0], e[1]]
            }
            Op::Into => {
                let r = self.call(op, 0, 0);
                if r[0] == 1 {
                    let e = self.lift(&r[1..], 0);
                    self.present.iter_mut().for_each(|p| *p = false);
                    [vec![1], e].concat()
                } else { r }
            }
            Op::Drop => {
                let r = self.call(op, 0, 0);
                self.present.iter_mut().for_each(|p| *p = false);
                r
            }
            Op::Find => { let m = self.any(a); let r = self.call(op, m, 0); if r.is_empty() { r } else if r[0] == m as i64 { self.lift(&r, 0) } else { [vec![BAD], r].concat() } }
            Op::FindM => {
                if b == 0 { let m = self.any(a); let r = self.call(op, m, 0); return if r.is_empty() { r } else if r[0] == m as i64 { self.lift(&r, 0) } else { [vec![BAD], r].concat() }; }
                let m = self.any(a);
                let r = self.call(op, m, b);
                if r.is_empty() {
                    return r;
                }
                if r[0] != m as i64 || !self.rest(a, m as i64, b, r[1]) { return [vec![BAD], r].concat(); }
                self.lift(&r, 0)
            }
            Op::Pred | Op::Succ | Op::PredM | Op::SuccM => {
                let down = matches!(op, Op::Pred | Op::PredM);
                let m = if !self.present[a] { self.any(a) } else if down { self.first(a) } else { self.last(a) };
                if self.present[a] && self.size(a) > 1 {
                    // inside a block the neighbours are the block's own
                    let i = self.rng.below(self.size(a) - 1);
                    let (q, want) = if down { (self.first(a) + i + 1, self.first(a) + i) } else { (self.first(a) + i, self.first(a) + i + 1) };
                    let r = self.call(op, q, 0);
                    if r.is_empty() || r[0] != want as i64 { return [vec![BAD, q as i64, want as i64], r].concat(); }
                }
                let r = self.call(op, m, b);
                let e = self.lift(&r, if down { 1 } else { -1 });
                if b != 0 && e.len() == 2 && e[0] > 0 && !self.rest(e[0] as usize, r[0], b, r[1]) { return [vec![BAD], r].concat(); }
                e
            }
            Op::Min | Op::MinM | Op::Max | Op::MaxM => {
                let r = self.call(op, 0, b);
                let e = self.lift(&r, if matches!(op, Op::Min | Op::MinM) { -1 } else { 1 });
                if b != 0 && e.len() == 2 && e[0] > 0 && !self.rest(e[0] as usize, r[0], b, r[1]) { return [vec![BAD], r].concat(); }
                e
            }
            Op::IsMonad | Op::Len => self.call(op, 0, 0),
            Op::Iter => unreachable!(),
            Op::Dump => {
                let d = self.call(op, 0, 0);
                let mut out = vec![];
                let mut i = 0;
                while i < d.len() {
                    let e = self.lift(&d[i..i + 2], -1);
                    if e.len() != 2 || e[0] < 1 { return [vec![BAD, 5], e].concat(); }
                    for j in 1..self.size(e[0] as usize) {
                        let p = i + 2 * j;
                        if p + 1 >= d.len() || d[p] != d[i] + j as i64 || d[p + 1] != d[i + 1] { return vec![BAD, 6, d[i] + j as i64]; }
                    }
                    i += 2 * self.size(e[0] as usize);
                    out.extend(e);
                }
                out
            }
        }
    }
}

#[derive(Default)]
pub struct Stats {
    pub walks: u64,
    pub moves: u64,
    pub checks: u64,
    pub calls: u64,
    pub abandoned: u64,
    pub abandon_why: HashMap<String, u64>,
    pub edges_seen: std::collections::HashSet<(usize, usize)>,
    pub max_keys: usize,
    pub limited: bool,
    pub iters: u64,
    pub samples: Vec<String>,
}

pub enum End { Fine, Abandon(String), Violation(String) }

fn len_ok(got: &[i64], n: i64) -> bool {
    got.len() == 3 && got[0] <= n && (got[1] < 0 || got[1] >= n) && (got[2] < 0 || got[2] == n)
}
/// (matches, expected as text)
fn agrees(op: Op, exp: &[i64], got: &[i64], blk: &Blk) -> (bool, Res) {
    match op {
        Op::Len => (len_ok(got, blk.stored() as i64), vec![blk.stored() as i64]),
        Op::IsMonad => { let e = vec![(blk.stored() == 1) as i64]; (got == &e[..], e) }
        _ => {
            let mut e = exp.to_vec();
            if blk.sut.unit() { unvalue(op, &mut e); }
            (got == &e[..], e)
        }
    }
}

fn describe(blk: &Blk, op: Op, a: usize, b: u64, exp: &[i64], got: &[i64]) -> String {
    let key = if a >= 1 && a < blk.start.len() { format!("{}..{}", blk.sut.key_str(blk.first(a)), blk.sut.key_str(blk.last(a))) } else { String::new() };
    let foreign = if got.contains(&-1) && op != Op::Len { format!(" (key not in the embedding: {})", FOREIGN.with(|f| f.borrow().clone())) } else { String::new() };
    format!("{}(rank {a} = {key}, value {b}): specification says {exp:?}, code returned {got:?}{foreign}", op.name())
}

/// Iterates over the tree along a path of the iterator graph and compares every step.
fn check_iter(j: &Judge, l: &IterLts, blk: &mut Blk, entries: &[(i64, i64)], rng: &mut Rng, st: &mut Stats) -> Option<String> {
    let n = entries.len();
    if n > l.max || n == 0 { return None; }
    let len = if rng.chance(1, 6) { rng.below(n + 1) } else { n + 1 + rng.below(4) };
    let bits = match rng.below(8) { 0 => 0, 1 => u64::MAX, 2 => 0x5555_5555_5555_5555, 3 => 0xAAAA_AAAA_AAAA_AAAA,
        4 => u64::MAX << rng.below(n + 1), 5 => !(u64::MAX << rng.below(n + 1)), _ => rng.next() };
    let got = blk.call(Op::Iter, len, bits);
    let (mut f, mut b) = (0, 0);
    st.checks += 1;
    st.iters += 1;
    for (i, x) in got.chunks(5).enumerate() {
        let left = (n - f - b) as i64;
        if j.prop == "C10" && (x[0] > left || (x[1] >= 0 && x[1] < left) || (x[2] >= 0 && x[2] != left)) {
            return Some(format!("after {f} front and {b} back steps of an iteration over {n} entries: size hint {:?}, exact length {}, but {left} entries are left", (x[0], x[1]), x[2]));
        }
        if i == len { break; }
        let dir = (bits >> (i % 64) & 1) as usize;
        let (pos, f2, b2) = l.step(n, f, b, dir);
        if j.prop != "C10" {
            let want = if pos == 0 { (0, 0) } else { entries[pos - 1] };
            let want = if blk.sut.unit() { (want.0, 0) } else { want };
            if x[3] == -8 {
                return Some(format!("iteration over {n} entries: a derived form of iteration (kind {}: 1 count, 2 last, 3-4 comparison of whole sequences, 5-6 folds, 7-10 nth, 11 take, 12 step_by, 13-14 find) differs from single steps", x[4]));
            }
            if (x[3], x[4]) != want {
                return Some(format!("iteration over {n} entries, step {} ({}; {f} front and {b} back steps so far): specification says {want:?}, code returned {:?}",
                    i + 1, if dir == 0 { "front" } else { "back" }, (x[3], x[4])));
            }
        }
        f = f2;
        b = b2;
    }
    None
}

/// What has been replayed so far, so that a deviation in a call the property is not about can be
/// traced back to the call that caused it.
#[derive(Clone, Copy)]
enum Rec { Move(usize, usize), Stay(usize, usize), Query(usize, usize), Sim(usize), Dump(usize), Find(usize, usize) }
#[derive(Clone, Copy)]
enum Src<'a> { Graph(&'a MapLts), Sim(&'a [SimStep]) }
/// one recorded call: operation, arguments, specified result, specified contents afterwards
struct Call { op: Op, a: usize, b: u64, exp: Res, to: Vec<i64> }
struct Past<'a> { src: Src<'a>, recs: Vec<(Rng, Rec)>, fresh: &'a dyn Fn() -> Blk }
thread_local!(static TRIED: std::cell::Cell<u32> = const { std::cell::Cell::new(0) });
const TRIES: u32 = 24;
impl<'a> Past<'a> {
    fn new(src: Src<'a>, fresh: &'a dyn Fn() -> Blk) -> Self { Past { src, recs: vec![], fresh } }
    fn note(&mut self, blk: &Blk, r: Rec) { self.recs.push((blk.rng.clone(), r)); }
    fn pairs(d: &[u8]) -> Vec<i64> { d.iter().enumerate().filter(|(_, v)| **v != 0).flat_map(|(i, v)| [i as i64 + 1, *v as i64]).collect() }
    fn call(&self, r: Rec) -> Call {
        match (r, self.src) {
            (Rec::Move(s, i), Src::Graph(l)) => {
                let e = &l.moves[s][i];
                Call { op: e.op, a: e.a, b: e.b, exp: e.res.clone(), to: Self::pairs(&l.states[e.to]) }
            }
            // a conversion to a single entry that fails because the rank stands for several keys
            (Rec::Stay(s, i), Src::Graph(l)) => {
                let e = &l.moves[s][i];
                Call { op: e.op, a: e.a, b: e.b, exp: vec![0], to: Self::pairs(&l.states[s]) }
            }
            (Rec::Query(s, i), Src::Graph(l)) => {
                let e = &l.queries[s][i];
                Call { op: e.op, a: e.a, b: e.b, exp: e.res.clone(), to: Self::pairs(&l.states[s]) }
            }
            (Rec::Sim(i), Src::Sim(v)) => Call { op: v[i].op, a: v[i].a, b: v[i].b, exp: v[i].res.clone(), to: v[i].after.clone() },
            (Rec::Dump(i), Src::Sim(v)) => Call { op: Op::Dump, a: 0, b: 0, exp: v[i].after.clone(), to: v[i].after.clone() },
            (Rec::Find(i, r), Src::Sim(v)) => {
                let exp = v[i].after.chunks(2).find(|c| c[0] == r as i64).map_or(vec![], |c| c.to_vec());
                Call { op: Op::Find, a: r, b: 0, exp, to: v[i].after.clone() }
            }
            _ => unreachable!(),
        }
    }
    /// the specified contents before call i
    fn before(&self, i: usize) -> Vec<i64> { if i == 0 { vec![] } else { self.call(self.recs[i - 1].1).to } }
    /// Does a tree with the specified contents before call i, built by insertions in the given
    /// order, deviate from the specification in calls i..?
    fn deviates(&self, i: usize, order: usize) -> bool {
        catch_unwind(AssertUnwindSafe(|| {
            let mut blk = (self.fresh)();
            let start = self.before(i);
            let mut init: Vec<&[i64]> = start.chunks(2).collect();
            match order { 0 => {} 1 => init.reverse(), n => Rng::new(n as u64).shuffle(&mut init) }
            for c in init {
                let op = if blk.sut.live() { Op::Ins } else { Op::From };
                if !blk.apply(op, c[0] as usize, c[1] as u64).is_empty() { return true; }
            }
            for (rng, r) in &self.recs[i..] {
                blk.rng = rng.clone();
                let c = self.call(*r);
                let got = blk.apply(c.op, c.a, c.b);
                if !agrees(c.op, &c.exp, &got, &blk).0 || blk.sut.live() == c.to.is_empty() { return true; }
            }
            false
        })).unwrap_or(true)
    }
    /// The call whose effect makes the last recorded call deviate: with the specified contents
    /// before it built by insertions the deviation is there, with those after it built so it is not.
    fn culprit(&self) -> Option<(Call, Vec<i64>, Call)> {
        let n = self.recs.len() - 1;
        let birth = (0..=n).rev().find(|i| self.before(*i).is_empty())?;
        for order in 0..4 {
            if self.deviates(n, order) || !self.deviates(birth, order) { continue; }
            let (mut lo, mut hi) = (birth, n);
            while hi - lo > 1 {
                let mid = lo + (hi - lo) / 2;
                if self.deviates(mid, order) { lo = mid } else { hi = mid }
            }
            return Some((self.call(self.recs[lo].1), self.before(lo), self.call(self.recs[n].1)));
        }
        None
    }
    /// The walk ends because a call outside the property deviates (the last one recorded).  It is a
    /// violation after all if an earlier call of the property is what makes it deviate.
    fn abandon(&mut self, j: &Judge, why: String) -> End {
        let spent = TRIED.with(|t| t.replace(t.get() + 1));
        if j.tokens || spent >= TRIES || self.recs.is_empty() { return End::Abandon(why); }
        match self.culprit() {
            Some((c, at, d)) if (j.judged | j.queries) & c.op.bit() != 0 => End::Violation(format!(
                "{why}: {}({}, {}) is specified to return {:?} and does so on a tree whose specified contents were just inserted, but not after {}({}, {}) on contents {at:?} (rank, value, ...)",
                d.op.name(), d.a, d.b, d.exp, c.op.name(), c.a, c.b)),
            Some((c, ..)) => End::Abandon(format!("{why} (made so by {})", c.op.name())),
            None => End::Abandon(why),
        }
    }
}

/// token bookkeeping: alive tokens = previous + given - handed back
struct Tokens(HashMap<u64, i64>);
impl Tokens {
    fn alive() -> HashMap<u64, i64> { tokens_alive().into_iter().collect() }
    fn add(&mut self, v: u64, n: i64) { let e = self.0.entry(v).or_insert(0); *e += n; if *e == 0 { self.0.remove(&v); } }
}

/// One walk over the transition graph.  `twin` is a plain tree driven in lockstep (C21).
#[allow(clippy::too_many_arguments)]
fn walk(lts: &MapLts, j: &Judge, fresh: &dyn Fn() -> Blk, blk: &mut Blk, twin: &mut Option<Blk>, rng: &mut Rng, steps: usize, visits: &mut [Vec<u32>], st: &mut Stats, usable: usize, tour: Option<&[usize]>, phase: &std::cell::Cell<u8>) -> End {
    let mut s = 0usize;
    let mut tok = Tokens(HashMap::new());
    let flavour = rng.below(4);
    let mut past = Past::new(Src::Graph(lts), fresh);
    let mut seen = vec![false; if tour.is_some() { lts.states.len() } else { 0 }];
    for step in 0..steps {
        // choose a transition: category by weight, then the least taken one
        let want = match (flavour + step / 24) % 4 { 0 => [6, 1, 1, 1, 1], 1 => [3, 2, 4, 1, 2], 2 => [2, 1, 5, 1, 3], _ => [3, 1, 3, 2, 1] };
        let mut best: Option<(u32, usize)> = None;
        let cat = |e: &Edge| match e.op {
            Op::From => 0,
            Op::Ins => if e.res.is_empty() { 0 } else { 1 },
            Op::Rem => if e.res[0] == 1 { 2 } else { 3 },
            Op::RemMin | Op::RemMax => 2,
            _ => 4,
        };
        if let Some(t) = tour { best = Some((0, t[step])); }
        let pick = { let mut x = rng.below(want.iter().sum::<usize>()); let mut c = 0; while x >= want[c] { x -= want[c]; c += 1; } c };
        for pass in if tour.is_some() { 2 } else { 0 }..2 {
            for (i, e) in lts.moves[s].iter().enumerate() {
                let ok = j.moves & e.op.bit() != 0 || (j.writes && e.op.is_mut_query());
                if !ok || e.a > usable || lts.states[e.to][usable..].iter().any(|d| *d != 0) { continue; }
                if pass == 0 && cat(e) != pick { continue; }
                // ending the tree is rarer than the other transitions of its category
                let pen = if matches!(e.op, Op::Drop) && rng.chance(7, 8) { 1 << 24 } else { 0 };
                let w = visits[s][i] * 8 + rng.below(24) as u32 + pen;
                if best.map_or(true, |(bw, _)| w < bw) { best = Some((w, i)); }
            }
            if best.is_some() { break; }
        }
        let Some((_, ei)) = best else { return End::Fine };
        let e = &lts.moves[s][ei];
        if tour.is_none() { visits[s][ei] += 1; st.edges_seen.insert((s, ei)); }
        st.moves += 1;
        let judged = j.judged & e.op.bit() != 0;
        // a one-block tree with several keys is not a single-entry tree
        let into_fails = e.op == Op::Into && e.res[0] == 1 && blk.stored() > 1;
        let exp: &[i64] = if into_fails { &[0] } else { &e.res };
        let to = if into_fails { s } else { e.to };
        if let Some(t) = twin.as_mut() {
            phase.set(1);
            let got = t.apply(e.op, e.a, e.b);
            let (ok, _) = agrees(e.op, exp, &got, t);
            phase.set(0);
            if !ok || t.sut.live() != (to != 0) { return End::Abandon(format!("plain tree deviates on {}", e.op.name())); }
        }
        let before = blk.stored();
        if s == 0 { past.recs.clear(); }
        past.note(blk, if into_fails { Rec::Stay(s, ei) } else { Rec::Move(s, ei) });
        let got = blk.apply(e.op, e.a, e.b);
        let (ok, exp) = agrees(e.op, exp, &got, blk);
        if judged {
            st.checks += 1;
            if !ok { return End::Violation(describe(blk, e.op, e.a, e.b, &exp, &got)); }
            if blk.sut.live() != (to != 0) { return End::Violation(format!("{}: the tree is {} afterwards", describe(blk, e.op, e.a, e.b, &exp, &got), if blk.sut.live() { "still there" } else { "gone" })); }
        } else if blk.sut.live() != (to != 0) || got.first() == Some(&BAD) {
            return past.abandon(j, format!("{} deviates", e.op.name()));
        } else if !ok && j.judged != 0 && !j.tokens {
            if let v @ End::Violation(_) = past.abandon(j, format!("{} deviates", e.op.name())) { return v; }
        }
        if j.tokens {
            let n = if e.a > 0 { blk.size(e.a) as i64 } else { 0 };
            // given
            if matches!(e.op, Op::Ins | Op::From) { tok.add(e.b, n); }
            // handed back (block results are uniform, so one value speaks for the block)
            let back = match e.op {
                Op::Ins if got.len() == 2 => Some((got[1], n)),
                Op::Rem if got[0] == 1 => Some((got[3], n)),
                Op::RemMin | Op::RemMax if got[1] >= 1 => Some((got[2], blk.size(got[1] as usize) as i64)),
                Op::Into if got[0] == 1 => Some((got[2], 1)),
                _ => None,
            };
            if let Some((v, n)) = back { tok.add(v as u64, -n); }
            if e.op == Op::Drop { tok.0.clear(); }
            if e.op.is_mut_query() {
                // overwritten by the caller: the old values go, the new ones come
                if let [r, v] = got[..] { if r >= 1 { let n = blk.size(r as usize) as i64; tok.add(v as u64, -n); tok.add(e.b, n); } }
            }
            st.checks += 1;
            let alive = Tokens::alive();
            if alive != tok.0 {
                return End::Violation(format!("after {}: values alive {:?}, but given minus handed back leaves {:?} ({before} entries before)",
                    describe(blk, e.op, e.a, e.b, &exp, &got), sorted(&alive), sorted(&tok.0)));
            }
            if !ok { return End::Abandon(format!("{} deviates", e.op.name())); }
        }
        s = to;
        if s == 0 { continue; }
        if let Some(l) = j.iter.clone() {
            // the concrete entries, in order
            let entries: Vec<(i64, i64)> = (1..=usable).filter(|r| lts.states[s][r - 1] != 0)
                .flat_map(|r| (blk.first(r)..=blk.last(r)).map(|m| (m as i64, lts.states[s][r - 1] as i64)).collect::<Vec<_>>()).collect();
            if let Some(m) = check_iter(j, &l, blk, &entries, rng, st) { return End::Violation(m); }
        }
        let made = (e.op.name(), e.a, e.b);
        // on a tour, queries are asked once per state; after that a judged call is followed by a full read-out
        let again = tour.is_some() && std::mem::replace(&mut seen[s], true);
        if again && !judged { continue; }
        for (qi, e) in lts.queries[s].iter().enumerate() {
            let b = e.op.bit();
            if again && e.op != Op::Dump { continue; }
            if (j.queries | j.readout) & b == 0 || e.a > usable { continue; }
            if let Some(t) = twin.as_mut() {
                phase.set(1);
                let got = t.apply(e.op, e.a, e.b);
                let (ok, _) = agrees(e.op, &e.res, &got, t);
                phase.set(0);
                if !ok { return End::Abandon(format!("plain tree deviates on {}", e.op.name())); }
            }
            past.note(blk, Rec::Query(s, qi));
            let got = blk.apply(e.op, e.a, e.b);
            let (ok, exp) = agrees(e.op, &e.res, &got, blk);
            st.checks += 1;
            if ok { continue; }
            if j.queries & b != 0 { return End::Violation(describe(blk, e.op, e.a, e.b, &exp, &got)); }
            if judged { return End::Violation(format!("after {}({}, {}): {}", made.0, made.1, made.2, describe(blk, e.op, e.a, e.b, &exp, &got))); }
            if j.judged != 0 { return past.abandon(j, format!("{} deviates", e.op.name())); }
        }
        if j.tokens && Tokens::alive() != tok.0 {
            return End::Violation(format!("queries changed the values alive: {:?}, expected {:?}", sorted(&Tokens::alive()), sorted(&tok.0)));
        }
    }
    if j.tokens {
        blk.clear();
        let alive = Tokens::alive();
        if !alive.is_empty() { return End::Violation(format!("values still alive (or dropped twice) after the tree was dropped: {:?}", sorted(&alive))); }
    }
    End::Fine
}
fn sorted(m: &HashMap<u64, i64>) -> Vec<(u64, i64)> { let mut v: Vec<_> = m.iter().map(|(k, v)| (*k, *v)).collect(); v.sort(); v }

fn block_sizes(rng: &mut Rng, bits: u32, k: usize, heavy: bool) -> Vec<usize> {
    let mut v = vec![1; k];
    if heavy || !rng.chance(1, 8) { return v; }
    // a full domain, a full leaf or a full summary: sizes adding up to a power of two
    if bits >= 4 && rng.chance(1, 2) {
        let total = if bits < 8 { 1usize << bits } else if bits > 8 && rng.chance(1, 6) { [16, 512][rng.below(2)] } else { 256 };
        if total >= k { return cut(rng, k, total); }
    }
    if bits < 8 { return v; }
    let room = if bits < 20 { (1usize << bits).saturating_sub(k) } else { 4000 };
    let mut left = room.min(1200);
    for _ in 0..1 + rng.below(k) {
        let s = [2, 3, 5, 17, 60, 100, 130, 255, 256, 300][rng.below(10)];
        if s < left { left -= s; v[rng.below(k)] = s; }
    }
    v
}

/// sizes adding up to `total`
fn cut(rng: &mut Rng, k: usize, total: usize) -> Vec<usize> {
    let mut cuts = std::collections::BTreeSet::new();
    while cuts.len() < k - 1 { cuts.insert(1 + rng.below(total - 1)); }
    let mut last = 0;
    cuts.into_iter().chain([total]).map(|c| { let s = c - last; last = c; s }).collect()
}
/// keys for blocks of these sizes; powers of two often fill a leaf or a summary
fn ordinals(rng: &mut Rng, bits: u32, total: usize, k: usize) -> Vec<u128> {
    if total > 3 * k && total.is_power_of_two() && rng.chance(3, 4) {
        let style = if rng.chance(1, 2) { RUN } else { LANE };
        return embedding_in(rng, bits, total, style);
    }
    embedding(rng, bits, total)
}

pub struct Plan { pub embeddings: usize, pub steps: usize, pub seed: u64, pub until: std::time::Instant }

/// Runs `f` under panic protection; a panic in the tree under test is a violation.
fn guarded(prop: &str, phase: &std::cell::Cell<u8>, f: impl FnOnce() -> End) -> End {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(e) => e,
        Err(_) => {
            let m = report::own_panic(prop);
            if phase.get() == 1 { End::Abandon(format!("plain tree panicked: {m}")) } else { End::Violation(format!("panic: {m}")) }
        }
    }
}
fn settle(j: &Judge, end: End, st: &mut Stats) {
    match end {
        End::Fine => {}
        End::Abandon(w) => { st.abandoned += 1; *st.abandon_why.entry(w).or_insert(0) += 1; }
        End::Violation(m) => report::violation(&j.prop, &m),
    }
}

pub fn replay_graph(cfg: &Config, twin: Option<&Config>, lts: &MapLts, j: &Judge, plan: &Plan, st: &mut Stats) {
    let mut visits: Vec<Vec<u32>> = lts.moves.iter().map(|m| vec![0; m.len()]).collect();
    let heavy = cfg.cost >= 50;
    let n = (plan.embeddings / cfg.cost).max(2);
    for i in 0..n {
        if std::time::Instant::now() > plan.until { st.limited = true; break; }
        let mut rng = Rng::stream(plan.seed, cfg.name, i as u64);
        // a few walks over very large populations
        let huge = cfg.bits >= 16 && !heavy && i % 128 == 5;
        let sizes = if huge { let t = [3_000, 10_000, 30_000][i / 128 % 3]; cut(&mut rng, lts.k, t) } else { block_sizes(&mut rng, cfg.bits, lts.k, heavy) };
        let total: usize = sizes.iter().sum();
        let ords = ordinals(&mut rng, cfg.bits, total, lts.k);
        let sizes = if ords.len() < total { vec![1; ords.len()] } else { sizes };
        let usable = sizes.len().min(lts.k);
        let big = total > 3 * lts.k;
        st.max_keys = st.max_keys.max(ords.len());
        report::begin(cfg.name, &ords, &sizes, format!("graph replay, embedding {i}"));
        let steps = if heavy { plan.steps / 8 } else if huge { 12 } else if big { plan.steps / 12 } else { plan.steps }.max(8);
        let phase = std::cell::Cell::new(0);
        tokens_reset();
        let end = guarded(&j.prop, &phase, || {
            let mut blk = Blk::new((cfg.make)(&ords), &sizes, rng.clone(), true);
            let fresh = || Blk::new((cfg.make)(&ords), &sizes, Rng::new(1), false);
            let mut tw = twin.map(|t| Blk::new((t.make)(&ords), &sizes, rng.clone(), false));
            let e = walk(lts, j, &fresh, &mut blk, &mut tw, &mut rng, steps, &mut visits, st, usable, None, &phase);
            st.calls += blk.calls;
            if st.samples.len() < 3 && i == 1 {
                let h = report::lock(&report::HIST);
                st.samples.push(format!("{}: keys {:?}: ... {}", cfg.name, (1..=usable.min(9)).map(|r| blk.sut.key_str(r)).collect::<Vec<_>>(),
                    h.steps.iter().rev().take(6).rev().map(|(o, a, b, _)| format!("{}({a},{b})", OPS[*o as usize].1)).collect::<Vec<_>>().join(" ")));
            }
            e
        });
        st.walks += 1;
        settle(j, end, st);
    }
}

/// A closed walk that takes every transition of the graph (edge positions, state by state).
pub fn tour(lts: &MapLts, j: &Judge) -> Vec<usize> {
    let ok = |e: &Edge| j.moves & e.op.bit() != 0 || (j.writes && e.op.is_mut_query());
    let mut left: Vec<Vec<usize>> = lts.moves.iter().map(|m| (0..m.len()).filter(|i| ok(&m[*i])).rev().collect()).collect();
    let mut out = vec![];
    let mut s = 0;
    loop {
        if let Some(i) = left[s].pop() { out.push(i); s = lts.moves[s][i].to; continue; }
        // the nearest state with a transition left
        let mut from: Vec<Option<(usize, usize)>> = vec![None; lts.states.len()];
        let mut q = std::collections::VecDeque::from([s]);
        let mut hit = None;
        while let Some(x) = q.pop_front() {
            if !left[x].is_empty() { hit = Some(x); break; }
            for (i, e) in lts.moves[x].iter().enumerate() {
                if ok(e) && e.to != s && from[e.to].is_none() { from[e.to] = Some((x, i)); q.push_back(e.to); }
            }
        }
        let Some(mut x) = hit else { return out };
        let mut path = vec![];
        while x != s { let (p, i) = from[x].unwrap(); path.push(i); x = p; }
        path.reverse();
        for i in path { out.push(i); s = lts.moves[s][i].to; }
    }
}
/// Every embedding of the graph's ranks into the whole key domain (every `stride`-th of them),
/// and in each of them every transition.
pub fn replay_all(cfg: &Config, twin: Option<&Config>, lts: &MapLts, j: &Judge, stride: u64, (part, parts): (u64, u64), plan: &Plan, st: &mut Stats) {
    assert!(cfg.bits <= 16);
    let n = 1usize << cfg.bits;
    let k = lts.k.min(n);
    let whole = k == lts.k;
    let path = if whole { tour(lts, j) } else { vec![] };
    let mut visits: Vec<Vec<u32>> = lts.moves.iter().map(|m| vec![0; m.len()]).collect();
    let mut c: Vec<usize> = (0..k).collect();
    let mut at = plan.seed;
    let ones = vec![1; k];
    let mut rng = Rng::stream(plan.seed, cfg.name, 9_000_000 + part);
    loop {
        at += 1;
        if at % (stride * parts) == part * stride {
            if std::time::Instant::now() > plan.until { st.limited = true; return; }
            let ords: Vec<u128> = c.iter().map(|x| *x as u128).collect();
            report::begin(cfg.name, &ords, &ones, "every embedding".into());
            let phase = std::cell::Cell::new(0);
            if j.tokens { tokens_reset(); }
            let end = guarded(&j.prop, &phase, || {
                let mut blk = Blk::new((cfg.make)(&ords), &ones, Rng::new(rng.next()), true);
                let mut tw = twin.map(|t| Blk::new((t.make)(&ords), &ones, Rng::new(1), false));
                let fresh = || Blk::new((cfg.make)(&ords), &ones, Rng::new(1), false);
                let e = walk(lts, j, &fresh, &mut blk, &mut tw, &mut rng, if whole { path.len() } else { 4000 }, &mut visits, st, k, whole.then_some(&path[..]), &phase);
                st.calls += blk.calls;
                e
            });
            st.walks += 1;
            settle(j, end, st);
        }
        // next combination
        let Some(i) = (0..k).rev().find(|i| c[*i] < n - k + i) else { return };
        c[i] += 1;
        for x in i + 1..k { c[x] = c[x - 1] + 1; }
    }
}

/// A simulated behaviour replayed step by step; the specified contents after each update are
/// compared through lookups of every key and a full read-out.
pub fn replay_sims(cfg: &Config, twin: Option<&Config>, sims: &[Vec<SimStep>], k: usize, j: &Judge, plan: &Plan, st: &mut Stats) {
    let heavy = cfg.cost >= 50;
    let n = (plan.embeddings / cfg.cost).max(1);
    for i in 0..n {
        if std::time::Instant::now() > plan.until { st.limited = true; break; }
        let mut rng = Rng::stream(plan.seed, cfg.name, 1_000_000 + i as u64);
        if cfg.bits < 5 { return; }
        let sim = &sims[rng.below(sims.len())];
        let sizes = block_sizes(&mut rng, cfg.bits, k, heavy);
        let total: usize = sizes.iter().sum();
        let ords = ordinals(&mut rng, cfg.bits, total, k);
        let sizes = if ords.len() < total { vec![1; ords.len()] } else { sizes };
        if sizes.len() < k { continue; }
        st.max_keys = st.max_keys.max(ords.len());
        report::begin(cfg.name, &ords, &sizes, format!("simulated behaviour, embedding {i}"));
        let phase = std::cell::Cell::new(0);
        tokens_reset();
        let big = total > 3 * k;
        let limit = if heavy { 60 } else if big { 80 } else { sim.len() };
        let off = if limit < sim.len() { starts(sim, &mut rng, limit) } else { 0 };
        let end = guarded(&j.prop, &phase, || {
            let mut blk = Blk::new((cfg.make)(&ords), &sizes, rng.clone(), true);
            let mut tw = twin.map(|t| Blk::new((t.make)(&ords), &sizes, rng.clone(), false));
            let fresh = || Blk::new((cfg.make)(&ords), &sizes, Rng::new(1), false);
            let e = sim_walk(&sim[off..(off + limit).min(sim.len())], k, j, &fresh, &mut blk, &mut tw, st, &phase);
            st.calls += blk.calls;
            e
        });
        st.walks += 1;
        settle(j, end, st);
    }
}
/// a position at which the behaviour creates a tree
fn starts(sim: &[SimStep], rng: &mut Rng, limit: usize) -> usize {
    let v: Vec<usize> = sim.iter().enumerate().filter(|(i, s)| s.op == Op::From && i + limit / 2 < sim.len()).map(|(i, _)| i).collect();
    if v.is_empty() { 0 } else { v[rng.below(v.len())] }
}

fn sim_walk(sim: &[SimStep], k: usize, j: &Judge, fresh: &dyn Fn() -> Blk, blk: &mut Blk, twin: &mut Option<Blk>, st: &mut Stats, phase: &std::cell::Cell<u8>) -> End {
    let mut tok = Tokens(HashMap::new());
    let mut past = Past::new(Src::Sim(sim), fresh);
    for (at, e) in sim.iter().enumerate() {
        let upd = e.op.is_update() || (e.op.is_mut_query() && e.b != 0);
        if e.op == Op::Into && j.moves & Op::Into.bit() == 0 && e.res[0] == 0 { continue; }
        if !upd && (j.queries | j.readout) & e.op.bit() == 0 { continue; }
        // writes and conversions change the state, so they are replayed even when not judged
        let judged = (if upd { j.judged } else { j.queries }) & e.op.bit() != 0;
        if e.op == Op::Into && e.res[0] == 1 && blk.stored() > 1 { return End::Fine; }
        let alive = !e.after.is_empty();
        if let Some(t) = twin.as_mut() {
            phase.set(1);
            let got = t.apply(e.op, e.a, e.b);
            let (ok, _) = agrees(e.op, &e.res, &got, t);
            phase.set(0);
            if !ok || t.sut.live() != alive { return End::Abandon(format!("plain tree deviates on {}", e.op.name())); }
        }
        if e.op == Op::From && !blk.sut.live() { past.recs.clear(); }
        past.note(blk, Rec::Sim(at));
        let got = blk.apply(e.op, e.a, e.b);
        let (ok, exp) = agrees(e.op, &e.res, &got, blk);
        if upd { st.moves += 1; }
        if judged {
            st.checks += 1;
            if !ok { return End::Violation(describe(blk, e.op, e.a, e.b, &exp, &got)); }
            if blk.sut.live() != alive { return End::Violation(format!("{}: the tree is {} afterwards", describe(blk, e.op, e.a, e.b, &exp, &got), if alive { "gone" } else { "still there" })); }
        } else if blk.sut.live() != alive || got.first() == Some(&BAD) {
            return past.abandon(j, format!("{} deviates", e.op.name()));
        } else if !ok && !j.tokens {
            if let v @ End::Violation(_) = past.abandon(j, format!("{} deviates", e.op.name())) { return v; }
        }
        if j.tokens {
            let n = if e.a > 0 { blk.size(e.a) as i64 } else { 0 };
            if matches!(e.op, Op::Ins | Op::From) { tok.add(e.b, n); }
            let back = match e.op {
                Op::Ins if got.len() == 2 => Some((got[1], n)),
                Op::Rem if got[0] == 1 => Some((got[3], n)),
                Op::RemMin | Op::RemMax if got[1] >= 1 => Some((got[2], blk.size(got[1] as usize) as i64)),
                Op::Into if got[0] == 1 => Some((got[2], 1)),
                _ => None,
            };
            if let Some((v, n)) = back { tok.add(v as u64, -n); }
            if e.op.is_mut_query() && e.b != 0 {
                if let [r, v] = got[..] { if r >= 1 { let n = blk.size(r as usize) as i64; tok.add(v as u64, -n); tok.add(e.b, n); } }
            }
            st.checks += 1;
            let now = Tokens::alive();
            if now != tok.0 {
                return End::Violation(format!("after {}: values alive {:?}, but given minus handed back leaves {:?}",
                    describe(blk, e.op, e.a, e.b, &exp, &got), sorted(&now), sorted(&tok.0)));
            }
            if !ok { return End::Abandon(format!("{} deviates", e.op.name())); }
        }
        if let (true, true, Some(l)) = (upd, alive, j.iter.clone()) {
            let entries: Vec<(i64, i64)> = e.after.chunks(2)
                .flat_map(|c| (blk.first(c[0] as usize)..=blk.last(c[0] as usize)).map(|m| (m as i64, c[1])).collect::<Vec<_>>()).collect();
            let mut r = blk.rng.clone();
            if let Some(m) = check_iter(j, &l, blk, &entries, &mut r, st) { return End::Violation(m); }
        }
        if !upd || !alive || j.readout & Op::Dump.bit() == 0 { continue; }
        // observe the specified contents
        past.note(blk, Rec::Dump(at));
        let mut got = blk.apply(Op::Dump, 0, 0);
        let mut exp = e.after.clone();
        if blk.sut.unit() { unvalue(Op::Dump, &mut exp); unvalue(Op::Dump, &mut got); }
        let mut bad = if got != exp { Some(format!("read-out {got:?}, specified {exp:?}")) } else { None };
        if bad.is_none() {
            let m: HashMap<i64, i64> = exp.chunks(2).map(|c| (c[0], c[1])).collect();
            for r in 1..=k {
                past.note(blk, Rec::Find(at, r));
                let got = blk.apply(Op::Find, r, 0);
                let want = m.get(&(r as i64)).map_or(vec![], |v| vec![r as i64, *v]);
                if got != want { bad = Some(describe(blk, Op::Find, r, 0, &want, &got)); break; }
            }
        }
        st.checks += 1;
        if let Some(m) = bad {
            if judged { return End::Violation(format!("after {}({}, {}): {m}", e.op.name(), e.a, e.b)); }
            if j.judged != 0 { return past.abandon(j, format!("contents deviate after {}", e.op.name())); }
        }
    }
    if j.tokens {
        blk.clear();
        let alive = Tokens::alive();
        if !alive.is_empty() { return End::Violation(format!("values still alive (or dropped twice) after the tree was dropped: {:?}", sorted(&alive))); }
    }
    End::Fine
}
