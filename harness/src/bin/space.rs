//! Records how many keys a tree keeps alive, and what dropping it leaves behind, for TraceSpace.tla.
#![recursion_limit = "2048"]
use conform::args::Args;
use conform::configs;
use conform::costs::{self, W};
use conform::keys::embedding;
use conform::report;
use conform::rng::Rng;
use conform::sut::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::collections::BTreeSet;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};

thread_local! { static HEAP: Cell<i64> = const { Cell::new(0) }; }
fn heap() -> i64 { HEAP.with(|h| h.get()) }
struct Counting;
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let _ = HEAP.try_with(|h| h.set(h.get() + l.size() as i64));
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let _ = HEAP.try_with(|h| h.set(h.get() - l.size() as i64));
        System.dealloc(p, l)
    }
}
#[global_allocator]
static A: Counting = Counting;

const OPNAMES: [(W, &str); 4] = [(W::Ins, "ins"), (W::Rem, "rem"), (W::RemMin, "remmin"), (W::RemMax, "remmax")];

/// a busy life of a tree that stays below `cap` entries
fn life(rng: &mut Rng, cfg: &costs::CostConfig, cap: usize, calls: usize, noted: usize, out: &mut impl Write) {
    let m = if cfg.width == 64 { u64::MAX } else { (1 << cfg.width) - 1 };
    let mut sut = (cfg.make)();
    let mut held: BTreeSet<u64> = BTreeSet::new();
    // keys drawn from a pool of few digits per level, or from everywhere
    let dense = rng.chance(1, 2);
    // entries it keeps at least, so that its parts stay
    let low = if rng.chance(1, 2) { cap / 3 } else { 0 };
    let d = [1u32, 2, 4, 8][rng.below(4)].min(cfg.width);
    let pools: Vec<Vec<u64>> = (0..cfg.width / d).map(|_| (0..3.min(1u64 << d)).map(|_| rng.next() & ((1 << d) - 1)).collect()).collect();
    let key = |rng: &mut Rng| if dense { pools.iter().fold(0u64, |a, p| a << d | p[rng.below(p.len())]) } else { rng.next() & m };
    let mut phase = 0;
    let start = heap();
    let mut top = [0i64; 2];
    for i in 0..calls {
        if i % 1024 == 0 { report::idle(); }
        if i % (cap * 3 + 7) == 0 { phase = rng.below(4); }
        let n = held.len();
        let grow = n <= low && n < cap || n < cap && rng.below(8) < [7, 4, 4, 1][phase];
        let some = |rng: &mut Rng, held: &BTreeSet<u64>| { let k = key(rng); *held.range(k..).next().or(held.iter().next()).unwrap() };
        let (w, k) = if grow { (W::Ins, key(rng)) } else {
            match rng.below(8) { 0 | 1 => (W::RemMin, 0), 2 | 3 => (W::RemMax, 0), 4 => (W::Rem, key(rng)), 5 => (W::Ins, some(rng, &held)), _ => (W::Rem, some(rng, &held)) }
        };
        let r = sut.apply(w, k);
        // what the tree answered, not what it should have: other checks judge that
        match w { W::Ins => { held.insert(k); } _ => if let Some(k) = r { held.remove(&k); } }
        if sut.live() == held.is_empty() { return; }
        let t = &mut top[usize::from(i * 16 > calls)];
        *t = (*t).max(heap() - start);
        if i % 149 == 0 && i < noted || i + 1 == calls || i < 300 {
            let op = OPNAMES.iter().find(|o| o.0 == w).unwrap().1;
            writeln!(out, "[\"held\",{},{},\"{op}\",{i}]", held.len(), costs::alive()).unwrap();
        }
    }
    // room of one life in its first sixteenth, and later
    if calls > noted { writeln!(out, "[\"grew\",{},{},{cap}]", top[0], top[1]).unwrap(); }
}

fn main() { report::guard(body) }
fn body() {
    let a = Args::get();
    if a.opt("list").is_some() {
        for c in costs::all() { println!("keys {}", c.name); }
        for (_, c, _) in configs::all() { println!("heap {}", c.name); }
        return;
    }
    let prop = a.str("prop");
    report::install(&prop, a.num("hang", 120));
    if let Some(j) = a.opt("journal") { report::journal_to(&j); }
    let seed = a.num("seed", 1);
    let rounds = a.num("rounds", 4);
    let names = a.str("configs");
    let mut out = std::io::BufWriter::new(std::fs::File::create(a.str("out")).expect("out"));
    let kcfgs = costs::all();
    let hcfgs = configs::all();
    let (mut lives, mut ended) = (0u64, 0u64);
    for name in names.split(',') {
        let k = kcfgs.iter().find(|c| c.name == name);
        let h = hcfgs.iter().find(|c| c.1.name == name);
        writeln!(out, "[\"tree\",\"{name}\",{}]", k.map_or(1, |c| c.levels)).unwrap();
        for round in 0..rounds {
            let mut rng = Rng::stream(seed, name, 7_000_000 + round);
            report::begin(name, &[], &[], format!("storage measurement, round {round}"));
            let mut text: Vec<u8> = Vec::with_capacity(8 << 20);
            if let Some(cfg) = k {
                let keys = costs::alive();
                let cap = [1usize, 2, 3, 5, 8, 20, 60, 400, 3000][round as usize % 9];
                let (noted, long) = (24_000 + cap * 20, cap <= 20 && round % 27 < 9);
                let before = heap();
                let r = catch_unwind(AssertUnwindSafe(|| { let mut t = std::mem::take(&mut text); life(&mut rng, cfg, cap, if long && cap == 20 { 1_500_000 } else if long { 300_000 } else { noted }, noted, &mut t); text = t; }));
                if r.is_err() {
                    report::own_panic(&prop);
                    ended += 1;
                    break;
                }
                writeln!(text, "[\"gone\",{},{},\"round {round}\"]", costs::alive() - keys, heap() - before).unwrap();
            } else {
                let (_, cfg, _) = h.expect("config");
                let n = if cfg.cost >= 50 { [3, 12, 40, 90][round as usize % 4] } else { [3, 12, 40, 90, 20, 260, 6, 900][round as usize % 8] };
                let ords = embedding(&mut rng, cfg.bits, n);
                let n = ords.len();
                let before = heap();
                let r = catch_unwind(AssertUnwindSafe(|| {
                    let mut sut = (cfg.make)(&ords);
                    let calls = if cfg.cost >= 50 { 60 } else { 1_500.max(n * 6) };
                    for i in 0..calls {
                        if i % 64 == 0 { report::idle(); }
                        let k = 1 + rng.below(n);
                        let grow = [7, 4][i * 4 / calls % 2];
                        let q = rng.below(4) as u8;
                        if !sut.live() { sut.apply(Op::From, k, 7, q); continue; }
                        match rng.below(12) {
                            x if x < grow => { sut.apply(Op::Ins, k, 7, q); }
                            7 => { sut.apply(Op::RemMin, 0, 0, q); }
                            8 => { sut.apply(Op::RemMax, 0, 0, q); }
                            9 => { sut.apply(if i % 3 == 0 { Op::Dump } else { Op::Into }, 0, 0, q); }
                            10 => {
                                let (op, a) = [(Op::Find, k), (Op::Pred, k), (Op::Succ, k), (Op::FindM, k), (Op::PredM, k), (Op::SuccM, k), (Op::Min, 0), (Op::Max, 0),
                                    (Op::MinM, 0), (Op::MaxM, 0), (Op::Iter, 5)][rng.below(11)];
                                sut.apply(op, a, 9, q);
                            }
                            _ => { sut.apply(Op::Rem, k, 0, q); }
                        }
                    }
                }));
                if r.is_err() {
                    report::own_panic(&prop);
                    ended += 1;
                    break;
                }
                writeln!(text, "[\"gone\",0,{},\"round {round}\"]", heap() - before).unwrap();
            }
            lives += 1;
            out.write_all(&text).unwrap();
        }
    }
    out.flush().unwrap();
    println!("@@STATS lives={lives} ended_early={ended}");
}
