//! Measures the work per call on keys, on the parts of the tree and on the heap, over sizes and shapes of content, for TraceCost.tla.
#![recursion_limit = "2048"]
use conform::args::Args;
use conform::costs::{self, W, WS};
use conform::report;
use conform::rng::Rng;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};

thread_local! { static ALLOCS: std::cell::Cell<u64> = const { std::cell::Cell::new(0) }; }
struct Counting;
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let _ = ALLOCS.try_with(|a| a.set(a.get() + 1));
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let _ = ALLOCS.try_with(|a| a.set(a.get() + 1));
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static A: Counting = Counting;
fn allocs() -> u64 { ALLOCS.with(|a| a.get()) }

/// the work of the dearest call (on keys), and the most accesses and allocations in any call
struct Top { sum: u64, work: [u64; 6], allocs: u64, key: u64 }
impl Top {
    fn note(top: &mut HashMap<&'static str, Top>, w: W, key: u64, c: [u64; 6], allocs: u64) {
        let sum: u64 = c[..5].iter().sum();
        let e = top.entry(WS[w as usize].1).or_insert(Top { sum: 0, work: [0; 6], allocs: 0, key });
        let most = e.work[5].max(c[5]);
        if sum > e.sum { (e.sum, e.work, e.key) = (sum, c, key); }
        e.work[5] = most;
        e.allocs = e.allocs.max(allocs);
    }
}

fn mask(w: u32) -> u64 { if w == 64 { u64::MAX } else { (1 << w) - 1 } }
/// contents of about n keys
fn contents(rng: &mut Rng, w: u32, n: usize, style: usize) -> Vec<u64> {
    let m = mask(w);
    let n = if w < 20 { n.min(1 << w) } else { n };
    let mut s = BTreeSet::new();
    match style {
        0 => while s.len() < n { s.insert(rng.next() & m); },
        1 => { let b = rng.next() & m; for i in 0..n as u64 { s.insert(b.wrapping_add(i) & m); } }
        // few values per digit at every level: deep nesting with several entries everywhere
        2 => {
            let d = [1u32, 2, 4, 8][rng.below(4)].min(w);
            let pools: Vec<Vec<u64>> = (0..w / d).map(|_| (0..3.min(1u64 << d)).map(|_| rng.next() & mask(d)).collect()).collect();
            for _ in 0..n * 3 {
                if s.len() >= n { break; }
                s.insert(pools.iter().fold(0u64, |a, p| (if d == 64 { 0 } else { a << d }) | p[rng.below(p.len())]));
            }
        }
        // every subtree with one end far away
        _ => {
            let mut x = rng.next() & m;
            while s.len() < n {
                let b = rng.below(w as usize);
                x ^= 1 << b;
                if rng.chance(1, 16) { x = rng.next() & m; }
                s.insert(x & m);
            }
        }
    }
    s.into_iter().collect()
}

/// One to three subtrees (in the middle, at either end) come and go at every number of subtrees: a table that wavers between two sizes shows as many dear calls in a row.
fn waver(prop: &str, cfg: &costs::CostConfig, seed: u64, out: &mut impl Write) -> u64 {
    let mut rng = Rng::stream(seed, &cfg.name, 77);
    let half = cfg.width / 2;
    let limit = 10 * (2 * cfg.levels as u64 - 1);
    report::begin(&cfg.name, &[], &[], "work measurement: subtrees come and go, at every number of subtrees".into());
    let mut sut = (cfg.make)();
    let mut calls = 0;
    let mut one = |sut: &mut Box<dyn costs::CostSut>, w: W, k: u64| {
        if calls % 4096 == 0 { report::idle(); }
        calls += 1;
        costs::take();
        sut.apply(w, k);
        costs::take()[..5].iter().sum::<u64>()
    };
    let r = catch_unwind(AssertUnwindSafe(|| {
        let mut highs = BTreeSet::new();
        // the least and the greatest key stay in the top node
        let (low, high) = (5, mask(half) - 5);
        one(&mut sut, W::Ins, low << half);
        one(&mut sut, W::Ins, high << half);
        for n in 1..2000.min((1u64 << half) - 2) {
            let fresh = |rng: &mut Rng, highs: &BTreeSet<u64>| loop {
                let h = rng.next() & mask(half);
                if low < h && h < high && !highs.contains(&h) { return h << half | rng.next() & mask(half); }
            };
            let k = fresh(&mut rng, &highs);
            highs.insert(k >> half);
            one(&mut sut, W::Ins, k);
            if highs.len() as u64 + 20 >= 1 << half { break; }
            for (d, by) in [(1, W::Rem), (2, W::Rem), (3, W::Rem), (1, W::RemMin), (2, W::RemMin), (3, W::RemMin), (1, W::RemMax), (2, W::RemMax), (3, W::RemMax)] {
                let mut life: BTreeMap<u64, u64> = BTreeMap::new();
                let (mut rounds, mut dear) = (8, 0);
                let mut i = 0;
                while i < rounds {
                    let ks: Vec<u64> = (1..=d).map(|i| match by { W::RemMin => (low - i) << half, W::RemMax => (high + i) << half, _ => fresh(&mut rng, &highs) }).collect();
                    for w in [W::Ins, by] { for k in &ks {
                        let s = one(&mut sut, w, *k);
                        if s > limit { dear += 1; }
                        *life.entry(s).or_insert(0) += 1;
                    } }
                    i += 1;
                    if i == 8 && dear >= 4 { rounds = 8 * n; }
                }
                let big: Vec<String> = life.iter().filter(|e| *e.0 >= 10).map(|e| format!("[{},{}]", e.0, e.1)).collect();
                writeln!(out, "[\"life\",\"ins\",{n},{},\"\",[{}]]", 2 * d * rounds, big.join(",")).unwrap();
            }
        }
    }));
    if r.is_err() { report::own_panic(prop); }
    calls
}

fn main() { report::guard(body) }
fn body() {
    let a = Args::get();
    if a.opt("list").is_some() { for c in costs::all() { println!("{}", c.name); } return; }
    let prop = a.str("prop");
    report::install(&prop, a.num("hang", 120));
    if let Some(j) = a.opt("journal") { report::journal_to(&j); }
    let name = a.str("config");
    let cfg = costs::all().into_iter().find(|c| c.name == name).expect("config");
    let seed = a.num("seed", 1);
    let rounds = a.num("rounds", 3);
    let max_n = a.num("max", 50_000) as usize;
    let mut out = std::io::BufWriter::new(std::fs::File::create(a.str("out")).expect("out"));
    writeln!(out, "[\"tree\",\"{name}\",{},0,0,[]]", cfg.levels).unwrap();
    let mut calls = 0u64;
    let mut ended = 0u64;
    let mut overall: HashMap<&'static str, u64> = HashMap::new();
    let mut most: HashMap<&'static str, (u64, u64)> = HashMap::new();
    for round in 0..rounds { for style in 0..4 { for n in [1usize, 2, 3, 4, 6, 10, 30, 100, 1000, 10_000, max_n] {
        if n > max_n || (n > 1000 && round > 0 && n < max_n) { continue; }
        let mut rng = Rng::stream(seed, &name, round * 1000 + style as u64 * 100 + (n as f64).log2() as u64);
        let keys = contents(&mut rng, cfg.width, n, style);
        if keys.len() < n && cfg.width < 20 && n > 10_000 { }
        report::begin(&name, &[], &[], format!("work measurement: {} keys, style {style}, round {round}", keys.len()));
        let mut sut = (cfg.make)();
        // the most expensive call of each kind
        let top: RefCell<HashMap<&'static str, Top>> = RefCell::new(HashMap::with_capacity(32));
        // how many updates took how much work
        let life: RefCell<BTreeMap<u64, u64>> = RefCell::new(BTreeMap::new());
        let m = mask(cfg.width);
        let r = catch_unwind(AssertUnwindSafe(|| {
            let mut one = |sut: &mut Box<dyn costs::CostSut>, w: W, k: u64| {
                if calls % 4096 == 0 { report::idle(); }
                calls += 1;
                costs::take();
                let live = sut.live();
                let before = allocs();
                let r = sut.apply(w, k);
                let (c, n) = (costs::take(), allocs() - before);
                if live { Top::note(&mut top.borrow_mut(), w, k, c, n); }
                if matches!(w, W::Ins | W::Rem | W::RemMin | W::RemMax) { *life.borrow_mut().entry(c[..5].iter().sum()).or_insert(0) += 1; }
                r
            };
            let mut order = keys.clone();
            match round % 3 { 0 => rng.shuffle(&mut order), 1 => {}, _ => order.reverse() }
            for k in &order { one(&mut sut, W::Ins, *k); }
            let q = 300 + keys.len().min(20_000);
            let near = |rng: &mut Rng| { let k = keys[rng.below(keys.len())]; match rng.below(6) { 0 => k.wrapping_add(1) & m, 1 => k.wrapping_sub(1) & m, 2 => rng.next() & m, 3 => k ^ (1 << rng.below(cfg.width as usize)), _ => k } };
            for _ in 0..q { let k = near(&mut rng); for w in [W::Find, W::FindM, W::Pred, W::PredM, W::Succ, W::SuccM] { one(&mut sut, w, k); } }
            for w in [W::Min, W::Max, W::MinM, W::MaxM, W::IsMonad, W::Len] { one(&mut sut, w, 0); }
            if keys.len() > 1 { one(&mut sut, W::Into, 0); }
            // whole iterations: from the front, from the back, from both ends
            for way in 0..3 {
                let mut steps = 0;
                sut.walk(&mut || match way { 0 => true, 1 => false, _ => rng.chance(1, 2) }, allocs, &mut |w, k, c, n| {
                    Top::note(&mut top.borrow_mut(), w, k, c, n);
                    steps += 1;
                    steps < 30_000
                });
                report::idle();
            }
            // replacing, absent and present removals, pops with refills
            for _ in 0..q {
                let k = near(&mut rng);
                let w = [W::Ins, W::Ins, W::Rem, W::Rem, W::RemMin, W::RemMax][rng.below(6)];
                if sut.live() || w == W::Ins { one(&mut sut, w, k); }
            }
            let drain = rng.below(4);
            while sut.live() {
                let w = match drain { 0 => W::RemMin, 1 => W::RemMax, _ => [W::RemMin, W::RemMax, W::Rem][rng.below(3)] };
                let k = if w == W::Rem { match one(&mut sut, W::Succ, keys[rng.below(keys.len())]) { Some(k) => k, None => continue } } else { 0 };
                if one(&mut sut, w, k).is_none() && w != W::Rem { break; }
                if w == W::Rem && rng.chance(1, 64) { one(&mut sut, W::RemMin, 0); }
            }
        }));
        if r.is_err() {
            report::own_panic(&prop);
            ended += 1;
        }
        let mut t: Vec<_> = top.into_inner().into_iter().collect();
        t.sort_by_key(|e| e.0);
        for (w, Top { sum: s, work: c, allocs: n, key: k }) in t {
            let o = overall.entry(w).or_insert(0);
            *o = (*o).max(s);
            let m = most.entry(w).or_insert((0, 0));
            *m = (m.0.max(c[5]), m.1.max(n));
            // a hash table may rehash itself now and then: the updates are judged together
            let kind = if cfg.amortised && matches!(w, "ins" | "rem" | "remmin" | "remmax") { "parts" } else { "work" };
            writeln!(out, "[\"{kind}\",\"{w}\",{},{s},\"{k}\",[{},{},{},{},{},{},{n}]]", keys.len(), c[0], c[1], c[2], c[3], c[4], c[5]).unwrap();
        }
        if cfg.amortised {
            let life = life.into_inner();
            let big: Vec<String> = life.iter().filter(|e| *e.0 >= 10).map(|e| format!("[{},{}]", e.0, e.1)).collect();
            writeln!(out, "[\"life\",\"ins\",{},{},\"\",[{}]]", keys.len(), life.values().sum::<u64>(), big.join(",")).unwrap();
        }
    } } }
    if cfg.amortised { calls += waver(&prop, &cfg, seed, &mut out); }
    out.flush().unwrap();
    let mut o: Vec<_> = overall.into_iter().collect();
    o.sort();
    println!("@@STATS config={name} calls={calls} ended_early={ended} {}", o.iter().map(|(w, s)| format!("max_{w}_{name}={s}/{}/{}", most[w].0, most[w].1)).collect::<Vec<_>>().join(" "));
}
