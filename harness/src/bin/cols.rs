//! Conformance of every subtree collection with Collection.tla.
use conform::args::Args;
use conform::cols::{self, COp, ColConfig, ColSut};
use conform::keys::embedding;
use conform::lts::Tv;
use conform::report;
use conform::rng::Rng;
use std::collections::{HashMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};

struct Edge { op: COp, res: Vec<i64>, to: usize }
struct Lts { k: usize, nlo: usize, rows: Vec<Vec<Vec<i64>>>, moves: Vec<Vec<Edge>>, queries: Vec<Vec<Edge>> }
fn cop(t: &Tv) -> (COp, Vec<i64>) {
    let o = t.tup();
    (COp { name: o[0].str().into(), h: o[1].int() as usize, how: o[2].int() as usize, l: o[3].int() as usize, v: o[4].int() as u64 }, o[5].ints())
}
impl Lts {
    fn load(text: &str) -> Lts {
        let mut l = Lts { k: 0, nlo: 0, rows: vec![], moves: vec![], queries: vec![] };
        let mut idx: HashMap<Vec<Vec<i64>>, usize> = HashMap::new();
        for v in Tv::lines(text, 'C') {
            let t = v.tup();
            let mut id = |t: &Tv| {
                let rows: Vec<Vec<i64>> = t.tup().iter().map(|r| r.ints().iter().enumerate().filter(|d| *d.1 != 0).flat_map(|(i, d)| [i as i64 + 1, *d]).collect()).collect();
                l.nlo = t.tup()[0].tup().len();
                *idx.entry(rows.clone()).or_insert_with(|| { l.rows.push(rows); l.moves.push(vec![]); l.queries.push(vec![]); l.rows.len() - 1 })
            };
            let (from, to) = (id(&t[0]), id(&t[2]));
            l.k = t[0].tup().len();
            let (op, res) = cop(&t[1]);
            let q = op.name == "get" || op.name == "getm";
            (if q { &mut l.queries } else { &mut l.moves })[from].push(Edge { op, res, to });
        }
        assert!(!l.rows.is_empty() && l.rows[0].iter().all(|r| r.is_empty()), "bad collection graph");
        l
    }
}
struct SimStep { op: COp, res: Vec<i64>, rows: Vec<Vec<i64>> }
fn load_sims(text: &str) -> Vec<Vec<SimStep>> {
    let mut out: Vec<Vec<SimStep>> = vec![];
    for v in Tv::lines(text, 'S') {
        let t = v.tup();
        let (op, res) = cop(&t[0]);
        // values restart with every behaviour
        if op.name == "create" && res[1] == 1 { out.push(vec![]); }
        out.last_mut().expect("behaviour").push(SimStep { op, res, rows: t[1].tup().iter().map(|r| r.ints()).collect() });
    }
    out
}
thread_local! { static READING: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }; }
enum End { Fine, Abandon(String), Violation(String) }
#[derive(Default)]
struct Stats { walks: u64, moves: u64, checks: u64, calls: u64, abandoned: u64, why: HashMap<String, u64>, edges: HashSet<(usize, usize)>, max_his: usize, limited: bool, sample: String }

/// the calls since the collection was created: operation, argument form, specified result, specified contents afterwards
type Past = Vec<(COp, bool, Vec<i64>, Vec<Vec<i64>>)>;
struct Play<'a> { sut: Box<dyn ColSut>, c13: bool, k: usize, st: &'a mut Stats, rng: Rng, past: &'a mut Past }
/// Does a collection with the specified contents before call i, built by insertions, deviate in calls i..?
fn deviates(make: &dyn Fn() -> Box<dyn ColSut>, k: usize, past: &Past, i: usize, order: u64) -> bool {
    catch_unwind(AssertUnwindSafe(|| {
        let mut sut = make();
        let empty = vec![];
        let rows = if i == 0 { &empty } else { &past[i - 1].3 };
        let mut hs: Vec<usize> = (0..rows.len()).filter(|h| !rows[*h].is_empty()).collect();
        match order { 0 => {} 1 => hs.reverse(), n => Rng::new(n).shuffle(&mut hs) }
        for h in hs {
            let row = &rows[h];
            let o = |name: &str, c: &[i64]| COp { name: name.into(), h: h + 1, how: 0, l: c[0] as usize, v: c[1] as u64 };
            if !sut.live() { sut.apply(&o("create", row), row, false); continue; }
            for (n, c) in row.chunks(2).enumerate() {
                if sut.apply(&o("insk", c), &[], false) != if n == 0 { vec![1] } else { vec![0] } { return true; }
            }
        }
        past[i..].iter().any(|(o, q, res, rows)| {
            report::idle();
            let got = sut.apply(o, if o.name == "create" { res } else { &[] }, *q);
            got != *res || sut.live() != rows.iter().any(|r| !r.is_empty()) || (sut.live() && (1..=k).any(|h| {
                sut.apply(&COp { name: "get".into(), h, how: 0, l: 0, v: 0 }, &[], false) != rows[h - 1]
            }))
        })
    })).unwrap_or(true)
}
/// The call that makes the last one deviate, if it is one the property is about.
fn culprit(make: &dyn Fn() -> Box<dyn ColSut>, k: usize, past: &Past, c13: bool) -> Option<String> {
    let n = past.len().checked_sub(1)?;
    for order in 0..4 {
        if deviates(make, k, past, n, order) || !deviates(make, k, past, 0, order) { continue; }
        let (mut lo, mut hi) = (0, n);
        while hi - lo > 1 { let mid = lo + (hi - lo) / 2; if deviates(make, k, past, mid, order) { lo = mid } else { hi = mid } }
        let (o, d) = (&past[lo].0, &past[n]);
        let rem = o.name == "remk" || o.name == "mrem";
        if rem == c13 || o.name == "drop" { return None; }
        return Some(format!("{:?} is specified to return {:?} and does so on a collection whose specified contents were just inserted, but not after {o:?}", d.0, d.2));
    }
    None
}
impl Play<'_> {
    fn call(&mut self, o: &COp, row: &[i64], log: bool) -> Vec<i64> {
        let q = self.rng.chance(1, 2);
        if log && self.past.last().is_some() { self.past.last_mut().unwrap().1 = q; }
        if log { report::text(format!("{}(h#{} = {}, how {}, l#{}, v {}) {:?}", o.name, o.h, self.sut.hi_str(o.h), o.how, o.l, o.v, row), o.name == "create"); } else { report::idle(); }
        self.st.calls += 1;
        READING.with(|r| r.set(!log));
        self.sut.apply(o, row, q)
    }
    /// one specified call and the read-out of the specified contents after it
    fn step(&mut self, o: &COp, res: &[i64], rows: &[Vec<i64>], queries: Option<&[Edge]>) -> Option<End> {
        let remove = o.name == "remk" || o.name == "mrem";
        let ours = remove != self.c13 && o.name != "drop";
        let row: &[i64] = if o.name == "create" { res } else { &[] };
        if o.name == "create" { self.past.clear(); }
        self.past.push((o.clone(), false, res.to_vec(), rows.to_vec()));
        let got = self.call(o, row, true);
        self.st.moves += 1;
        let alive = rows.iter().any(|r| !r.is_empty());
        if ours {
            self.st.checks += 1;
            if got != res { return Some(End::Violation(format!("{o:?}: specification says {res:?}, code returned {got:?}"))); }
            if self.sut.live() != alive { return Some(End::Violation(format!("{o:?}: collection {} afterwards", if alive { "is gone" } else { "still exists" }))); }
        } else if self.sut.live() != alive { return Some(End::Abandon(format!("{} deviates", o.name))); }
        if !alive { return None; }
        let list: Vec<(COp, Vec<i64>)> = match queries {
            Some(q) => q.iter().filter(|e| e.op.h <= self.k).map(|e| (e.op.clone(), e.res.clone())).collect(),
            None => (1..=self.k).map(|h| (COp { name: if self.rng.chance(1, 3) { "getm" } else { "get" }.into(), h, how: 0, l: 0, v: 0 }, rows[h - 1].clone())).collect(),
        };
        for (q, want) in list {
            let got = self.call(&q, &[], false);
            self.st.checks += 1;
            if got == want { continue; }
            let m = format!("after {o:?}: {} of h#{} = {}: specification says {want:?}, code returned {got:?}", q.name, q.h, self.sut.hi_str(q.h));
            return Some(if self.c13 || ours { End::Violation(m) } else { End::Abandon(format!("contents deviate after {}", o.name)) });
        }
        if !ours && got != res { return Some(End::Abandon(format!("{} deviates", o.name))); }
        None
    }
}
fn los(rng: &mut Rng, n: usize) -> Vec<u32> { embedding(rng, 32, n).iter().map(|o| *o as u32).collect() }
fn settle(prop: &str, r: std::thread::Result<End>, st: &mut Stats, make: &dyn Fn() -> Box<dyn ColSut>, k: usize, past: &Past) {
    st.walks += 1;
    let blame = |st: &Stats, why: &str| if st.abandoned < 24 {
        if let Some(m) = culprit(make, k, past, prop == "C13") { report::violation(prop, &format!("{why}: {m}")) }
    };
    match r {
        Ok(End::Fine) => {}
        Ok(End::Abandon(w)) => { blame(st, &w); st.abandoned += 1; *st.why.entry(w).or_insert(0) += 1; }
        Ok(End::Violation(m)) => report::violation(prop, &m),
        Err(_) => {
            let m = report::own_panic(prop);
            // a panic inside a call is judged by the call that panicked
            let last = report::lock(&report::HIST).texts.last().cloned().unwrap_or_default();
            let rem = last.starts_with("remk") || last.starts_with("mrem");
            let judged = (prop == "C13" && READING.with(|r| r.get())) || rem != (prop == "C13") || last.starts_with("drop");
            if !judged { blame(st, &format!("panic: {m}")); st.abandoned += 1; *st.why.entry(format!("panic: {m}")).or_insert(0) += 1; }
            else { report::violation(prop, &format!("panic: {m}")) }
        }
    }
}

fn main() { report::guard(body) }
fn body() {
    let a = Args::get();
    if a.opt("list").is_some() { for c in cols::all() { println!("{} {} {}", c.name, c.bits, c.cost); } return; }
    let prop = a.str("prop");
    report::install(&prop, a.num("hang", 60));
    if let Some(j) = a.opt("journal") { report::journal_to(&j); }
    let name = a.str("config");
    let all = cols::all();
    let cfg: &ColConfig = all.iter().find(|c| c.name == name).expect("config");
    let seed = a.num("seed", 1);
    let until = std::time::Instant::now() + std::time::Duration::from_secs(a.num("budget", 600));
    let c13 = prop == "C13";
    let mut st = Stats::default();
    let mut total = (0, 0);
    for (gi, f) in a.opt("graphs").unwrap_or_default().split(',').filter(|s| !s.is_empty()).enumerate() {
        let lts = Lts::load(&std::fs::read_to_string(f).expect("graph"));
        report::idle();
        st.edges.clear();
        let mut visits: Vec<Vec<u32>> = lts.moves.iter().map(|m| vec![0; m.len()]).collect();
        for i in 0..(a.num("emb", 100) as usize / cfg.cost).max(2) {
            if std::time::Instant::now() > until { st.limited = true; break; }
            let mut rng = Rng::stream(seed, &name, (gi * 1_000_000 + i) as u64);
            let ords = embedding(&mut rng, cfg.bits, lts.k);
            let k = ords.len();
            st.max_his = st.max_his.max(k);
            let l = los(&mut rng, lts.nlo);
            report::begin(cfg.name, &ords, &[], format!("graph {gi}, embedding {i}, low keys {l:?}"));
            let sut = (cfg.make)(&ords, &l);
            let mut past = vec![];
            let r = catch_unwind(AssertUnwindSafe(|| {
                let mut p = Play { sut, c13, k, st: &mut st, rng: rng.clone(), past: &mut past };
                let mut s = 0;
                for _ in 0..a.num("steps", 200) {
                    let mut best: Option<(u32, usize)> = None;
                    for (ei, e) in lts.moves[s].iter().enumerate() {
                        if e.op.h > k || lts.rows[e.to][k..].iter().any(|r| !r.is_empty()) { continue; }
                        // creation needs distinct high keys only; dropping is rare
                        let w = visits[s][ei] * 8 + rng.below(24) as u32 + if e.op.name == "drop" && rng.chance(9, 10) { 1 << 20 } else { 0 };
                        if best.map_or(true, |b| w < b.0) { best = Some((w, ei)); }
                    }
                    let Some((_, ei)) = best else { break };
                    visits[s][ei] += 1;
                    p.st.edges.insert((s, ei));
                    let e = &lts.moves[s][ei];
                    if let Some(end) = p.step(&e.op, &e.res, &lts.rows[e.to], Some(&lts.queries[e.to])) { return end; }
                    s = e.to;
                }
                End::Fine
            }));
            if st.sample.is_empty() { st.sample = report::lock(&report::HIST).texts.iter().rev().take(4).rev().cloned().collect::<Vec<_>>().join("; "); }
            settle(&prop, r, &mut st, &|| (cfg.make)(&ords, &l), k, &past);
        }
        total.0 += st.edges.len();
        total.1 += lts.moves.iter().map(|m| m.len()).sum::<usize>();
    }
    for (si, f) in a.opt("sims").unwrap_or_default().split(',').filter(|s| !s.is_empty()).enumerate() {
        let sims = load_sims(&std::fs::read_to_string(f).expect("sims"));
        report::idle();
        for i in 0..(a.num("simemb", 10) as usize / cfg.cost).max(1) {
            if std::time::Instant::now() > until { st.limited = true; break; }
            let mut rng = Rng::stream(seed, &name, (50_000_000 + si * 1_000_000 + i) as u64);
            let sim = &sims[rng.below(sims.len())];
            let k = sim[0].rows.len();
            if cfg.bits < 20 && (1usize << cfg.bits) < k { continue; }
            let ords = embedding(&mut rng, cfg.bits, k);
            st.max_his = st.max_his.max(k);
            let l = los(&mut rng, 3);
            report::begin(cfg.name, &ords, &[], format!("simulated behaviour {si}/{i}, low keys {l:?}"));
            let sut = (cfg.make)(&ords, &l);
            let mut past = vec![];
            let r = catch_unwind(AssertUnwindSafe(|| {
                let mut p = Play { sut, c13, k, st: &mut st, rng: rng.clone(), past: &mut past };
                for s in sim {
                    if s.op.name == "get" || s.op.name == "getm" { continue; }
                    if let Some(end) = p.step(&s.op, &s.res, &s.rows, None) { return end; }
                }
                End::Fine
            }));
            settle(&prop, r, &mut st, &|| (cfg.make)(&ords, &l), k, &past);
        }
    }
    println!("@@STATS config={name} walks={} moves={} checks={} calls={} abandoned={} edges={} edges_total={} max_subtrees={}",
        st.walks, st.moves, st.checks, st.calls, st.abandoned, total.0, total.1, st.max_his);
    if st.limited { println!("@@LIMITED"); }
    println!("@@SAMPLE {name}: {}", st.sample);
    for (w, n) in &st.why { println!("@@ABANDON {n} {w}"); }
}
