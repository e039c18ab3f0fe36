//! Conformance of cloneable trees with VebClone.tla.
use conform::args::Args;
use conform::clones::{self, Multi};
use conform::keys::embedding;
use conform::lts::Tv;
use conform::report;
use conform::rng::Rng;
use conform::sut::{unvalue, Op, Res};
use std::collections::{HashMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Debug)]
struct Call { name: String, i: usize, a: usize, b: u64, res: Res }
fn call(t: &Tv) -> Call {
    let o = t.tup();
    Call { name: o[0].str().into(), i: o[1].int() as usize, a: o[2].int() as usize, b: o[3].int() as u64, res: o[4].ints() }
}
/// sorted contents of every handle
type World = Vec<Vec<i64>>;
struct Edge { c: Call, to: usize }
struct Lts { k: usize, worlds: Vec<World>, moves: Vec<Vec<Edge>> }
impl Lts {
    fn load(text: &str) -> Lts {
        let mut l = Lts { k: 0, worlds: vec![], moves: vec![] };
        let mut idx: HashMap<World, usize> = HashMap::new();
        for v in Tv::lines(text, 'K') {
            let t = v.tup();
            l.k = t[0].tup()[0].tup().len();
            let mut id = |t: &Tv| {
                let w: World = t.tup().iter().map(|r| r.ints().iter().enumerate().filter(|d| *d.1 != 0).flat_map(|(i, d)| [i as i64 + 1, *d]).collect()).collect();
                *idx.entry(w.clone()).or_insert_with(|| { l.worlds.push(w); l.moves.push(vec![]); l.worlds.len() - 1 })
            };
            let (from, to) = (id(&t[0]), id(&t[2]));
            l.moves[from].push(Edge { c: call(&t[1]), to });
        }
        assert!(l.worlds.len() > 1 && l.worlds[0].iter().all(|r| r.is_empty()), "bad clone graph");
        l
    }
}
fn load_sims(text: &str) -> Vec<Vec<(Call, World)>> {
    let mut out: Vec<Vec<(Call, World)>> = vec![];
    for v in Tv::lines(text, 'S') {
        let t = v.tup();
        let c = call(&t[0]);
        if c.name == "from" && c.b == 1 { out.push(vec![]); }
        out.last_mut().expect("behaviour").push((c, t[1].tup().iter().map(|r| r.ints()).collect()));
    }
    out
}
enum End { Fine, Abandon(String), Violation(String) }
#[derive(Default)]
struct Stats { walks: u64, moves: u64, checks: u64, calls: u64, clones: u64, abandoned: u64, why: HashMap<String, u64>, limited: bool, sample: String }
// what is under way: (handle, is it the handle a call was made on)
thread_local! { static PHASE: std::cell::RefCell<(usize, bool)> = const { std::cell::RefCell::new((0, true)) }; }

struct Play<'a> {
    m: Box<dyn Multi>,
    n: usize,
    k: usize,
    rng: Rng,
    st: &'a mut Stats,
    /// the calls that built the tree of each handle, cloning left out
    log: Vec<Vec<(Op, usize, u64, u8)>>,
    cloned: Vec<bool>,
}
impl Play<'_> {
    fn op(&mut self, i: usize, op: Op, a: usize, b: u64, q: u8) -> Res {
        self.st.calls += 1;
        let mut r = self.m.apply(i, op, a, b, q);
        if self.m.unit() { unvalue(op, &mut r); }
        r
    }
    /// everything handle i reports, compared with the specified contents
    fn read(&mut self, i: usize, want: &[i64]) -> Option<String> {
        PHASE.with(|p| *p.borrow_mut() = (i, false));
        report::idle();
        self.st.checks += 1;
        if self.m.live(i) != !want.is_empty() { return Some(format!("handle {i} has {} tree", if want.is_empty() { "a" } else { "no" })); }
        if want.is_empty() { return None; }
        let mut want = want.to_vec();
        if self.m.unit() { unvalue(Op::Dump, &mut want); }
        let ents: Vec<&[i64]> = want.chunks(2).collect();
        let mut q: Vec<(Op, usize, Vec<i64>)> = vec![(Op::Dump, 0, want.clone()), (Op::Min, 0, ents[0].to_vec()), (Op::Max, 0, ents[ents.len() - 1].to_vec()), (Op::IsMonad, 0, vec![(ents.len() == 1) as i64])];
        for k in 1..=self.k {
            q.push((Op::Find, k, ents.iter().find(|e| e[0] == k as i64).map_or(vec![], |e| e.to_vec())));
            q.push((Op::Pred, k, ents.iter().rev().find(|e| e[0] < k as i64).map_or(vec![], |e| e.to_vec())));
            q.push((Op::Succ, k, ents.iter().find(|e| e[0] > k as i64).map_or(vec![], |e| e.to_vec())));
        }
        for (op, a, w) in q {
            let got = self.op(i, op, a, 0, 0);
            if got != w { return Some(format!("{}({a} = {}) on handle {i}: specified {w:?}, code returned {got:?}", op.name(), self.m.key_str(a))); }
        }
        None
    }
    /// does a tree built by the same calls without any cloning deviate too?
    fn uncloned_deviates(&mut self, i: usize, want: &[i64]) -> bool {
        let s = self.n;
        self.m.discard(s);
        let log = self.log[i].clone();
        let r = catch_unwind(AssertUnwindSafe(|| {
            for (op, a, b, q) in log { self.m.apply(s, op, a, b, q); }
            self.read(s, want).is_some()
        }));
        r.unwrap_or(true)
    }
    fn step(&mut self, c: &Call, w: &World) -> Option<End> {
        let i = c.i - 1;
        self.st.moves += 1;
        let q = self.rng.below(3) as u8;
        report::text(format!("{}(handle {}, {}, {})", c.name, c.i, c.a, c.b), false);
        PHASE.with(|p| *p.borrow_mut() = (i, true));
        let mut res_ok = true;
        let mut got = vec![];
        match c.name.as_str() {
            "clone" => {
                self.st.clones += 1;
                self.m.dup(i, c.a - 1, q > 0);
                self.log[c.a - 1] = self.log[i].clone();
                self.cloned[c.a - 1] = true;
                self.cloned[i] = true;
            }
            "drop" => { self.m.discard(i); self.log[i].clear(); self.cloned[i] = false; }
            n => {
                let op = Op::parse(n).expect("op");
                if op == Op::From { self.log[i].clear(); self.cloned[i] = false; }
                self.log[i].push((op, c.a, c.b, q));
                got = match catch_unwind(AssertUnwindSafe(|| self.op(i, op, c.a, c.b, q))) {
                    Ok(r) => r,
                    Err(e) => {
                        if !self.cloned[i] { std::panic::resume_unwind(e); }
                        let m = report::own_panic("C17");
                        if self.uncloned_deviates(i, &w[i]) { return Some(End::Abandon(format!("panic: {m}"))); }
                        return Some(End::Violation(format!("{}(handle {}, {}, {}) panics, which it does not on a tree with the same history that was never cloned: {m}", c.name, c.i, c.a, c.b)));
                    }
                };
                let mut want = c.res.clone();
                if self.m.unit() { unvalue(op, &mut want); }
                res_ok = got == want;
            }
        }
        // the handles the call was not made on are untouched; a clone equals its original
        for h in 0..self.n {
            if h == i && c.name != "clone" { continue; }
            if let Some(m) = self.read(h, &w[h]) { return Some(End::Violation(format!("after {}(handle {}, {}, {}): {m}", c.name, c.i, c.a, c.b))); }
        }
        let own = if res_ok { self.read(i, &w[i]) } else { Some(format!("specified {:?}, code returned {got:?}", c.res)) };
        if let Some(m) = own {
            if c.name == "clone" || (self.cloned[i] && !self.uncloned_deviates(i, &w[i])) {
                return Some(End::Violation(format!("{}(handle {}, {}, {}) behaves differently from a tree with the same history that was never cloned: {m}", c.name, c.i, c.a, c.b)));
            }
            return Some(End::Abandon(format!("{} deviates", c.name)));
        }
        None
    }
}
fn settle(prop: &str, r: std::thread::Result<End>, st: &mut Stats) {
    st.walks += 1;
    match r {
        Ok(End::Fine) => {}
        Ok(End::Abandon(w)) => { st.abandoned += 1; *st.why.entry(w).or_insert(0) += 1; }
        Ok(End::Violation(m)) => report::violation(prop, &m),
        Err(_) => {
            let m = report::own_panic(prop);
            let last = report::lock(&report::HIST).texts.last().cloned().unwrap_or_default();
            let (_, own) = PHASE.with(|p| *p.borrow());
            // panics while reading another handle, or while cloning, are ours
            if last.starts_with("clone") || !own { report::violation(prop, &format!("panic: {m}")) }
            st.abandoned += 1;
            *st.why.entry(format!("panic: {m}")).or_insert(0) += 1;
        }
    }
}
fn main() { report::guard(body) }
fn body() {
    let a = Args::get();
    if a.opt("list").is_some() { for c in clones::all() { println!("{} {}", c.name, c.bits); } return; }
    let prop = a.str("prop");
    report::install(&prop, a.num("hang", 60));
    if let Some(j) = a.opt("journal") { report::journal_to(&j); }
    let name = a.str("config");
    let all = clones::all();
    let cfg = all.iter().find(|c| c.name == name).expect("config");
    let seed = a.num("seed", 1);
    let until = std::time::Instant::now() + std::time::Duration::from_secs(a.num("budget", 600));
    let mut st = Stats::default();
    let mut edges = (0, 0);
    for (gi, f) in a.opt("graphs").unwrap_or_default().split(',').filter(|s| !s.is_empty()).enumerate() {
        let lts = Lts::load(&std::fs::read_to_string(f).expect("graph"));
        report::idle();
        let mut visits: Vec<Vec<u32>> = lts.moves.iter().map(|m| vec![0; m.len()]).collect();
        let mut seen: HashSet<(usize, usize)> = HashSet::new();
        for i in 0..a.num("emb", 100) {
            if std::time::Instant::now() > until { st.limited = true; break; }
            let mut rng = Rng::stream(seed, &name, gi as u64 * 1_000_000 + i);
            let ords = embedding(&mut rng, cfg.bits, lts.k);
            let k = ords.len();
            report::begin(cfg.name, &ords, &[], format!("clone graph {gi}, embedding {i}"));
            let r = catch_unwind(AssertUnwindSafe(|| {
                let n = lts.worlds[0].len();
                let mut p = Play { m: (cfg.make)(&ords, n + 1), n, k, rng: rng.clone(), st: &mut st, log: vec![vec![]; n], cloned: vec![false; n] };
                let mut s = 0;
                for _ in 0..a.num("steps", 120) {
                    let mut best: Option<(u32, usize)> = None;
                    let single = lts.worlds[s].iter().filter(|h| !h.is_empty()).count() < 2;
                    let cl = rng.chance(1, if single { 6 } else { 25 });
                    for (ei, e) in lts.moves[s].iter().enumerate() {
                        if e.c.a > k && e.c.name != "clone" { continue; }
                        if lts.worlds[e.to].iter().any(|h| h.chunks(2).any(|c| c[0] > k as i64)) { continue; }
                        let pen = match e.c.name.as_str() { "drop" if rng.chance(9, 10) => 1 << 20, "clone" if cl => 0, "clone" => 1 << 18, _ if cl => 1 << 16, _ => 0 };
                        let w = visits[s][ei] * 8 + rng.below(24) as u32 + pen;
                        if best.map_or(true, |b| w < b.0) { best = Some((w, ei)); }
                    }
                    let Some((_, ei)) = best else { break };
                    visits[s][ei] += 1;
                    seen.insert((s, ei));
                    let e = &lts.moves[s][ei];
                    if let Some(end) = p.step(&e.c, &lts.worlds[e.to]) { return end; }
                    s = e.to;
                }
                End::Fine
            }));
            if st.sample.is_empty() { st.sample = report::lock(&report::HIST).texts.iter().rev().take(6).rev().cloned().collect::<Vec<_>>().join("; "); }
            settle(&prop, r, &mut st);
        }
        edges.0 += seen.len();
        edges.1 += lts.moves.iter().map(|m| m.len()).sum::<usize>();
    }
    for (si, f) in a.opt("sims").unwrap_or_default().split(',').filter(|s| !s.is_empty()).enumerate() {
        let sims = load_sims(&std::fs::read_to_string(f).expect("sims"));
        report::idle();
        for i in 0..a.num("simemb", 10) {
            if std::time::Instant::now() > until { st.limited = true; break; }
            if cfg.bits < 5 { break; }
            let mut rng = Rng::stream(seed, &name, 50_000_000 + si as u64 * 1_000_000 + i);
            let sim = &sims[rng.below(sims.len())];
            let ords = embedding(&mut rng, cfg.bits, 24);
            report::begin(cfg.name, &ords, &[], format!("clone behaviour {si}/{i}"));
            let r = catch_unwind(AssertUnwindSafe(|| {
                let n = sim[0].1.len();
                let mut p = Play { m: (cfg.make)(&ords, n + 1), n, k: ords.len(), rng: rng.clone(), st: &mut st, log: vec![vec![]; n], cloned: vec![false; n] };
                for (c, w) in sim { if let Some(end) = p.step(c, w) { return end; } }
                End::Fine
            }));
            settle(&prop, r, &mut st);
        }
    }
    println!("@@STATS config={name} walks={} moves={} clones={} checks={} calls={} abandoned={} edges={} edges_total={}",
        st.walks, st.moves, st.clones, st.checks, st.calls, st.abandoned, edges.0, edges.1);
    if st.limited { println!("@@LIMITED"); }
    println!("@@SAMPLE {name}: {}", st.sample);
    for (w, n) in &st.why { println!("@@ABANDON {n} {w}"); }
}
