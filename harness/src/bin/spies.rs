//! Runs trees assembled from spying components through specified histories and records what the
//! tree did with its summaries and collections, for TraceStruct.tla.
use conform::args::Args;
use conform::keys::embedding;
use conform::lts::{load_sims, MapLts};
use conform::report;
use conform::rng::Rng;
use conform::spies;
use conform::sut::{Op, Sut};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// Plays one call; false: the walk cannot go on (whatever went wrong is another property's).
fn play(sut: &mut dyn Sut, op: Op, a: usize, b: u64, q: u8, live_after: bool, why: &mut String) -> bool {
    report::step(op, a, b, q);
    let r = catch_unwind(AssertUnwindSafe(|| sut.apply(op, a, b, q)));
    if r.is_err() {
        let m = report::own_panic("");
        *why = format!("panic: {m}");
        return false;
    }
    spies::quiescent(op.name(), a);
    if sut.live() != live_after { *why = format!("{} deviates", op.name()); return false; }
    true
}
const MOVES: [Op; 8] = [Op::From, Op::Ins, Op::Rem, Op::RemMin, Op::RemMax, Op::Into, Op::Drop, Op::FindM];

fn main() { report::guard(body) }
fn body() {
    let a = Args::get();
    if a.opt("list").is_some() { for c in spies::all() { println!("{} {}", c.name, c.bits); } return; }
    let prop = a.str("prop");
    report::install(&prop, a.num("hang", 60));
    if let Some(j) = a.opt("journal") { report::journal_to(&j); }
    let name = a.str("config");
    let cfg = spies::all().into_iter().find(|c| c.name == name).expect("config");
    let seed = a.num("seed", 1);
    let limit = a.num("events", 100_000);
    let (mut walks, mut moves, mut abandoned) = (0u64, 0u64, std::collections::HashMap::<String, u64>::new());
    let mut out = std::io::BufWriter::new(std::fs::File::create(a.str("out")).expect("out"));
    let mut flush = || spies::LOG.with(|l| { let t = std::mem::take(&mut l.borrow_mut().out); out.write_all(t.as_bytes()).unwrap(); });
    let graphs: Vec<MapLts> = a.str("graphs").split(',').filter(|s| !s.is_empty()).map(|f| MapLts::load(&std::fs::read_to_string(f).expect("graph"))).collect();
    let sims: Vec<_> = a.str("sims").split(',').filter(|s| !s.is_empty()).flat_map(|f| load_sims(&std::fs::read_to_string(f).expect("simulation"))).collect();
    report::idle();
    let mut rng = Rng::stream(seed, &name, 42);
    let mut fresh = 0u64;
    let steps = a.num("steps", 200) as usize;
    while spies::LOG.with(|l| l.borrow().events) < limit {
        let mut why = String::new();
        let sim = !sims.is_empty() && rng.chance(1, 12);
        let (i, j) = (rng.below(sims.len().max(1)), rng.below(graphs.len()));
        let k = if sim { 24 } else { graphs[j].k };
        let ords = embedding(&mut rng, cfg.bits, k);
        let n = ords.len();
        report::begin(&name, &ords, &[], "spied run".into());
        spies::start(&name);
        let mut sut = (cfg.make)(&ords);
        walks += 1;
        if sim {
            for s in &sims[i] {
                if s.a > n { break; }
                if s.op != Op::From && !sut.live() { break; }
                moves += 1;
                if !play(&mut *sut, s.op, s.a, s.b, rng.below(3) as u8, !s.after.is_empty(), &mut why) { break; }
            }
        } else {
            let l = &graphs[j];
            let mut at = 0;
            // drift towards a full or an empty tree for a while
            let mut up = true;
            for t in 0..steps {
                if t % 16 == 0 { up = rng.chance(1, 2); }
                let mut es: Vec<_> = l.moves[at].iter().filter(|e| MOVES.contains(&e.op) && e.a <= n).collect();
                if n < l.k { es.retain(|e| e.op != Op::FindM || e.b == 0); }
                if es.is_empty() { break; }
                let mut e = es[rng.below(es.len())];
                for _ in 0..3 { if (l.size(e.to) >= l.size(at)) != up { e = es[rng.below(es.len())]; } }
                if e.op == Op::Drop && !rng.chance(1, 8) { continue; }
                fresh += 1;
                moves += 1;
                if !play(&mut *sut, e.op, e.a, if e.b != 0 { fresh } else { 0 }, rng.below(3) as u8, l.size(e.to) > 0, &mut why) { break; }
                at = e.to;
            }
        }
        if !why.is_empty() { *abandoned.entry(why).or_insert(0) += 1; }
        spies::stop();
        drop(sut);
        flush();
    }
    out.flush().unwrap();
    let ev = spies::LOG.with(|l| l.borrow().events);
    println!("@@STATS config={name} walks={walks} moves={moves} events={ev} abandoned={}", abandoned.values().sum::<u64>());
    for (w, n) in abandoned { println!("@@ABANDON {n} {w}"); }
}
