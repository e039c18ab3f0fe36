//! Records runs of collections with tens of thousands of subtrees (TraceBulk.tla).
use conform::args::Args;
use conform::bulk::{session, Plan, Rec};
use conform::cols;
use conform::keys::{embedding_in, LANE, RUN};
use conform::report;
use conform::rng::Rng;
use conform::sut::{mask, Op};
use std::io::Write;

fn main() { report::guard(body) }
fn body() {
    let a = Args::get();
    let prop = a.str("prop");
    report::install(&prop, a.num("hang", 120));
    if let Some(j) = a.opt("journal") { report::journal_to(&j); }
    let seed = a.num("seed", 1);
    let mut out = std::io::BufWriter::new(std::fs::File::create(a.str("out")).expect("out"));
    writeln!(out, "{}", if prop == "C13" { "[\"judge\",[\"from\",\"ins\",\"find\",\"findm\"],[]]" } else { "[\"judge\",[\"rem\"],[\"find\",\"findm\"]]" }).unwrap();
    let all = cols::all();
    let (mut events, mut calls, mut largest) = (0, 0, 0);
    for name in a.str("configs").split(',') {
        let cfg = all.iter().find(|c| c.name == name).unwrap_or_else(|| panic!("no config {name}"));
        let mut rng = Rng::stream(seed, name, 9_500_000);
        let nh = if cfg.bits <= 16 { 1 << cfg.bits } else { 20_000 + rng.below(5000) };
        let style = [0, RUN, 3, LANE][rng.below(4)];
        let ords = embedding_in(&mut rng, cfg.bits, nh, style);
        let w = 1 + rng.below(3);
        let n = ords.len() * w;
        report::begin(name, &[], &[], format!("bulk run of {} subtrees, {w} low keys, seed {seed}", ords.len()));
        writeln!(out, "[\"config\",\"{name}\",{n},\"{}\"]", ords[0]).unwrap();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            let mut p = Rec::new((cfg.flat)(&ords, w), &mut out, seed);
            session(&mut p, &mut rng, n, &Plan { moves: mask(&[Op::From, Op::Ins, Op::Rem]), qs: vec![Op::Find, Op::FindM], writes: true, iter: false, pops: false });
            (p.events, p.calls)
        }));
        match r {
            Ok((e, c)) => { events += e; calls += c; largest = largest.max(n); }
            Err(_) => { let m = report::own_panic(&prop); report::violation(&prop, &format!("panic: {m}")); }
        }
    }
    out.flush().unwrap();
    println!("@@STATS config=bulk bulk_calls={calls} bulk_lines={events} max_bulk={largest}");
}
