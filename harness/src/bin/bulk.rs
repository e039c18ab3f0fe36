//! Records runs with tens of thousands of entries, stretches of like calls as one line, to be
//! validated against VebBulk (TraceBulk.tla).
use conform::args::Args;
use conform::configs;
use conform::keys::{embedding_in, LANE, RUN};
use conform::report;
use conform::rng::Rng;
use conform::sut::*;
use conform::walk::judge;
use conform::bulk::{session, Plan, Rec};
use std::io::Write;

const COMB: usize = 99;
fn main() { report::guard(body) }

fn body() {
    let a = Args::get();
    let prop = a.str("prop");
    report::install(&prop, a.num("hang", 120));
    if let Some(j) = a.opt("journal") { report::journal_to(&j); }
    let j = judge(&prop);
    let seed = a.num("seed", 1);
    let names = |m: u32| OPS.iter().filter(|o| m & o.0.bit() != 0).map(|o| format!("\"{}\"", o.1)).collect::<Vec<_>>().join(",");
    let mut out = std::io::BufWriter::new(std::fs::File::create(a.str("out")).expect("out"));
    let iter = matches!(prop.as_str(), "C09" | "C10" | "C18");
    let extra = match prop.as_str() { "C09" => "\"iter\",\"order\"", "C10" => "\"iter\",\"size\"", _ => "" };
    let judged = [names(j.judged | j.queries).as_str(), extra].iter().filter(|s| !s.is_empty()).copied().collect::<Vec<_>>().join(",");
    writeln!(out, "[\"judge\",[{}],[{}]]", judged, names(j.readout)).unwrap();
    let all = configs::all();
    let list = a.str("configs");
    let (mut events, mut calls, mut largest) = (0, 0, 0);
    for name in list.split(',') {
        let (_, cfg, _) = all.iter().find(|c| c.1.name == name).unwrap_or_else(|| panic!("no config {name}"));
        let mut rng = Rng::stream(seed, name, 9_000_000);
        let style = [RUN, 3, LANE, COMB][rng.below(4)];
        let ords = if style == COMB && cfg.bits >= 18 {
            // every value of the leading digit, a few keys below each
            let w = if cfg.bits >= 24 { [8, 16][rng.below(2)] } else { 8 };
            let b = cfg.bits - w;
            let lows = embedding_in(&mut rng, b.min(60), 2, 0);
            (0..1u128 << w).flat_map(|i| lows.iter().map(move |l| i << b | l)).collect()
        } else {
            let n = if cfg.bits < 16 { 1 << cfg.bits } else if cfg.bits == 16 { 65536 } else if style == LANE { [256, 65536][rng.below(2)] } else { 66_000 + rng.below(4000) };
            embedding_in(&mut rng, cfg.bits, n, if style == COMB { RUN } else { style })
        };
        let n = ords.len();
        report::begin(name, &[], &[], format!("bulk run of {n} keys from {} on, style {style}, seed {seed}", ords[0]));
        writeln!(out, "[\"config\",\"{name}\",{n},\"{}\"]", ords[0]).unwrap();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            let sut = (cfg.make)(&ords);
            let mut p = Rec::new(sut, &mut out, seed);
            let qs = OPS.iter().map(|o| o.0).filter(|o| (j.queries | j.readout) & o.bit() != 0 && !o.is_update() && !matches!(o, Op::Dump | Op::Iter)).collect();
            session(&mut p, &mut rng, n, &Plan { moves: j.moves, qs, writes: j.writes, iter, pops: true });
            (p.events, p.calls)
        }));
        match r {
            Ok((e, c)) => { events += e; calls += c; largest = largest.max(n); }
            Err(_) => {
                let m = report::own_panic(&prop);
                report::violation(&prop, &format!("panic: {m}"));
            }
        }
    }
    out.flush().unwrap();
    println!("@@STATS config=bulk bulk_calls={calls} bulk_lines={events} max_bulk={largest}");
}
