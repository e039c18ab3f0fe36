//! Records runs of the real trees, to be validated against the specification (TraceMap.tla).
use conform::args::Args;
use conform::configs;
use conform::keys::embedding;
use conform::report;
use conform::rng::Rng;
use conform::sut::*;
use conform::walk::judge;
use std::io::Write;

fn main() { report::guard(body) }
fn body() {
    let a = Args::get();
    let prop = a.str("prop");
    report::install(&prop, a.num("hang", 60));
    if let Some(j) = a.opt("journal") { report::journal_to(&j); }
    let j = judge(&prop);
    let seed = a.num("seed", 1);
    let (nkeys, steps) = (a.num("n", 60) as usize, a.num("steps", 1500) as usize);
    let names = |m: u32| OPS.iter().filter(|o| m & o.0.bit() != 0).map(|o| format!("\"{}\"", o.1)).collect::<Vec<_>>().join(",");
    let mut out = std::io::BufWriter::new(std::fs::File::create(a.str("out")).expect("out"));
    let iter = matches!(prop.as_str(), "C09" | "C10" | "C18");
    let judged = names(j.judged | j.queries);
    let extra = match prop.as_str() { "C09" => "\"iter\",\"order\"", "C10" => "\"iter\",\"size\"", _ => "" };
    let judged = [judged.as_str(), extra].iter().filter(|s| !s.is_empty()).copied().collect::<Vec<_>>().join(",");
    writeln!(out, "[\"judge\",[{}],[{}]]", judged, names(j.readout)).unwrap();
    let all = configs::all();
    let list = a.str("configs");
    let mut events = 0;
    for name in list.split(',') {
        let (_, cfg, _) = all.iter().find(|c| c.1.name == name).unwrap_or_else(|| panic!("no config {name}"));
        let mut rng = Rng::stream(seed, name, 5_000_000);
        let n = [if cfg.bits == 8 { 256 } else { nkeys }, nkeys / 2, nkeys / 6 + 2][rng.below(3)];
        let ords = embedding(&mut rng, cfg.bits, n);
        let n = ords.len();
        report::begin(name, &ords, &[], "recorded run".into());
        let o: Vec<String> = ords.iter().map(|o| format!("\"{o}\"")).collect();
        writeln!(out, "[\"config\",\"{name}\",[{}]]", o.join(",")).unwrap();
        let steps = if cfg.cost >= 50 { steps / 10 } else { steps };
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            let mut sut = (cfg.make)(&ords);
            let unit = sut.unit();
            let mut fresh = 0u64;
            let qs: Vec<Op> = OPS.iter().map(|o| o.0).filter(|o| (j.queries | j.readout) & o.bit() != 0 && !o.is_update()).collect();
            let heavy_q = |o: Op| matches!(o, Op::Dump);
            // a drifting working window makes neighbouring keys come and go together
            let mut centre = 0usize;
            for i in 0..steps {
                fresh += 1;
                if rng.chance(1, 20) { centre = rng.below(n); }
                let key = |rng: &mut Rng| if rng.chance(1, 3) { (centre + rng.below(8)) % n + 1 } else { 1 + rng.below(n) };
                let phase = (i * 5 / steps.max(1)) % 5;
                let (op, k, b) = if !sut.live() { (Op::From, key(&mut rng), fresh) } else {
                    let upd = rng.chance(11, 20) || qs.is_empty();
                    if upd {
                        let ins = if n >= 200 { [98, 97, 40, 96, 10][phase] } else { [75, 50, 25, 60, 10][phase] };
                        let x = rng.below(100);
                        let op = if x < ins { Op::Ins } else {
                            match rng.below(12) { 0 | 1 => Op::RemMin, 2 | 3 => Op::RemMax, 4 if j.moves & Op::Into.bit() != 0 => Op::Into, 5 if j.writes => [Op::FindM, Op::PredM, Op::SuccM, Op::MinM, Op::MaxM][rng.below(5)], _ => Op::Rem }
                        };
                        (op, key(&mut rng), if op == Op::Ins || op.is_mut_query() { fresh } else { 0 })
                    } else {
                        let q = qs[rng.below(qs.len())];
                        if heavy_q(q) && !rng.chance(1, 1 + n / 20) { (Op::Find, key(&mut rng), 0) } else { (q, key(&mut rng), 0) }
                    }
                };
                if iter && sut.live() && rng.chance(1, 3) {
                    let steps = rng.below(n + 4);
                    let bits = match rng.below(4) { 0 => 0, 1 => u64::MAX, _ => rng.next() };
                    report::step(Op::Iter, steps, bits, 0);
                    let mut r = sut.apply(Op::Iter, steps, bits, 0);
                    if unit { r.iter_mut().skip(4).step_by(5).for_each(|x| *x = 1); }
                    let v: Vec<String> = r.chunks(5).enumerate().map(|(i, c)| format!("[{},{},{},{},{},{}]",
                        if i == steps { 2 } else { (bits >> (i % 64) & 1) as i64 }, c[0], c[1], c[2], c[3], c[4])).collect();
                    writeln!(out, "[\"iter\",{steps},0,[{}]]", v.join(",")).unwrap();
                    events += 1;
                }
                let k = if matches!(op, Op::Min | Op::Max | Op::MinM | Op::MaxM | Op::IsMonad | Op::Len | Op::Dump | Op::RemMin | Op::RemMax | Op::Into) { 0 } else { k };
                if j.moves & op.bit() == 0 && op.is_update() && op != Op::From { continue; }
                let q = rng.below(4) as u8;
                report::step(op, k, b, q);
                let mut res = sut.apply(op, k, b, q);
                let mut b = b;
                if unit {
                    // values carry no information: write 1 everywhere
                    if b != 0 { b = 1; }
                    unvalue(op, &mut res);
                    match op {
                        Op::IsMonad | Op::Len => {}
                        Op::Dump => res.iter_mut().skip(1).step_by(2).for_each(|x| *x = 1),
                        _ => if res.len() > 1 { let n = res.len() - 1; res[n] = 1; },
                    }
                }
                writeln!(out, "[\"{}\",{k},{b},{:?}]", op.name(), res).unwrap();
                events += 1;
            }
        }));
        if r.is_err() {
            let m = report::own_panic(&prop);
            report::violation(&prop, &format!("panic: {m}"));
        }
    }
    out.flush().unwrap();
    println!("@@RECORDED {events}");
}
