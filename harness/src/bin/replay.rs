//! Re-applies the calls of a replay file to the real tree, printing each result, and records them
//! in the form TraceMap.tla judges.
use conform::args::Args;
use conform::configs;
use conform::sut::*;
use std::io::Write;

fn main() {
    let a = Args::get();
    let text = std::fs::read_to_string(a.str("file")).expect("replay file");
    let field = |f: &str| text.lines().find_map(|l| l.strip_prefix(f).and_then(|r| r.strip_prefix(' '))).unwrap_or_else(|| { eprintln!("no '{f}' line: this account is replayed by its command line"); std::process::exit(2) });
    let name = field("config");
    let ords: Vec<u128> = field("ordinals").split_whitespace().map(|x| x.parse().expect("ordinal")).collect();
    let all = configs::all();
    let Some((_, cfg, _)) = all.iter().find(|c| c.1.name == name) else { eprintln!("no assembly {name}"); std::process::exit(2) };
    let mut out = std::fs::File::create(a.str("out")).expect("out");
    let ops: Vec<String> = OPS.iter().map(|o| format!("\"{}\"", o.1)).collect();
    writeln!(out, "[\"judge\",[{},\"order\",\"size\"],[{}]]", ops.join(","), ops.join(",")).unwrap();
    writeln!(out, "[\"config\",\"{name}\",[{}]]", ords.iter().map(|o| format!("\"{o}\"")).collect::<Vec<_>>().join(",")).unwrap();
    let mut sut = (cfg.make)(&ords);
    let unit = sut.unit();
    for l in text.lines().filter_map(|l| l.strip_prefix("step ")) {
        let w: Vec<&str> = l.split_whitespace().collect();
        let op = Op::parse(w[0]).expect("operation");
        let (k, mut b, q) = (w[1].parse::<usize>().unwrap(), w[2].parse::<u64>().unwrap(), w[3].parse::<u8>().unwrap());
        let key = if k >= 1 && k <= ords.len() && op != Op::Iter { sut.key_str(k) } else { String::new() };
        print!("{}({key}{}{})", op.name(), if key.is_empty() || b == 0 { "" } else { ", " }, if b == 0 { String::new() } else { b.to_string() });
        std::io::stdout().flush().unwrap();
        if !sut.live() && op != Op::From { println!(" = no tree"); break; }
        let mut res = sut.apply(op, k, b, q);
        println!(" = {res:?}");
        if op == Op::Drop { writeln!(out, "[\"config\",\"{name}\",[{}]]", ords.iter().map(|o| format!("\"{o}\"")).collect::<Vec<_>>().join(",")).unwrap(); continue; }
        if op == Op::Iter {
            if unit { res.iter_mut().skip(4).step_by(5).for_each(|x| *x = 1); }
            let v: Vec<String> = res.chunks(5).enumerate().map(|(i, c)| format!("[{},{},{},{},{},{}]",
                if i == k { 2 } else { (b >> (i % 64) & 1) as i64 }, c[0], c[1], c[2], c[3], c[4])).collect();
            writeln!(out, "[\"iter\",{k},0,[{}]]", v.join(",")).unwrap();
            continue;
        }
        if unit {
            if b != 0 { b = 1; }
            unvalue(op, &mut res);
            match op {
                Op::IsMonad | Op::Len => {}
                Op::Dump => res.iter_mut().skip(1).step_by(2).for_each(|x| *x = 1),
                _ => if res.len() > 1 { let n = res.len() - 1; res[n] = 1; },
            }
        }
        let k = if matches!(op, Op::Min | Op::Max | Op::MinM | Op::MaxM | Op::IsMonad | Op::Len | Op::Dump | Op::RemMin | Op::RemMax | Op::Into) { 0 } else { k };
        writeln!(out, "[\"{}\",{k},{b},{:?}]", op.name(), res).unwrap();
    }
}
