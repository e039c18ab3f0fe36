//! Conformance of every tree assembly with VebMap: graph replay and simulated behaviours.
use conform::args::Args;
use conform::configs;
use conform::lts::{load_sims, IterLts, MapLts};
use conform::report;
use conform::walk::{judge, replay_all, replay_graph, replay_sims, Plan, Stats};

fn main() { report::guard(body) }
fn body() {
    let a = Args::get();
    if a.opt("list").is_some() {
        for (set, c, p) in configs::all() {
            println!("{set} {} {} {} {} {}", c.name, c.bits, c.cost, p.unwrap_or("-"), c.tags.join(","));
        }
        return;
    }
    let prop = a.str("prop");
    if prop == "C20" { configs::CANON.store(true, std::sync::atomic::Ordering::Relaxed); }
    report::install(&prop, a.num("hang", 60));
    if let Some(j) = a.opt("journal") { report::journal_to(&j); }
    let name = a.str("config");
    let all = configs::all();
    let (_, cfg, plain) = all.iter().find(|c| c.1.name == name).unwrap_or_else(|| panic!("no config {name}"));
    let twin = if prop == "C21" { plain.map(|p| &all.iter().find(|c| c.1.name == p).expect("plain").1) } else { None };
    let mut j = judge(&prop);
    if let Some(f) = a.opt("iter") { j.iter = Some(std::rc::Rc::new(IterLts::load(&std::fs::read_to_string(f).expect("iterator graph")))); }
    let seed = a.num("seed", 1);
    let mut st = Stats::default();
    let mut edges = (0u64, 0u64);
    let until = std::time::Instant::now() + std::time::Duration::from_secs(a.num("budget", 600));
    for (i, f) in a.opt("graphs").unwrap_or_default().split(',').filter(|s| !s.is_empty()).enumerate() {
        let lts = MapLts::load(&std::fs::read_to_string(f).expect("graph file"));
        report::idle();
        st.edges_seen.clear();
        replay_graph(cfg, twin, &lts, &j, &Plan { embeddings: a.num("emb", 50) as usize, steps: a.num("steps", 200) as usize, seed: seed + 77 * i as u64, until }, &mut st);
        edges.0 += st.edges_seen.len() as u64;
        edges.1 += lts.moves.iter().flatten().filter(|e| j.moves & e.op.bit() != 0 || (j.writes && e.op.is_mut_query())).count() as u64;
    }
    for (i, f) in a.opt("sims").unwrap_or_default().split(',').filter(|s| !s.is_empty()).enumerate() {
        let sims = load_sims(&std::fs::read_to_string(f).expect("simulation file"));
        report::idle();
        replay_sims(cfg, twin, &sims, a.num("simkeys", 24) as usize, &j, &Plan { embeddings: a.num("simemb", 20) as usize, steps: 0, seed: seed + 77 * i as u64, until }, &mut st);
    }
    if let Some(f) = a.opt("all") {
        let lts = MapLts::load(&std::fs::read_to_string(f).expect("graph file"));
        report::idle();
        replay_all(cfg, twin, &lts, &j, a.num("stride", 1), (a.num("part", 0), a.num("parts", 1)), &Plan { embeddings: 0, steps: 0, seed, until }, &mut st);
    }
    report::idle();
    println!("@@STATS config={name} walks={} moves={} checks={} calls={} abandoned={} edges={} edges_total={} iterations={} max_keys={}",
        st.walks, st.moves, st.checks, st.calls, st.abandoned, edges.0, edges.1, st.iters, st.max_keys);
    if st.limited { println!("@@LIMITED"); }
    for s in &st.samples { println!("@@SAMPLE {s}"); }
    for (w, n) in &st.abandon_why { println!("@@ABANDON {n} {w}"); }
}
