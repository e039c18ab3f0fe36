//! Conformance of several trees in several threads with Threads.tla.
use conform::args::Args;
use conform::keys::embedding;
use conform::lts::Tv;
use conform::report;
use conform::rng::Rng;
use conform::threads::{self, Force, Group, C, CS};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::mpsc::{channel, Receiver, Sender};
use std::sync::Arc;

/// one action of a behaviour: call, thread, tree, arguments, answer; owners and contents afterwards
struct Act { name: String, p: usize, i: usize, a: usize, b: u64, res: Vec<i64>, at: Vec<i64>, all: Vec<Vec<i64>> }
fn load(text: &str) -> Vec<Vec<Act>> {
    let mut out: Vec<Vec<Act>> = vec![];
    for v in Tv::lines(text, 'S') {
        let t = v.tup();
        let o = t[0].tup();
        let a = Act { name: o[0].str().into(), p: o[1].int() as usize - 1, i: o[2].int() as usize - 1, a: o[3].int() as usize, b: o[4].int() as u64, res: o[5].ints(),
            at: t[1].ints(), all: t[2].tup().iter().map(|r| r.ints()).collect() };
        if a.name == "from" && a.b == 1 { out.push(vec![]); }
        out.last_mut().expect("behaviour").push(a);
    }
    out
}
#[derive(Clone, Debug)]
struct Call { i: usize, c: C, a: usize, b: u64, frozen: bool, want: Vec<i64> }
fn show(g: &dyn Group, c: &Call) -> String { format!("{}({}{}) on tree {}", CS.iter().find(|x| x.0 == c.c).unwrap().1, g.key_str(c.a), if c.b > 0 { format!(", {}", c.b) } else { String::new() }, c.i + 1) }
fn units(g: &dyn Group, r: &mut [i64]) { if g.unit() && r.len() == 2 { r[1] = 0; } }

/// `place` tells where each tree is at the moment
struct Job { g: Force<*const dyn Group>, place: Vec<usize>, calls: Vec<Call>, reads: Vec<(usize, Arc<Vec<i64>>)>, start: Arc<AtomicUsize>, n: usize }
type Answer = Result<(), (usize, String)>;
fn work(job: &Job) -> Answer {
    let g = unsafe { &*job.g.0 };
    // all threads set off together
    job.start.fetch_add(1, Ordering::AcqRel);
    let mut spins = 0u32;
    while job.start.load(Ordering::Acquire) < job.n { spins += 1; if spins > 2000 { std::thread::yield_now(); } else { std::hint::spin_loop(); } }
    for c in &job.calls {
        let mut r = if c.frozen { g.read(job.place[c.i], c.c, c.a) } else { g.call(job.place[c.i], c.c, c.a, c.b) };
        units(g, &mut r);
        if r != c.want { return Err((c.i, format!("{}: specified {:?}, code returned {r:?}", show(g, c), c.want))); }
    }
    for (i, want) in &job.reads {
        let r = g.everything(job.place[*i]);
        if r != **want { return Err((*i, format!("read-out of tree {}: specified {want:?}, code returned {r:?}", i + 1))); }
    }
    Ok(())
}
fn worker(rx: Receiver<Job>, tx: Sender<Answer>) {
    for job in rx {
        let r = catch_unwind(AssertUnwindSafe(|| work(&job))).unwrap_or_else(|_| Err((usize::MAX, format!("panic: {}", report::lock(&report::PANIC)))));
        if tx.send(r).is_err() { return; }
    }
}
/// the read-out the specification gives
fn everything(unit: bool, k: usize, c: &[i64]) -> Vec<i64> {
    let e: Vec<[i64; 2]> = c.chunks(2).map(|e| [e[0], if unit { 0 } else { e[1] }]).collect();
    let mut r: Vec<i64> = e.iter().flatten().copied().collect();
    for a in 1..=k as i64 {
        for x in [e.iter().find(|e| e[0] == a), e.iter().rev().find(|e| e[0] < a), e.iter().find(|e| e[0] > a)] {
            match x { None => r.push(0), Some(e) => { r.push(2); r.extend(e); } }
        }
    }
    r
}

fn main() { report::guard(body) }
fn body() {
    let a = Args::get();
    let prop = a.str("prop");
    if a.opt("list").is_some() { for c in threads::all() { println!("{}", c.name); } return; }
    report::install(&prop, a.num("hang", 60));
    if let Some(j) = a.opt("journal") { report::journal_to(&j); }
    let name = a.str("config");
    let cfg = threads::all().into_iter().find(|c| c.name == name).expect("config");
    report::begin(&name, &[], &[], String::new());
    for (what, may, want) in &cfg.facts {
        for (i, how) in ["be sent to another thread", "be shared between threads"].iter().enumerate() {
            if may[i] != want[i] { report::violation(&prop, &format!("{what} {} {how}", if want[i] { "cannot" } else { "can" })); }
        }
    }
    let seed = a.num("seed", 1);
    let text: String = a.str("sims").split(',').map(|f| std::fs::read_to_string(f).expect("sims")).collect();
    let sims = load(&text);
    let (reps, extra) = (a.num("emb", 10), a.num("reads", 12) as usize);
    let n_threads = 1 + sims.iter().flatten().map(|x| x.p).max().expect("behaviours");
    let mut txs = vec![];
    let (atx, arx) = channel();
    for _ in 0..n_threads {
        let (tx, rx) = channel::<Job>();
        let atx = atx.clone();
        std::thread::spawn(move || worker(rx, atx));
        txs.push(tx);
    }
    let (mut runs, mut batches, mut calls, mut readouts, mut ended, mut together) = (0u64, 0u64, 0u64, 0u64, 0u64, 0u64);
    let alone: Option<Vec<usize>> = a.opt("alone").map(|w| w.split(',').map(|x| x.parse().expect("alone")).collect());
    'all: for rep in 0..reps { for (si, sim) in sims.iter().enumerate() {
        if let Some(w) = &alone { if w[0] as u64 != rep || w[1] != si { continue; } }
        let mut rng = Rng::stream(seed, &name, 8_000_000 + rep * 1000 + si as u64);
        let trees = sim[0].at.len();
        let k = 16;
        let mut ords = embedding(&mut rng, cfg.bits, k);
        if ords.len() < k { ords = (0..k as u128).collect(); }
        let lockstep = rng.chance(1, 6);
        report::begin(&name, &ords, &[], format!("behaviour {si} of the thread model, {}", if lockstep { "call by call" } else { "truly concurrent" }));
        let g = (cfg.make)(&ords, trees + 1);
        let mut place: Vec<usize> = (0..trees).collect();
        runs += 1;
        let mut log: Vec<Vec<Call>> = vec![vec![]; trees];
        let mut now: Vec<Vec<i64>> = vec![vec![]; trees];
        let mut at: Vec<i64> = vec![0; trees];
        let mut pending: Vec<Vec<Call>> = vec![vec![]; n_threads];
        let mut user: BTreeMap<usize, Option<usize>> = BTreeMap::new();
        macro_rules! flush { () => { {
            let busy = pending.iter().filter(|p| !p.is_empty()).count();
            if busy > 0 {
                batches += 1;
                if busy > 1 { together += 1; }
                report::idle();
                let start = Arc::new(AtomicUsize::new(0));
                let outs: BTreeMap<usize, Arc<Vec<i64>>> = (0..trees).filter(|i| at[*i] != 0).map(|i| (i, Arc::new(everything(g.unit(), k, &now[i])))).collect();
                for p in 0..n_threads {
                    let mut reads = vec![];
                    let may: Vec<usize> = outs.keys().copied().filter(|i| at[*i] == -1 || at[*i] == p as i64 + 1).collect();
                    if !may.is_empty() { for _ in 0..if lockstep { 1 } else { extra } { let i = may[rng.below(may.len())]; reads.push((i, outs[&i].clone())); } }
                    readouts += reads.len() as u64;
                    let cs = std::mem::take(&mut pending[p]);
                    calls += cs.len() as u64;
                    let gp: *const (dyn Group + '_) = &*g;
                    let gp: *const (dyn Group + 'static) = unsafe { std::mem::transmute(gp) };
                    txs[p].send(Job { g: Force(gp), place: place.clone(), calls: cs, reads, start: start.clone(), n: n_threads }).expect("worker");
                }
                user.clear();
                let (x, y) = (rng.below(trees + 1), rng.below(trees + 1));
                let move_to = rng.chance(1, 2).then_some((x, y));
                let bad: Vec<(usize, String)> = (0..n_threads).filter_map(|_| arx.recv().expect("answer").err()).collect();
                // a tree may be moved to another place whenever nobody uses it
                if let Some((x, y)) = move_to {
                    if g.swap(x, y) { for p in place.iter_mut() { *p = if *p == x { y } else if *p == y { x } else { *p }; } }
                }
                bad.into_iter().next()
            } else { None }
        } } }
        // the same calls on a tree of its own, by one thread of a fresh process in which nothing else goes on
        let judge = |bad: (usize, String), log: &[Vec<Call>], done: usize| -> bool {
            let (i, msg) = bad;
            if i == usize::MAX { report::own_panic(&prop); report::violation(&prop, &msg); }
            let mut child = std::process::Command::new(std::env::current_exe().expect("exe"));
            child.args(std::env::args().skip(1)).args(["--alone", &format!("{rep},{si},{i},{done}")]);
            child.stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null());
            report::idle();
            if !child.status().map(|s| s.success()).unwrap_or(false) { return false; }
            for c in &log[i] { report::text(format!("{} = {:?}", show(&*g, c), c.want), false); }
            report::violation(&prop, &format!("{msg}; the same calls on that tree alone give the specified answers"));
        };
        let mut dev = None;
        for (done, x) in sim.iter().enumerate() {
            let hand = matches!(x.name.as_str(), "freeze" | "take" | "send");
            let excl = if hand { None } else { Some((x.i, at[x.i] == -1)) };
            let clash = match excl {
                None => true,
                Some((i, frozen)) => match user.get(&i) { None => false, Some(u) => *u != if frozen { None } else { Some(x.p) } },
            };
            if let Some(w) = &alone {
                if done == w[3] { break; }
            } else if clash || lockstep {
                dev = flush!().map(|d| (d, done));
                if dev.is_some() { break; }
            }
            at = x.at.clone();
            now = x.all.clone();
            let Some((i, frozen)) = excl else { continue };
            let c = CS.iter().find(|c| c.1 == x.name).expect("call").0;
            let mut want = x.res.clone();
            units(&*g, &mut want);
            let call = Call { i, c, a: x.a, b: if matches!(c, C::From | C::Ins | C::FindM) { x.b } else { 0 }, frozen, want };
            if c == C::From { log[i].clear(); }
            log[i].push(call.clone());
            if c == C::Drop && alone.is_none() { log[i].clear(); }
            user.insert(i, if frozen { None } else { Some(x.p) });
            pending[x.p].push(call);
        }
        if let Some(w) = &alone {
            let i = w[2];
            for c in &log[i] {
                let mut r = if c.frozen { g.read(i, c.c, c.a) } else { g.call(i, c.c, c.a, c.b) };
                units(&*g, &mut r);
                if r != c.want { std::process::exit(4); }
            }
            if at[i] != 0 && (!g.live(i) || g.everything(i) != everything(g.unit(), k, &now[i])) { std::process::exit(4); }
            std::process::exit(0);
        }
        if dev.is_none() { dev = flush!().map(|d| (d, sim.len())); }
        if let Some((d, done)) = dev {
            if !judge(d, &log, done) { ended += 1; }
            if ended >= 60 { break 'all; }
        }
    } }
    println!("@@STATS walks={runs} calls={calls} batches={batches} concurrent_batches={together} readouts={readouts} ended_early={ended}");
}
