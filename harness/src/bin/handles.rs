//! Conformance of key handles (MaybeBorrowed) with Handles.tla: every transition of its graph,
//! for several key types, and random tours.
use conform::args::Args;
use conform::lts::Tv;
use conform::report;
use conform::rng::Rng;
use std::borrow::Borrow;
use std::cell::Cell;
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use veb_tree::key::{MaybeBorrowed, U4};

thread_local! { static CLONES: Cell<i64> = const { Cell::new(0) }; }
trait Key: Clone + PartialEq + 'static {
    const COUNTED: bool = false;
    /// a type this key compares with
    type Other: 'static;
    fn make(v: i64) -> Self;
    fn val(&self) -> i64;
    fn other(v: i64) -> Self::Other;
    fn cmp_other(a: &MaybeBorrowed<'static, Self>, b: &MaybeBorrowed<'static, Self::Other>) -> bool;
}
#[derive(Debug, Eq)]
struct Spy(i64);
impl Clone for Spy { fn clone(&self) -> Self { CLONES.with(|c| c.set(c.get() + 1)); Spy(self.0) } }
impl PartialEq for Spy { fn eq(&self, o: &Spy) -> bool { self.0 == o.0 } }
#[derive(Debug, PartialEq)]
struct Named(String);
impl PartialEq<Named> for Spy { fn eq(&self, o: &Named) -> bool { self.0.to_string() == o.0 } }
impl Key for Spy {
    const COUNTED: bool = true;
    type Other = Named;
    fn make(v: i64) -> Self { Spy(v) }
    fn val(&self) -> i64 { self.0 }
    fn other(v: i64) -> Named { Named(v.to_string()) }
    fn cmp_other(a: &MaybeBorrowed<'static, Self>, b: &MaybeBorrowed<'static, Named>) -> bool { a == b }
}
macro_rules! plain { ($($t:ty, $mk:expr, $val:expr;)*) => { $(impl Key for $t {
    type Other = $t;
    fn make(v: i64) -> Self { ($mk)(v) }
    fn val(&self) -> i64 { ($val)(self) }
    fn other(v: i64) -> $t { ($mk)(v) }
    fn cmp_other(a: &MaybeBorrowed<'static, Self>, b: &MaybeBorrowed<'static, Self>) -> bool { a == b }
})* } }
plain! {
    u8, |v| 16 * v as u8 + v as u8, |k: &u8| (*k >> 4) as i64;
    i64, |v: i64| i64::MIN + v, |k: &i64| k - i64::MIN;
    u128, |v: i64| (v as u128) << 64, |k: &u128| (k >> 64) as i64;
    U4, |v: i64| U4::from(v as u8), |k: &U4| u8::from(*k) as i64;
    String, |v: i64| "x".repeat(v as usize), |k: &String| k.len() as i64;
    [u8; 3], |v: i64| [7, 0, v as u8], |k: &[u8; 3]| k[2] as i64;
}
type H<B> = MaybeBorrowed<'static, B>;
fn keep<T>(t: T) -> &'static T { Box::leak(Box::new(t)) }
fn kind<B>(h: &H<B>) -> &'static str { match h { MaybeBorrowed::Owned(_) => "own", MaybeBorrowed::Borrowed(_) => "ref" } }
fn copy<B: Clone>(h: &H<B>) -> H<B> { h.clone() }

struct Call { op: String, i: usize, x: i64, res: Vec<i64>, clones: i64, after: Vec<(String, i64)> }
fn apply<B: Key>(hs: &mut Vec<H<B>>, op: &str, i: usize, x: i64) -> Vec<i64> {
    match op {
        "own" => { hs.push(H::from(B::make(x))); vec![] }
        "lend" => { hs.push(H::from(keep(B::make(x)))); vec![] }
        "relend" => {
            // the handle that is lent lives on elsewhere with the same kind
            let v = (*hs[i - 1]).val();
            let base: H<B> = if kind(&hs[i - 1]) == "own" { MaybeBorrowed::Owned(B::make(v)) } else { MaybeBorrowed::Borrowed(keep(B::make(v))) };
            hs.push(keep(base).borrow());
            vec![]
        }
        "copy" => { let h = copy(&hs[i - 1]); hs.push(h); vec![] }
        "into" => vec![hs.remove(i - 1).into_or_clone().val()],
        "read" => {
            let a: &B = &hs[i - 1];
            let b: &B = <H<B> as Borrow<B>>::borrow(&hs[i - 1]);
            if !std::ptr::eq(a, b) { return vec![a.val(), b.val()]; }
            vec![a.val()]
        }
        "kind" => vec![(kind(&hs[i - 1]) == "own") as i64],
        "equal" => {
            let (a, b) = (&hs[i - 1], &hs[x as usize - 1]);
            let r = a == b;
            let v = (**b).val();
            let o: MaybeBorrowed<'static, B::Other> = if kind(b) == "own" { MaybeBorrowed::Owned(B::other(v)) } else { MaybeBorrowed::Borrowed(keep(B::other(v))) };
            if B::cmp_other(a, &o) != r || (a != b) == r { vec![r as i64, -1] } else { vec![r as i64] }
        }
        "drop" => { drop(hs.remove(i - 1)); vec![] }
        _ => unreachable!(),
    }
}
fn check<B: Key>(prop: &str, hs: &mut Vec<H<B>>, c: &Call) {
    report::text(format!("{}({}, {})", c.op, c.i, c.x), false);
    CLONES.with(|n| n.set(0));
    let r = catch_unwind(AssertUnwindSafe(|| {
        let r = apply(hs, &c.op, c.i, c.x);
        let n = CLONES.with(|n| n.get());
        (r, n, hs.iter().map(|h| (kind(h).to_string(), (**h).val())).collect::<Vec<_>>())
    }));
    match r {
        Err(_) => {
            let m = report::own_panic(&prop);
            report::violation(prop, &format!("{}({}, {}): panic: {m}", c.op, c.i, c.x))
        }
        Ok((got, clones, after)) => {
            if got != c.res || after != c.after || B::COUNTED && clones != c.clones {
                report::violation(prop, &format!("{}({}, {}): specification says {:?} with {} clones leaving {:?}, code returned {got:?} with {clones} leaving {after:?}", c.op, c.i, c.x, c.res, c.clones, c.after));
            }
        }
    }
}
type Hs = Vec<(String, i64)>;
fn hs(t: &Tv) -> Hs { t.tup().iter().map(|h| (h.tup()[0].str().to_string(), h.tup()[1].int())).collect() }
fn run<B: Key>(name: &str, prop: &str, graph: &HashMap<Hs, Vec<Call>>, tours: u64, rng: &mut Rng, stats: &mut (u64, u64)) {
    let build = |s: &Hs| -> Vec<H<B>> { s.iter().map(|(k, v)| if k == "own" { MaybeBorrowed::Owned(B::make(*v)) } else { MaybeBorrowed::Borrowed(keep(B::make(*v))) }).collect() };
    for (s, calls) in graph {
        for c in calls {
            report::begin(name, &[], &[], format!("handles {s:?}"));
            stats.0 += 1;
            stats.1 += 1;
            check(prop, &mut build(s), c);
        }
    }
    for _ in 0..tours {
        report::begin(name, &[], &[], "random behaviour".into());
        stats.0 += 1;
        let (mut s, mut real) = (vec![], vec![]);
        for _ in 0..200 {
            let c = &graph[&s][rng.below(graph[&s].len())];
            stats.1 += 1;
            check::<B>(prop, &mut real, c);
            s = c.after.clone();
        }
    }
}
fn main() { report::guard(body) }
fn body() {
    let a = Args::get();
    let prop = a.str("prop");
    report::install(&prop, a.num("hang", 60));
    if let Some(j) = a.opt("journal") { report::journal_to(&j); }
    let mut rng = Rng::stream(a.num("seed", 1), "handles", 79);
    let mut graph: HashMap<Hs, Vec<Call>> = HashMap::new();
    for v in Tv::lines(&std::fs::read_to_string(a.str("graph")).expect("graph"), 'H') {
        let t = v.tup();
        let o = t[1].tup();
        graph.entry(hs(&t[0])).or_default().push(Call { op: o[0].str().into(), i: o[1].int() as usize, x: o[2].int(), res: o[3].ints(), clones: o[4].int(), after: hs(&t[2]) });
    }
    assert!(graph.len() > 1, "no graph");
    let n = a.num("tours", 100);
    let mut st = (0, 0);
    run::<Spy>("spied key", &prop, &graph, n, &mut rng, &mut st);
    run::<u8>("u8", &prop, &graph, n, &mut rng, &mut st);
    run::<i64>("i64", &prop, &graph, n, &mut rng, &mut st);
    run::<u128>("u128", &prop, &graph, n, &mut rng, &mut st);
    run::<U4>("U4", &prop, &graph, n, &mut rng, &mut st);
    run::<String>("String", &prop, &graph, n, &mut rng, &mut st);
    run::<[u8; 3]>("[u8; 3]", &prop, &graph, n, &mut rng, &mut st);
    println!("@@STATS config=handles walks={} moves={}", st.0, st.1);
}
