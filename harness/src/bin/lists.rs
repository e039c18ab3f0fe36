//! Conformance of the positional lists with Lists.tla.
use conform::args::Args;
use conform::lts::Tv;
use conform::plain::Plain;
use conform::report;
use conform::rng::Rng;
use std::collections::{HashMap, VecDeque};
use std::panic::{catch_unwind, AssertUnwindSafe};
use veb_tree::bitset::{List, TreeList};

#[derive(Clone, Debug)]
struct Call { op: String, i: usize, x: i64, res: Vec<i64>, after: Vec<i64> }
fn call(o: &Tv, after: &Tv) -> Call {
    let t = o.tup();
    Call { op: t[0].str().into(), i: t[1].int() as usize, x: t[2].int(), res: t[3].ints(), after: after.ints() }
}
trait Sut {
    fn clear(&mut self);
    /// None: not an operation of this kind of list
    fn apply(&mut self, op: &str, i: usize, x: i64) -> Option<Vec<i64>>;
    fn show(&self) -> Vec<i64>;
}
/// a list of values
struct Values<L: List<Value = i64>>(Option<L>);
impl<L: List<Value = i64>> Sut for Values<L> {
    fn clear(&mut self) { self.0 = None }
    fn show(&self) -> Vec<i64> { self.0.as_ref().map_or(vec![], |l| (0..l.len()).map(|i| *l.get(i)).collect()) }
    fn apply(&mut self, op: &str, i: usize, x: i64) -> Option<Vec<i64>> {
        if op == "new" { self.0 = Some(L::from_monad(x)); return Some(vec![]); }
        if op == "drop" { self.0 = None; return Some(vec![]); }
        if op == "rem" {
            let (l, v) = self.0.take().unwrap().remove_value(i);
            let r = vec![l.is_some() as i64, v];
            self.0 = l;
            return Some(r);
        }
        let l = self.0.as_mut().unwrap();
        Some(match op {
            "len" => vec![l.len() as i64],
            "empty" => vec![l.is_empty() as i64],
            "get" => vec![*l.get(i)],
            "set" => vec![std::mem::replace(l.get_mut(i), x)],
            "ins" => { l.insert_value(i, x); vec![] }
            _ => return None,
        })
    }
}
/// a list of subtrees
type Sub = Plain<i64, i64>;
fn tree(x: i64) -> Sub { Plain((1..=x % 10).map(|k| (k, x / 10)).collect()) }
fn code(t: &Sub) -> i64 {
    let ok = t.0.iter().enumerate().all(|(i, e)| e.0 == i as i64 + 1 && e.1 == t.0[0].1);
    if t.0.is_empty() || !ok { -1 } else { 10 * t.0[0].1 + t.0.len() as i64 }
}
struct Trees<L: TreeList<Tree = Sub>>(Option<L>);
impl<L: TreeList<Tree = Sub>> Sut for Trees<L> {
    fn clear(&mut self) { self.0 = None }
    fn show(&self) -> Vec<i64> { self.0.as_ref().map_or(vec![], |l| (0..l.len().get()).map(|i| code(l.get(i))).collect()) }
    fn apply(&mut self, op: &str, i: usize, x: i64) -> Option<Vec<i64>> {
        let take = |t: Sub| -> (Option<Sub>, (i64, i64)) {
            if x == 4 { let e = *t.0.last().unwrap(); (None, e) } else { use veb_tree::VebTree; t.remove_max() }
        };
        let mut given = vec![];
        match op {
            "new" => { self.0 = Some(L::from_monad(tree(x))); return Some(vec![]); }
            "drop" => { self.0 = None; return Some(vec![]); }
            "key" => {
                let (l, (k, v)) = self.0.take().unwrap().remove_key(i, |t| { given.push(code(&t)); take(t) });
                let mut r = match &l { None => vec![0, 1], Some((_, gone)) => vec![1, *gone as i64] };
                self.0 = l.map(|l| l.0);
                r.extend([k, v]);
                r.extend(given);
                return Some(r);
            }
            "mkey" => {
                let l = self.0.take().unwrap();
                return Some(match l.maybe_remove_key(i, |t| { given.push(code(&t)); if x == 6 { Err(t) } else { Ok(take(t)) } }) {
                    Err(l) => { self.0 = Some(l); [vec![0], given].concat() }
                    Ok((l, (k, v))) => {
                        let mut r = match &l { None => vec![1, 0, 1], Some((_, gone)) => vec![1, 1, *gone as i64] };
                        self.0 = l.map(|l| l.0);
                        r.extend([k, v]);
                        r.extend(given);
                        r
                    }
                });
            }
            _ => {}
        }
        let l = self.0.as_mut().unwrap();
        Some(match op {
            "len" => vec![l.len().get() as i64],
            "get" => vec![code(l.get(i))],
            "set" => vec![code(&std::mem::replace(l.get_mut(i), tree(x)))],
            "ins" => { l.insert_tree(i, tree(x)); vec![] }
            // a list of trees has no removal that bypasses the tree: put the tree back together
            "rem" => {
                let (l, (_, _)) = self.0.take().unwrap().remove_key(i, |t| { given.push(code(&t)); let e = t.0[0]; (None, e) });
                let r = vec![l.is_some() as i64, given[0]];
                self.0 = l.map(|l| l.0);
                r
            }
            _ => return None,
        })
    }
}
fn sut(kind: &str) -> Box<dyn Sut> { if kind == "values" { Box::new(Values::<VecDeque<i64>>(None)) } else { Box::new(Trees::<VecDeque<Sub>>(None)) } }

fn main() { report::guard(body) }
fn body() {
    let a = Args::get();
    let prop = a.str("prop");
    report::install(&prop, a.num("hang", 60));
    if let Some(j) = a.opt("journal") { report::journal_to(&j); }
    let kind = a.str("config");
    let mut rng = Rng::stream(a.num("seed", 1), &kind, 77);
    let (mut walks, mut moves) = (0u64, 0u64);
    let mut one = |s: &mut Box<dyn Sut>, c: &Call| {
        report::text(format!("{}({}, {})", c.op, c.i, c.x), c.op == "new");
        let r = catch_unwind(AssertUnwindSafe(|| (s.apply(&c.op, c.i, c.x), s.show())));
        moves += 1;
        match r {
            Err(_) => {
                let m = report::own_panic(&prop);
                report::violation(&prop, &format!("{}({}, {}): panic: {m}", c.op, c.i, c.x))
            }
            Ok((None, _)) => false,
            Ok((Some(got), after)) => {
                if got != c.res || after != c.after {
                    report::violation(&prop, &format!("{}({}, {}): specification says {:?} leaving {:?}, code returned {got:?} leaving {after:?}", c.op, c.i, c.x, c.res, c.after));
                }
                true
            }
        }
    };
    for f in a.opt("graphs").unwrap_or_default().split(',').filter(|s| !s.is_empty()) {
        let mut out: HashMap<Vec<i64>, Vec<Call>> = HashMap::new();
        for v in Tv::lines(&std::fs::read_to_string(f).expect("graph"), 'L') {
            let t = v.tup();
            out.entry(t[0].ints()).or_default().push(call(&t[1], &t[2]));
        }
        assert!(out.len() > 1, "no graph");
        // every transition, from a state built by a random path of insertions
        for (s, calls) in &out {
            for c in calls {
                for round in 0..a.num("rounds", 4) {
                    report::begin(&kind, &[], &[], format!("from {s:?}, round {round}"));
                    let mut l = sut(&kind);
                    walks += 1;
                    // build s in a random order of positions
                    let mut order: Vec<usize> = (0..s.len()).collect();
                    rng.shuffle(&mut order);
                    let mut have: Vec<usize> = vec![];
                    for p in order {
                        let at = have.iter().filter(|h| **h < p).count();
                        have.insert(at, p);
                        let after: Vec<i64> = have.iter().map(|h| s[*h]).collect();
                        let op = if have.len() == 1 { "new" } else { "ins" };
                        one(&mut l, &Call { op: op.into(), i: at, x: s[p], res: vec![], after });
                    }
                    one(&mut l, c);
                }
            }
        }
    }
    for f in a.opt("sims").unwrap_or_default().split(',').filter(|s| !s.is_empty()) {
        let mut l = sut(&kind);
        report::begin(&kind, &[], &[], "simulated behaviour".into());
        for v in Tv::lines(&std::fs::read_to_string(f).expect("sims"), 'S') {
            let t = v.tup();
            let c = call(&t[0], &t[1]);
            if c.op == "new" { l.clear(); walks += 1; }
            if !one(&mut l, &c) {
                // not an operation of this list: build the specified contents
                l.clear();
                for (i, x) in c.after.iter().enumerate() { one(&mut l, &Call { op: if i == 0 { "new" } else { "ins" }.into(), i, x: *x, res: vec![], after: c.after[..=i].to_vec() }); }
            }
        }
    }
    println!("@@STATS config={kind} walks={walks} moves={moves}");
}
