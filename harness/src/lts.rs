//! Loading what TLC printed: the labelled transition graph of a specification ("E" lines) and
//! simulated behaviours ("S" lines).
use crate::sut::{Op, Res};
use std::collections::HashMap;

/// A printed TLA+ value: nested tuples of integers and strings.
#[derive(Clone, Debug, PartialEq)]
pub enum Tv { I(i64), S(String), T(Vec<Tv>) }
impl Tv {
    pub fn int(&self) -> i64 { if let Tv::I(i) = self { *i } else { panic!("int expected: {self:?}") } }
    pub fn str(&self) -> &str { if let Tv::S(s) = self { s } else { panic!("string expected: {self:?}") } }
    pub fn tup(&self) -> &[Tv] { if let Tv::T(t) = self { t } else { panic!("tuple expected: {self:?}") } }
    /// all integers, in order
    pub fn flat(&self, out: &mut Vec<i64>) {
        match self { Tv::I(i) => out.push(*i), Tv::S(_) => {}, Tv::T(t) => t.iter().for_each(|x| x.flat(out)) }
    }
    pub fn ints(&self) -> Vec<i64> { let mut v = vec![]; self.flat(&mut v); v }
    /// parse the text TLC's ToString produced (quotes escaped once more by PrintT)
    pub fn parse(s: &str) -> Tv {
        let b = s.as_bytes();
        let mut p = 0;
        let v = Self::value(b, &mut p);
        v
    }
    fn value(b: &[u8], p: &mut usize) -> Tv {
        while matches!(b[*p], b' ' | b',' | b'\\') { *p += 1; }
        match b[*p] {
            b'<' => {
                *p += 2;
                let mut v = vec![];
                loop {
                    while matches!(b[*p], b' ' | b',') { *p += 1; }
                    if b[*p] == b'>' { *p += 2; return Tv::T(v); }
                    v.push(Self::value(b, p));
                }
            }
            b'"' => {
                *p += 1;
                let s = *p;
                while b[*p] != b'"' && b[*p] != b'\\' { *p += 1; }
                let t = String::from_utf8_lossy(&b[s..*p]).into_owned();
                if b[*p] == b'\\' { *p += 1; }
                *p += 1;
                Tv::S(t)
            }
            b'T' => { *p += 4; Tv::I(1) }
            b'F' => { *p += 5; Tv::I(0) }
            _ => {
                let neg = b[*p] == b'-';
                if neg { *p += 1; }
                let mut n = 0i64;
                let s = *p;
                while *p < b.len() && b[*p].is_ascii_digit() { n = n * 10 + (b[*p] - b'0') as i64; *p += 1; }
                assert!(*p > s, "cannot parse {:?}", String::from_utf8_lossy(&b[s.saturating_sub(10)..]));
                Tv::I(if neg { -n } else { n })
            }
        }
    }
    pub fn lines<'a>(text: &'a str, tag: char) -> impl Iterator<Item = Tv> + 'a {
        text.lines().filter_map(move |l| {
            let l = l.strip_prefix('"').unwrap_or(l);
            let mut c = l.chars();
            if c.next() == Some(tag) && c.next() == Some(' ') { Some(Tv::parse(&l[2..])) } else { None }
        })
    }
}

pub struct Edge { pub op: Op, pub a: usize, pub b: u64, pub res: Res, pub to: usize }

/// The state graph of VebMap: states are value vectors over the ranks.
pub struct MapLts {
    pub k: usize,
    pub states: Vec<Vec<u8>>,
    /// pure queries (and mutable queries without a write), by state
    pub queries: Vec<Vec<Edge>>,
    /// everything else, by state
    pub moves: Vec<Vec<Edge>>,
    pub edges: usize,
}
impl MapLts {
    pub fn load(text: &str) -> MapLts {
        let mut l = MapLts { k: 0, states: vec![], queries: vec![], moves: vec![], edges: 0 };
        let mut idx: HashMap<Vec<u8>, usize> = HashMap::new();
        let mut id = |l: &mut MapLts, t: &Tv| {
            let d: Vec<u8> = t.tup().iter().map(|x| x.int() as u8).collect();
            *idx.entry(d.clone()).or_insert_with(|| {
                l.states.push(d);
                l.queries.push(vec![]);
                l.moves.push(vec![]);
                l.states.len() - 1
            })
        };
        for v in Tv::lines(text, 'E') {
            let t = v.tup();
            l.k = t[0].tup().len();
            let from = id(&mut l, &t[0]);
            let o = t[1].tup();
            let to = id(&mut l, &t[2]);
            let op = Op::parse(o[0].str()).unwrap_or_else(|| panic!("unknown op {:?}", o[0]));
            let e = Edge { op, a: o[1].int() as usize, b: o[2].int() as u64, res: o[3].ints(), to };
            let is_query = !(op.is_update() || (op.is_mut_query() && e.b != 0));
            if is_query { l.queries[from].push(e) } else { l.moves[from].push(e) }
            l.edges += 1;
        }
        assert!(l.edges > 0, "empty transition graph");
        assert!(l.states[0].iter().all(|d| *d == 0));
        l
    }
    pub fn size(&self, s: usize) -> usize { self.states[s].iter().filter(|d| **d != 0).count() }
}

/// A simulated behaviour: one call per step with its specified result and the specified contents
/// after it.
pub struct SimStep { pub op: Op, pub a: usize, pub b: u64, pub res: Res, pub after: Vec<i64> }
pub fn load_sims(text: &str) -> Vec<Vec<SimStep>> {
    let mut out: Vec<Vec<SimStep>> = vec![];
    for v in Tv::lines(text, 'S') {
        let t = v.tup();
        let o = t[0].tup();
        let op = Op::parse(o[0].str()).unwrap();
        let s = SimStep { op, a: o[1].int() as usize, b: o[2].int() as u64, res: o[3].ints(), after: t[1].ints() };
        // the fresh-value counter restarts with every behaviour
        if op == Op::From && s.b == 1 { out.push(vec![]); }
        out.last_mut().expect("behaviour starts with from").push(s);
    }
    out
}

/// The graph of VebIter: (entries, taken from front, taken from back, direction) -> position of the
/// entry yielded (0: none) and the new counts.
pub struct IterLts { pub max: usize, step: HashMap<(usize, usize, usize, usize), (usize, usize, usize)> }
impl IterLts {
    pub fn load(text: &str) -> IterLts {
        let mut l = IterLts { max: 0, step: HashMap::new() };
        for v in Tv::lines(text, 'I') {
            let t: Vec<usize> = v.ints().iter().map(|x| *x as usize).collect();
            let old = l.step.insert((t[0], t[1], t[2], t[3]), (t[4], t[5], t[6]));
            assert!(old.map_or(true, |o| o == (t[4], t[5], t[6])), "iterator graph is not deterministic");
            l.max = l.max.max(t[0]);
        }
        assert!(l.max > 0, "empty iterator graph");
        l
    }
    pub fn step(&self, n: usize, f: usize, b: usize, dir: usize) -> (usize, usize, usize) {
        *self.step.get(&(n, f, b, dir)).unwrap_or_else(|| panic!("iterator graph lacks {:?}", (n, f, b, dir)))
    }
}
