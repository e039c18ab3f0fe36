//! Runs with tens of thousands of entries, recorded for TraceBulk.tla: stretches of like calls are
//! one line.
use crate::report;
use crate::rng::Rng;
use crate::sut::*;
use std::io::Write;

pub struct Rec<'a> { pub sut: Box<dyn Sut>, unit: bool, out: &'a mut dyn Write, q: u64, run: Option<(Op, &'static str, usize, usize)>, pub events: u64, pub calls: u64 }
impl<'a> Rec<'a> {
    pub fn new(sut: Box<dyn Sut>, out: &'a mut dyn Write, q: u64) -> Self { let unit = sut.unit(); Rec { sut, unit, out, q, run: None, events: 0, calls: 0 } }
    fn line(&mut self, s: String) { self.events += 1; writeln!(self.out, "{s}").unwrap(); }
    pub fn flush(&mut self) {
        if let Some((_, kind, a, b)) = self.run.take() { self.line(format!("[\"{kind}\",{a},{b},[]]")); }
    }
    /// one call; stretches of calls that all did the plain thing to consecutive keys are joined
    pub fn call(&mut self, op: Op, k: usize, b: u64) -> Res {
        self.q = self.q.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        self.calls += 1;
        if self.calls % 1024 == 0 { report::idle(); }
        let mut r = self.sut.apply(op, k, b, (self.q >> 33) as u8 % 4);
        let mut b = b;
        if self.unit {
            // values carry no information: every key has its default value
            match op {
                Op::IsMonad | Op::Len => {}
                Op::Ins | Op::From => { b = k as u64; if r.len() == 2 { r[1] = r[0]; } }
                _ => { let n = r.len(); if n >= 2 { r[n - 1] = r[n - 2]; } if op.is_mut_query() { b = if b != 0 && n >= 2 { r[n - 1] as u64 } else { 0 }; } }
            }
        }
        let at = match op {
            Op::Ins if b == k as u64 && r.is_empty() => Some(("insrun", k)),
            Op::Ins if b == k as u64 && r.len() == 2 && r[0] == k as i64 && r[1] == r[0] => Some(("replacerun", k)),
            Op::Rem if r == [0] => Some(("missrun", k)),
            Op::Rem if r.len() == 4 && r[0] == 1 && r[1] == 1 && r[2] == k as i64 && r[3] == r[2] => Some(("remrun", k)),
            Op::RemMin if r.len() == 3 && r[0] == 1 && r[1] > 0 && r[2] == r[1] => Some(("remminrun", r[1] as usize)),
            Op::RemMax if r.len() == 3 && r[0] == 1 && r[1] > 0 && r[2] == r[1] => Some(("remmaxrun", r[1] as usize)),
            _ => None,
        };
        if let Some((kind, x)) = at {
            self.run = match self.run {
                Some((o, w, a, l)) if w == kind && ((x == l + 1 && a <= l && op != Op::RemMax) || (x + 1 == l && a >= l && op != Op::RemMin)) => Some((o, w, a, x)),
                _ => { self.flush(); Some((op, kind, x, x)) }
            };
            return r;
        }
        self.flush();
        let k = if matches!(op, Op::Min | Op::Max | Op::MinM | Op::MaxM | Op::IsMonad | Op::Len | Op::RemMin | Op::RemMax | Op::Into) { 0 } else { k };
        self.line(format!("[\"{}\",{k},{b},{r:?}]", op.name()));
        r
    }
    fn iterate(&mut self, steps: usize, bits: u64) {
        self.flush();
        // q not a multiple of 4: the derived forms are compared on smaller contents
        let mut r = self.sut.apply(Op::Iter, steps, bits, 1);
        self.calls += steps as u64;
        report::idle();
        let mut st: Vec<[i64; 10]> = vec![];
        let mut last = [0i64; 3];
        for (i, c) in r.chunks_mut(5).enumerate() {
            if self.unit { c[4] = c[3]; }
            let dir = if i == steps { 2 } else { (bits >> (i % 64) & 1) as i64 };
            let hint = [c[0], c[1], c[2]];
            let fall = [0, 1, 2].map(|j| if last[j] == -1 && hint[j] == -1 { 0 } else { last[j] - hint[j] });
            if let Some(s) = st.last_mut() {
                let n = s[1];
                let next = if dir == 0 { s[2] + n } else { s[2] - n };
                let same = s[0] == dir && dir != 2 && c[3] > 0 && c[3] == next && c[4] == c[3] && s[9] == s[2]
                    && fall.iter().all(|f| (0..=1).contains(f))
                    && (0..3).all(|j| (last[j] == -1) == (hint[j] == -1))
                    && (n == 1 || [s[6], s[7], s[8]] == fall);
                // nothing, again and again
                if s[0] == dir && dir != 2 && c[3] == 0 && s[2] == 0 && hint == last && (n == 1 || [s[6], s[7], s[8]] == fall) { s[1] += 1; continue; }
                if same { s[1] += 1; s[6] = fall[0]; s[7] = fall[1]; s[8] = fall[2]; last = hint; continue; }
            }
            st.push([dir, 1, c[3], c[0], c[1], c[2], 0, 0, 0, c[4]]);
            last = hint;
        }
        let v: Vec<String> = st.iter().map(|s| format!("{s:?}")).collect();
        self.line(format!("[\"iter\",{steps},0,[{}]]", v.join(",")));
    }
}


/// what a run may do, and looks at
pub struct Plan { pub moves: u32, pub qs: Vec<Op>, pub writes: bool, pub iter: bool, pub pops: bool }
impl Plan { fn may(&self, op: Op) -> bool { self.moves & op.bit() != 0 } }

pub fn session(p: &mut Rec, rng: &mut Rng, n: usize, plan: &Plan) {
    let other = (n as u64 + 10) * 2;
    // queries near the places where the contents change, and anywhere
    let look = |p: &mut Rec, rng: &mut Rng, near: usize, times: usize| {
        if !p.sut.live() { return; }
        for _ in 0..times {
            let k = match rng.below(6) { 0 => near, 1 => near.saturating_sub(1).max(1), 2 => (near + 1).min(n), 3 => 1, 4 => n, _ => 1 + rng.below(n) };
            if !plan.qs.is_empty() { p.call(plan.qs[rng.below(plan.qs.len())], k, 0); }
            if plan.writes && rng.chance(1, 24) {
                let w = if plan.pops { [Op::FindM, Op::PredM, Op::SuccM, Op::MinM, Op::MaxM][rng.below(5)] } else { Op::FindM };
                p.call(w, k, other + rng.below(1000) as u64);
            }
        }
        if plan.iter && rng.chance(1, if n > 1000 { 12 } else { 2 }) {
            let bits = match rng.below(4) { 0 => u64::MAX, 1 | 2 => 0, _ => rng.next() };
            p.iterate(if bits == 0 || bits == u64::MAX { if rng.chance(1, 2) { n + 2 } else { rng.below(n) } } else { rng.below(60) }, bits);
        }
    };
    let (mut lo, mut hi) = (1 + rng.below(n), 0);
    hi = hi.max(lo);
    p.call(Op::From, lo, lo as u64);
    // grow in both directions
    while lo > 1 || hi < n {
        let m = [1, 2, 40, 256, n / 5 + 1, n][rng.below(6)];
        let up = if lo == 1 { true } else if hi == n { false } else { rng.chance(1, 2) };
        if up { let e = (hi + m).min(n); for k in hi + 1..=e { p.call(Op::Ins, k, k as u64); } hi = e; look(p, rng, e, 10); }
        else { let e = lo.saturating_sub(m).max(1); for k in (e..lo).rev() { p.call(Op::Ins, k, k as u64); } lo = e; look(p, rng, e, 10); }
    }
    // full: holes come and go; entries are replaced
    let mut holes: Vec<usize> = vec![];
    for _ in 0..120 {
        if n < 4 { break; }
        match rng.below(5) {
            0 | 1 if plan.may(Op::Rem) => { let k = 2 + rng.below(n - 3); p.call(Op::Rem, k, 0); holes.push(k); look(p, rng, k, 4); }
            2 if !holes.is_empty() => { let i = rng.below(holes.len()); let k = holes.swap_remove(i); p.call(Op::Ins, k, k as u64); look(p, rng, k, 4); }
            3 => { let k = 1 + rng.below(n); p.call(Op::Ins, k, if rng.chance(1, 2) { other } else { k as u64 }); holes.retain(|h| *h != k); look(p, rng, k, 4); }
            _ if n >= 64 && plan.may(Op::Rem) => {
                // a gap: whole subtrees disappear
                let (f, m) = (2 + rng.below(n - 40), [8, 30, n / 50 + 1, n / 8][rng.below(4)]);
                let e = (f + m).min(n - 1);
                if rng.chance(1, 2) { for k in f..=e { p.call(Op::Rem, k, 0); } } else { for k in (f..=e).rev() { p.call(Op::Rem, k, 0); } }
                let at = if rng.chance(1, 2) { f } else { e };
                look(p, rng, at, 8);
                if rng.chance(3, 4) { for k in f..=e { p.call(Op::Ins, k, k as u64); } look(p, rng, e, 4); }
            }
            _ => {}
        }
    }
    // empty it from the ends
    if !plan.pops {
        let (mut f, mut l) = (1, n);
        while f <= l && p.sut.live() {
            let m = [1, 3, 50, 256, n / 6 + 1, n][rng.below(6)];
            let front = rng.chance(1, 2);
            for _ in 0..m {
                if f > l || !p.sut.live() { break; }
                let k = if front { f += 1; f - 1 } else { l -= 1; l + 1 };
                p.call(Op::Rem, k, 0);
            }
            look(p, rng, f.min(n), 4);
        }
        p.flush();
        return;
    }
    let mut left = 3 * n;
    while p.sut.live() && left > 0 {
        let m = [1, 3, 50, 256, n / 6 + 1, n][rng.below(6)];
        left -= m.min(left);
        let ways: Vec<(Op, bool)> = [(Op::RemMin, true), (Op::RemMax, false), (Op::Rem, true), (Op::Rem, false)].into_iter().filter(|w| plan.may(w.0)).collect();
        if ways.is_empty() { break; }
        let (op, up) = ways[rng.below(ways.len())];
        let mut at = 1;
        if op == Op::Rem {
            // by key, from one end or from somewhere
            let end = p.sut.apply(if up { Op::Min } else { Op::Max }, 0, 0, 0);
            let from = if rng.chance(1, 3) { 1 + rng.below(n) } else { end.first().map_or(1, |k| (*k).clamp(1, n as i64) as usize) };
            for i in 0..m {
                at = if up { from + i } else { from.saturating_sub(i) };
                if !p.sut.live() || at == 0 || at > n { break; }
                p.call(op, at, 0);
            }
            at = at.clamp(1, n);
        } else {
            for _ in 0..m { if !p.sut.live() { break; } let r = p.call(op, 0, 0); at = if r.len() == 3 { (r[1].max(1) as usize).min(n) } else { 1 }; }
        }
        if rng.chance(1, 4) { look(p, rng, at, 6); }
        if p.sut.live() && rng.chance(1, 6) && plan.may(Op::Into) { p.call(Op::Into, 0, 0); }
    }
    p.flush();
}
