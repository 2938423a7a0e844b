//! P25: operation costs, counted in point operations (comparisons, copies,
//! successor and predecessor steps) by the point type itself. The same
//! history is replayed with every cell of the line blown up to blocks of
//! different sizes: costs must stay within a quadratic bound of the number of
//! stored intervals, and must not grow with the size of the blocks.
use nimon::dom::{budget, steps, tick};
use nimon::ivs::hash_of;
use nimon::mon::*;
use nimon::rng::Rng;
use nimon::rset::RSet;
use nimon::{want, want_eq};
use normalize_interval::normalize::{Finite, Normalize};
use normalize_interval::raw_interval::RawInterval;
use normalize_interval::tine_tree::TineTree;
use normalize_interval::{Bound, Interval, Selection};
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

#[derive(Debug)]
struct Cnt(u64);
impl Clone for Cnt { fn clone(&self) -> Self { tick(); Cnt(self.0) } }
impl PartialEq for Cnt { fn eq(&self, o: &Self) -> bool { tick(); self.0 == o.0 } }
impl Eq for Cnt {}
impl PartialOrd for Cnt { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { Some(self.cmp(o)) } }
impl Ord for Cnt { fn cmp(&self, o: &Self) -> Ordering { tick(); self.0.cmp(&o.0) } }
impl Hash for Cnt { fn hash<H: Hasher>(&self, h: &mut H) { tick(); self.0.hash(h) } }
impl Finite for Cnt {
    const MINIMUM: Self = Cnt(0);
    const MAXIMUM: Self = Cnt(u64::MAX);
    fn pred(&self) -> Option<Self> { tick(); self.0.checked_sub(1).map(Cnt) }
    fn succ(&self) -> Option<Self> { tick(); self.0.checked_add(1).map(Cnt) }
}
impl std::ops::Sub for Cnt { type Output = Cnt; fn sub(self, o: Cnt) -> Cnt { tick(); Cnt(self.0 - o.0) } }

/// The line as `k` cells of `s` points, the lower half packed at the minimum,
/// the upper at the maximum, the middle cell filling the rest.
#[derive(Clone, Copy, Debug)]
struct Line { k: u64, s: u64 }
impl Line {
    fn lo(self, c: u64) -> u64 { if c < self.k / 2 { c * self.s } else { u64::MAX - (self.k - c) * self.s + 1 } }
    fn hi(self, c: u64) -> u64 { if c + 1 == self.k { u64::MAX } else { self.lo(c + 1) - 1 } }
    fn iv(self, r: (u64, u64), form: u8) -> Interval<Cnt> {
        let (l, h) = (self.lo(r.0), self.hi(r.1));
        match form % 4 {
            0 if l > 0 && h < u64::MAX => Interval::open(Cnt(l - 1), Cnt(h + 1)),
            1 if h < u64::MAX => Interval::right_open(Cnt(l), Cnt(h + 1)),
            2 if l > 0 => Interval::left_open(Cnt(l - 1), Cnt(h)),
            _ => Interval::closed(Cnt(l), Cnt(h)),
        }
    }
    fn raw(self, r: (u64, u64), form: u8) -> RawInterval<Cnt> {
        let (l, h) = (self.lo(r.0), self.hi(r.1));
        if r.0 == 0 && form & 8 != 0 { return if form & 1 == 0 { RawInterval::To(Cnt(h)) } else { RawInterval::UpTo(Cnt(h)) }; }
        if r.1 + 1 == self.k && form & 16 != 0 { return if form & 1 == 0 { RawInterval::From(Cnt(l)) } else { RawInterval::UpFrom(Cnt(l)) }; }
        match form % 4 { 0 => RawInterval::open(Cnt(l), Cnt(h)), 1 => RawInterval::left_open(Cnt(l), Cnt(h)), 2 => RawInterval::right_open(Cnt(l), Cnt(h)), _ => RawInterval::closed(Cnt(l), Cnt(h)) }
    }
}

/// Point operations an operation over `n` stored intervals may take.
fn allowance(n: usize) -> u64 { 48 * (n as u64 + 6) * (n as u64 + 6) }
/// Point operations an operation on one or two intervals may take.
const STEP: u64 = 1500;

struct Meter { costs: Vec<(&'static str, u64)>, worst: u64 }
impl Meter {
    fn run<R>(&mut self, name: &'static str, n: usize, f: impl FnOnce() -> R) -> Result<R, String> { self.within(name, allowance(n), f) }
    fn within<R>(&mut self, name: &'static str, cap: u64, f: impl FnOnce() -> R) -> Result<R, String> {
        let t = steps();
        budget(cap);
        let r = guarded(f);
        budget(CASE_STEPS);
        let c = steps() - t;
        match r {
            Err(p) if p.contains("STEP-BUDGET") => return Err(format!("{name} does not finish within {cap} point operations")),
            Err(p) => return Err(format!("{name} panicked: {p}")),
            Ok(r) => { self.costs.push((name, c)); self.worst = self.worst.max(c * 1000 / cap); Ok(r) }
        }
    }
}
fn hashed<X: Hash>(x: &X) -> u64 { let mut h = DefaultHasher::new(); x.hash(&mut h); h.finish() }

#[derive(Clone, Copy, Debug, Hash)]
enum Op { Un((u64, u64), u8), In((u64, u64), u8), Mi((u64, u64), u8), Comp, Swap, UnB, InB, MiB, Coll, Ext }
fn ranges(m: &RSet) -> Vec<(u64, u64)> { m.v.iter().map(|r| (r.0 as u64, r.1 as u64)).collect() }

/// Replays a history on selections at one scale, measuring every operation.
fn selections(line: Line, ops: &[Op], salt: u64, m: &mut Meter) -> Verdict {
    let mut rng = Rng::new(salt);
    let max = line.k as u128 - 1;
    let (mut a, mut b) = (Selection::<Cnt>::new(), Selection::<Cnt>::new());
    let (mut ma, mut mb) = (RSet::empty(), RSet::empty());
    let r = |x: (u64, u64)| RSet::range(x.0 as u128, x.1 as u128);
    for &op in ops {
        let n = ma.v.len();
        let t = n + mb.v.len();
        match op {
            Op::Un(x, f) => { let i = m.run("Interval::new", 1, || line.iv(x, f))?; m.run("union_in_place", n, || a.union_in_place(i))?; ma = ma.union(&r(x)) }
            Op::In(x, f) => { let i = line.iv(x, f); m.run("intersect_in_place", n, || a.intersect_in_place(i))?; ma = ma.intersect(&r(x)) }
            Op::Mi(x, f) => { let i = line.iv(x, f); m.run("minus_in_place", n, || a.minus_in_place(i))?; ma = ma.intersect(&r(x).complement(max)) }
            Op::Comp => { a = m.run("complement", n, || a.complement())?; ma = ma.complement(max) }
            Op::Swap => { std::mem::swap(&mut a, &mut b); std::mem::swap(&mut ma, &mut mb) }
            Op::UnB => { a = m.run("union", t, || a.union(&b))?; ma = ma.union(&mb) }
            Op::InB => { a = m.run("intersect", t, || a.intersect(&b))?; ma = ma.intersect(&mb) }
            Op::MiB => { a = m.run("minus", t, || a.minus(&b))?; ma = ma.intersect(&mb.complement(max)) }
            Op::Coll => {
                let mut v: Vec<_> = ranges(&ma).into_iter().map(|x| line.iv(x, 3)).collect();
                for i in (1..v.len()).rev() { let j = rng.idx(i + 1); v.swap(i, j); }
                a = m.run("collect", n, || v.into_iter().collect())?;
            }
            Op::Ext => { let v: Vec<_> = ranges(&mb).into_iter().map(|x| line.iv(x, 3)).collect(); m.run("extend", t, || a.extend(v))?; ma = ma.union(&mb) }
        }
    }
    let (n, t) = (ma.v.len(), ma.v.len() + mb.v.len());
    let got: Vec<(u64, u64)> = m.run("interval_iter walked", n, || a.interval_iter().take(n + 2).map(|i| (bound(i.lower_bound()), bound(i.upper_bound()))).collect())?;
    want_eq!(got, ranges(&ma).into_iter().map(|x| (line.lo(x.0), line.hi(x.1))).collect::<Vec<_>>(), "intervals at the end");
    m.run("interval_iter().next", n, || { a.interval_iter().next(); })?;
    m.run("interval_iter().next_back", n, || { a.interval_iter().next_back(); })?;
    m.run("interval_iter reversed", n, || a.interval_iter().rev().take(n + 2).count())?;
    let c = m.run("clone", n, || a.clone())?;
    m.run("eq", n, || a == c)?;
    m.run("eq of another", t, || a == b)?;
    m.run("hash", n, || hashed(&a))?;
    m.run("into_interval_iter", n, || c.into_interval_iter().count())?;
    let p = Cnt(line.lo(rng.below(line.k)));
    m.run("contains", n, || a.contains(&p))?;
    m.run("lower_bound", n, || a.lower_bound())?;
    m.run("upper_bound", n, || a.upper_bound())?;
    m.run("infimum", n, || a.infimum())?;
    m.run("supremum", n, || a.supremum())?;
    m.run("is_empty", n, || a.is_empty())?;
    m.run("is_full", n, || a.is_full())?;
    m.run("is_bounded", n, || (a.is_bounded(), a.is_left_bounded(), a.is_right_bounded(), a.is_half_bounded()))?;
    m.run("enclose", n, || a.enclose())?;
    m.run("closure", n, || a.closure())?;
    m.run("intersects", t, || a.intersects(&b))?;
    // Point iteration: every step on its own is cheap, from either end.
    let k = 12.min(ma.count() * SCALES[0] as u128);
    let mut it = m.run("iter()", n, || a.iter())?;
    for i in 0..k {
        let back = (salt >> i) & 1 == 1;
        let x = m.run(if back { "iter().next_back" } else { "iter().next" }, n, || if back { it.next_back() } else { it.next() })?;
        want!(x.is_some(), "point iteration ends after {i} steps");
    }
    let c = a.clone();
    let mut it = m.run("into_iter()", n, || c.into_iter())?;
    for i in 0..k {
        let back = (salt >> i) & 2 == 2;
        let x = m.run(if back { "into_iter().next_back" } else { "into_iter().next" }, n, || if back { it.next_back() } else { it.next() })?;
        want!(x.is_some(), "owned point iteration ends after {i} steps");
    }
    Ok(())
}
fn bound(b: Option<Bound<Cnt>>) -> u64 { match b { Some(Bound::Include(Cnt(x)) | Bound::Exclude(Cnt(x))) => x, _ => 0 } }

/// The same on trees, with raw intervals of every kind.
fn trees(line: Line, ops: &[Op], salt: u64, m: &mut Meter) -> Verdict {
    let (mut a, mut b) = (TineTree::<Cnt>::new(), TineTree::<Cnt>::new());
    let size = |t: &TineTree<Cnt>| t.interval_iter().count();
    for &op in ops {
        let n = size(&a);
        let t = n + size(&b);
        match op {
            Op::Un(x, f) => { let i = line.raw(x, f); m.run("tree union_in_place", n, || a.union_in_place(&i))? }
            Op::In(x, f) => { let i = line.raw(x, f); m.run("tree intersect_in_place", n, || a.intersect_in_place(&i))? }
            Op::Mi(x, f) => { let i = line.raw(x, f); m.run("tree minus_in_place", n, || a.minus_in_place(&i))? }
            Op::Comp => a = m.run("tree complement", n, || a.complement())?,
            Op::Swap => std::mem::swap(&mut a, &mut b),
            Op::UnB => a = m.run("tree union", t, || a.union(&b))?,
            Op::InB => a = m.run("tree intersect", t, || a.intersect(&b))?,
            Op::MiB => a = m.run("tree minus", t, || a.minus(&b))?,
            Op::Coll | Op::Ext => { let v: Vec<_> = a.interval_iter().collect(); a = m.run("tree collect", n, || v.into_iter().collect())? }
        }
    }
    let n = size(&a);
    let p = Cnt(line.lo(Rng::new(salt).below(line.k)));
    m.run("tree contains", n, || a.contains(&p))?;
    m.run("tree bounds", n, || (a.lower_bound(), a.upper_bound(), a.is_full(), a.is_empty(), a.enclose(), a.closure()))?;
    let c = m.run("tree clone", n, || a.clone())?;
    m.run("tree eq and hash", n, || a == c && hashed(&a) == hashed(&c))?;
    m.run("tree interval_iter().next", n, || { a.interval_iter().next(); a.interval_iter().next_back(); })?;
    m.run("tree into_iter", n, || c.into_iter().count())?;
    let v: Vec<RawInterval<Cnt>> = a.interval_iter().chain(b.interval_iter()).collect();
    let t = v.len();
    m.run("union_all", t, || RawInterval::union_all(v.iter().cloned()).count())?;
    m.run("intersect_all", t, || RawInterval::intersect_all(v.iter().cloned()))?;
    m.run("enclose_all", t, || RawInterval::enclose_all(v.iter().cloned()))?;
    Ok(())
}

/// Every interval and raw interval operation, on two ranges of cells.
fn intervals(line: Line, ops: &[Op], _salt: u64, m: &mut Meter) -> Verdict {
    let rs: Vec<((u64, u64), u8)> = ops.iter().filter_map(|o| match *o { Op::Un(r, f) | Op::In(r, f) | Op::Mi(r, f) => Some((r, f)), _ => None }).collect();
    for w in rs.windows(2) {
        let (x, y) = (line.iv(w[0].0, w[0].1), line.iv(w[1].0, w[1].1));
        let p = Cnt(line.lo(w[1].0 .0));
        m.within("interval queries", 20 * STEP, || (x.lower_bound(), x.upper_bound(), x.infimum(), x.supremum(), x.size(), x.is_empty(), x.is_degenerate(), x.is_proper(), x.is_open(), x.is_left_open(), x.is_right_open(),))?;
        m.within("interval predicates", 20 * STEP, || (x.is_half_open(), x.is_closed(), x.is_left_closed(), x.is_right_closed(), x.is_half_closed(), x.is_bounded(), x.is_left_bounded(), x.is_right_bounded(), x.is_half_bounded(), x.contains(&p)))?;
        m.within("interval comparisons", 20 * STEP, || (x.intersects(&y), x.is_adjacent_to(&y), x == y, hashed(&x)))?;
        m.within("interval complement", STEP, || x.complement().count())?;
        m.within("interval intersect", STEP, || x.intersect(&y))?;
        m.within("interval union", STEP, || x.union(&y).count())?;
        m.within("interval minus", STEP, || x.minus(&y).count())?;
        m.within("interval enclose", STEP, || (x.enclose(&y), x.closure()))?;
        m.within("interval conversions", 2 * STEP, || (Selection::from(x.clone()), x.clone().into_non_empty(), Interval::from(line.lo(w[0].0 .0).pipe(Cnt)..Cnt(line.hi(w[0].0 .1)))))?;
        let mut it = m.within("interval iter()", STEP, || x.iter())?;
        m.within("interval iter().next", STEP, || it.next())?;
        m.within("interval iter().next_back", STEP, || it.next_back())?;
        m.within("interval iter().next", STEP, || it.next())?;
        let (x, y) = (line.raw(w[0].0, w[0].1), line.raw(w[1].0, w[1].1));
        m.within("raw queries", 20 * STEP, || (x.lower_bound(), x.upper_bound(), x.infimum(), x.supremum(), x.contains(&p), x.is_empty(), x.is_full(), x.intersects(&y), x.is_adjacent_to(&y)))?;
        m.within("raw set operations", 4 * STEP, || (x.complement().count(), x.intersect(&y), x.union(&y).count(), x.minus(&y).count(), x.enclose(&y), x.closure()))?;
        m.within("normal forms", STEP, || (x.clone().normalized(), x.clone().denormalized()))?;
    }
    Ok(())
}
trait Pipe: Sized { fn pipe<R>(self, f: impl FnOnce(Self) -> R) -> R { f(self) } }
impl Pipe for u64 {}

type Replay = fn(Line, &[Op], u64, &mut Meter) -> Verdict;
const SCALES: [u64; 6] = [3, 4, 7, 1_000, 1 << 20, 1 << 40];
fn cost_case(cx: &mut Ctx, replay: Replay, k: u64, ops: Vec<Op>, stored: usize) -> bool {
    let salt = cx.rng.u64();
    cx.case(hash_of(&(&ops, k, salt)), stored > 0, || format!("{k} cells, {} operations ending {:?}", ops.len(), &ops[ops.len().saturating_sub(4)..]), |ev| {
        let mut base: Option<Vec<(&'static str, u64)>> = None;
        for s in SCALES {
            let mut m = Meter { costs: Vec::new(), worst: 0 };
            replay(Line { k, s }, &ops, salt, &mut m).map_err(|e| format!("with cells of {s} points: {e}"))?;
            bump(ev, "operations measured", m.costs.len() as u64);
            bump(ev, "point operations counted", m.costs.iter().map(|c| c.1).sum());
            let w = ev.entry("max use of an allowance, per mille").or_insert(0);
            *w = (*w).max(m.worst);
            match &base {
                None => base = Some(m.costs),
                Some(b) => {
                    want_eq!(m.costs.len(), b.len(), "operations at {s} points a cell");
                    for (x, y) in m.costs.iter().zip(b) {
                        want!(x.0 == y.0 && x.1 <= 2 * y.1 + 40, "{} takes {} point operations with cells of {} points but {} with cells of {s}", x.0, y.1, SCALES[0], x.1);
                    }
                    bump(ev, "costs compared across scales", b.len() as u64);
                }
            }
        }
        Ok(())
    })
}
fn rand_ops(rng: &mut Rng, k: u64, n: usize) -> Vec<Op> {
    // Starts with scattered narrow ranges, so that many intervals are stored.
    let mut v: Vec<Op> = Vec::new();
    let narrow = |rng: &mut Rng| { let a = rng.below(k); ((a, (a + rng.below(3)).min(k - 1)), rng.u64() as u8) };
    for half in 0..2 {
        for _ in 0..n { let (r, f) = narrow(rng); v.push(Op::Un(r, f)); }
        if half == 0 { v.push(Op::Swap); }
    }
    for _ in 0..10 + rng.idx(20) {
        let (r, f) = if rng.chance(1, 4) { let (a, b) = (rng.below(k), rng.below(k)); ((a.min(b), a.max(b)), rng.u64() as u8) } else { narrow(rng) };
        v.push(match rng.below(16) {
            0..=2 => Op::Un(r, f), 3 | 4 => Op::Mi(r, f), 5 => { let w = (r.0.saturating_sub(k / 3), (r.1 + k / 3).min(k - 1)); Op::In(w, f) }
            6 => Op::Comp, 7 | 8 => Op::Swap, 9 => Op::UnB, 10 => Op::InB, 11 => Op::MiB, 12 => Op::Coll, 13 => Op::Ext, _ => Op::Mi(r, f),
        });
    }
    v
}
fn run(cx: &mut Ctx, replay: Replay) {
    let big = if cx.thorough { 400 } else { 90 };
    for i in 0..12 {
        let n = match i % 4 { 0 => 1 + cx.rng.idx(4), 1 => 5 + cx.rng.idx(12), 2 => 20 + cx.rng.idx(20), _ => big / 2 + cx.rng.idx(big / 2) };
        let k = (n as u64 * (2 + cx.rng.below(5))).max(6);
        let ops = rand_ops(&mut cx.rng, k, n);
        if !cost_case(cx, replay, k, ops, n) { return; }
    }
}
/// Sets of hundreds of intervals, where any cost above the square shows.
fn large(cx: &mut Ctx) {
    let n = [150, 300, 600, 1200][(cx.block / 2 % 4) as usize] + cx.rng.idx(40);
    let k = n as u64 * (3 + cx.rng.below(3));
    let ops = rand_ops(&mut cx.rng, k, n);
    cost_case(cx, if cx.block % 2 == 0 { selections } else { trees }, k, ops, n);
}
fn s_sel(cx: &mut Ctx) { run(cx, selections) }
fn s_tree(cx: &mut Ctx) { run(cx, trees) }
fn s_iv(cx: &mut Ctx) { run(cx, intervals) }
fn suites(_: &str) -> Vec<Suite> {
    let s = |name, quick, thorough, run| Suite { name, quick, thorough, run };
    vec![s("selection-costs", 480, 1200, s_sel as fn(&mut Ctx)), s("tree-costs", 320, 800, s_tree), s("large-sets", 32, 320, large), s("interval-costs", 160, 200, s_iv)]
}
fn main() { main_with(suites) }
