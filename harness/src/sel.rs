//! The history engine: registers of real sets (selections or raw interval
//! trees) shadowed by range-list models, driven by random, exhaustive and
//! fix-point workloads, with one observer per property.
use crate::mon::{bump, guarded, shrink, Ctx, Ev, Verdict};
use crate::rng::{mix, Rng};
use crate::rset::RSet;
use crate::want_eq;
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::fmt::Debug;
use std::hash::Hash;

/// A kind of real set over `0..=max()` atoms (ranks of points, or cells of a
/// dense grid). Every non-empty range of atoms is a single interval.
pub trait Space: 'static {
    type S: Clone + Debug + PartialEq + Hash;
    type I: Clone + Debug + PartialEq;
    const NAME: &'static str;
    fn max() -> u128;
    /// Atoms where trouble is likely.
    fn hot(rng: &mut Rng) -> Vec<u128>;
    /// An interval holding exactly `r` (`None`: nothing), built by one of its recipes.
    fn iv(r: Option<(u128, u128)>, salt: u64) -> Self::I;
    /// The atoms an interval claims by its bounds.
    fn range(i: &Self::I) -> Result<Option<(u128, u128)>, String>;
    fn new() -> Self::S;
    fn full() -> Self::S;
    fn from_one(i: Self::I) -> Self::S;
    fn from_ivs(v: Vec<Self::I>, salt: u64) -> Self::S;
    /// From single atoms, where the type supports it.
    fn from_atoms(v: Vec<u128>) -> Self::S;
    fn extend(s: &mut Self::S, v: Vec<Self::I>);
    fn union_in(s: &mut Self::S, i: Self::I);
    fn intersect_in(s: &mut Self::S, i: Self::I);
    fn minus_in(s: &mut Self::S, i: Self::I);
    fn complement(s: &Self::S) -> Self::S;
    fn union(a: &Self::S, b: &Self::S) -> Self::S;
    fn intersect(a: &Self::S, b: &Self::S) -> Self::S;
    fn minus(a: &Self::S, b: &Self::S) -> Self::S;
    fn contains(s: &Self::S, atom: u128) -> bool;
    /// Intervals, by the borrowing (`false`) or consuming (`true`) iterator.
    fn intervals(s: &Self::S, own: bool) -> Box<dyn DoubleEndedIterator<Item = Self::I> + '_>;
    /// Runs a random iterator program on the interval iterator, as its own type.
    fn programs(s: &Self::S, own: bool, want: &[Self::I], rng: &mut Rng, ev: &mut Ev) -> Verdict;
    fn atom_name(r: u128) -> String { format!("{r}") }
    /// Whether a lone atom is something a value can be collected from.
    fn is_point(atom: u128) -> bool;
}

pub type R = Option<(u128, u128)>;

#[derive(Clone, Debug)]
pub enum Op {
    UnionIn(usize, R, u64), IntersectIn(usize, R, u64), MinusIn(usize, R, u64),
    Extend(usize, Vec<R>, u64), FromIvs(usize, Vec<R>, u64), FromAtoms(usize, Vec<u128>), FromOne(usize, R, u64),
    Empty(usize), Full(usize),
    Complement(usize, usize), Union(usize, usize, usize), Intersect(usize, usize, usize), Minus(usize, usize, usize),
    Copy(usize, usize), Recollect(usize, usize, bool),
    /// Many equal intervals at equal distances.
    Ladder(usize, Ladder),
}
#[derive(Clone, Copy, Debug)]
pub struct Ladder { pub start: u128, pub step: u128, pub width: u128, pub n: u128, pub salt: u64 }
impl Ladder {
    pub fn ranges(&self) -> Vec<R> { (0..self.n).map(|i| { let a = self.start + i * self.step; Some((a, a + self.width - 1)) }).collect() }
}
impl Op {
    /// Name, written register, and what it holds afterwards.
    pub fn model(&self, m: &[RSet], max: u128) -> (&'static str, usize, RSet) {
        match self {
            Op::UnionIn(d, r, _) => ("union_in_place", *d, m[*d].union(&rs(r))),
            Op::IntersectIn(d, r, _) => ("intersect_in_place", *d, m[*d].intersect(&rs(r))),
            Op::MinusIn(d, r, _) => ("minus_in_place", *d, m[*d].minus(&rs(r), max)),
            Op::Extend(d, v, _) => ("extend", *d, m[*d].union(&RSet::from_ranges(v.iter().flatten().copied().collect()))),
            Op::FromIvs(d, v, _) => ("collect intervals", *d, RSet::from_ranges(v.iter().flatten().copied().collect())),
            Op::FromAtoms(d, v) => ("collect points", *d, RSet::from_ranges(v.iter().map(|a| (*a, *a)).collect())),
            Op::FromOne(d, r, _) => ("from interval", *d, rs(r)),
            Op::Empty(d) => ("new", *d, RSet::empty()),
            Op::Full(d) => ("full", *d, RSet::full(max)),
            Op::Complement(d, a) => ("complement", *d, m[*a].complement(max)),
            Op::Union(d, a, b) => ("union", *d, m[*a].union(&m[*b])),
            Op::Intersect(d, a, b) => ("intersect", *d, m[*a].intersect(&m[*b])),
            Op::Minus(d, a, b) => ("minus", *d, m[*a].minus(&m[*b], max)),
            Op::Copy(d, a) => ("clone", *d, m[*a].clone()),
            Op::Recollect(d, a, _) => ("re-collect", *d, m[*a].clone()),
            Op::Ladder(d, l) => ("ladder", *d, RSet::from_ranges(l.ranges().into_iter().flatten().collect())),
        }
    }
}

/// Atoms at and next to boundaries of a set; its extremes more often than others.
pub fn edges(rng: &mut Rng, m: &RSet, max: u128) -> Vec<u128> {
    let mut v = vec![];
    if m.v.is_empty() { return vec![rng.range128(0, max)]; }
    for k in 0..3 + rng.idx(4) {
        let r = match k { 0 => m.v[0], 1 => m.v[m.v.len() - 1], _ => *rng.pick(&m.v) };
        for e in [r.0, r.1] { v.push(match rng.below(4) { 0 => e.saturating_sub(1), 1 => e.saturating_add(1).min(max), _ => e }); }
    }
    v.sort();
    v.dedup();
    v
}
/// A range from one boundary of a set to another, often from end to end.
pub fn edge_range(rng: &mut Rng, m: &RSet, max: u128) -> R {
    let e = edges(rng, m, max);
    let (a, b) = if rng.chance(1, 2) { (e[0], e[e.len() - 1]) } else { (*rng.pick(&e), *rng.pick(&e)) };
    let (a, b) = (a.min(b), a.max(b));
    Some(match rng.below(8) { 0 => (0, b), 1 => (a, max), _ => (a, b) })
}
/// Turns an operation's interval towards the boundaries of what it works on.
fn aim(rng: &mut Rng, op: &mut Op, m: &[RSet], max: u128) {
    let whole = rng.chance(1, 3);
    let mut to = |d: usize, r: &mut R| *r = if whole { edge_range(rng, &m[d], max) } else {
        let e = edges(rng, &m[d], max);
        let a = *rng.pick(&e);
        Some((a, a.saturating_add(rng.below(3) as u128).min(max)))
    };
    match op {
        Op::UnionIn(d, r, _) | Op::MinusIn(d, r, _) => to(*d, r),
        Op::IntersectIn(d, r, _) => *r = edge_range(rng, &m[*d], max),
        Op::Extend(d, v, _) => for r in v { to(*d, r) },
        _ => {}
    }
}

fn rs(r: &R) -> RSet { match r { Some((l, h)) => RSet::range(*l, *h), None => RSet::empty() } }

pub struct Regs<X: Space> { pub real: Vec<X::S>, pub model: Vec<RSet> }
impl<X: Space> Clone for Regs<X> { fn clone(&self) -> Self { Regs { real: self.real.clone(), model: self.model.clone() } } }
impl<X: Space> Regs<X> {
    pub fn new(n: usize) -> Self { Regs { real: (0..n).map(|_| X::new()).collect(), model: vec![RSet::empty(); n] } }
    /// Applies an operation to both sides; returns the written register.
    pub fn apply(&mut self, op: &Op, ev: &mut Ev) -> usize {
        let ivs = |v: &[R], s: u64| -> Vec<X::I> { v.iter().enumerate().map(|(i, r)| X::iv(*r, mix(s ^ i as u64))).collect() };
        match op {
            Op::UnionIn(d, r, s) => X::union_in(&mut self.real[*d], X::iv(*r, *s)),
            Op::IntersectIn(d, r, s) => X::intersect_in(&mut self.real[*d], X::iv(*r, *s)),
            Op::MinusIn(d, r, s) => X::minus_in(&mut self.real[*d], X::iv(*r, *s)),
            Op::Extend(d, v, s) => X::extend(&mut self.real[*d], ivs(v, *s)),
            Op::FromIvs(d, v, s) => self.real[*d] = X::from_ivs(ivs(v, *s), *s),
            Op::FromAtoms(d, v) => self.real[*d] = X::from_atoms(v.clone()),
            Op::FromOne(d, r, s) => self.real[*d] = X::from_one(X::iv(*r, *s)),
            Op::Empty(d) => self.real[*d] = X::new(),
            Op::Full(d) => self.real[*d] = X::full(),
            Op::Complement(d, a) => self.real[*d] = X::complement(&self.real[*a]),
            Op::Union(d, a, b) => self.real[*d] = X::union(&self.real[*a], &self.real[*b]),
            Op::Intersect(d, a, b) => self.real[*d] = X::intersect(&self.real[*a], &self.real[*b]),
            Op::Minus(d, a, b) => self.real[*d] = X::minus(&self.real[*a], &self.real[*b]),
            // Over what was there, half of the times.
            Op::Copy(d, a) if d != a && (d + a + self.model[*a].v.len()) % 2 == 0 => {
                let mut t = std::mem::replace(&mut self.real[*d], X::new());
                t.clone_from(&self.real[*a]);
                self.real[*d] = t;
            }
            Op::Copy(d, a) => self.real[*d] = self.real[*a].clone(),
            Op::Recollect(d, a, own) => {
                let n = self.model[*a].v.len() + 2;
                let v: Vec<X::I> = X::intervals(&self.real[*a], *own).take(n).collect();
                self.real[*d] = X::from_ivs(v, 0);
            }
            Op::Ladder(d, l) => {
                let v: Vec<R> = l.ranges();
                self.real[*d] = match l.salt % 5 {
                    0 => X::from_ivs(ivs(&v, l.salt), l.salt),
                    1 => { let mut w = ivs(&v, l.salt); w.reverse(); X::from_ivs(w, l.salt) }
                    2 => { let mut s = X::new(); for i in ivs(&v, l.salt) { X::union_in(&mut s, i); } s }
                    3 => { let mut s = X::new(); X::extend(&mut s, ivs(&v, l.salt)); s }
                    // Odd ones first, then the even ones between them.
                    _ => { let mut s = X::new(); for k in [1, 0] { for i in ivs(&v, l.salt).into_iter().skip(k).step_by(2) { X::union_in(&mut s, i); } } s }
                };
            }
        }
        let (name, d, m) = op.model(&self.model, X::max());
        self.model[d] = m;
        bump(ev, name, 1);
        d
    }
}

/// Interval counts of the ladder workload, by block.
pub const LADDER: [usize; 16] = [63, 127, 127, 254, 255, 255, 256, 300, 511, 1000, 1023, 2047, 4095, 8191, 20000, 65533];
pub const NREG: usize = 4;

#[derive(Clone, Copy, PartialEq)]
pub enum OpSet { InPlace, All }

pub fn rand_range(rng: &mut Rng, hot: &[u128], max: u128) -> R {
    if rng.chance(1, 24) { return None; }
    let a = *rng.pick(hot);
    Some(match rng.below(16) {
        0 => (0, a),
        1 => (a, max),
        2 => (0, max),
        3..=5 => (a, a),
        6..=8 => (a, a.saturating_add(rng.below(4) as u128).min(max)),
        _ => { let b = *rng.pick(hot); (a.min(b), a.max(b)) }
    })
}

pub fn rand_op<X: Space>(rng: &mut Rng, hot: &[u128], set: OpSet, widen: bool) -> Op {
    let max = X::max();
    let d = rng.idx(NREG);
    let a = rng.idx(NREG);
    let b = rng.idx(NREG);
    let s = rng.u64();
    let r = rand_range(rng, hot, max);
    // Narrow operands keep sets rich; wide ones would keep wiping them.
    let small = |rng: &mut Rng| -> R { let x = *rng.pick(hot); Some((x, x.saturating_add(rng.below(3) as u128).min(max))) };
    let n = rng.idx(6);
    let k = rng.below(if set == OpSet::All { 26 } else { 16 });
    match k {
        0..=3 => { let r = if widen { small(rng) } else { r }; Op::UnionIn(d, r, s) }
        4..=6 => {
            let r = if rng.chance(2, 3) { let (x, y) = (*rng.pick(&hot[..hot.len().div_ceil(3)]), *rng.pick(&hot[hot.len() * 2 / 3..])); Some((x.min(y), x.max(y))) } else { r };
            Op::IntersectIn(d, r, s)
        }
        7..=10 => { let r = if rng.chance(2, 3) { small(rng) } else { r }; Op::MinusIn(d, r, s) }
        11 => Op::Extend(d, (0..n).map(|_| if rng.chance(1, 2) { small(rng) } else { rand_range(rng, hot, max) }).collect(), s),
        12 => Op::FromIvs(d, (0..if s % 8 == 1 { 0 } else { n + 2 }).map(|_| if rng.chance(2, 3) { small(rng) } else { rand_range(rng, hot, max) }).collect(), s),
        13 => { let v: Vec<u128> = (0..n * 2).map(|_| *rng.pick(hot)).filter(|a| X::is_point(*a)).collect(); Op::FromAtoms(d, v) }
        14 => match rng.below(3) { 0 => Op::FromOne(d, r, s), 1 => Op::Full(d), _ => Op::Empty(d) },
        15 => Op::Copy(d, a),
        16 | 17 => Op::Complement(d, a),
        18 | 19 => Op::Union(d, a, b),
        20..=22 => Op::Intersect(d, a, b),
        23 | 24 => Op::Minus(d, a, b),
        _ => Op::Recollect(d, a, rng.chance(1, 2)),
    }
}

/// What a property looks at after each step: all registers, the one just
/// written, and a salt for its own choices.
pub type Observe<X> = fn(&Regs<X>, usize, u64, &mut Ev) -> Verdict;

pub fn run_history<X: Space>(ops: &[Op], obs: Observe<X>, salt: u64, ev: &mut Ev) -> Verdict {
    let mut regs = Regs::<X>::new(NREG);
    for (i, op) in ops.iter().enumerate() {
        if crate::mon::late() { break; }
        crate::mon::beat();
        // Quadratic time is allowed.
        let size = regs.model.iter().map(|m| m.v.len() as u64).sum::<u64>() + match op { Op::Ladder(_, l) => l.n as u64, _ => 0 };
        crate::dom::budget(crate::mon::CASE_STEPS + 4 * size * size);
        let d = guarded(|| regs.apply(op, ev)).map_err(|p| format!("step {i} {op:?} panicked: {p}"))?;
        guarded(|| obs(&regs, d, mix(salt ^ i as u64), ev)).unwrap_or_else(|p| Err(format!("panicked: {p}")))
            .map_err(|m| format!("after step {i} {op:?}: {m} (set is {:?})", regs.model[d]))?;
    }
    Ok(())
}

fn nontrivial_history(ops: &[Op]) -> bool { ops.len() >= 3 }

pub fn history_case<X: Space>(cx: &mut Ctx, ops: Vec<Op>, obs: Observe<X>, salt: u64) -> bool {
    let key = ops.iter().fold(1u64, |h, o| mix(h ^ crate::rng::hash_str(&format!("{o:?}"))));
    cx.case(key, nontrivial_history(&ops), || format!("{} history {ops:?}", X::NAME), |ev| {
        run_history::<X>(&ops, obs, salt, ev).map_err(|m| {
            let short = shrink(&ops, |o| run_history::<X>(o, obs, salt, &mut BTreeMap::new()).is_err());
            let m2 = run_history::<X>(&short, obs, salt, &mut BTreeMap::new()).err().unwrap_or(m);
            format!("{m2} | reduced to {} steps: {short:?}", short.len())
        })
    })
}

/// Random histories over hot atoms.
pub fn histories<X: Space>(cx: &mut Ctx, n: usize, len: usize, set: OpSet, obs: Observe<X>) {
    for i in 0..n {
        let hot = X::hot(&mut cx.rng);
        let l = 2 + cx.rng.idx(len);
        let widen = i % 2 == 0;
        let mut models = vec![RSet::empty(); NREG];
        let ops: Vec<Op> = (0..l).map(|_| {
            let mut op = rand_op::<X>(&mut cx.rng, &hot, set, widen);
            if cx.rng.chance(1, 3) { aim(&mut cx.rng, &mut op, &models, X::max()); }
            let (_, d, m) = op.model(&models, X::max());
            models[d] = m;
            op
        }).collect();
        let salt = cx.rng.u64();
        if !history_case::<X>(cx, ops, obs, salt) { return; }
    }
}

/// Histories over points whose comparison, clone or step panics now and then.
/// What the interrupted operation was writing is given up; all other sets, and
/// everything made later, must be as if it had not been tried.
pub fn interrupted<X: Space>(cx: &mut Ctx, n: usize, len: usize, set: OpSet, obs: Observe<X>) {
    for i in 0..n {
        let hot = X::hot(&mut cx.rng);
        let l = 3 + cx.rng.idx(len);
        let ops: Vec<Op> = (0..l).map(|_| rand_op::<X>(&mut cx.rng, &hot, set, i % 2 == 0)).collect();
        let salt = cx.rng.u64();
        let key = ops.iter().fold(salt, |h, o| mix(h ^ crate::rng::hash_str(&format!("{o:?}"))));
        let ok = cx.case(key, nontrivial_history(&ops), || format!("{} history with panics chosen by {salt:#x}: {ops:?}", X::NAME), |ev| {
            let mut regs = Regs::<X>::new(NREG);
            let mut rng = Rng::new(salt);
            for (i, op) in ops.iter().enumerate() {
                crate::mon::beat();
                // Operations on tracked points until the panic: mostly few.
                let fuse = match rng.below(4) { 0 | 1 => None, 2 => Some(rng.below(12)), _ => Some(rng.below(300)) };
                crate::trk::set_fuse(fuse);
                let r = guarded(|| regs.apply(op, ev));
                crate::trk::set_fuse(None);
                match r {
                    Ok(_) => {}
                    Err(m) if m.contains(crate::trk::BLOWN) => {
                        let (_, d, _) = op.model(&regs.model, X::max());
                        regs.real[d] = X::new();
                        regs.model[d] = RSet::empty();
                        bump(ev, "operations interrupted by a panic of a point", 1);
                    }
                    Err(m) => return Err(format!("step {i} {op:?} panicked: {m}")),
                }
                for d in 0..NREG {
                    guarded(|| obs(&regs, d, mix(salt ^ i as u64), ev)).unwrap_or_else(|p| Err(format!("panicked: {p}")))
                        .map_err(|m| format!("after step {i} {op:?}, register {d}: {m} (set is {:?})", regs.model[d]))?;
                }
            }
            Ok(())
        });
        crate::trk::reset();
        if !ok { return; }
    }
}

/// Few but long histories over sets of many intervals (several tree levels).
pub fn wide<X: Space>(cx: &mut Ctx, runs: usize, steps: usize, set: OpSet, obs: Observe<X>) {
    let max = X::max();
    let lo = if cx.rng.chance(1, 2) { 0 } else { max.saturating_sub(runs as u128 * 5) };
    let span = (runs as u128 * 5).min(max - lo);
    let mut ops = Vec::new();
    let mut models = vec![RSet::empty(); NREG];
    let fill = |rng: &mut Rng, d: usize| {
        let k = runs / 2 + rng.idx(runs / 2 + 1);
        Op::FromIvs(d, (0..k).map(|_| { let a = lo + rng.range128(0, span); Some((a, a.saturating_add(rng.below(3) as u128).min(max))) }).collect(), rng.u64())
    };
    let mut push = |op: Op, models: &mut Vec<RSet>| { let (_, d, m) = op.model(models, max); models[d] = m; ops.push(op); d };
    for d in 0..NREG { push(fill(&mut cx.rng, d), &mut models); }
    for _ in 0..steps {
        let hot: Vec<u128> = { let mut h: Vec<u128> = (0..8).map(|_| lo + cx.rng.range128(0, span)).collect(); h.sort(); h };
        let mut op = rand_op::<X>(&mut cx.rng, &hot, set, true);
        // Keep the sets large.
        for _ in 0..4 { if matches!(op, Op::Empty(_) | Op::Full(_) | Op::FromOne(..) | Op::FromIvs(..) | Op::FromAtoms(..)) || matches!(&op, Op::UnionIn(_, Some(r), _) | Op::MinusIn(_, Some(r), _) if r.1 - r.0 > span / 4) { op = rand_op::<X>(&mut cx.rng, &hot, set, true); } }
        if cx.rng.chance(1, 3) { aim(&mut cx.rng, &mut op, &models, max); }
        let d = push(op, &mut models);
        // Refill what has shrunk, after one more step from there.
        if models[d].v.len() < runs / 4 && cx.rng.chance(1, 2) {
            let op = fill(&mut cx.rng, d);
            push(op, &mut models);
        }
    }
    let salt = cx.rng.u64();
    history_case::<X>(cx, ops, obs, salt);
}

/// The longest ladder a step can be expected to deal with in seconds: an
/// operation that takes quadratic time is no violation (the cost is P25's
/// matter), and must not keep the others from being watched.
fn ladder_cap<X: Space>(set: OpSet, obs: Observe<X>) -> usize {
    crate::mon::calibrated(std::any::type_name::<X>(), || {
        let max = X::max();
        // The most processor time one of the steps takes.
        let trial = |n: u128| -> f64 {
            crate::dom::budget(u64::MAX);
            let mut ev = BTreeMap::new();
            let mut regs = Regs::<X>::new(NREG);
            let n = n.min(max / 4);
            let l = Ladder { start: 0, step: 4, width: 2, n, salt: 1 };
            let mid = Some((2 * n - 3, 2 * n + 3));
            let mut ops = vec![Op::Ladder(0, l), Op::Ladder(1, Ladder { start: 1, salt: 4, ..l }), Op::UnionIn(0, mid, 3), Op::MinusIn(0, mid, 4), Op::IntersectIn(0, Some((3, 4 * n - 9)), 5), Op::Extend(0, vec![mid, Some((1, 2))], 6), Op::Recollect(3, 0, true), Op::Recollect(3, 0, false)];
            if set == OpSet::All { ops.extend([Op::Union(2, 0, 1), Op::Minus(2, 0, 1), Op::Minus(2, 1, 0), Op::Intersect(2, 0, 1), Op::Complement(3, 0)]); }
            ops.iter().map(|op| {
                let t = crate::mon::cpu_time(false);
                if let Ok(d) = guarded(|| regs.apply(op, &mut ev)) { let _ = guarded(|| obs(&regs, d, 7, &mut ev)); }
                crate::mon::beat();
                (crate::mon::cpu_time(false) - t).as_secs_f64()
            }).fold(1e-6, f64::max)
        };
        (crate::mon::affordable(4.0, 4096, |n| trial(n as u128)), 0)
    }).0
}

/// Histories over sets of hundreds to tens of thousands of equidistant
/// intervals: sizes at which counters of one and two bytes wrap.
pub fn ladders<X: Space>(cx: &mut Ctx, size: usize, steps: usize, set: OpSet, obs: Observe<X>) {
    let max = X::max();
    let size = if size <= 2048 { size } else {
        let cap = ladder_cap::<X>(set, obs);
        if cap < size { cx.ev("ladders shortened for lack of time", 1); }
        size.min(cap)
    };
    let n = (size + [0, 1, 2, 7][cx.idx(4)]) as u128;
    let mut ops = Vec::new();
    let mut models = vec![RSet::empty(); NREG];
    let mut push = |op: Op, models: &mut Vec<RSet>| { let (_, d, m) = op.model(models, max); models[d] = m; ops.push(op); };
    for d in 0..2 {
        let width = 1 + cx.rng.below(3) as u128;
        let step = width + 1 + cx.rng.below(4) as u128;
        let n = if d == 1 && cx.rng.chance(1, 3) { n / 2 } else { n };
        let n = n.min(max / step);
        let room = max - n * step;
        let start = match cx.rng.below(4) { 0 => 0, 1 => room, _ => cx.rng.range128(0, room.min(50)) };
        let l = Ladder { start, step, width, n, salt: cx.rng.u64() };
        push(Op::Ladder(d, l), &mut models);
        // Offset copies of one ladder interlock with it.
        if d == 0 && cx.rng.chance(1, 2) {
            let shift = 1 + cx.rng.below(step as u64) as u128;
            push(Op::Ladder(1, Ladder { start: (start + shift).min(room), salt: cx.rng.u64(), ..l }), &mut models);
            break;
        }
    }
    if cx.rng.chance(1, 2) { push(Op::Copy(2, 0), &mut models) } else { push(Op::Copy(2, 1), &mut models); push(Op::Copy(3, 0), &mut models) }
    let mut todo: Vec<u64> = (0..8).collect();
    for i in (1..todo.len()).rev() { let j = cx.idx(i + 1); todo.swap(i, j); }
    for k in 0..steps {
        let s = cx.rng.u64();
        let (a, b) = if cx.rng.chance(3, 4) { (0, 1) } else { (cx.idx(NREG), cx.idx(NREG)) };
        let d = 2 + cx.idx(2);
        let mut op = match todo[k % 8] {
            0 if set == OpSet::All => Op::Union(d, a, b),
            1 if set == OpSet::All => Op::Minus(d, a, b),
            2 if set == OpSet::All => Op::Intersect(d, a, b),
            3 if set == OpSet::All => Op::Complement(d, a),
            4 => Op::Recollect(d, a, s % 2 == 0),
            // Many intervals at once, by the piecemeal interface.
            0 | 1 => { let k = cx.idx(2); push(Op::Copy(d, k), &mut models); Op::Extend(d, edge_ranges(&mut cx.rng, &models[d], max), s) }
            5 => { push(Op::Copy(d, a), &mut models); Op::IntersectIn(d, None, s) }
            6 => { push(Op::Copy(d, a), &mut models); Op::MinusIn(d, None, s) }
            _ => { push(Op::Copy(d, a), &mut models); Op::UnionIn(d, None, s) }
        };
        if !matches!(op, Op::Extend(..)) { aim(&mut cx.rng, &mut op, &models, max); }
        push(op, &mut models);
    }
    let salt = cx.rng.u64();
    history_case::<X>(cx, ops, obs, salt);
}
/// Interval counts around which thresholds tend to lie.
const SIZES: [usize; 32] = [1, 2, 3, 5, 8, 12, 15, 16, 17, 20, 31, 32, 33, 40, 50, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 513, 1000, 1024];
/// Two sets of very different (or the same) size in several arrangements,
/// put together both ways round; and points by the thousand.
pub fn lopsided<X: Space>(cx: &mut Ctx, n: usize, set: OpSet, obs: Observe<X>) {
    let max = X::max();
    assert!(max > 200_000);
    for _ in 0..n {
        let rng = &mut cx.rng;
        let a = *rng.pick(&SIZES) + if rng.chance(1, 2) { rng.idx(4) } else { 0 };
        let b = match rng.below(5) {
            0 => *rng.pick(&SIZES),
            1 => a + rng.idx(3),
            _ => (a * [2, 3, 4, 5, 8, 10, 16, 32, 64, 100][rng.idx(10)] + rng.idx(9)).saturating_sub(rng.idx(4)).max(1),
        }.min(3000);
        // Runs of `k` intervals from `at` on; gives where they end.
        let run = |rng: &mut Rng, at: u128, k: usize, far: u64| -> (Vec<R>, u128) {
            let mut x = at;
            let v = (0..k).map(|_| { let l = x; let h = l + rng.below(3) as u128; x = h + 2 + rng.below(far) as u128; Some((l, h)) }).collect();
            (v, x + 3)
        };
        let lo = match rng.below(3) { 0 => 0, 1 => max - 150_000, _ => rng.range128(0, max - 150_000) };
        let (va, vb) = match rng.below(6) {
            0 => { let (va, x) = run(rng, lo, a, 4); (va, run(rng, x, b, 4).0) }
            1 => { let (vb, x) = run(rng, lo, b, 4); (run(rng, x, a, 4).0, vb) }
            2 => { // All of one in a gap of the other.
                let (mut va, x) = run(rng, lo, a / 2, 4);
                let (vb, x) = run(rng, x, b, 4);
                va.extend(run(rng, x, a - a / 2, 4).0);
                (va, vb)
            }
            3 => { let (vb, _) = run(rng, lo, b, 4); let va = (0..a).map(|_| { let r = vb[rng.idx(b)].unwrap(); Some((r.0.saturating_sub(rng.below(2) as u128), r.1 + rng.below(3) as u128)) }).collect(); (va, vb) }
            // Spread as far as each other.
            4 => { let far = |k: usize| 1 + (90_000 / k.max(1) as u64).saturating_sub(4).min(3000); let f = (far(a), far(b)); (run(rng, lo, a, f.0.min(40_000 / a as u64 + 1)).0, run(rng, lo + 1, b, f.1.min(40_000 / b as u64 + 1)).0) }
            _ => { let off = lo + rng.below(4) as u128; (run(rng, lo, a, 6).0, run(rng, off, b, 6).0) }
        };
        let order = |rng: &mut Rng, mut v: Vec<R>| { match rng.below(3) { 0 => {} 1 => v.reverse(), _ => for i in (1..v.len()).rev() { let j = rng.idx(i + 1); v.swap(i, j); } } v };
        let fit = |v: Vec<R>| -> Vec<R> { v.into_iter().map(|r| r.filter(|r| r.0 <= max).map(|r| (r.0, r.1.min(max)))).collect() };
        let (va, vb) = (order(rng, fit(va)), order(rng, fit(vb)));
        let s = rng.u64();
        let mut ops = vec![Op::FromIvs(0, va.clone(), s), Op::FromIvs(1, vb.clone(), mix(s))];
        if set == OpSet::All {
            ops.extend([Op::Union(2, 0, 1), Op::Union(3, 1, 0), Op::Minus(2, 0, 1), Op::Minus(3, 1, 0), Op::Intersect(2, 0, 1), Op::Intersect(3, 1, 0)]);
            if a + b < 600 { ops.push(Op::Complement(2, rng.idx(2))); }
        } else {
            let k = *rng.pick(&[5, 100, 257, 1000, 1024, 1025, 1100, 2047, 2100, 3000, 4099]) + rng.idx(3);
            let wide = *rng.pick(&[1u128, 2, 3, 30]);
            let mut atoms: Vec<u128> = match rng.below(4) {
                0 => (0..k as u128).map(|i| lo + i * wide).collect(),
                1 => (0..k as u128).rev().map(|i| lo + i * wide).collect(),
                _ => (0..k).map(|_| lo + rng.range128(0, k as u128 * wide)).collect(),
            };
            atoms.retain(|a| *a <= max && X::is_point(*a));
            ops.extend([Op::FromAtoms(2, atoms), Op::Copy(3, 0), Op::Extend(3, vb, s), Op::Extend(1, va, mix(s))]);
        }
        let salt = rng.u64();
        if !history_case::<X>(cx, ops, obs, salt) { return; }
    }
}
fn edge_ranges(rng: &mut Rng, m: &RSet, max: u128) -> Vec<R> {
    (0..20).map(|_| { let e = edges(rng, m, max); let a = *rng.pick(&e); Some((a, a.saturating_add(rng.below(6) as u128).min(max))) }).collect()
}

/// A real set holding `m`, built by a route the salt picks.
pub fn build<X: Space>(m: &RSet, salt: u64) -> X::S {
    let mut rng = Rng::new(salt);
    let ivs: Vec<X::I> = m.v.iter().map(|r| X::iv(Some(*r), rng.u64())).collect();
    match rng.below(6) {
        0 => X::from_ivs(ivs, rng.u64()),
        1 => { let mut v = ivs; v.reverse(); X::from_ivs(v, rng.u64()) }
        2 => { let mut s = X::new(); for i in ivs { X::union_in(&mut s, i); crate::mon::beat(); } s }
        // (Cutting many gaps off the full set is quadratic in the library.)
        3 if m.v.len() < 300 => { let mut s = X::full(); for r in m.complement(X::max()).v { X::minus_in(&mut s, X::iv(Some(r), rng.u64())); } s }
        4 => { // Atom by atom or in overlapping bites, shuffled.
            let mut v: Vec<R> = Vec::new();
            for &(l, h) in &m.v { let k = rng.range128(l, h); v.push(Some((l, k))); v.push(Some((k, h))); }
            for i in (1..v.len()).rev() { let j = rng.idx(i + 1); v.swap(i, j); }
            let mut s = X::new();
            for r in v { X::union_in(&mut s, X::iv(r, rng.u64())); crate::mon::beat(); }
            s
        }
        _ => { let mut s = X::new(); X::extend(&mut s, ivs); s }
    }
}

/// Every set of a small space, with every interval, under every in-place operation.
pub fn small_in_place<X: Space>(cx: &mut Ctx, obs: Observe<X>) {
    let max = X::max();
    let n = max as u32 + 1;
    for mask in 0..1u64 << n {
        if mask % cx.blocks != cx.block % cx.blocks { continue; }
        let m = RSet::from_mask(mask, n);
        for l in 0..=max + 1 {
            for h in l..=max.max(l) {
                let r = if l > max { None } else { Some((l, h)) };
                let salt = cx.rng.u64();
                for k in 0..3 {
                    if !cx.case(mix(mask ^ mix((l << 20 | h << 8 | k) as u64)), mask != 0 && r.is_some(),
                        || format!("{}: {m:?} {} {r:?}", X::NAME, ["union", "intersect", "minus"][k as usize]),
                        |ev| {
                            let mut g = Regs::<X> { real: vec![build::<X>(&m, salt)], model: vec![m.clone()] };
                            let op = match k { 0 => Op::UnionIn(0, r, salt), 1 => Op::IntersectIn(0, r, salt), _ => Op::MinusIn(0, r, salt) };
                            g.apply(&op, ev);
                            obs(&g, 0, salt, ev)
                        }) { return; }
                }
            }
        }
    }
}

/// Every pair of sets of a small space under every binary operation.
pub fn small_binary<X: Space>(cx: &mut Ctx, obs: Observe<X>) {
    let n = X::max() as u32 + 1;
    for x in 0..1u64 << n {
        if x % cx.blocks != cx.block % cx.blocks { continue; }
        let (mx, sx) = (RSet::from_mask(x, n), cx.rng.u64());
        for y in 0..1u64 << n {
            let (my, sy) = (RSet::from_mask(y, n), cx.rng.u64());
            if !cx.case(mix(x << 32 | y), x != 0 && y != 0, || format!("{}: {mx:?} with {my:?}", X::NAME), |ev| {
                let mut g = Regs::<X> { real: vec![build::<X>(&mx, sx), build::<X>(&my, sy), X::new()], model: vec![mx.clone(), my.clone(), RSet::empty()] };
                for op in [Op::Union(2, 0, 1), Op::Intersect(2, 0, 1), Op::Minus(2, 0, 1), Op::Complement(2, 0)] {
                    g.apply(&op, ev);
                    for d in 0..3 { obs(&g, d, sx ^ sy, ev).map_err(|e| format!("after {op:?}, register {d}: {e}"))?; }
                }
                Ok(())
            }) { return; }
        }
    }
}

/// Fix point: every representation (by its debug text) reachable from the
/// empty and full sets through the operations, each observed once.
pub fn reachable<X: Space>(cx: &mut Ctx, set: OpSet, obs: Observe<X>, cap: usize) {
    let max = X::max();
    let mut seen: BTreeSet<String> = BTreeSet::new();
    let mut queue: VecDeque<(X::S, RSet, String)> = VecDeque::new();
    let mut nodes: Vec<(X::S, RSet)> = Vec::new();
    for (s, m, n) in [(X::new(), RSet::empty(), "empty"), (X::full(), RSet::full(max), "full")] {
        seen.insert(format!("{s:?}"));
        queue.push_back((s, m, n.to_string()));
    }
    let mut ranges: Vec<R> = vec![None];
    for l in 0..=max { for h in l..=max { ranges.push(Some((l, h))); } }
    while let Some((s, m, how)) = queue.pop_front() {
        let salt = mix(nodes.len() as u64);
        nodes.push((s.clone(), m.clone()));
        if nodes.len() > cap { break; }
        let others: Vec<(X::S, RSet)> = if set == OpSet::All { nodes.iter().rev().take(24).cloned().collect() } else { vec![] };
        let mut found: Vec<(X::S, RSet, String)> = Vec::new();
        if !cx.case(crate::rng::hash_str(&format!("{s:?}")), !m.is_empty(), || format!("{} reached by {how}", X::NAME), |ev| {
            let mut g = Regs::<X> { real: vec![s.clone()], model: vec![m.clone()] };
            obs(&g, 0, salt, ev)?;
            let mut ops: Vec<Op> = Vec::new();
            for (i, r) in ranges.iter().enumerate() { let t = mix(salt ^ i as u64); ops.extend([Op::UnionIn(0, *r, t), Op::IntersectIn(0, *r, t), Op::MinusIn(0, *r, t)]); }
            if set == OpSet::All { ops.extend([Op::Complement(0, 0), Op::Recollect(0, 0, false)]); }
            for op in ops {
                g.real[0] = s.clone();
                g.model[0] = m.clone();
                guarded(|| g.apply(&op, ev)).map_err(|p| format!("{op:?} on {m:?} panicked: {p}"))?;
                found.push((g.real[0].clone(), g.model[0].clone(), format!("{how}, {op:?}")));
            }
            for (o, om) in &others {
                let mut g = Regs::<X> { real: vec![s.clone(), o.clone(), X::new()], model: vec![m.clone(), om.clone(), RSet::empty()] };
                for op in [Op::Union(2, 0, 1), Op::Intersect(2, 0, 1), Op::Minus(2, 0, 1), Op::Minus(2, 1, 0)] {
                    guarded(|| g.apply(&op, ev)).map_err(|p| format!("{op:?} of {m:?} and {om:?} panicked: {p}"))?;
                    found.push((g.real[2].clone(), g.model[2].clone(), format!("{how}, {op:?} with {om:?}")));
                }
            }
            Ok(())
        }) { return; }
        for (s, m, how) in found {
            if seen.insert(format!("{s:?}/{:?}", m.v)) { queue.push_back((s, m, how)); }
        }
    }
    cx.ev("representations reached", nodes.len() as u64);
}

// ------------------------------------------------------------- observers
/// Membership of the written register, at every atom near a boundary.
pub fn obs_contains<X: Space>(g: &Regs<X>, d: usize, salt: u64, ev: &mut Ev) -> Verdict {
    let mut pr = g.model[d].probes(X::max());
    if pr.len() > 64 {
        let mut rng = Rng::new(salt);
        pr = (0..64).map(|_| *rng.pick(&pr)).collect();
    }
    if g.model[d].v.len() > 20 { pr.extend(suspects::<X>(&g.real[d], &g.model[d])); }
    for r in &pr { want_eq!(X::contains(&g.real[d], *r), g.model[d].contains(*r), "contains(atom {r}) in register {d}"); }
    bump(ev, "membership probes", pr.len() as u64);
    Ok(())
}
/// In a large set, atoms worth probing: those about which the set's listed
/// intervals disagree with the model. (The listing itself is not judged.)
fn suspects<X: Space>(s: &X::S, m: &RSet) -> Vec<u128> {
    let n = m.v.len() + 9;
    let listed: Vec<(u128, u128)> = guarded(|| X::intervals(s, false).take(n).filter_map(|i| X::range(&i).ok().flatten()).collect()).unwrap_or_default();
    if listed == m.v { return vec![]; }
    let at = (0..n).find(|i| listed.get(*i) != m.v.get(*i)).unwrap_or(0);
    let mut v: Vec<u128> = [listed.get(at), m.v.get(at), m.v.last(), listed.last()].into_iter().flatten().flat_map(|r| [r.0, r.1]).collect();
    let listed = RSet::from_ranges(listed);
    for d in [m.minus(&listed, X::max()), listed.minus(m, X::max())] { v.extend(d.v.iter().take(20).flat_map(|r| [r.0, r.1])); }
    v
}
/// Membership of every register: operands must not change.
pub fn obs_contains_all<X: Space>(g: &Regs<X>, _d: usize, salt: u64, ev: &mut Ev) -> Verdict {
    for d in 0..g.real.len() { obs_contains::<X>(g, d, salt, ev)?; }
    Ok(())
}

/// Walks a double-ended sequence against `want`, then checks exhaustion.
pub fn walk_seq<I: Debug, W: PartialEq + Debug>(it: &mut dyn DoubleEndedIterator<Item = I>, map: impl Fn(&I) -> Result<W, String>, want: &[W], rng: &mut Rng, what: &str, ev: &mut Ev) -> Verdict {
    let style = rng.below(4);
    let (mut i, mut j) = (0, want.len());
    let mut turn = false;
    let mut run = 0;
    while i < j {
        let (min, sup) = it.size_hint();
        if min > j - i || sup.is_some_and(|s| s < j - i) { return Err(format!("{what}: size_hint ({min}, {sup:?}) with {} left", j - i)); }
        match style {
            0 => turn = true,
            1 => turn = false,
            2 => turn = !turn,
            _ => { if run == 0 { run = 1 + rng.below(4); turn = rng.chance(1, 2); } run -= 1; }
        }
        let (got, exp, side) = if turn { i += 1; (it.next(), &want[i - 1], "front") } else { j -= 1; (it.next_back(), &want[j], "back") };
        match got {
            None => return Err(format!("{what}: {side} step gives nothing, expected {exp:?}")),
            Some(x) => { let w = map(&x)?; if w != *exp { return Err(format!("{what}: {side} step gives {x:?} ({w:?}), expected {exp:?}")); } }
        }
    }
    for k in 0..5 {
        let r = if k % 2 == (style as usize) % 2 { it.next() } else { it.next_back() };
        if let Some(x) = r { return Err(format!("{what}: gives {x:?} after the last element")); }
    }
    bump(ev, "iteration steps", want.len() as u64);
    bump(ev, match style { 0 => "walks forward", 1 => "walks backward", 2 => "walks alternating", _ => "walks mixed" }, 1);
    Ok(())
}

/// Decomposition into maximal intervals, both iterators, both ends.
pub fn obs_intervals<X: Space>(g: &Regs<X>, d: usize, salt: u64, ev: &mut Ev) -> Verdict {
    let mut rng = Rng::new(salt);
    let s = &g.real[d];
    let map = |i: &X::I| X::range(i)?.ok_or_else(|| format!("empty interval {i:?}"));
    for own in [false, true] {
        for _ in 0..2 {
            walk_seq(&mut *X::intervals(s, own), map, &g.model[d].v, &mut rng, if own { "consuming interval iterator" } else { "interval iterator" }, ev)?;
        }
        let n = g.model[d].v.len();
        let all: Result<Vec<_>, String> = X::intervals(s, own).take(n + 2).map(|i| map(&i)).collect();
        want_eq!(all?, g.model[d].v, "collected intervals (own: {own})");
        let all: Result<Vec<_>, String> = X::intervals(s, own).rev().take(n + 2).map(|i| map(&i)).collect();
        want_eq!(all?.into_iter().rev().collect::<Vec<_>>(), g.model[d].v, "intervals collected in reverse (own: {own})");
        let k = rng.idx(n + 2);
        let mut it = X::intervals(s, own);
        want_eq!(it.nth(k).map(|i| map(&i)).transpose()?, g.model[d].v.get(k).copied(), "nth({k}) interval (own: {own})");
        let mut it = X::intervals(s, own);
        want_eq!(it.nth_back(k).map(|i| map(&i)).transpose()?, n.checked_sub(k + 1).map(|i| g.model[d].v[i]), "nth_back({k}) interval (own: {own})");
        want_eq!(X::intervals(s, own).count(), n, "interval count (own: {own})");
        want_eq!(X::intervals(s, own).last().map(|i| map(&i)).transpose()?, g.model[d].v.last().copied(), "last interval (own: {own})");
    }
    let want: Vec<X::I> = g.model[d].v.iter().map(|r| X::iv(Some(*r), 0)).collect();
    for own in [false, true, false] { X::programs(s, own, &want, &mut rng, ev)?; }
    // Iterated intervals hold what they claim.
    for i in X::intervals(s, false).take(4) {
        let (l, h) = map(&i)?;
        let t = X::from_one(i.clone());
        for a in RSet::range(l, h).probes(X::max()) { want_eq!(X::contains(&t, a), a >= l && a <= h, "iterated interval {i:?} contains(atom {a})"); }
    }
    // Now and then, dozens of iterators live side by side.
    if salt % 24 == 0 && !g.model[d].v.is_empty() && g.model[d].v.len() < 300 {
        let v = &g.model[d].v;
        let mut its: Vec<_> = (0..40 + salt as usize / 24 % 300).map(|k| (k % 3, X::intervals(s, k % 5 == 4 && k < 40))).collect();
        for (k, it) in its.iter_mut() {
            match *k {
                0 => want_eq!(it.next().map(|i| map(&i)).transpose()?, v.first().copied(), "first of many live iterators"),
                1 => want_eq!(it.next_back().map(|i| map(&i)).transpose()?, v.last().copied(), "last of many live iterators"),
                _ => {}
            }
        }
        for (k, it) in its { want_eq!(it.count(), v.len() - usize::from(k < 2), "intervals left in one of many live iterators"); }
        bump(ev, "crowds of live iterators", 1);
    }
    bump(ev, "decompositions compared", 1);
    Ok(())
}

/// Equality, hash and bounds depend on the points alone.
pub fn obs_canonical<X: Space>(g: &Regs<X>, d: usize, salt: u64, ev: &mut Ev) -> Verdict {
    let s = &g.real[d];
    let m = &g.model[d];
    let mut rng = Rng::new(salt);
    let fresh = X::from_ivs(m.v.iter().map(|r| X::iv(Some(*r), rng.u64())).collect(), 0);
    let other = build::<X>(m, rng.u64());
    for (o, how) in [(&fresh, "collected from its maximal intervals"), (&other, "built by another route")] {
        if !(s == o && o == s && !(s != o)) { return Err(format!("same points {m:?}, but register {d} {s:?} != {o:?} ({how})")); }
        want_eq!(crate::ivs::hash_of(s), crate::ivs::hash_of(o), "hashes of {s:?} and {o:?} ({how})");
        let n = m.v.len() + 2;
        want_eq!(X::intervals(s, false).take(n).collect::<Vec<_>>(), X::intervals(o, false).take(n).collect::<Vec<_>>(), "intervals of equal sets ({how})");
    }
    for e in 0..g.real.len() {
        want_eq!((*s == g.real[e], *s != g.real[e]), (*m == g.model[e], *m != g.model[e]), "register {d} {s:?} ==, != register {e} {:?}", g.real[e]);
        if e != d && *m == g.model[e] {
            want_eq!(crate::ivs::hash_of(s), crate::ivs::hash_of(&g.real[e]), "hashes of equal registers {d}, {e}");
            bump(ev, "equal register pairs", 1);
        }
    }
    // A neighbouring set must not be equal: toggle one atom at a boundary.
    let pr = m.probes(X::max());
    for _ in 0..2 {
        let a = *rng.pick(&pr);
        let t = RSet::range(a, a);
        let near = if m.contains(a) { m.minus(&t, X::max()) } else { m.union(&t) };
        let o = build::<X>(&near, rng.u64());
        if *s == o || !(*s != o) { return Err(format!("points {m:?} and {near:?} differ, but {s:?} == {o:?}")); }
    }
    bump(ev, "equality comparisons", 4 + g.real.len() as u64);
    Ok(())
}
