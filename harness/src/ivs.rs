//! Ways to make a finite interval, each with the model of the points it must hold.
use crate::dom::{critical, Dom};
use crate::mon::Verdict;
use crate::rng::{mix, Rng};
use crate::rset::RSet;
use crate::want_eq;
use normalize_interval::raw_interval::RawInterval;
use normalize_interval::{Bound, Interval};

/// A bound kind on a rank.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum B { In(u128), Ex(u128), Inf }
impl B {
    pub fn bound<T: Dom>(self) -> Bound<T> {
        match self {
            B::In(r) => Bound::Include(T::from_rank(r)),
            B::Ex(r) => Bound::Exclude(T::from_rank(r)),
            B::Inf => Bound::Infinite,
        }
    }
}

/// The points `x` with `lo` and `hi` satisfied. Equal bound points with at
/// least one inclusive give the point.
pub fn between(lo: B, hi: B, max: u128) -> RSet {
    match (lo, hi) {
        (B::In(a), B::Ex(b)) | (B::Ex(a), B::In(b)) if a == b => return RSet::range(a, a),
        _ => {}
    }
    let l = match lo { B::In(a) => Some(a), B::Ex(a) => if a < max { Some(a + 1) } else { None }, B::Inf => Some(0) };
    let h = match hi { B::In(b) => Some(b), B::Ex(b) => b.checked_sub(1), B::Inf => Some(max) };
    match (l, h) { (Some(l), Some(h)) => RSet::range(l, h), _ => RSet::empty() }
}

/// A recipe for constructing an interval.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Mk {
    New(B, B), Empty, Default, Point(u128), Open(u128, u128), LeftOpen(u128, u128), RightOpen(u128, u128),
    Closed(u128, u128), LeftClosed(u128, u128), RightClosed(u128, u128),
    UnbFrom(u128), UnbTo(u128), UnbUpFrom(u128), UnbUpTo(u128), Full,
    FromPoint(u128), Range(u128, u128), RangeFrom(u128), RangeTo(u128), RangeToIncl(u128), RangeFull,
    /// From a hand-written raw interval variant.
    Raw(Raw),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Raw {
    Empty, Point(u128), Open(u128, u128), LeftOpen(u128, u128), RightOpen(u128, u128), Closed(u128, u128),
    UpTo(u128), UpFrom(u128), To(u128), From(u128), Full,
}

impl Raw {
    pub fn build<T: Dom>(self) -> RawInterval<T> {
        let f = T::from_rank;
        match self {
            Raw::Empty => RawInterval::Empty,
            Raw::Point(a) => RawInterval::Point(f(a)),
            Raw::Open(a, b) => RawInterval::Open(f(a), f(b)),
            Raw::LeftOpen(a, b) => RawInterval::LeftOpen(f(a), f(b)),
            Raw::RightOpen(a, b) => RawInterval::RightOpen(f(a), f(b)),
            Raw::Closed(a, b) => RawInterval::Closed(f(a), f(b)),
            Raw::UpTo(a) => RawInterval::UpTo(f(a)),
            Raw::UpFrom(a) => RawInterval::UpFrom(f(a)),
            Raw::To(a) => RawInterval::To(f(a)),
            Raw::From(a) => RawInterval::From(f(a)),
            Raw::Full => RawInterval::Full,
        }
    }
    /// Literal reading of the variant: strictly the points satisfying both sides.
    pub fn set(self, max: u128) -> RSet {
        let s = |lo: Option<u128>, hi: Option<u128>| match (lo, hi) { (Some(l), Some(h)) => RSet::range(l, h), _ => RSet::empty() };
        let up = |a: u128| if a < max { Some(a + 1) } else { None };
        match self {
            Raw::Empty => RSet::empty(),
            Raw::Point(a) => RSet::range(a, a),
            Raw::Open(a, b) => s(up(a), b.checked_sub(1)),
            Raw::LeftOpen(a, b) => s(up(a), Some(b)),
            Raw::RightOpen(a, b) => s(Some(a), b.checked_sub(1)),
            Raw::Closed(a, b) => RSet::range(a, b),
            Raw::UpTo(a) => s(Some(0), a.checked_sub(1)),
            Raw::UpFrom(a) => s(up(a), Some(max)),
            Raw::To(a) => RSet::range(0, a),
            Raw::From(a) => RSet::range(a, max),
            Raw::Full => RSet::full(max),
        }
    }
    pub fn all2(a: u128, b: u128) -> [Raw; 4] { [Raw::Open(a, b), Raw::LeftOpen(a, b), Raw::RightOpen(a, b), Raw::Closed(a, b)] }
    pub fn all1(a: u128) -> [Raw; 5] { [Raw::Point(a), Raw::UpTo(a), Raw::UpFrom(a), Raw::To(a), Raw::From(a)] }
}

impl Mk {
    pub fn build<T: Dom>(self) -> Interval<T> {
        let f = T::from_rank;
        match self {
            Mk::New(a, b) => Interval::new(a.bound(), b.bound()),
            Mk::Empty => Interval::empty(),
            Mk::Default => Interval::default(),
            Mk::Point(a) => Interval::point(f(a)),
            Mk::Open(a, b) => Interval::open(f(a), f(b)),
            Mk::LeftOpen(a, b) => Interval::left_open(f(a), f(b)),
            Mk::RightOpen(a, b) => Interval::right_open(f(a), f(b)),
            Mk::Closed(a, b) => Interval::closed(f(a), f(b)),
            Mk::LeftClosed(a, b) => Interval::left_closed(f(a), f(b)),
            Mk::RightClosed(a, b) => Interval::right_closed(f(a), f(b)),
            Mk::UnbFrom(a) => Interval::unbounded_from(f(a)),
            Mk::UnbTo(a) => Interval::unbounded_to(f(a)),
            Mk::UnbUpFrom(a) => Interval::unbounded_up_from(f(a)),
            Mk::UnbUpTo(a) => Interval::unbounded_up_to(f(a)),
            Mk::Full => Interval::full(),
            Mk::FromPoint(a) => Interval::from(f(a)),
            Mk::Range(a, b) => Interval::from(f(a)..f(b)),
            Mk::RangeFrom(a) => Interval::from(f(a)..),
            Mk::RangeTo(a) => Interval::from(..f(a)),
            Mk::RangeToIncl(a) => Interval::from(..=f(a)),
            Mk::RangeFull => Interval::from(..),
            Mk::Raw(r) => Interval::from(r.build::<T>()),
        }
    }
    pub fn set(self, max: u128) -> RSet {
        use B::*;
        let g = |a, b| between(a, b, max);
        match self {
            Mk::New(a, b) => g(a, b),
            Mk::Empty | Mk::Default => RSet::empty(),
            Mk::Point(a) | Mk::FromPoint(a) => RSet::range(a, a),
            Mk::Open(a, b) => g(Ex(a), Ex(b)),
            Mk::LeftOpen(a, b) | Mk::RightClosed(a, b) => g(Ex(a), In(b)),
            Mk::RightOpen(a, b) | Mk::LeftClosed(a, b) | Mk::Range(a, b) => g(In(a), Ex(b)),
            Mk::Closed(a, b) => g(In(a), In(b)),
            Mk::UnbFrom(a) | Mk::RangeFrom(a) => g(In(a), Inf),
            Mk::UnbTo(a) | Mk::RangeToIncl(a) => g(Inf, In(a)),
            Mk::UnbUpFrom(a) => g(Ex(a), Inf),
            Mk::UnbUpTo(a) | Mk::RangeTo(a) => g(Inf, Ex(a)),
            Mk::Full | Mk::RangeFull => RSet::full(max),
            Mk::Raw(r) => r.set(max),
        }
    }
    pub fn key(&self) -> u64 {
        use std::hash::{Hash, Hasher};
        let mut h = std::collections::hash_map::DefaultHasher::new();
        self.hash(&mut h);
        h.finish()
    }
    /// Every two-point recipe.
    pub fn two(a: u128, b: u128) -> Vec<Mk> {
        use B::*;
        let mut v = vec![
            Mk::New(In(a), In(b)), Mk::New(In(a), Ex(b)), Mk::New(Ex(a), In(b)), Mk::New(Ex(a), Ex(b)),
            Mk::Open(a, b), Mk::LeftOpen(a, b), Mk::RightOpen(a, b), Mk::Closed(a, b),
            Mk::LeftClosed(a, b), Mk::RightClosed(a, b), Mk::Range(a, b),
        ];
        // Raw variants as the raw constructors would make them.
        if a < b { v.extend(Raw::all2(a, b).iter().map(|r| Mk::Raw(*r))); }
        v
    }
    /// Every one-point recipe.
    pub fn one(a: u128) -> Vec<Mk> {
        use B::*;
        let mut v = vec![
            Mk::Point(a), Mk::FromPoint(a), Mk::UnbFrom(a), Mk::UnbTo(a), Mk::UnbUpFrom(a), Mk::UnbUpTo(a),
            Mk::RangeFrom(a), Mk::RangeTo(a), Mk::RangeToIncl(a),
            Mk::New(In(a), Inf), Mk::New(Ex(a), Inf), Mk::New(Inf, In(a)), Mk::New(Inf, Ex(a)),
        ];
        v.extend(Raw::all1(a).iter().map(|r| Mk::Raw(*r)));
        v
    }
    pub fn zero() -> Vec<Mk> {
        vec![Mk::Empty, Mk::Default, Mk::Full, Mk::RangeFull, Mk::New(B::Inf, B::Inf), Mk::Raw(Raw::Empty), Mk::Raw(Raw::Full)]
    }
    /// Every recipe over the given ranks.
    pub fn over(ranks: &[u128]) -> Vec<Mk> {
        let mut v = Mk::zero();
        for &a in ranks {
            v.extend(Mk::one(a));
            for &b in ranks { v.extend(Mk::two(a, b)); }
        }
        v
    }
    pub fn random(rng: &mut Rng, hot: &[u128]) -> Mk {
        let a = *rng.pick(hot);
        let b = *rng.pick(hot);
        match rng.below(20) {
            0 => *rng.pick(&Mk::zero()),
            1..=4 => *rng.pick(&Mk::one(a)),
            5 => *rng.pick(&Mk::two(a, b)),
            _ => { let (l, h) = (a.min(b), a.max(b)); *rng.pick(&Mk::two(l, h)) }
        }
    }
}

/// Recipes that all describe exactly the given range.
pub fn recipes_for(l: u128, h: u128, max: u128) -> Vec<Mk> {
    let mut v = vec![Mk::Closed(l, h), Mk::New(B::In(l), B::In(h))];
    if l < h { v.push(Mk::Raw(Raw::Closed(l, h))); }
    if l == h { v.extend([Mk::Point(l), Mk::FromPoint(l), Mk::Raw(Raw::Point(l)), Mk::LeftOpen(l, l), Mk::RightOpen(l, l)]); }
    if l > 0 {
        v.extend([Mk::LeftOpen(l - 1, h), Mk::RightClosed(l - 1, h), Mk::New(B::Ex(l - 1), B::In(h)), Mk::Raw(Raw::LeftOpen(l - 1, h))]);
        if h == max { v.extend([Mk::UnbUpFrom(l - 1), Mk::New(B::Ex(l - 1), B::Inf), Mk::Raw(Raw::UpFrom(l - 1))]); }
        if h < max { v.extend([Mk::Open(l - 1, h + 1), Mk::New(B::Ex(l - 1), B::Ex(h + 1)), Mk::Raw(Raw::Open(l - 1, h + 1))]); }
    } else {
        v.extend([Mk::UnbTo(h), Mk::RangeToIncl(h), Mk::New(B::Inf, B::In(h)), Mk::Raw(Raw::To(h))]);
        if h < max { v.extend([Mk::UnbUpTo(h + 1), Mk::RangeTo(h + 1), Mk::New(B::Inf, B::Ex(h + 1)), Mk::Raw(Raw::UpTo(h + 1))]); }
        if h == max { v.extend([Mk::Full, Mk::RangeFull, Mk::Raw(Raw::Full)]); }
    }
    if h == max { v.extend([Mk::UnbFrom(l), Mk::RangeFrom(l), Mk::New(B::In(l), B::Inf), Mk::Raw(Raw::From(l))]); }
    if h < max { v.extend([Mk::RightOpen(l, h + 1), Mk::Range(l, h + 1), Mk::LeftClosed(l, h + 1), Mk::Raw(Raw::RightOpen(l, h + 1))]); }
    v
}
/// Recipes that all describe no point.
pub fn recipes_for_empty(rng: &mut Rng, max: u128) -> Vec<Mk> {
    let a = rng.range128(0, max);
    let mut v = vec![Mk::Empty, Mk::Default, Mk::Open(a, a), Mk::New(B::Ex(a), B::Ex(a)), Mk::UnbUpFrom(max), Mk::UnbUpTo(0), Mk::RangeTo(0),
        Mk::New(B::Inf, B::Ex(0)), Mk::New(B::Ex(max), B::Inf), Mk::Raw(Raw::Empty), Mk::Raw(Raw::UpFrom(max)), Mk::Raw(Raw::UpTo(0))];
    if a < max {
        v.extend([Mk::Open(a, a + 1), Mk::New(B::Ex(a), B::Ex(a + 1)), Mk::Closed(a + 1, a), Mk::Open(a + 1, a), Mk::LeftOpen(a + 1, a),
            Mk::RightOpen(max, a), Mk::Range(a + 1, a), Mk::New(B::In(a + 1), B::In(a)), Mk::Raw(Raw::Open(a, a + 1))]);
    }
    v
}

/// The lone range of a set known to be contiguous.
pub fn span(s: &RSet) -> Option<(u128, u128)> {
    assert!(s.v.len() <= 1);
    s.v.first().copied()
}

/// `iv` answers membership as `s` for every probe.
pub fn check_points<T: Dom>(iv: &Interval<T>, s: &RSet, probes: &[u128]) -> Verdict {
    for &r in probes {
        want_eq!(iv.contains(&T::from_rank(r)), s.contains(r), "contains(rank {r}) of {iv:?}");
    }
    Ok(())
}

/// The least and greatest point of an interval, as ranks, judged by its bounds.
pub fn ends<T: Dom>(iv: &Interval<T>) -> Result<Option<(u128, u128)>, String> {
    match (iv.lower_bound(), iv.upper_bound()) {
        (None, None) => Ok(None),
        (Some(Bound::Include(l)), Some(Bound::Include(u))) => Ok(Some((l.rank(), u.rank()))),
        b => Err(format!("{iv:?} has bounds {b:?}, not two inclusive ones")),
    }
}

/// Intervals that must be exactly the maximal runs of `s`, in any order.
pub fn check_pieces<T: Dom>(ps: &[Interval<T>], s: &RSet, max: u128, what: &str) -> Verdict {
    let mut e = Vec::new();
    for p in ps {
        match ends(p)? {
            None => return Err(format!("{what}: yields an empty interval among {ps:?}")),
            Some(x) => e.push(x),
        }
    }
    e.sort();
    want_eq!(e, s.v, "{what}: pieces {ps:?} as ranks");
    for p in ps {
        let (l, h) = ends(p)?.unwrap();
        check_points(p, &RSet::range(l, h), &RSet::range(l, h).probes(max))?;
    }
    Ok(())
}

/// Ranks clustered so that adjacency, equality and extremes all occur.
/// Around a power of two or of ten, or a small number, counted from the least
/// point or (where signed types have their zero) from the middle.
pub fn landmark(rng: &mut Rng, m: u128) -> u128 {
    let bits = 128 - m.leading_zeros() as u64;
    let x = match rng.below(3) {
        0 => 1u128.checked_shl(rng.below(bits + 1) as u32).unwrap_or(0),
        1 => 10u128.pow(rng.below(1 + bits * 3 / 10) as u32),
        _ => rng.below(300) as u128,
    };
    let x = x.saturating_sub(rng.below(3) as u128);
    let mid = m / 2 + 1;
    match rng.below(3) { 0 => x.min(m), 1 => mid.saturating_add(x).min(m), _ => mid.saturating_sub(x).min(m) }
}

pub fn hot_ranks<T: Dom>(rng: &mut Rng) -> Vec<u128> {
    let m = T::max_rank();
    let crit = critical::<T>();
    let mut v = Vec::new();
    let n = 2 + rng.idx(5);
    for _ in 0..n {
        let base = match rng.below(6) {
            0..=2 => *rng.pick(&crit),
            3 => landmark(rng, m),
            _ => rng.range128(0, m),
        };
        let w = 1 + rng.below(4) as u128;
        for d in 0..=w { v.push(base.saturating_add(d).min(m)); }
    }
    if rng.chance(1, 3) { v.push(0); }
    if rng.chance(1, 3) { v.push(m); }
    v.sort();
    v.dedup();
    v
}

pub fn hash_of<H: std::hash::Hash>(x: &H) -> u64 {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}
pub fn key2(a: u64, b: u64) -> u64 { mix(a ^ mix(b)) }

pub fn all_ranks(max: u128) -> Vec<u128> { (0..=max).collect() }

/// Point sets of intervals over `0..=max` worth testing: all when small.
pub fn all_spans(max: u128) -> Vec<RSet> {
    let mut v = vec![RSet::empty()];
    for l in 0..=max { for h in l..=max { v.push(RSet::range(l, h)); } }
    v
}

pub fn rand_span(rng: &mut Rng, hot: &[u128], max: u128) -> RSet {
    if rng.chance(1, 16) { return RSet::empty(); }
    let a = *rng.pick(hot);
    match rng.below(8) {
        0 => RSet::range(a, a),
        1 => RSet::range(0, a),
        2 => RSet::range(a, max),
        3 => RSet::range(a, a.saturating_add(rng.below(4) as u128).min(max)),
        _ => { let b = *rng.pick(hot); RSet::range(a.min(b), a.max(b)) }
    }
}

/// An interval holding exactly the span `s`, by a random recipe.
pub fn make<T: Dom>(rng: &mut Rng, s: &RSet) -> (Mk, Interval<T>) {
    let max = T::max_rank();
    let m = match span(s) { Some((l, h)) => *rng.pick(&recipes_for(l, h, max)), None => { let v = recipes_for_empty(rng, max); *rng.pick(&v) } };
    (m, m.build())
}

