//! The two spaces: selections over finite types, and raw interval trees over
//! dense orders read as cells (gap, point, gap, ..., point, gap).
use crate::dom::Dom;
use crate::ivs::{ends, hot_ranks, recipes_for, recipes_for_empty};
use crate::rng::{mix, Rng};
use crate::mon::{Ev, Verdict};
use crate::prog::{compare, shaped};
use crate::sel::Space;
use normalize_interval::raw_interval::RawInterval;
use normalize_interval::tine_tree::TineTree;
use normalize_interval::{Bound, Interval, Selection};
use std::cmp::Ordering;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::marker::PhantomData;

pub struct Fin<T>(PhantomData<T>);
impl<T: Dom> Space for Fin<T> {
    type S = Selection<T>;
    type I = Interval<T>;
    const NAME: &'static str = T::NAME;
    fn max() -> u128 { T::max_rank() }
    fn hot(rng: &mut Rng) -> Vec<u128> { hot_ranks::<T>(rng) }
    fn iv(r: Option<(u128, u128)>, salt: u64) -> Interval<T> {
        let mut rng = Rng::new(salt);
        let v = match r { Some((l, h)) => recipes_for(l, h, T::max_rank()), None => recipes_for_empty(&mut rng, T::max_rank()) };
        rng.pick(&v).build()
    }
    fn range(i: &Interval<T>) -> Result<Option<(u128, u128)>, String> { ends(i) }
    fn new() -> Selection<T> { Selection::new() }
    fn full() -> Selection<T> { Selection::full() }
    fn from_one(i: Interval<T>) -> Selection<T> { Selection::from(i) }
    fn from_ivs(v: Vec<Interval<T>>, salt: u64) -> Selection<T> {
        match (v.len(), salt % 3) { (0, 1) => Selection::default(), (0, 2) => Selection::empty(), _ => shaped(v, salt).collect() }
    }
    fn from_atoms(v: Vec<u128>) -> Selection<T> { let salt = v.iter().fold(3, |h, a| mix(h ^ *a as u64)); shaped(v, salt).map(T::from_rank).collect() }
    fn extend(s: &mut Selection<T>, v: Vec<Interval<T>>) {
        // A vector, or an iterator of no known length, which is lent.
        let salt = v.len() as u64 * 3 + v.iter().filter(|i| i.is_degenerate()).count() as u64;
        if salt % 3 == 0 { s.extend(v) } else { let mut it = shaped(v, salt); s.extend(&mut it); assert!(it.next().is_none(), "extend leaves intervals behind") }
    }
    fn union_in(s: &mut Selection<T>, i: Interval<T>) { s.union_in_place(i) }
    fn intersect_in(s: &mut Selection<T>, i: Interval<T>) { s.intersect_in_place(i) }
    fn minus_in(s: &mut Selection<T>, i: Interval<T>) { s.minus_in_place(i) }
    fn complement(s: &Selection<T>) -> Selection<T> { s.complement() }
    fn union(a: &Selection<T>, b: &Selection<T>) -> Selection<T> { a.union(b) }
    fn intersect(a: &Selection<T>, b: &Selection<T>) -> Selection<T> { a.intersect(b) }
    fn minus(a: &Selection<T>, b: &Selection<T>) -> Selection<T> { a.minus(b) }
    fn contains(s: &Selection<T>, atom: u128) -> bool { s.contains(&T::from_rank(atom)) }
    fn intervals(s: &Selection<T>, own: bool) -> Box<dyn DoubleEndedIterator<Item = Interval<T>> + '_> {
        if own { Box::new(s.clone().into_interval_iter()) } else { Box::new(s.interval_iter()) }
    }
    fn programs(s: &Selection<T>, own: bool, want: &[Interval<T>], rng: &mut Rng, ev: &mut Ev) -> Verdict {
        if own { compare(s.clone().into_interval_iter(), want, Ok, rng, "consuming interval iterator", ev) } else { compare(s.interval_iter(), want, Ok, rng, "interval iterator", ev) }
    }
    fn is_point(_: u128) -> bool { true }
}

/// An ordered type with a value for every cell number.
pub trait Key: Ord + Clone + Debug + Hash + 'static {
    const NAME: &'static str;
    fn at(cell: i64) -> Self;
    fn cell(&self) -> i64;
}
impl Key for i64 {
    const NAME: &'static str = "i64";
    fn at(c: i64) -> i64 { c * 10 - 70 }
    fn cell(&self) -> i64 { (self + 70) / 10 }
}
impl Key for String {
    const NAME: &'static str = "String";
    fn at(c: i64) -> String { format!("{c:07}") }
    fn cell(&self) -> i64 { self.parse().unwrap() }
}
/// Reversed order.
#[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Down(pub i32);
impl PartialOrd for Down { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { Some(self.cmp(o)) } }
impl Ord for Down { fn cmp(&self, o: &Self) -> Ordering { o.0.cmp(&self.0) } }
impl Key for Down {
    const NAME: &'static str = "Down";
    fn at(c: i64) -> Down { Down(5 - c as i32) }
    fn cell(&self) -> i64 { 5 - self.0 as i64 }
}
/// Comparing and cloning use the library.
impl Key for crate::dom::Nest {
    const NAME: &'static str = "Nest";
    fn at(c: i64) -> Self { crate::dom::Nest(100 + c as u8) }
    fn cell(&self) -> i64 { self.0 as i64 - 100 }
}
/// Totally ordered floats.
#[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
#[derive(Clone, Copy, Debug)]
pub struct Fl(pub f64);
impl PartialEq for Fl { fn eq(&self, o: &Self) -> bool { self.cmp(o) == Ordering::Equal } }
impl Eq for Fl {}
impl PartialOrd for Fl { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { Some(self.cmp(o)) } }
impl Ord for Fl { fn cmp(&self, o: &Self) -> Ordering { self.0.total_cmp(&o.0) } }
impl Hash for Fl { fn hash<H: Hasher>(&self, h: &mut H) { self.0.to_bits().hash(h) } }
impl Key for Fl {
    const NAME: &'static str = "Fl";
    fn at(c: i64) -> Fl { Fl((c as f64 - 4.0) * 0.5) }
    fn cell(&self) -> i64 { (self.0 / 0.5 + 4.0) as i64 }
}

/// One value, and nothing to store: only for `Dense<(), 1>`.
impl Key for () {
    const NAME: &'static str = "()";
    fn at(_: i64) {}
    fn cell(&self) -> i64 { 1 }
}
/// A large value, told apart by its last word.
impl Key for [u64; 24] {
    const NAME: &'static str = "[u64; 24]";
    fn at(c: i64) -> Self { let mut v = [9; 24]; v[23] = c as u64; v }
    fn cell(&self) -> i64 { self[23] as i64 }
}

/// Some value lies in this cell.
pub fn has<K: Key>(cell: u128) -> bool { std::mem::size_of::<K>() > 0 || cell == 1 }

/// `N` boundary points of `K`: cells `0..=2N`, points at the odd ones.
pub struct Dense<K, const N: u32>(PhantomData<K>);

impl<K: Key, const N: u32> Dense<K, N> {
    pub const MAX: u128 = 2 * N as u128;
    pub fn lower(c: u128) -> Bound<K> {
        if c == 0 { Bound::Infinite } else if c % 2 == 1 { Bound::Include(K::at(c as i64)) } else { Bound::Exclude(K::at(c as i64 - 1)) }
    }
    pub fn upper(c: u128) -> Bound<K> {
        if c == Self::MAX { Bound::Infinite } else if c % 2 == 1 { Bound::Include(K::at(c as i64)) } else { Bound::Exclude(K::at(c as i64 + 1)) }
    }
    /// The one raw interval value holding exactly these cells.
    pub fn raw(r: Option<(u128, u128)>) -> RawInterval<K> {
        use Bound::*;
        use RawInterval as R;
        let Some((l, h)) = r else { return R::Empty };
        match (Self::lower(l), Self::upper(h)) {
            (Include(a), Include(b)) => if l == h { R::Point(a) } else { R::Closed(a, b) },
            (Include(a), Exclude(b)) => R::RightOpen(a, b),
            (Include(a), Infinite) => R::From(a),
            (Exclude(a), Include(b)) => R::LeftOpen(a, b),
            (Exclude(a), Exclude(b)) => R::Open(a, b),
            (Exclude(a), Infinite) => R::UpFrom(a),
            (Infinite, Include(b)) => R::To(b),
            (Infinite, Exclude(b)) => R::UpTo(b),
            (Infinite, Infinite) => R::Full,
        }
    }
    /// The cells of a well-formed raw interval.
    pub fn cells(i: &RawInterval<K>) -> Option<(u128, u128)> {
        use RawInterval::*;
        let p = |k: &K| k.cell() as u128;
        Some(match i {
            Empty => return None,
            Point(a) => (p(a), p(a)),
            Open(a, b) => (p(a) + 1, p(b) - 1),
            LeftOpen(a, b) => (p(a) + 1, p(b)),
            RightOpen(a, b) => (p(a), p(b) - 1),
            Closed(a, b) => (p(a), p(b)),
            UpTo(b) => (0, p(b) - 1),
            UpFrom(a) => (p(a) + 1, Self::MAX),
            To(b) => (0, p(b)),
            From(a) => (p(a), Self::MAX),
            Full => (0, Self::MAX),
        })
    }
    /// All ranges of cells, and the empty one.
    pub fn ranges() -> Vec<Option<(u128, u128)>> {
        let mut v = vec![None];
        for l in 0..=Self::MAX { for h in l..=Self::MAX { v.push(Some((l, h))); } }
        v
    }
}

impl<K: Key, const N: u32> Space for Dense<K, N> {
    type S = TineTree<K>;
    type I = RawInterval<K>;
    const NAME: &'static str = K::NAME;
    fn max() -> u128 { Self::MAX }
    fn hot(rng: &mut Rng) -> Vec<u128> {
        if Self::MAX <= 16 { return (0..=Self::MAX).collect(); }
        let mut v = Vec::new();
        for _ in 0..3 {
            let b = rng.range128(0, Self::MAX);
            for d in 0..5 { v.push((b + d).min(Self::MAX)); }
        }
        if rng.chance(1, 3) { v.push(0); }
        if rng.chance(1, 3) { v.push(Self::MAX); }
        v.sort();
        v.dedup();
        v
    }
    fn iv(r: Option<(u128, u128)>, salt: u64) -> RawInterval<K> {
        let exact = Self::raw(r);
        match (salt % 4, r) {
            (0 | 1, _) => exact,
            (2, Some((l, h))) => RawInterval::new(Self::lower(l), Self::upper(h)),
            (_, Some(_)) => match exact {
                RawInterval::Open(a, b) => RawInterval::open(a, b),
                RawInterval::LeftOpen(a, b) => RawInterval::left_open(a, b),
                RawInterval::RightOpen(a, b) => RawInterval::right_open(a, b),
                RawInterval::Closed(a, b) => RawInterval::closed(a, b),
                RawInterval::Point(a) => RawInterval::closed(a.clone(), a),
                e => e,
            },
            (_, None) if N >= 2 => RawInterval::closed(K::at(3), K::at(1)),
            _ => RawInterval::open(K::at(1), K::at(1)),
        }
    }
    fn range(i: &RawInterval<K>) -> Result<Option<(u128, u128)>, String> {
        use RawInterval::*;
        match i {
            Open(a, b) | LeftOpen(a, b) | RightOpen(a, b) | Closed(a, b) if a >= b => Err(format!("malformed interval {i:?}")),
            _ => Ok(Self::cells(i)),
        }
    }
    fn new() -> TineTree<K> { TineTree::new() }
    fn full() -> TineTree<K> { TineTree::from_raw_interval(RawInterval::Full) }
    fn from_one(i: RawInterval<K>) -> TineTree<K> { TineTree::from_raw_interval(i) }
    fn from_ivs(v: Vec<RawInterval<K>>, salt: u64) -> TineTree<K> {
        if v.is_empty() && salt % 3 == 1 { return TineTree::default(); }
        if salt % 2 == 0 { shaped(v, salt).collect() } else { TineTree::from(shaped(v, salt)) }
    }
    fn from_atoms(v: Vec<u128>) -> TineTree<K> { v.into_iter().map(|a| Self::raw(Some((a, a)))).collect() }
    fn extend(s: &mut TineTree<K>, v: Vec<RawInterval<K>>) { for i in v { s.union_in_place(&i) } }
    fn union_in(s: &mut TineTree<K>, i: RawInterval<K>) { s.union_in_place(&i) }
    fn intersect_in(s: &mut TineTree<K>, i: RawInterval<K>) { s.intersect_in_place(&i) }
    fn minus_in(s: &mut TineTree<K>, i: RawInterval<K>) { s.minus_in_place(&i) }
    fn complement(s: &TineTree<K>) -> TineTree<K> { s.complement() }
    fn union(a: &TineTree<K>, b: &TineTree<K>) -> TineTree<K> { a.union(b) }
    fn intersect(a: &TineTree<K>, b: &TineTree<K>) -> TineTree<K> { a.intersect(b) }
    fn minus(a: &TineTree<K>, b: &TineTree<K>) -> TineTree<K> { a.minus(b) }
    fn contains(s: &TineTree<K>, atom: u128) -> bool {
        if has::<K>(atom) { return s.contains(&K::at(atom as i64)); }
        s.interval_iter().any(|i| Self::cells(&i).is_some_and(|(l, h)| l <= atom && atom <= h))
    }
    fn programs(s: &TineTree<K>, own: bool, want: &[RawInterval<K>], rng: &mut Rng, ev: &mut Ev) -> Verdict {
        if own { compare(s.clone().into_iter(), want, Ok, rng, "consuming interval iterator", ev) } else { compare(s.interval_iter(), want, Ok, rng, "interval iterator", ev) }
    }
    fn intervals(s: &TineTree<K>, own: bool) -> Box<dyn DoubleEndedIterator<Item = RawInterval<K>> + '_> {
        if own { Box::new(s.clone().into_iter()) } else { Box::new(s.interval_iter()) }
    }
    fn is_point(a: u128) -> bool { a % 2 == 1 }
}

/// The grid model itself: cells and raw intervals correspond one to one, and
/// a raw interval's own membership agrees with its cells.
pub fn self_test<K: Key>() {
    type G<K> = Dense<K, 4>;
    for c in 0..9 { assert_eq!(K::at(c).cell(), c); assert!(c == 0 || K::at(c - 1) < K::at(c)); }
    let mut seen: Vec<RawInterval<K>> = Vec::new();
    for r in G::<K>::ranges() {
        let i = G::<K>::raw(r);
        assert_eq!(G::<K>::cells(&i), r);
        assert!(!seen.contains(&i));
        seen.push(i);
    }
    assert_eq!(seen.len(), 46);
}
