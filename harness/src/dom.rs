//! Finite point types the workloads run over, each with an order-preserving
//! map to `0..=max_rank()`.
use normalize_interval::normalize::Finite;
use std::cell::Cell;
use std::cmp::Ordering;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};

thread_local! {
    static STEPS: Cell<u64> = const { Cell::new(0) };
    static LIMIT: Cell<u64> = const { Cell::new(u64::MAX) };
}

/// One observed operation on an instrumented point.
#[inline]
pub fn tick() {
    STEPS.with(|s| {
        let n = s.get() + 1;
        s.set(n);
        if n > LIMIT.with(|l| l.get()) {
            LIMIT.with(|l| l.set(u64::MAX));
            panic!("STEP-BUDGET exceeded: operation performed {} point operations without finishing", n);
        }
    })
}
pub fn steps() -> u64 { STEPS.with(|s| s.get()) }
/// Allow `n` more point operations on this thread before panicking.
pub fn budget(n: u64) {
    LIMIT.with(|l| l.set(steps().saturating_add(n)));
}

pub trait Dom: Finite + Ord + Clone + Debug + Hash + 'static {
    const NAME: &'static str;
    fn max_rank() -> u128;
    fn rank(&self) -> u128;
    fn from_rank(r: u128) -> Self;
}

macro_rules! uint_dom { ($($t:ident),*) => { $(impl Dom for $t {
    const NAME: &'static str = stringify!($t);
    fn max_rank() -> u128 { <$t>::MAX as u128 }
    fn rank(&self) -> u128 { *self as u128 }
    fn from_rank(r: u128) -> Self { r as $t }
})* } }
uint_dom![u8, u16, u32, u64, u128, usize];

macro_rules! int_dom { ($($t:ident : $u:ident),*) => { $(impl Dom for $t {
    const NAME: &'static str = stringify!($t);
    fn max_rank() -> u128 { <$u>::MAX as u128 }
    fn rank(&self) -> u128 { ((*self as $u) ^ (1 << (<$u>::BITS - 1))) as u128 }
    fn from_rank(r: u128) -> Self { ((r as $u) ^ (1 << (<$u>::BITS - 1))) as $t }
})* } }
int_dom![i8: u8, i16: u16, i32: u32, i64: u64, i128: u128, isize: usize];

/// `N` points, counting every comparison, copy and step.
#[derive(Debug)]
pub struct D<const N: u8>(u8);
impl<const N: u8> Clone for D<N> { fn clone(&self) -> Self { tick(); D(self.0) } }
impl<const N: u8> PartialEq for D<N> { fn eq(&self, o: &Self) -> bool { tick(); self.0 == o.0 } }
impl<const N: u8> Eq for D<N> {}
impl<const N: u8> PartialOrd for D<N> { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { Some(self.cmp(o)) } }
impl<const N: u8> Ord for D<N> { fn cmp(&self, o: &Self) -> Ordering { tick(); self.0.cmp(&o.0) } }
impl<const N: u8> Hash for D<N> { fn hash<H: Hasher>(&self, h: &mut H) { self.0.hash(h) } }
impl<const N: u8> Finite for D<N> {
    const MINIMUM: Self = D(0);
    const MAXIMUM: Self = D(N - 1);
    fn pred(&self) -> Option<Self> { tick(); if self.0 == 0 { None } else { Some(D(self.0 - 1)) } }
    fn succ(&self) -> Option<Self> { tick(); if self.0 == N - 1 { None } else { Some(D(self.0 + 1)) } }
}
impl<const N: u8> Dom for D<N> {
    const NAME: &'static str = "D<N>";
    fn max_rank() -> u128 { N as u128 - 1 }
    fn rank(&self) -> u128 { self.0 as u128 }
    fn from_rank(r: u128) -> Self { assert!(r < N as u128); D(r as u8) }
}

/// A user type whose order is the reverse of its representation.
#[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub struct Rev(pub i16);
impl PartialOrd for Rev { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { Some(self.cmp(o)) } }
impl Ord for Rev { fn cmp(&self, o: &Self) -> Ordering { o.0.cmp(&self.0) } }
impl Finite for Rev {
    const MINIMUM: Self = Rev(i16::MAX);
    const MAXIMUM: Self = Rev(i16::MIN);
    fn pred(&self) -> Option<Self> { self.0.checked_add(1).map(Rev) }
    fn succ(&self) -> Option<Self> { self.0.checked_sub(1).map(Rev) }
}
impl Dom for Rev {
    const NAME: &'static str = "Rev";
    fn max_rank() -> u128 { u16::MAX as u128 }
    fn rank(&self) -> u128 { (i16::MAX as i32 - self.0 as i32) as u128 }
    fn from_rank(r: u128) -> Self { Rev((i16::MAX as i32 - r as i32) as i16) }
}

/// A user type stepping by seven: the representation has gaps.
#[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Sparse(pub i32);
const SPARSE_LO: i32 = -70_000;
const SPARSE_N: i32 = 20_001;
impl Finite for Sparse {
    const MINIMUM: Self = Sparse(SPARSE_LO);
    const MAXIMUM: Self = Sparse(SPARSE_LO + 7 * (SPARSE_N - 1));
    fn pred(&self) -> Option<Self> { (self.0 > SPARSE_LO).then(|| Sparse(self.0 - 7)) }
    fn succ(&self) -> Option<Self> { (*self < Self::MAXIMUM).then(|| Sparse(self.0 + 7)) }
}
impl Dom for Sparse {
    const NAME: &'static str = "Sparse";
    fn max_rank() -> u128 { SPARSE_N as u128 - 1 }
    fn rank(&self) -> u128 { ((self.0 - SPARSE_LO) / 7) as u128 }
    fn from_rank(r: u128) -> Self { Sparse(SPARSE_LO + 7 * r as i32) }
}

/// Unicode scalar values: a hole in the middle of the representation.
#[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Ch(pub char);
impl Ch {
    fn r(c: char) -> u32 { let x = c as u32; if x >= 0xE000 { x - 0x800 } else { x } }
    fn c(r: u32) -> char { char::from_u32(if r >= 0xD800 { r + 0x800 } else { r }).unwrap() }
}
impl Finite for Ch {
    const MINIMUM: Self = Ch('\0');
    const MAXIMUM: Self = Ch(char::MAX);
    fn pred(&self) -> Option<Self> { (self.0 != '\0').then(|| Ch(Ch::c(Ch::r(self.0) - 1))) }
    fn succ(&self) -> Option<Self> { (self.0 != char::MAX).then(|| Ch(Ch::c(Ch::r(self.0) + 1))) }
}
impl Dom for Ch {
    const NAME: &'static str = "Ch";
    fn max_rank() -> u128 { 0x10FFFF - 0x800 }
    fn rank(&self) -> u128 { Ch::r(self.0) as u128 }
    fn from_rank(r: u128) -> Self { Ch(Ch::c(r as u32)) }
}

/// Lexicographic pair, owning heap memory: (3 letters) x (5 digits).
#[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
#[derive(Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Lex(std::borrow::Cow<'static, str>, u8);
const LEX: [&str; 3] = ["a", "b", "c"];
impl Finite for Lex {
    const MINIMUM: Self = Lex(std::borrow::Cow::Borrowed("a"), 0);
    const MAXIMUM: Self = Lex(std::borrow::Cow::Borrowed("c"), 4);
    fn pred(&self) -> Option<Self> { self.rank().checked_sub(1).map(Lex::from_rank) }
    fn succ(&self) -> Option<Self> { (self.rank() < Lex::max_rank()).then(|| Lex::from_rank(self.rank() + 1)) }
}
impl Dom for Lex {
    const NAME: &'static str = "Lex";
    fn max_rank() -> u128 { 14 }
    fn rank(&self) -> u128 { LEX.iter().position(|s| *s == self.0).unwrap() as u128 * 5 + self.1 as u128 }
    fn from_rank(r: u128) -> Self { Lex(std::borrow::Cow::Owned(LEX[r as usize / 5].to_string()), (r % 5) as u8) }
}

/// A single value, and nothing to store.
#[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Unit;
impl Finite for Unit {
    const MINIMUM: Self = Unit;
    const MAXIMUM: Self = Unit;
    fn pred(&self) -> Option<Self> { None }
    fn succ(&self) -> Option<Self> { None }
}
impl Dom for Unit {
    const NAME: &'static str = "Unit";
    fn max_rank() -> u128 { 0 }
    fn rank(&self) -> u128 { 0 }
    fn from_rank(r: u128) -> Self { assert!(r == 0); Unit }
}

/// Three hundred values of 264 bytes, told apart by their last word only.
#[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
#[derive(Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Big([u64; 32], u64);
const BIG_N: u64 = 300;
impl Finite for Big {
    const MINIMUM: Self = Big([7; 32], 0);
    const MAXIMUM: Self = Big([7; 32], BIG_N - 1);
    fn pred(&self) -> Option<Self> { self.1.checked_sub(1).map(|x| Big([7; 32], x)) }
    fn succ(&self) -> Option<Self> { (self.1 < BIG_N - 1).then(|| Big([7; 32], self.1 + 1)) }
}
impl Dom for Big {
    const NAME: &'static str = "Big";
    fn max_rank() -> u128 { BIG_N as u128 - 1 }
    fn rank(&self) -> u128 { self.1 as u128 }
    fn from_rank(r: u128) -> Self { assert!(r < BIG_N as u128); Big([7; 32], r as u64) }
}

/// Comparing, cloning and stepping use the library themselves: whatever it
/// keeps between or during calls must bear being entered again.
#[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
#[derive(Debug, PartialEq, Eq, Hash)]
pub struct Nest(pub u8);
const NEST_N: u8 = 120;
thread_local! { static INSIDE: Cell<(u32, bool)> = const { Cell::new((0, false)) }; }
fn nested() {
    use normalize_interval::{raw_interval::RawInterval, tine_tree::TineTree, Interval, Selection};
    let (n, inside) = INSIDE.with(|i| i.get());
    if inside { return; }
    INSIDE.with(|i| i.set((n.wrapping_add(1), n % 3 == 0)));
    if n % 3 != 0 { return; }
    let k = n / 3;
    let a = (k / 16 % 50) as i16;
    let iv = |l, h| Interval::closed(l, h);
    let ok = match k % 16 {
        0 => { let mut s: Selection<i16> = Selection::from(iv(a, a + 5)); s.union_in_place(iv(a + 7, a + 9)); s.union_in_place(iv(a + 6, a + 6)); s == Selection::from(iv(a, a + 9)) }
        1 => { let mut s = Selection::from(iv(a, a + 9)); s.minus_in_place(iv(a + 3, a + 4)); s.interval_iter().collect::<Vec<_>>() == [iv(a, a + 2), iv(a + 5, a + 9)] }
        2 => { let mut s = Selection::from(iv(a, a + 9)); s.intersect_in_place(iv(a - 3, a + 1)); s.iter().collect::<Vec<_>>() == [a, a + 1] }
        3 => { let s = Selection::from(iv(a, a + 9)); s.contains(&(a + 9)) && !s.contains(&(a + 10)) && s.intersects(&Selection::from(iv(a + 9, a + 12))) }
        4 => Selection::from(iv(a, a + 3)).union(&Selection::from(iv(a + 5, a + 6))).complement().interval_iter().count() == 3,
        5 => Selection::from(iv(a, a + 3)).intersect(&Selection::from(iv(a + 2, a + 6))) == Selection::from(iv(a + 2, a + 3)),
        6 => Selection::from(iv(a, a + 3)).minus(&Selection::from(iv(a + 1, a + 2))).into_iter().rev().collect::<Vec<_>>() == [a + 3, a],
        7 => { let mut t: TineTree<i16> = TineTree::from_raw_interval(RawInterval::open(a, a + 5)); t.union_in_place(&RawInterval::closed(a + 5, a + 9)); t.minus_in_place(&RawInterval::Point(a + 2)); t.interval_iter().count() == 2 && !t.contains(&(a + 2)) && t.contains(&(a + 5)) }
        8 => { let mut t: TineTree<i16> = TineTree::from_raw_interval(RawInterval::open(a, a + 5)); t.intersect_in_place(&RawInterval::closed(a + 4, a + 9)); t.enclose() == RawInterval::right_open(a + 4, a + 5) && t.complement().complement() == t }
        9 => RawInterval::union_all(vec![RawInterval::closed(a, a + 2), RawInterval::left_open(a + 2, a + 4), RawInterval::Point(a + 9)].into_iter()).collect::<Vec<_>>() == [RawInterval::closed(a, a + 4), RawInterval::Point(a + 9)],
        10 => RawInterval::enclose_all(vec![RawInterval::Point(a), RawInterval::open(a + 4, a + 6)].into_iter()) == RawInterval::right_open(a, a + 6),
        11 => iv(a, a + 4).minus(&iv(a + 1, a + 1)).collect::<Vec<_>>() == [iv(a, a), iv(a + 2, a + 4)],
        12 => iv(a, a + 4).complement().count() == 2 && iv(a, a + 4).intersect(&iv(a + 4, a + 8)) == Interval::point(a + 4) && iv(a, a + 1).enclose(&iv(a + 4, a + 8)) == iv(a, a + 8),
        13 => Interval::open(a, a + 3).into_iter().collect::<Vec<_>>() == [a + 1, a + 2] && iv(a, a + 4).union(&iv(a + 5, a + 8)).count() == 1,
        14 => RawInterval::intersect_all(vec![RawInterval::closed(a, a + 5), RawInterval::UpFrom(a + 2)].into_iter()) == RawInterval::left_open(a + 2, a + 5),
        _ => { let s: Selection<i16> = [a, a + 1, a + 7].iter().copied().collect(); s.enclose() == iv(a, a + 7) && s.lower_bound() == Some(normalize_interval::Bound::Include(a)) }
    };
    INSIDE.with(|i| i.set((n.wrapping_add(1), false)));
    assert!(ok, "operation {} on integers from {a}, called from within a comparison or clone of other points, goes wrong (panicked at /repo/src/)", k % 16);
}
impl Clone for Nest { fn clone(&self) -> Self { nested(); Nest(self.0) } }
impl PartialOrd for Nest { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { Some(self.cmp(o)) } }
impl Ord for Nest { fn cmp(&self, o: &Self) -> Ordering { nested(); self.0.cmp(&o.0) } }
impl Finite for Nest {
    const MINIMUM: Self = Nest(0);
    const MAXIMUM: Self = Nest(NEST_N);
    fn pred(&self) -> Option<Self> { nested(); self.0.checked_sub(1).map(Nest) }
    fn succ(&self) -> Option<Self> { nested(); (self.0 < NEST_N).then(|| Nest(self.0 + 1)) }
}
impl Dom for Nest {
    const NAME: &'static str = "Nest";
    fn max_rank() -> u128 { NEST_N as u128 }
    fn rank(&self) -> u128 { self.0 as u128 }
    fn from_rank(r: u128) -> Self { Nest(r as u8) }
}
impl std::ops::Sub for Nest { type Output = Nest; fn sub(self, o: Nest) -> Nest { Nest(self.0 - o.0) } }

// Differences of user types: of the wrong sign, in steps, and not even a number.
impl std::ops::Sub for Rev { type Output = Rev; fn sub(self, o: Rev) -> Rev { Rev(self.0.wrapping_sub(o.0)) } }
impl std::ops::Sub for Sparse { type Output = Sparse; fn sub(self, o: Sparse) -> Sparse { Sparse((self.0 - o.0).min(70_000)) } }
impl std::ops::Sub for Ch { type Output = Ch; fn sub(self, o: Ch) -> Ch { Ch::from_rank((self.rank() * 3 + Ch::max_rank() - o.rank()) % (Ch::max_rank() + 1)) } }

/// Ranks where things go wrong: extremes, the sign change, and their neighbours.
pub fn critical<T: Dom>() -> Vec<u128> {
    let m = T::max_rank();
    let h = m / 2;
    let mut v = vec![];
    for d in 0..4u128 {
        v.push(d.min(m));
        v.push(m.saturating_sub(d));
        v.push((h + d).min(m));
        v.push(h.saturating_sub(d));
    }
    v.sort();
    v.dedup();
    v
}

pub fn self_test_dom<T: Dom>() {
    let m = T::max_rank();
    assert_eq!(T::MINIMUM.rank(), 0);
    assert_eq!(T::MAXIMUM.rank(), m);
    let c = critical::<T>();
    for w in c.windows(2) { assert!(T::from_rank(w[0]) < T::from_rank(w[1])); }
    for r in c { assert_eq!(T::from_rank(r).rank(), r); }
}

/// Calls `$f::<T>($($a),*)` for the `$i`-th point type.
#[macro_export]
macro_rules! pick_dom {
    ($i:expr, $f:ident, $($a:expr),*) => { match $i % $crate::dom::TYPES {
        0 => $f::<u8>($($a),*), 1 => $f::<i8>($($a),*), 2 => $f::<u16>($($a),*), 3 => $f::<i16>($($a),*),
        4 => $f::<u32>($($a),*), 5 => $f::<i32>($($a),*), 6 => $f::<u64>($($a),*), 7 => $f::<i64>($($a),*),
        8 => $f::<u128>($($a),*), 9 => $f::<i128>($($a),*), 10 => $f::<usize>($($a),*), 11 => $f::<isize>($($a),*),
        12 => $f::<$crate::dom::Rev>($($a),*), 13 => $f::<$crate::dom::Sparse>($($a),*),
        14 => $f::<$crate::dom::Ch>($($a),*), 15 => $f::<$crate::dom::Lex>($($a),*),
        16 => $f::<$crate::dom::Unit>($($a),*), 18 => $f::<$crate::dom::Nest>($($a),*), 17 => $f::<$crate::dom::Big>($($a),*),
        _ => $f::<$crate::dom::D<9>>($($a),*),
    } };
}
pub const TYPES: u64 = 20;
/// Calls `$f::<D<N>>($($a),*)` for `N = $i + 1`.
#[macro_export]
macro_rules! pick_small {
    ($i:expr, $f:ident, $($a:expr),*) => { match $i {
        0 => $f::<$crate::dom::D<1>>($($a),*), 1 => $f::<$crate::dom::D<2>>($($a),*),
        2 => $f::<$crate::dom::D<3>>($($a),*), 3 => $f::<$crate::dom::D<4>>($($a),*),
        4 => $f::<$crate::dom::D<5>>($($a),*), 5 => $f::<$crate::dom::D<6>>($($a),*),
        6 => $f::<$crate::dom::D<7>>($($a),*), 7 => $f::<$crate::dom::D<8>>($($a),*),
        i => panic!("no small domain {i}"),
    } };
}
/// A representative subset of the point types, for heavier workloads.
#[macro_export]
macro_rules! pick_some {
    ($i:expr, $f:ident, $($a:expr),*) => { match $i % $crate::dom::SOME {
        0 => $f::<u8>($($a),*), 1 => $f::<i8>($($a),*), 2 => $f::<$crate::dom::D<9>>($($a),*), 3 => $f::<i32>($($a),*),
        4 => $f::<u64>($($a),*), 5 => $f::<i128>($($a),*), 6 => $f::<$crate::dom::Rev>($($a),*),
        7 => $f::<$crate::dom::Sparse>($($a),*), 8 => $f::<$crate::dom::Ch>($($a),*), 9 => $f::<$crate::dom::Lex>($($a),*),
        10 => $f::<$crate::dom::Big>($($a),*), 12 => $f::<$crate::dom::Nest>($($a),*), _ => $f::<$crate::dom::Unit>($($a),*),
    } };
}
pub const SOME: u64 = 13;
