//! P22: boundary markers against the set algebra of the three positions just
//! before, at and just after their point.
use nimon::grid::*;
use nimon::ivs::hash_of;
use nimon::mon::*;
use nimon::rng::{hash_str, mix};
use nimon::{want, want_eq};
use normalize_interval::tine::Tine;
use normalize_interval::Bound;
use std::cmp::Ordering;

/// Membership (before, at, after) as bits 4, 2, 1; the six that change there.
const TRIPLES: [u8; 6] = [0b011, 0b001, 0b110, 0b100, 0b010, 0b101];
fn tine<K>(t: u8, p: K) -> Tine<K> {
    use Bound::*;
    match t {
        0b011 => Tine::Lower(Include(p)), 0b001 => Tine::Lower(Exclude(p)),
        0b110 => Tine::Upper(Include(p)), 0b100 => Tine::Upper(Exclude(p)),
        0b010 => Tine::Point(Include(p)), 0b101 => Tine::Point(Exclude(p)),
        _ => unreachable!(),
    }
}
fn marker<K>(t: u8, p: K) -> Option<Tine<K>> { if t == 0 || t == 7 { None } else { Some(tine(t, p)) } }

fn pair_case<K: Key>(cx: &mut Ctx, a: u8, b: u8, c: i64) -> bool {
    cx.case(hash_of(&(a, b, c)) ^ mix(hash_str(K::NAME)), true, || format!("{}: {:?} with {:?}", K::NAME, tine(a, K::at(c)), tine(b, K::at(c))), |ev| {
        let p = || K::at(c);
        let (x, y) = (tine(a, p()), tine(b, p()));
        want_eq!(x.clone().union(&y), marker(a | b, p()), "union");
        want_eq!(x.clone().intersect(&y), marker(a & b, p()), "intersect");
        want_eq!(x.clone().minus(&y), marker(a & !b & 7, p()), "minus");
        want_eq!(x.clone().invert(), tine(!a & 7, p()), "invert");
        want_eq!(x.clone().invert().invert(), x, "invert twice");
        // De Morgan, through the results themselves.
        want_eq!(x.clone().invert().union(&y.clone().invert()), x.clone().intersect(&y).map(Tine::invert), "union of inverses");
        want_eq!(x.clone().intersect(&y.clone().invert()), x.clone().minus(&y), "intersection with the inverse");
        bump(ev, "marker operations", 7);
        bump(ev, match a & b { 0 => "pairs sharing no position", _ => "pairs sharing a position" }, 1);
        Ok(())
    })
}
fn one_case<K: Key>(cx: &mut Ctx, a: u8, c: i64) -> bool {
    cx.case(hash_of(&(a, c, 3)) ^ mix(hash_str(K::NAME)), true, || format!("{}: {:?}", K::NAME, tine(a, K::at(c))), |ev| {
        let x = tine(a, K::at(c));
        want_eq!(x.is_lower_bound(), a & 1 == 1 && a & 6 != 6 && a != 7, "is_lower_bound");
        want_eq!(x.is_upper_bound(), a & 4 == 4 && a & 3 != 3, "is_upper_bound");
        want_eq!(x.is_point_include(), a == 2, "is_point_include");
        want_eq!(x.is_point_exclude(), a == 5, "is_point_exclude");
        for b in 1..7 {
            let mut y = tine(b, K::at(c + 1));
            y.clone_from(&x);
            want!(y == x && hash_of(&y) == hash_of(&x) && x.clone() == x, "cloned over a marker of kind {b}: {y:?}");
        }
        want_eq!(x.as_ref(), Some(&K::at(c)), "as_ref");
        want_eq!(x.into_inner(), if a & 2 == 2 { Bound::Include(K::at(c)) } else { Bound::Exclude(K::at(c)) }, "into_inner");
        bump(ev, "marker queries", 6);
        Ok(())
    })
}
/// Position on the line with both ends: -1 and `i64::MAX` are the infinite ones.
type Pos = (i64, u8);
fn at<K: Key>(p: Pos) -> Tine<K> {
    match p.0 { -1 => Tine::Lower(Bound::Infinite), i64::MAX => Tine::Upper(Bound::Infinite), c => tine(p.1, K::at(c)) }
}
fn order_case<K: Key>(cx: &mut Ctx, a: Pos, b: Pos) -> bool {
    cx.case(hash_of(&(a, b, 5)) ^ mix(hash_str(K::NAME)), a.0 != b.0, || format!("{}: {:?} against {:?}", K::NAME, at::<K>(a), at::<K>(b)), |ev| {
        let (x, y) = (at::<K>(a), at::<K>(b));
        let o = a.0.cmp(&b.0);
        want_eq!(x.cmp(&y), o, "cmp");
        want_eq!(y.cmp(&x), o.reverse(), "cmp swapped");
        want_eq!(x.partial_cmp(&y), Some(o), "partial_cmp");
        want_eq!((x < y, x <= y, x > y, x >= y), (o == Ordering::Less, o != Ordering::Greater, o == Ordering::Greater, o != Ordering::Less), "comparison operators");
        if o != Ordering::Equal { want_eq!(x.clone().max(y.clone()), if o == Ordering::Less { y.clone() } else { x.clone() }, "max"); }
        want_eq!((x == y, x != y), (a == b, a != b), "== and !=");
        bump(ev, "orderings checked", 5);
        bump(ev, if a.0 == b.0 { "pairs at one position" } else { "pairs apart" }, 1);
        Ok(())
    })
}
fn infinite_case<K: Key>(cx: &mut Ctx, lower: bool) -> bool {
    cx.case(hash_of(&(lower, 11)) ^ mix(hash_str(K::NAME)), true, || format!("{}: infinite {}", K::NAME, if lower { "lower" } else { "upper" }), |ev| {
        let x = || if lower { Tine::<K>::Lower(Bound::Infinite) } else { Tine::Upper(Bound::Infinite) };
        want_eq!(x().union(&x()), Some(x()), "union");
        want_eq!(x().intersect(&x()), Some(x()), "intersect");
        want_eq!(x().minus(&x()), None, "minus");
        want_eq!((x().is_lower_bound(), x().is_upper_bound(), x().is_point_include(), x().is_point_exclude()), (lower, !lower, false, false), "queries");
        want!(x().as_ref().is_none() && x().into_inner() == Bound::Infinite, "point of an infinite marker");
        bump(ev, "infinite markers", 1);
        Ok(())
    })
}
fn sort_case<K: Key>(cx: &mut Ctx, v: Vec<Pos>) -> bool {
    cx.case(hash_of(&(&v, 13)) ^ mix(hash_str(K::NAME)), v.len() > 2, || format!("{}: sorting {v:?}", K::NAME), |ev| {
        let mut t: Vec<(Tine<K>, i64)> = v.iter().map(|p| (at::<K>(*p), p.0)).collect();
        t.sort_by(|a, b| a.0.cmp(&b.0));
        want!(t.windows(2).all(|w| w[0].1 <= w[1].1), "sorted to {t:?}");
        bump(ev, "markers sorted", v.len() as u64);
        Ok(())
    })
}
fn exh_t<K: Key>(cx: &mut Ctx) {
    for c in [0, 1, 4, 7, 30] {
        for &a in &TRIPLES { if !one_case::<K>(cx, a, c) { return; } for &b in &TRIPLES { if !pair_case::<K>(cx, a, b, c) { return; } } }
    }
    for l in [true, false] { if !infinite_case::<K>(cx, l) { return; } }
    let mut pos = vec![(-1, 0), (i64::MAX, 0)];
    for c in [0, 1, 2, 5, 9, 40] { for &a in &TRIPLES { pos.push((c, a)); } }
    for &a in &pos { for &b in &pos { if !order_case::<K>(cx, a, b) { return; } } }
}
fn exh(cx: &mut Ctx) {
    match cx.block { 0 => exh_t::<i64>(cx), 1 => exh_t::<String>(cx), 2 => exh_t::<Down>(cx), _ => exh_t::<Fl>(cx) }
}
fn rand_t<K: Key>(cx: &mut Ctx) {
    for _ in 0..600 {
        let c = cx.rng.below(100_000) as i64;
        let (a, b) = (*cx.rng.pick(&TRIPLES), *cx.rng.pick(&TRIPLES));
        if !pair_case::<K>(cx, a, b, c) { return; }
        let mut pos = || match cx.rng.below(8) { 0 => (-1, 0), 1 => (i64::MAX, 0), 2 => (cx.rng.below(100_000) as i64, *cx.rng.pick(&TRIPLES)), _ => (c + cx.rng.below(3) as i64, *cx.rng.pick(&TRIPLES)) };
        let (x, y) = (pos(), pos());
        let v = (0..12).map(|_| pos()).collect();
        if !order_case::<K>(cx, x, y) || !sort_case::<K>(cx, v) { return; }
    }
}
fn rand(cx: &mut Ctx) {
    match cx.block % 4 { 0 => rand_t::<i64>(cx), 1 => rand_t::<String>(cx), 2 => rand_t::<Down>(cx), _ => rand_t::<Fl>(cx) }
}
fn suites(_: &str) -> Vec<Suite> {
    let s = |name, quick, thorough, run| Suite { name, quick, thorough, run };
    vec![s("marker-pairs-exhaustive", 4, 4, exh as fn(&mut Ctx)), s("random-markers", 160, 800, rand)]
}
fn main() { main_with(suites) }
