//! P12: raw interval constructors, bounds and membership over any order.
use nimon::grid::*;
use nimon::ivs::hash_of;
use nimon::mon::*;
use nimon::rng::mix;
use nimon::rset::RSet;
use nimon::{want, want_eq};
use normalize_interval::raw_interval::RawInterval;
use normalize_interval::Bound;

/// A bound at point number `p` (1-based odd cell), or none.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum B { In(u128), Ex(u128), Inf }
fn bound<K: Key>(b: B) -> Bound<K> {
    match b { B::In(c) => Bound::Include(K::at(c as i64)), B::Ex(c) => Bound::Exclude(K::at(c as i64)), B::Inf => Bound::Infinite }
}
fn set(l: B, u: B, max: u128) -> RSet {
    match (l, u) { (B::In(a), B::Ex(b)) | (B::Ex(a), B::In(b)) if a == b => return RSet::range(a, a), _ => {} }
    let lo = match l { B::In(a) => a, B::Ex(a) => a + 1, B::Inf => 0 };
    let hi = match u { B::In(b) => b, B::Ex(b) => b - 1, B::Inf => max };
    RSet::range(lo, hi)
}
/// Everything the property says about one raw interval holding `s`.
fn judge<K: Key, const N: u32>(i: &RawInterval<K>, s: &RSet, what: &str, ev: &mut Ev) -> Verdict {
    let max = Dense::<K, N>::MAX;
    let pr: Vec<u128> = if max <= 24 { (0..=max).collect() } else { s.probes(max) };
    for c in pr.iter().filter(|c| has::<K>(**c)) { want_eq!(i.contains(&K::at(*c as i64)), s.contains(*c), "{what} = {i:?}: contains(cell {c})"); }
    bump(ev, "membership probes", pr.len() as u64);
    want_eq!(i.is_empty(), s.is_empty(), "{what} = {i:?}: is_empty");
    want_eq!(i.is_full(), s.v == [(0, max)], "{what} = {i:?}: is_full");
    let sp = s.v.first().copied();
    let exact = Dense::<K, N>::raw(sp);
    want_eq!(*i, exact, "{what}: as a raw interval");
    want_eq!(hash_of(i), hash_of(&exact), "{what} = {i:?}: hash");
    for over in [RawInterval::Empty, RawInterval::Full, exact.clone(), RawInterval::Open(K::at(0), K::at(1))] {
        let mut c = over.clone();
        c.clone_from(i);
        want_eq!(c, exact, "{what} = {i:?}: cloned over {over:?}");
    }
    // Among all intervals of the same ends, it is unlike all others.
    let ends: Vec<K> = [i.infimum(), i.supremum()].into_iter().flatten().collect();
    if let (Some(a), Some(b)) = (ends.first(), ends.last()) {
        use RawInterval::*;
        let (a, b) = (|| a.clone(), || b.clone());
        let all = [Empty, Full, Point(a()), Point(b()), Open(a(), b()), LeftOpen(a(), b()), RightOpen(a(), b()), Closed(a(), b()), UpTo(b()), UpFrom(a()), To(b()), From(a())];
        for o in &all {
            let same = std::mem::discriminant(o) == std::mem::discriminant(i);
            want!((o == i) == same && (i == o) == same && (o != i) == !same && (i != o) == !same, "{what} = {i:?} and {o:?}: == {}, != {}", o == i, o != i);
        }
    }
    let (lb, ub) = (sp.map(|x| Dense::<K, N>::lower(x.0)), sp.map(|x| Dense::<K, N>::upper(x.1)));
    want_eq!(i.lower_bound(), lb, "{what} = {i:?}: lower_bound");
    want_eq!(i.upper_bound(), ub, "{what} = {i:?}: upper_bound");
    want_eq!(i.infimum(), lb.as_ref().and_then(|b| b.as_ref().cloned()), "{what} = {i:?}: infimum");
    want_eq!(i.supremum(), ub.as_ref().and_then(|b| b.as_ref().cloned()), "{what} = {i:?}: supremum");
    if let (Some(l), Some(u)) = (i.lower_bound(), i.upper_bound()) {
        want_eq!(RawInterval::new(l, u), *i, "{what} = {i:?}: rebuilt from its bounds");
    }
    bump(ev, if s.is_empty() { "empty" } else if s.v[0].0 == s.v[0].1 && s.v[0].0 % 2 == 1 { "points" } else { "proper" }, 1);
    Ok(())
}
fn pair<K: Key, const N: u32>(cx: &mut Ctx, l: B, u: B) -> bool {
    let max = Dense::<K, N>::MAX;
    let s = set(l, u, max);
    cx.case(hash_of(&(l, u, N)) ^ mix(K::NAME.len() as u64), !s.is_empty(), || format!("{}/{N}: {l:?}, {u:?}", K::NAME), |ev| {
        judge::<K, N>(&RawInterval::new(bound(l), bound(u)), &s, "new", ev)?;
        if let (B::In(a) | B::Ex(a), B::In(b) | B::Ex(b)) = (l, u) {
            let (x, y) = (K::at(a as i64), K::at(b as i64));
            let (i, n) = match (l, u) {
                (B::In(_), B::In(_)) => (RawInterval::closed(x.clone(), y.clone()), "closed"),
                (B::In(_), _) => (RawInterval::right_open(x.clone(), y.clone()), "right_open"),
                (_, B::In(_)) => (RawInterval::left_open(x.clone(), y.clone()), "left_open"),
                _ => (RawInterval::open(x.clone(), y.clone()), "open"),
            };
            judge::<K, N>(&i, &s, n, ev)?;
        }
        judge::<K, N>(&Dense::<K, N>::raw(s.v.first().copied()), &s, "variant", ev)
    })
}
fn bounds(pts: &[u128]) -> Vec<B> { let mut v = vec![B::Inf]; for &p in pts { v.extend([B::In(p), B::Ex(p)]); } v }
fn exh_n<K: Key, const N: u32>(cx: &mut Ctx) {
    let b = bounds(&(0..N as u128).map(|i| 2 * i + 1).collect::<Vec<_>>());
    for &l in &b { for &u in &b { if !pair::<K, N>(cx, l, u) { return; } } }
    cx.case(99 + N as u64, false, || "Empty".into(), |ev| judge::<K, N>(&RawInterval::Empty, &RSet::empty(), "Empty", ev));
}
fn exh(cx: &mut Ctx) {
    match cx.block {
        0 => exh_n::<i64, 1>(cx), 1 => exh_n::<i64, 12>(cx), 2 => exh_n::<String, 12>(cx), 3 => exh_n::<Down, 12>(cx), 4 => exh_n::<Fl, 12>(cx),
        5 => exh_n::<i64, 40>(cx), 6 => exh_n::<Fl, 40>(cx), 7 => exh_n::<(), 1>(cx), 8 => exh_n::<[u64; 24], 20>(cx), _ => exh_n::<String, 40>(cx),
    }
}
fn rand_n<K: Key, const N: u32>(cx: &mut Ctx) {
    for _ in 0..2000 {
        let p = 2 * cx.rng.range128(0, N as u128 - 1) + 1;
        let q = if cx.rng.chance(1, 3) { (p + 2 * cx.rng.below(3) as u128).min(2 * N as u128 - 1) } else { 2 * cx.rng.range128(0, N as u128 - 1) + 1 };
        let b = bounds(&[p, q]);
        let (l, u) = (*cx.rng.pick(&b), *cx.rng.pick(&b));
        if !pair::<K, N>(cx, l, u) { return; }
    }
}
fn rand(cx: &mut Ctx) {
    match cx.block % 6 { 5 => rand_n::<nimon::dom::Nest, 30>(cx), 0 => rand_n::<i64, 1_000_000>(cx), 4 => rand_n::<[u64; 24], 500>(cx), 1 => rand_n::<String, 100_000>(cx), 2 => rand_n::<Down, 1_000_000>(cx), _ => rand_n::<Fl, 1_000_000>(cx) }
}
fn suites(_: &str) -> Vec<Suite> {
    let s = |name, quick, thorough, run| Suite { name, quick, thorough, run };
    vec![s("bound-pairs-exhaustive", 10, 10, exh as fn(&mut Ctx)), s("random-pairs", 160, 1600, rand)]
}
fn main() {
    self_test::<[u64; 24]>(); self_test::<i64>(); self_test::<String>(); self_test::<Down>(); self_test::<Fl>();
    main_with(suites)
}
