//! P21: bound combination against half-lines read as cut positions, and the
//! bound's query, extraction, mapping and transfer functions.
use nimon::grid::*;
use nimon::ivs::hash_of;
use nimon::mon::*;
use nimon::rng::mix;
use nimon::{want, want_eq};
use normalize_interval::Bound;

/// A bound at odd cell `c`.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum B { In(i64), Ex(i64), Inf }
fn bound<K: Key>(b: B) -> Bound<K> {
    match b { B::In(c) => Bound::Include(K::at(c)), B::Ex(c) => Bound::Exclude(K::at(c)), B::Inf => Bound::Infinite }
}
/// Whether the half-line bounded below / above by `b` contains cell `x`.
fn above(b: B, x: i64) -> bool { match b { B::In(c) => x >= c, B::Ex(c) => x > c, B::Inf => true } }
fn below(b: B, x: i64) -> bool { match b { B::In(c) => x <= c, B::Ex(c) => x < c, B::Inf => true } }
fn holds_above<K: Key>(b: &Bound<K>, x: i64) -> bool { match b { Bound::Include(c) => x >= c.cell(), Bound::Exclude(c) => x > c.cell(), Bound::Infinite => true } }
fn holds_below<K: Key>(b: &Bound<K>, x: i64) -> bool { match b { Bound::Include(c) => x <= c.cell(), Bound::Exclude(c) => x < c.cell(), Bound::Infinite => true } }
fn probes(bs: &[B]) -> Vec<i64> {
    let mut v = vec![];
    for b in bs { if let B::In(c) | B::Ex(c) = b { v.extend([c - 1, *c, c + 1]); } }
    v.push(0);
    v
}
fn comb_case<K: Key>(cx: &mut Ctx, a: B, b: B, c: B) -> bool {
    cx.case(hash_of(&(a, b, c)) ^ mix(nimon::rng::hash_str(K::NAME)), a != b, || format!("{}: {a:?}, {b:?}, {c:?}", K::NAME), |ev| {
        let (x, y, z): (Bound<K>, Bound<K>, Bound<K>) = (bound(a), bound(b), bound(c));
        let pr = probes(&[a, b, c]);
        want_eq!((x == y, x != y, x == z, x != z), (a == b, a != b, a == c, a != c), "== and !=");
        let (lu, li, uu, ui) = (x.least_union(&y), x.greatest_intersect(&y), x.greatest_union(&y), x.least_intersect(&y));
        for &p in &pr {
            want_eq!(holds_above(&lu, p), above(a, p) || above(b, p), "lower union {lu:?} at cell {p}");
            want_eq!(holds_above(&li, p), above(a, p) && above(b, p), "lower intersection {li:?} at cell {p}");
            want_eq!(holds_below(&uu, p), below(a, p) || below(b, p), "upper union {uu:?} at cell {p}");
            want_eq!(holds_below(&ui, p), below(a, p) && below(b, p), "upper intersection {ui:?} at cell {p}");
        }
        // One of the two bounds, kind included: cells alone cannot tell (p and a gap next to it.
        for (g, n) in [(&lu, "lower union"), (&li, "lower intersection"), (&uu, "upper union"), (&ui, "upper intersection")] {
            want!(*g == x || *g == y, "{n} {g:?} is neither bound");
        }
        type F<K> = fn(&Bound<K>, &Bound<K>) -> Bound<K>;
        let ops: [(&str, F<K>); 4] = [("least_union", Bound::least_union), ("greatest_intersect", Bound::greatest_intersect), ("greatest_union", Bound::greatest_union), ("least_intersect", Bound::least_intersect)];
        for (n, f) in ops {
            want_eq!(f(&x, &y), f(&y, &x), "{n} swapped");
            want_eq!(f(&x, &x), x, "{n} with itself");
            want_eq!(f(&f(&x, &y), &z), f(&x, &f(&y, &z)), "{n} regrouped");
        }
        // Absorption ties union and intersection together.
        want_eq!(x.least_union(&x.greatest_intersect(&y)), x, "lower absorption");
        want_eq!(x.greatest_union(&x.least_intersect(&y)), x, "upper absorption");
        bump(ev, "combinations checked", 22);
        bump(ev, match (a, b) { (B::Inf, _) | (_, B::Inf) => "pairs with an absent bound", (B::In(p) | B::Ex(p), B::In(q) | B::Ex(q)) => if p == q { "pairs at one point" } else { "pairs apart" } }, 1);
        Ok(())
    })
}
/// Every function that leads to another type, with that type.
fn to_case<K: Key, U: Clone + PartialEq + std::fmt::Debug>(x: &Bound<K>, b: B, to: U) -> Verdict {
    let k = || match b { B::In(_) => Bound::Include(to.clone()), B::Ex(_) => Bound::Exclude(to.clone()), B::Inf => Bound::Infinite };
    want_eq!(Bound::transfer(x, to.clone()), k(), "transfer from a reference");
    want_eq!(Bound::transfer(x.clone(), to.clone()), k(), "transfer");
    let mut runs = (0, 0);
    want_eq!(x.clone().map(|_| { runs.0 += 1; to.clone() }), k(), "map to another type");
    let wrap = |f: bool| (f, to.clone());
    want_eq!(x.clone().map_or(wrap(false), |_| { runs.0 += 1; wrap(true) }), wrap(b != B::Inf), "map_or to another type");
    want_eq!(x.clone().map_or_else(|| { runs.1 += 1; wrap(false) }, |_| { runs.0 += 1; wrap(true) }), wrap(b != B::Inf), "map_or_else to another type");
    want_eq!(runs, if b != B::Inf { (3, 0) } else { (0, 1) }, "times the functions ran");
    Ok(())
}
fn query_case<K: Key>(cx: &mut Ctx, b: B, other: i64) -> bool {
    cx.case(hash_of(&(b, other, 7)) ^ mix(nimon::rng::hash_str(K::NAME)), b != B::Inf, || format!("{}: queries of {b:?}, with {other}", K::NAME), |ev| {
        let x: Bound<K> = bound(b);
        let o = K::at(other);
        let p: Option<K> = match b { B::In(c) | B::Ex(c) => Some(K::at(c)), B::Inf => None };
        let again = |q: K| match b { B::In(_) => Bound::Include(q), B::Ex(_) => Bound::Exclude(q), B::Inf => Bound::Infinite };
        want_eq!(x.is_finite(), b != B::Inf, "is_finite");
        want_eq!(x.is_inclusive(), matches!(b, B::In(_)), "is_inclusive");
        want_eq!(x.is_exclusive(), matches!(b, B::Ex(_)), "is_exclusive");
        want_eq!(x.as_ref(), p.as_ref(), "as_ref");
        for y in [Bound::Infinite, Bound::Include(o.clone()), Bound::Exclude(o.clone())] {
            let mut m = y.clone();
            m.clone_from(&x);
            want!(m == x && (x == y) == (hash_of(&x) == hash_of(&y)), "cloned over {y:?}: {m:?}");
        }
        let mut m = x.clone();
        want_eq!(m.as_mut().cloned(), p, "as_mut");
        if let Some(r) = m.as_mut() { *r = o.clone(); }
        want_eq!(m, again(o.clone()), "written through as_mut");
        match &p {
            Some(p) => want_eq!(x.clone().unwrap(), *p, "unwrap"),
            None => want!(guarded(|| bound::<K>(b).unwrap()).is_err(), "unwrap of an absent bound returns"),
        }
        want_eq!(x.clone().unwrap_or(o.clone()), p.clone().unwrap_or(o.clone()), "unwrap_or");
        let mut ran = 0;
        want_eq!(x.clone().unwrap_or_else(|| { ran += 1; o.clone() }), p.clone().unwrap_or(o.clone()), "unwrap_or_else");
        want_eq!(ran, p.is_none() as u32, "times the default was computed");
        let mut seen = Vec::new();
        let y: Bound<(K, u8)> = x.clone().map(|q| { seen.push(q.clone()); (q, 9) });
        want_eq!(seen, p.iter().cloned().collect::<Vec<_>>(), "points mapped");
        let want: Bound<(K, u8)> = match (b, p.clone()) { (B::In(_), Some(q)) => Bound::Include((q, 9)), (B::Ex(_), Some(q)) => Bound::Exclude((q, 9)), _ => Bound::Infinite };
        want_eq!(y, want, "map");
        want_eq!(x.clone().map_or(-1, |q| q.cell()), p.as_ref().map_or(-1, |q| q.cell()), "map_or");
        want_eq!(x.clone().map_or_else(|| -2, |q| q.cell() + 1), p.as_ref().map_or(-2, |q| q.cell() + 1), "map_or_else");
        to_case::<K, i64>(&x, b, other)?;
        to_case::<K, u8>(&x, b, other as u8)?;
        to_case::<K, ()>(&x, b, ())?;
        to_case::<K, String>(&x, b, format!("<{other}>"))?;
        to_case::<K, Vec<i64>>(&x, b, vec![other])?;
        to_case::<K, [u64; 24]>(&x, b, [other as u64; 24])?;
        to_case::<K, Option<Box<i64>>>(&x, b, if other % 2 == 0 { None } else { Some(Box::new(other)) })?;
        to_case::<K, Bound<K>>(&x, b, x.clone())?;
        if let Some(q) = p { want_eq!(Bound::from(q.clone()), Bound::Include(q), "from a point"); }
        bump(ev, "queries checked", 17);
        Ok(())
    })
}
fn all(n: i64) -> Vec<B> { let mut v = vec![B::Inf]; for k in 0..n { v.extend([B::In(2 * k + 1), B::Ex(2 * k + 1)]); } v }
fn exh_t<K: Key>(cx: &mut Ctx, n: i64) {
    let v = all(n);
    for &a in &v {
        for &o in &[1, 5, 9] { if !query_case::<K>(cx, a, o) { return; } }
        for &b in &v { for &c in &v { if !comb_case::<K>(cx, a, b, c) { return; } } }
    }
}
fn exh(cx: &mut Ctx) {
    match cx.block { 0 => exh_t::<i64>(cx, 8), 1 => exh_t::<String>(cx, 8), 2 => exh_t::<Down>(cx, 8), 3 => exh_t::<Fl>(cx, 8), 4 => exh_t::<[u64; 24]>(cx, 6), _ => exh_t::<()>(cx, 1) }
}
fn rand_t<K: Key>(cx: &mut Ctx) {
    for _ in 0..3000 {
        let p = 2 * cx.rng.below(1000) as i64 + 1;
        let mut b = || { let c = if cx.rng.chance(1, 2) { p } else if cx.rng.chance(1, 2) { p + 2 } else { 2 * cx.rng.below(1000) as i64 + 1 }; match cx.rng.below(9) { 0 => B::Inf, k if k % 2 == 0 => B::In(c), _ => B::Ex(c) } };
        let (x, y, z) = (b(), b(), b());
        let o = cx.rng.below(2000) as i64;
        if !comb_case::<K>(cx, x, y, z) || !query_case::<K>(cx, x, o) { return; }
    }
}
fn rand(cx: &mut Ctx) {
    match cx.block % 5 { 0 => rand_t::<i64>(cx), 1 => rand_t::<String>(cx), 2 => rand_t::<Down>(cx), 3 => rand_t::<[u64; 24]>(cx), _ => rand_t::<Fl>(cx) }
}
fn suites(_: &str) -> Vec<Suite> {
    let s = |name, quick, thorough, run| Suite { name, quick, thorough, run };
    vec![s("triples-exhaustive", 6, 6, exh as fn(&mut Ctx)), s("random-triples", 160, 800, rand)]
}
fn main() {
    fn t<K: Key>() { for c in 0..9 { assert_eq!(K::at(c).cell(), c); } }
    t::<i64>(); t::<String>(); t::<Down>(); t::<Fl>();
    main_with(suites)
}
