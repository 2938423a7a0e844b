//! P13: raw interval set operations over dense orders, against the cell model.
use nimon::grid::*;
use nimon::ivs::hash_of;
use nimon::mon::*;
use nimon::rset::RSet;
use nimon::sel::{R, Space};
use nimon::{want, want_eq};
use normalize_interval::raw_interval::RawInterval;

fn set(r: R) -> RSet { match r { Some((l, h)) => RSet::range(l, h), None => RSet::empty() } }

/// The intervals given are exactly the maximal runs of `s`, in any order.
fn pieces<K: Key, const N: u32>(it: impl Iterator<Item = RawInterval<K>>, s: &RSet, what: &str) -> Verdict {
    let v: Vec<RawInterval<K>> = it.take(8).collect();
    let mut c = Vec::new();
    for i in &v {
        match <Dense<K, N> as Space>::range(i)? { Some(r) => c.push(r), None => return Err(format!("{what}: gives an empty interval among {v:?}")) }
    }
    c.sort();
    want_eq!(c, s.v, "{what}: {v:?} as cells");
    Ok(())
}
fn one<K: Key, const N: u32>(i: &RawInterval<K>, s: &RSet, what: &str) -> Verdict {
    want_eq!(<Dense<K, N> as Space>::range(i)?, s.v.first().copied(), "{what}: {i:?} as cells");
    want_eq!(i.is_empty(), s.is_empty(), "{what}: {i:?} is_empty");
    Ok(())
}
fn pair<K: Key, const N: u32>(cx: &mut Ctx, x: R, y: R) -> bool {
    let salt = cx.rng.u64();
    let max = Dense::<K, N>::MAX;
    let (a, b) = (set(x), set(y));
    cx.case(hash_of(&(x, y, N, K::NAME)), x.is_some() && y.is_some(), || format!("{}/{N}: cells {x:?} and {y:?}: {:?} and {:?}", K::NAME, Dense::<K, N>::raw(x), Dense::<K, N>::raw(y)), |ev| {
        let (i, j) = (<Dense<K, N>>::iv(x, salt), <Dense<K, N>>::iv(y, salt >> 8));
        let (i0, j0) = (i.clone(), j.clone());
        let common = a.intersect(&b);
        one::<K, N>(&i.intersect(&j), &common, "intersect")?;
        for c in common.probes(max).into_iter().chain(a.probes(max)).filter(|c| has::<K>(*c)) {
            want_eq!(i.intersect(&j).contains(&K::at(c as i64)), common.contains(c), "intersect contains(cell {c})");
        }
        pieces::<K, N>(i.union(&j), &a.union(&b), "union")?;
        pieces::<K, N>(i.minus(&j), &a.minus(&b, max), "minus")?;
        pieces::<K, N>(i.complement(), &a.complement(max), "complement")?;
        let u = a.union(&b);
        let hull = match (u.first(), u.last()) { (Some(l), Some(h)) => RSet::range(l, h), _ => RSet::empty() };
        one::<K, N>(&i.enclose(&j), &hull, "enclose")?;
        let cl = match x { Some((l, h)) => RSet::range(if l > 0 && l % 2 == 0 { l - 1 } else { l }, if h < max && h % 2 == 0 { h + 1 } else { h }), None => RSet::empty() };
        one::<K, N>(&i.closure(), &cl, "closure")?;
        want_eq!(i.intersects(&j), !common.is_empty(), "intersects");
        // Adjacent: an upper bound point of one is a lower bound point of the other, not both excluded.
        let touch = |p: (u128, u128), q: (u128, u128)| {
            // Bound points as odd cells; an excluded bound is the neighbouring even cell.
            if p.1 == max || q.0 == 0 { return false; }
            let (up, upx) = if p.1 % 2 == 1 { (p.1, false) } else { (p.1 + 1, true) };
            let (lo, lox) = if q.0 % 2 == 1 { (q.0, false) } else { (q.0 - 1, true) };
            up == lo && !(upx && lox)
        };
        let adj = match (x, y) { (Some(p), Some(q)) => touch(p, q) || touch(q, p), _ => false };
        want_eq!(i.is_adjacent_to(&j), adj, "is_adjacent_to");
        want!(i == i0 && j == j0, "operands changed");
        bump(ev, "operation results checked", 8);
        bump(ev, if !common.is_empty() { "pairs overlapping" } else if u.v.len() == 1 && x.is_some() && y.is_some() { "pairs touching" } else if x.is_some() && y.is_some() { "pairs apart" } else { "pairs with an empty side" }, 1);
        if adj { bump(ev, "pairs adjacent", 1) }
        Ok(())
    })
}
fn exh_n<K: Key, const N: u32>(cx: &mut Ctx) {
    let r = Dense::<K, N>::ranges();
    for &x in &r { for &y in &r { if !pair::<K, N>(cx, x, y) { return; } } }
}
fn exh(cx: &mut Ctx) {
    match cx.block {
        0 => exh_n::<i64, 1>(cx), 1 => exh_n::<i64, 2>(cx), 2 => exh_n::<String, 4>(cx), 3 => exh_n::<Down, 5>(cx), 4 => exh_n::<Fl, 6>(cx),
        5 => exh_n::<i64, 7>(cx), 6 => exh_n::<(), 1>(cx), 7 => exh_n::<[u64; 24], 4>(cx), _ => exh_n::<i64, 12>(cx),
    }
}
fn rand_n<K: Key, const N: u32>(cx: &mut Ctx) {
    for _ in 0..50 {
        let hot = <Dense<K, N> as Space>::hot(&mut cx.rng);
        for _ in 0..40 {
            let (x, y) = (nimon::sel::rand_range(&mut cx.rng, &hot, Dense::<K, N>::MAX), nimon::sel::rand_range(&mut cx.rng, &hot, Dense::<K, N>::MAX));
            if !pair::<K, N>(cx, x, y) { return; }
        }
    }
}
fn rand(cx: &mut Ctx) {
    match cx.block % 6 { 5 => rand_n::<nimon::dom::Nest, 30>(cx), 0 => rand_n::<i64, 1_000_000>(cx), 4 => rand_n::<[u64; 24], 500>(cx), 1 => rand_n::<String, 100_000>(cx), 2 => rand_n::<Down, 1_000_000>(cx), _ => rand_n::<Fl, 1_000_000>(cx) }
}
fn suites(_: &str) -> Vec<Suite> {
    let s = |name, quick, thorough, run| Suite { name, quick, thorough, run };
    vec![s("small-exhaustive", 8, 9, exh as fn(&mut Ctx)), s("random-pairs", 160, 1600, rand)]
}
fn main() {
    self_test::<[u64; 24]>(); self_test::<i64>(); self_test::<String>(); self_test::<Down>(); self_test::<Fl>();
    main_with(suites)
}
