//! P04: interval set algebra, against the rank model.
#![allow(unused_imports)]
use nimon::dom::*;
use nimon::ivs::*;
use nimon::mon::*;
use nimon::rng::{mix, Rng};
use nimon::rset::RSet;
use nimon::{pick_dom, pick_small, want, want_eq};
use normalize_interval::normalize::{Finite, Normalize};
use normalize_interval::raw_interval::RawInterval;
use normalize_interval::Interval;
use std::ops::Sub;

fn p04_ops<T: Dom>(ma: Mk, mb: Mk, ev: &mut Ev) -> Verdict {
    let max = T::max_rank();
    let (a, b) = (ma.set(max), mb.set(max));
    let (ia, ib): (Interval<T>, Interval<T>) = (ma.build(), mb.build());
    let take = |it: &mut dyn Iterator<Item = Interval<T>>| it.take(6).collect::<Vec<_>>();
    let i = ia.intersect(&ib);
    let si = a.intersect(&b);
    if si.is_empty() { want_eq!(ends(&i)?, None, "intersect gives {i:?}") } else { check_pieces(&[i.clone()], &si, max, "intersect")? }
    check_points(&i, &si, &a.union(&b).probes(max))?;
    check_pieces(&take(&mut ia.union(&ib)), &a.union(&b), max, "union")?;
    check_pieces(&take(&mut ia.minus(&ib)), &a.minus(&b, max), max, "minus")?;
    check_pieces(&take(&mut ia.complement()), &a.complement(max), max, "complement")?;
    let u = a.union(&b);
    let e = ia.enclose(&ib);
    want_eq!(ends(&e)?, u.first().map(|l| (l, u.last().unwrap())), "enclose gives {e:?}, as ranks");
    let c = ia.closure();
    want_eq!(ends(&c)?, span(&a), "closure gives {c:?}, as ranks");
    want_eq!(ia.intersects(&ib), !si.is_empty(), "intersects");
    let adj = match (span(&a), span(&b)) { (Some(x), Some(y)) => x.1 == y.0 || y.1 == x.0, _ => false };
    want_eq!(ia.is_adjacent_to(&ib), adj, "is_adjacent_to");
    bump(ev, "operation results checked", 8);
    match (span(&a), span(&b)) {
        (Some(x), Some(y)) => bump(ev,
            if x == y { "pairs equal" } else if x.1 == y.0 || y.1 == x.0 { "pairs sharing an end point" }
            else if !si.is_empty() { "pairs overlapping" } else if x.1.checked_add(1) == Some(y.0) || y.1.checked_add(1) == Some(x.0) { "pairs neighbouring" } else { "pairs apart" }, 1),
        _ => bump(ev, "pairs with an empty side", 1),
    }
    Ok(())
}
fn p04_case<T: Dom>(cx: &mut Ctx, a: &RSet, b: &RSet) -> bool {
    let max = T::max_rank();
    let (ma, _) = make::<T>(&mut cx.rng, a);
    let (mb, _) = make::<T>(&mut cx.rng, b);
    cx.case(hash_of(&(a, b, T::NAME, max)), !a.is_empty() && !b.is_empty(), || format!("{}[0..={max}]: {ma:?} with {mb:?}", T::NAME), |ev| p04_ops::<T>(ma, mb, ev))
}
fn p04_small_t<T: Dom>(cx: &mut Ctx) {
    let all = all_spans(T::max_rank());
    for a in &all { for b in &all { for _ in 0..2 { if !p04_case::<T>(cx, a, b) { return; } } } }
}
fn p04_small(cx: &mut Ctx) { pick_small!(cx.block, p04_small_t, cx) }
fn p04_crit_t<T: Dom>(cx: &mut Ctx) {
    let c = critical::<T>();
    let mut sp = vec![RSet::empty()];
    for &a in &c { for &b in &c { if a <= b { sp.push(RSet::range(a, b)); } } }
    let full = sp.len() <= 40 || cx.thorough;
    for a in &sp { for b in &sp { if (full || cx.rng.chance(1, 4)) && !p04_case::<T>(cx, a, b) { return; } } }
}
fn p04_crit(cx: &mut Ctx) { pick_dom!(cx.block, p04_crit_t, cx) }
fn p04_rand_t<T: Dom>(cx: &mut Ctx) {
    for _ in 0..100 {
        let hot = hot_ranks::<T>(&mut cx.rng);
        for _ in 0..20 {
            let (a, b) = (rand_span(&mut cx.rng, &hot, T::max_rank()), rand_span(&mut cx.rng, &hot, T::max_rank()));
            if !p04_case::<T>(cx, &a, &b) { return; }
        }
    }
}
fn p04_rand(cx: &mut Ctx) { pick_dom!(cx.block, p04_rand_t, cx) }

fn suites(_: &str) -> Vec<Suite> {
    let s = |name, quick, thorough, run| Suite { name, quick, thorough, run };
    vec![s("small-pairs", 8, 8, p04_small as fn(&mut Ctx)), s("critical-pairs", TYPES, TYPES, p04_crit), s("random", 20 * TYPES, 80 * TYPES, p04_rand)]
}

fn main() {
    fn t<T: Dom>() { self_test_dom::<T>() }
    for i in 0..TYPES { pick_dom!(i, t,) }
    for i in 0..8 { pick_small!(i, t,) }
    main_with(suites)
}
