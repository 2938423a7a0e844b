//! P01: interval constructors, against the rank model.
#![allow(unused_imports)]
use nimon::dom::*;
use nimon::ivs::*;
use nimon::mon::*;
use nimon::rng::{mix, Rng};
use nimon::rset::RSet;
use nimon::{pick_dom, pick_small, want, want_eq};
use normalize_interval::normalize::{Finite, Normalize};
use normalize_interval::raw_interval::RawInterval;
use normalize_interval::Interval;
use std::ops::Sub;

fn p01_one<T: Dom>(cx: &mut Ctx, m: Mk, probes: Option<&[u128]>) -> bool {
    let max = T::max_rank();
    let s = m.set(max);
    cx.case(m.key() ^ mix(max as u64), !s.is_empty() && s != RSet::full(max),
        || format!("{}[0..={max}]: {m:?}", T::NAME),
        |ev| {
            let iv: Interval<T> = m.build();
            let own;
            let pr = match probes { Some(p) => p, None => { own = s.probes(max); &own } };
            check_points(&iv, &s, pr)?;
            bump(ev, "membership probes", pr.len() as u64);
            bump(ev, if s.is_empty() { "constructed empty" } else if s.v[0].0 == s.v[0].1 { "constructed point" } else { "constructed proper" }, 1);
            Ok(())
        })
}
fn p01_small<T: Dom>(cx: &mut Ctx) {
    let r = all_ranks(T::max_rank());
    for m in Mk::over(&r) { if !p01_one::<T>(cx, m, Some(&r)) { return; } }
}
fn p01_exh_small(cx: &mut Ctx) { pick_small!(cx.block, p01_small, cx) }
fn p01_crit_t<T: Dom>(cx: &mut Ctx) {
    for m in Mk::over(&critical::<T>()) { if !p01_one::<T>(cx, m, None) { return; } }
}
fn p01_crit(cx: &mut Ctx) { pick_dom!(cx.block, p01_crit_t, cx) }
/// Every recipe over every pair of byte values, split over blocks by first point.
fn p01_byte(cx: &mut Ctx) {
    let all = all_ranks(255);
    for a in 0..=255u128 {
        if a as u64 % cx.blocks != cx.block { continue; }
        for b in 0..=255 {
            for m in Mk::two(a, b) {
                let pr = if cx.thorough { Some(&all[..]) } else { None };
                if !p01_one::<u8>(cx, m, pr) || !p01_one::<i8>(cx, m, pr) { return; }
            }
        }
        for m in Mk::one(a) { if !p01_one::<u8>(cx, m, Some(&all)) || !p01_one::<i8>(cx, m, Some(&all)) { return; } }
    }
}
fn p01_rand_t<T: Dom>(cx: &mut Ctx) {
    for _ in 0..40 {
        let hot = hot_ranks::<T>(&mut cx.rng);
        for _ in 0..100 {
            let m = Mk::random(&mut cx.rng, &hot);
            let mut pr = m.set(T::max_rank()).probes(T::max_rank());
            pr.extend(&hot);
            if !p01_one::<T>(cx, m, Some(&pr)) { return; }
        }
    }
}
fn p01_rand(cx: &mut Ctx) { pick_dom!(cx.block, p01_rand_t, cx) }

fn suites(_: &str) -> Vec<Suite> {
    let s = |name, quick, thorough, run| Suite { name, quick, thorough, run };
    vec![s("small-exhaustive", 8, 8, p01_exh_small as fn(&mut Ctx)), s("critical-points", TYPES, TYPES, p01_crit), s("byte-exhaustive", 64, 256, p01_byte), s("random", 20 * TYPES, 60 * TYPES, p01_rand)]
}

fn main() {
    fn t<T: Dom>() { self_test_dom::<T>() }
    for i in 0..TYPES { pick_dom!(i, t,) }
    for i in 0..8 { pick_small!(i, t,) }
    main_with(suites)
}
