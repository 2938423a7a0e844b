//! P05: interval iteration, against the rank model.
#![allow(unused_imports)]
use nimon::dom::*;
use nimon::ivs::*;
use nimon::mon::*;
use nimon::prog::{compare, compare_ord};
use nimon::rng::{mix, Rng};
use nimon::rset::RSet;
use nimon::{pick_dom, pick_small, want, want_eq};
use normalize_interval::normalize::{Finite, Normalize};
use normalize_interval::raw_interval::RawInterval;
use normalize_interval::Interval;
use std::ops::Sub;

/// Walks `it` by `sched` (true: front) until the model of `s` is used up or
/// `sched` ends; then, if used up, checks it stays exhausted.
fn walk<T: Dom>(it: &mut (impl Iterator<Item = T> + DoubleEndedIterator), (l, h): (u128, u128), n: u128, sched: &mut dyn FnMut() -> Option<bool>, ev: &mut Ev) -> Verdict {
    let (mut lo, mut left) = (l, n);
    let mut hi = h;
    let mut k = 0u64;
    while left > 0 {
        let Some(front) = sched() else { break };
        let (min, sup) = it.size_hint();
        want!(min as u128 <= left && sup.is_none_or(|s| s as u128 >= left), "size_hint ({min}, {sup:?}) with {left} points left");
        if front {
            want_eq!(it.next().map(|p| p.rank()), Some(lo), "front step {k}");
            lo = lo.wrapping_add(1);
        } else {
            want_eq!(it.next_back().map(|p| p.rank()), Some(hi), "back step {k}");
            hi = hi.wrapping_sub(1);
        }
        left -= 1;
        k += 1;
    }
    if left == 0 {
        for i in 0..6 {
            let r = if i % 3 == 0 { it.next() } else { it.next_back() };
            want!(r.is_none(), "yields {r:?} after the last point");
        }
        bump(ev, "walks to exhaustion", 1);
    } else { bump(ev, "partial walks", 1); }
    bump(ev, "iteration steps", k);
    Ok(())
}
fn p05_case<T: Dom>(cx: &mut Ctx, s: &RSet, bits: Option<u64>) -> bool {
    let mut rng = cx.rng.clone();
    cx.rng.u64();
    let max = T::max_rank();
    cx.case(hash_of(&(s, bits, T::NAME, max, rng.clone().u64())), s.count() > 1, || format!("{}[0..={max}]: iterate {s:?}, schedule {bits:?}", T::NAME), |ev| {
        let (l, h) = span(s).unwrap_or((0, 0));
        let n = if s.is_empty() { 0 } else { (h - l).saturating_add(1) };
        let (m, iv) = make::<T>(&mut rng, s);
        let mut i = 0;
        let mut sched: Box<dyn FnMut() -> Option<bool>> = match bits {
            Some(b) => Box::new(move || { i += 1; Some(b >> (i - 1) & 1 == 1) }),
            None => {
                // Runs of front and back steps, long enough to meet in the middle when feasible.
                let cap = if n <= 3000 { u64::MAX } else { 200 };
                let style = rng.below(4);
                let mut r = rng.clone();
                let (mut run, mut dir) = (0u64, false);
                Box::new(move || {
                    i += 1;
                    if i > cap { return None; }
                    match style { 0 => return Some(true), 1 => return Some(false), 2 => return Some(i % 2 == 0), _ => {} }
                    if run == 0 { run = 1 + r.below(6); dir = r.chance(1, 2); }
                    run -= 1;
                    Some(dir)
                })
            }
        };
        match rng.below(3) {
            0 => walk::<T>(&mut iv.iter(), (l, h), n, &mut *sched, ev)?,
            1 => walk::<T>(&mut (&iv).into_iter(), (l, h), n, &mut *sched, ev)?,
            _ => walk::<T>(&mut iv.clone().into_iter(), (l, h), n, &mut *sched, ev)?,
        }
        // The interval itself is unchanged by borrowing iteration.
        want_eq!(ends(&iv)?, span(s), "{m:?} after iteration");
        // Now and then, dozens of iterators live side by side.
        if n > 0 && rng.chance(1, 24) {
            let mut its: Vec<_> = (0..20 + rng.idx(300)).map(|k| if k % 7 == 3 { iv.clone().into_iter() } else { iv.iter() }).collect();
            for (k, it) in its.iter_mut().enumerate() {
                let (got, want) = if k % 2 == 0 { (it.next(), l) } else { (it.next_back(), h) };
                want_eq!(got.map(|p| p.rank()), Some(want), "first step of iterator {k} of many");
            }
            for (k, mut it) in its.into_iter().enumerate() {
                let (got, want) = if k % 2 == 0 { (it.next_back(), h) } else { (it.next(), l) };
                want_eq!(got.map(|p| p.rank()), (n > 1).then_some(want), "second step of iterator {k} of many");
            }
            bump(ev, "crowds of live iterators", 1);
        }
        // Provided adapters, on what is small enough to finish.
        if n <= 64 {
            let want: Vec<u128> = (0..n).map(|k| l + k).collect();
            let got: Vec<u128> = iv.iter().take(n as usize + 2).map(|p| p.rank()).collect();
            want_eq!(got, want, "collected");
            let got: Vec<u128> = iv.iter().rev().take(n as usize + 2).map(|p| p.rank()).collect();
            want_eq!(got, want.iter().rev().copied().collect::<Vec<_>>(), "collected in reverse");
            want_eq!(iv.iter().count() as u128, n, "count");
            want_eq!(iv.iter().last().map(|p| p.rank()), want.last().copied(), "last");
            want_eq!(iv.iter().min().map(|p| p.rank()), want.first().copied(), "min");
            want_eq!(iv.iter().max().map(|p| p.rank()), want.last().copied(), "max");
            want_eq!(iv.iter().fold(vec![], |mut v, p| { v.push(p.rank()); v }), want, "fold");
            want_eq!(iv.iter().rfold(vec![], |mut v, p| { v.insert(0, p.rank()); v }), want, "rfold");
            let k = rng.idx(n as usize + 2);
            let mut it = iv.iter();
            want_eq!(it.nth(k).map(|p| p.rank()), want.get(k).copied(), "nth({k})");
            want_eq!(it.next().map(|p| p.rank()), want.get(k + 1).copied(), "next after nth({k})");
            let mut it = iv.iter();
            let back = |j: usize| (want.len() > j).then(|| want[want.len() - 1 - j]);
            want_eq!(it.nth_back(k).map(|p| p.rank()), back(k), "nth_back({k})");
            want_eq!(it.next_back().map(|p| p.rank()), back(k + 1), "next_back after nth_back({k})");
            compare(iv.iter(), &want, |p| Ok(p.rank()), &mut rng, "iterator", ev)?;
            compare(iv.clone().into_iter(), &want, |p| Ok(p.rank()), &mut rng, "consuming iterator", ev)?;
            let pts: Vec<T> = want.iter().map(|r| T::from_rank(*r)).collect();
            compare_ord(iv.iter(), &pts, &mut rng, "iterator", ev)?;
            compare_ord(iv.clone().into_iter(), &pts, &mut rng, "consuming iterator", ev)?;
            bump(ev, "adapter results", 12);
        }
        Ok(())
    })
}
fn p05_small_t<T: Dom>(cx: &mut Ctx) {
    for s in all_spans(T::max_rank()) {
        let n = s.count() as u32;
        for bits in 0..1u64 << n { if !p05_case::<T>(cx, &s, Some(bits)) { return; } }
    }
}
fn p05_small(cx: &mut Ctx) { pick_small!(cx.block, p05_small_t, cx) }
fn p05_rand_t<T: Dom>(cx: &mut Ctx) {
    let max = T::max_rank();
    for _ in 0..40 {
        let hot = hot_ranks::<T>(&mut cx.rng);
        for _ in 0..10 {
            let s = if cx.rng.chance(1, 3) {
                let a = *cx.rng.pick(&hot);
                let w = cx.rng.below(300) as u128;
                if cx.rng.chance(1, 2) { RSet::range(a, a.saturating_add(w).min(max)) } else { RSet::range(a.saturating_sub(w), a) }
            } else { rand_span(&mut cx.rng, &hot, max) };
            if !p05_case::<T>(cx, &s, None) { return; }
        }
    }
    // A whole byte type, and whole small user types, end to end.
    if max < 256 { p05_case::<T>(cx, &RSet::full(max), None); }
    if max < 30_000 && cx.thorough { p05_case::<T>(cx, &RSet::full(max), None); }
}
fn p05_rand(cx: &mut Ctx) { pick_dom!(cx.block, p05_rand_t, cx) }

/// Intervals longer than any one or two byte count, walked to the end from one
/// side, from both, and by adapters.
fn long_t<T: Dom>(cx: &mut Ctx) {
    let max = T::max_rank();
    let n = [255u128, 256, 257, 1000, 65_535, 65_536, 65_537, 70_001, 100_000][cx.idx(9)].min(max.saturating_add(1));
    let room = max - (n - 1);
    let start = match cx.rng.below(4) { 0 => 0, 1 => room, 2 => (max / 2 + 1).saturating_sub(n / 2), _ => cx.rng.range128(0, room) };
    let s = RSet::range(start, start + (n - 1));
    let mut rng = cx.rng.clone();
    let at = |i: u128| if i < n { Some(start + i) } else { None };
    cx.case(hash_of(&(start, n, T::NAME, rng.clone().u64())), true, || format!("{}: long walk of {s:?}", T::NAME), |ev| {
        let (m, iv) = make::<T>(&mut rng, &s);
        let split = rng.below(n as u64 + 1) as u128;
        let (mut i, mut front_left, mut back_left) = (0u64, split, n - split);
        let style = rng.below(3);
        let mut r = rng.clone();
        let mut sched = || {
            i += 1;
            let front = match style { 0 => front_left > 0, 1 => back_left == 0, _ => if front_left == 0 { false } else if back_left == 0 { true } else { r.chance(1, 2) } };
            if front { front_left = front_left.saturating_sub(1) } else { back_left = back_left.saturating_sub(1) }
            Some(front)
        };
        if rng.chance(1, 2) { walk::<T>(&mut iv.iter(), (start, start + (n - 1)), n, &mut sched, ev)? } else { walk::<T>(&mut iv.clone().into_iter(), (start, start + (n - 1)), n, &mut sched, ev)? }
        want_eq!((iv.iter().count() as u128, iv.clone().into_iter().count() as u128), (n, n), "count of {m:?}");
        want_eq!(iv.iter().last().map(|p| p.rank()), at(n - 1), "last of {m:?}");
        want_eq!(iv.iter().max().map(|p| p.rank()), at(n - 1), "max of {m:?}");
        for _ in 0..6 {
            let k = match rng.below(3) { 0 => n - 1 - rng.below(3).min(n as u64 - 1) as u128, 1 => n + rng.below(2) as u128, _ => rng.below(n as u64) as u128 };
            let mut it = iv.iter();
            want_eq!((it.nth(k as usize).map(|p| p.rank()), it.next().map(|p| p.rank())), (at(k), at(k + 1)), "nth({k}) and next of {m:?}");
            let back = |k: u128| if k < n { at(n - 1 - k) } else { None };
            let mut it = iv.clone().into_iter();
            want_eq!((it.nth_back(k as usize).map(|p| p.rank()), it.next_back().map(|p| p.rank())), (back(k), back(k + 1)), "nth_back({k}) and next_back of {m:?}");
            let step = 1 + rng.below(700) as usize;
            want_eq!(iv.iter().step_by(step).map(|p| p.rank() % 1_000_003).sum::<u128>(), (0..n).step_by(step).map(|i| (start + i) % 1_000_003).sum::<u128>(), "sum by steps of {step} over {m:?}");
            want_eq!(iv.iter().rev().skip(k as usize).take(3).map(|p| p.rank()).collect::<Vec<_>>(), (k..k + 3).filter_map(back).collect::<Vec<_>>(), "reverse, skip {k}, of {m:?}");
        }
        let sum = |it: &mut dyn Iterator<Item = T>| it.fold((0u128, 0u128), |(a, b), p| (a + 1, b.wrapping_mul(31).wrapping_add(p.rank())));
        let exp = (0..n).fold((0u128, 0u128), |(a, b), i| (a + 1, b.wrapping_mul(31).wrapping_add(start + i)));
        want_eq!(sum(&mut iv.iter()), exp, "digest of {m:?}");
        want_eq!(iv.clone().into_iter().fold((0u128, 0u128), |(a, b), p| (a + 1, b.wrapping_mul(31).wrapping_add(p.rank()))), exp, "folded digest of {m:?}");
        bump(ev, "long walks", 1);
        Ok(())
    });
}
fn long(cx: &mut Ctx) {
    for _ in 0..if cx.thorough { 12 } else { 3 } {
        match cx.block % 7 {
            0 => long_t::<i32>(cx), 1 => long_t::<u128>(cx), 2 => long_t::<u16>(cx), 3 => long_t::<i64>(cx), 4 => long_t::<Ch>(cx), 5 => long_t::<Rev>(cx), _ => long_t::<i128>(cx),
        }
    }
}

fn suites(_: &str) -> Vec<Suite> {
    let s = |name, quick, thorough, run| Suite { name, quick, thorough, run };
    vec![s("small-schedules", 8, 8, p05_small as fn(&mut Ctx)), s("random", 20 * TYPES, 60 * TYPES, p05_rand), s("long-walks", 56, 560, long)]
}

fn main() {
    fn t<T: Dom>() { self_test_dom::<T>() }
    for i in 0..TYPES { pick_dom!(i, t,) }
    for i in 0..8 { pick_small!(i, t,) }
    main_with(suites)
}
