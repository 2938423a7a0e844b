//! P03: interval accessors, against the rank model.
#![allow(unused_imports)]
use nimon::dom::*;
use nimon::ivs::*;
use nimon::mon::*;
use nimon::rng::{mix, Rng};
use nimon::rset::RSet;
use nimon::{pick_dom, pick_small, want, want_eq};
use normalize_interval::normalize::{Finite, Normalize};
use normalize_interval::raw_interval::RawInterval;
use normalize_interval::Interval;
use std::ops::Sub;

fn p03_iv<T: Dom>(iv: &Interval<T>, s: &RSet, ev: &mut Ev) -> Verdict {
    let sp = span(s);
    want_eq!(ends(iv)?, sp, "bounds of {iv:?} as ranks");
    want_eq!(iv.infimum().map(|p| p.rank()), sp.map(|x| x.0), "infimum of {iv:?}");
    want_eq!(iv.supremum().map(|p| p.rank()), sp.map(|x| x.1), "supremum of {iv:?}");
    let n = s.count();
    want_eq!(iv.is_empty(), n == 0, "is_empty of {iv:?}");
    want_eq!(iv.is_degenerate(), n == 1, "is_degenerate of {iv:?}");
    want_eq!(iv.is_proper(), n > 1, "is_proper of {iv:?}");
    match iv.clone().into_non_empty() {
        None => want!(n == 0, "into_non_empty of {iv:?} lost its points"),
        Some(k) => { want!(n > 0, "into_non_empty of {iv:?} kept an empty interval"); want_eq!(ends(&k)?, sp, "into_non_empty of {iv:?}"); }
    }
    want!(iv.is_closed(), "{iv:?} not closed");
    want!(iv.is_bounded() && iv.is_left_bounded() && iv.is_right_bounded(), "{iv:?} not bounded on both sides");
    want!(!iv.is_half_bounded(), "{iv:?} half-bounded");
    want!(!iv.is_half_open(), "{iv:?} half-open");
    want!(!iv.is_half_closed(), "{iv:?} half-closed");
    if n > 0 {
        want!(iv.is_left_closed() && iv.is_right_closed(), "{iv:?} not closed on both sides");
        want!(!iv.is_open() && !iv.is_left_open() && !iv.is_right_open(), "{iv:?} reported open");
    }
    bump(ev, if n == 0 { "empty intervals read" } else if n == 1 { "points read" } else { "proper intervals read" }, 1);
    Ok(())
}
fn p03_case<T: Dom>(cx: &mut Ctx, m: Mk) -> bool {
    let max = T::max_rank();
    let s = m.set(max);
    cx.case(m.key() ^ mix(max as u64), !s.is_empty(), || format!("{}[0..={max}]: {m:?}", T::NAME), |ev| p03_iv::<T>(&m.build(), &s, ev))
}
fn p03_small_t<T: Dom>(cx: &mut Ctx) { for m in Mk::over(&all_ranks(T::max_rank())) { if !p03_case::<T>(cx, m) { return; } } }
fn p03_small(cx: &mut Ctx) { pick_small!(cx.block, p03_small_t, cx) }
fn p03_crit_t<T: Dom>(cx: &mut Ctx) { for m in Mk::over(&critical::<T>()) { if !p03_case::<T>(cx, m) { return; } } }
fn p03_crit(cx: &mut Ctx) { pick_dom!(cx.block, p03_crit_t, cx) }
fn p03_rand_t<T: Dom>(cx: &mut Ctx) {
    for _ in 0..60 {
        let hot = hot_ranks::<T>(&mut cx.rng);
        for _ in 0..60 { let m = Mk::random(&mut cx.rng, &hot); if !p03_case::<T>(cx, m) { return; } }
        // Results of operations, not only of constructors.
        let max = T::max_rank();
        for _ in 0..20 {
            let (a, b) = (rand_span(&mut cx.rng, &hot, max), rand_span(&mut cx.rng, &hot, max));
            let (ma, ia) = make::<T>(&mut cx.rng, &a);
            let (mb, ib) = make::<T>(&mut cx.rng, &b);
            if !cx.case(hash_of(&(ma, mb)), true, || format!("{}: results of {ma:?} with {mb:?}", T::NAME), |ev| {
                p03_iv(&ia.intersect(&ib), &a.intersect(&b), ev)?;
                let e = a.union(&b);
                p03_iv(&ia.enclose(&ib), &match (e.first(), e.last()) { (Some(l), Some(h)) => RSet::range(l, h), _ => RSet::empty() }, ev)?;
                p03_iv(&ia.closure(), &a, ev)
            }) { return; }
        }
    }
}
fn p03_rand(cx: &mut Ctx) { pick_dom!(cx.block, p03_rand_t, cx) }

/// Numbers: `of(n)` is the value `n`, when the type has it.
trait Num: Dom + Sub<Output = Self> { fn of(n: u128) -> Option<Self>; }
macro_rules! num { ($($t:ident),*) => { $(impl Num for $t { fn of(n: u128) -> Option<Self> { <$t>::try_from(n).ok() } })* } }
num![u8, i8, u16, i16, u32, i32, u64, i64, u128, i128, usize, isize];
fn size_case<T: Num>(cx: &mut Ctx, s: &RSet) -> bool {
    let mut rng = cx.rng.clone();
    cx.rng.u64();
    cx.case(hash_of(&(s, T::NAME)), s.count() > 1, || format!("{}: size of {s:?}", T::NAME), |ev| {
        let (m, iv) = make::<T>(&mut rng, s);
        match span(s) {
            None => want_eq!(iv.size(), None, "size of {m:?}"),
            Some((l, h)) => match T::of(h - l) {
                Some(d) => { want_eq!(iv.size(), Some(d), "size of {m:?}"); bump(ev, "sizes read", 1); }
                None => bump(ev, "sizes not representable", 1),
            },
        }
        Ok(())
    })
}
fn p03_size_t<T: Num>(cx: &mut Ctx) {
    let c = critical::<T>();
    for &a in &c { for &b in &c { if a <= b && !size_case::<T>(cx, &RSet::range(a, b)) { return; } } }
    if !size_case::<T>(cx, &RSet::empty()) { return; }
    for _ in 0..500 {
        let hot = hot_ranks::<T>(&mut cx.rng);
        let s = rand_span(&mut cx.rng, &hot, T::max_rank());
        if !size_case::<T>(cx, &s) { return; }
    }
}
/// User types with a difference of their own: the size is the supremum minus
/// the infimum by that difference, whatever its sign or wrapping.
fn size_own_t<T: Dom + Sub<Output = T>>(cx: &mut Ctx) {
    let max = T::max_rank();
    let c = critical::<T>();
    let mut all: Vec<RSet> = vec![RSet::empty()];
    for &a in &c { for &b in &c { all.push(RSet::range(a, b)); } }
    for _ in 0..300 { let hot = hot_ranks::<T>(&mut cx.rng); all.push(rand_span(&mut cx.rng, &hot, max)); }
    for s in all {
        let mut rng = cx.rng.clone();
        cx.rng.u64();
        if !cx.case(hash_of(&(&s, T::NAME)), s.count() > 1, || format!("{}: size of {s:?} by its own difference", T::NAME), |ev| {
            let (m, iv) = make::<T>(&mut rng, &s);
            want_eq!(iv.size(), span(&s).map(|(l, h)| T::from_rank(h) - T::from_rank(l)), "size of {m:?}");
            bump(ev, "sizes read", 1);
            Ok(())
        }) { return; }
    }
}
fn p03_size(cx: &mut Ctx) {
    match cx.block % 15 {
        12 => size_own_t::<Rev>(cx), 13 => size_own_t::<Sparse>(cx), 14 => size_own_t::<Ch>(cx),
        0 => p03_size_t::<u8>(cx), 1 => p03_size_t::<i8>(cx), 2 => p03_size_t::<u16>(cx), 3 => p03_size_t::<i16>(cx),
        4 => p03_size_t::<u32>(cx), 5 => p03_size_t::<i32>(cx), 6 => p03_size_t::<u64>(cx), 7 => p03_size_t::<i64>(cx),
        8 => p03_size_t::<u128>(cx), 9 => p03_size_t::<i128>(cx), 10 => p03_size_t::<usize>(cx), _ => p03_size_t::<isize>(cx),
    }
}

fn suites(_: &str) -> Vec<Suite> {
    let s = |name, quick, thorough, run| Suite { name, quick, thorough, run };
    vec![s("small-exhaustive", 8, 8, p03_small as fn(&mut Ctx)), s("critical-points", TYPES, TYPES, p03_crit), s("random", 20 * TYPES, 60 * TYPES, p03_rand), s("size", 240, 1200, p03_size)]
}

fn main() {
    fn t<T: Dom>() { self_test_dom::<T>() }
    for i in 0..TYPES { pick_dom!(i, t,) }
    for i in 0..8 { pick_small!(i, t,) }
    main_with(suites)
}
