//! P02: interval equality, against the rank model.
#![allow(unused_imports)]
use nimon::dom::*;
use nimon::ivs::*;
use nimon::mon::*;
use nimon::rng::{mix, Rng};
use nimon::rset::RSet;
use nimon::{pick_dom, pick_small, want, want_eq};
use normalize_interval::normalize::{Finite, Normalize};
use normalize_interval::raw_interval::RawInterval;
use normalize_interval::Interval;
use std::ops::Sub;

/// Intervals for `s` reached in different ways, including set operations.
fn variants<T: Dom>(rng: &mut Rng, s: &RSet, n: usize) -> Vec<(String, Interval<T>)> {
    let max = T::max_rank();
    let mut base = Vec::new();
    let mut rec = match span(s) { Some((l, h)) => recipes_for(l, h, max), None => recipes_for_empty(rng, max) };
    while rec.len() > n { let i = rng.idx(rec.len()); rec.swap_remove(i); }
    for m in rec { base.push((format!("{m:?}"), m.build::<T>())); }
    let mut v = Vec::new();
    // Set operations that come out as `s`.
    match span(s) {
        Some((l, h)) => {
            let a = rng.range128(0, l);
            let b = rng.range128(h, max);
            let (ma, ia) = make::<T>(rng, &RSet::range(l, b));
            let (mb, ib) = make::<T>(rng, &RSet::range(a, h));
            v.push((format!("({ma:?}).intersect({mb:?})"), ia.intersect(&ib)));
            let k = rng.range128(l, h);
            let (mc, ic) = make::<T>(rng, &RSet::range(l, k));
            let (md, id) = make::<T>(rng, &RSet::range(k, h));
            v.push((format!("({mc:?}).enclose({md:?})"), ic.enclose(&id)));
            for u in ic.union(&id).take(3) { v.push((format!("({mc:?}).union({md:?})"), u)) }
            if h < max {
                let (me, ie) = make::<T>(rng, &RSet::range(h + 1, b.max(h + 1)));
                let (mf, f) = make::<T>(rng, &RSet::range(l, b));
                for p in f.minus(&ie).take(3) { v.push((format!("({mf:?}).minus({me:?})"), p)); }
                if l == 0 { for p in ie.complement().take(3) { v.push((format!("({me:?}).complement()"), p)); } }
            }
            v.push(("closure".into(), base[0].1.closure()));
        }
        None => {
            let k = rng.range128(0, max);
            let (ma, ia) = make::<T>(rng, &RSet::range(0, k));
            if k < max {
                let (mb, ib) = make::<T>(rng, &RSet::range(k + 1, max));
                v.push((format!("({ma:?}).intersect({mb:?})"), ia.intersect(&ib)));
            }
            let e = Interval::<T>::empty();
            v.push(("empty.closure".into(), e.closure()));
            v.push(("empty.enclose".into(), e.enclose(&e)));
        }
    }
    // Equality is judged among intervals observed to hold the same points;
    // whether an operation selects the right ones is another property.
    let probes = s.probes(max);
    v.retain(|x| check_points(&x.1, s, &probes).is_ok());
    base.extend(v);
    base
}
fn p02_group<T: Dom>(cx: &mut Ctx, s: &RSet, other: &RSet) -> bool {
    let max = T::max_rank();
    let mut rng = cx.rng.clone();
    cx.rng.u64();
    cx.case(hash_of(&(s, other, max)), s.count() > 0, || format!("{}[0..={max}]: points {s:?} vs {other:?}", T::NAME), |ev| {
        let vs = variants::<T>(&mut rng, s, 12);
        let (on, o) = make::<T>(&mut rng, other);
        let (n0, v0) = &vs[0];
        for (n, v) in &vs {
            want!(v == v0 && v0 == v && !(v != v0), "same points {s:?}, not equal: {n} = {v:?} and {n0} = {v0:?}");
            want!(hash_of(v) == hash_of(v0), "same points {s:?}, hashes differ: {n} = {v:?} and {n0} = {v0:?}");
            want!((v == &o) == (s == other), "{n} = {v:?} against {on:?} = {o:?}: == says {}", v == &o);
            want_eq!(*v == Interval::empty(), s.is_empty(), "{n}: equality with the empty interval");
            let mut c = o.clone();
            c.clone_from(v);
            want!(c == *v && hash_of(&c) == hash_of(v), "{n} = {v:?} cloned over {o:?} gives {c:?}");
            if let Some((l, h)) = span(s) {
                want_eq!(*v == Interval::point(T::from_rank(l)), l == h, "{n}: equality with the point interval");
            }
        }
        bump(ev, "equality comparisons", vs.len() as u64 * 3);
        Ok(())
    })
}
fn p02_small_t<T: Dom>(cx: &mut Ctx) {
    let all = all_spans(T::max_rank());
    for s in &all { for o in &all { if !p02_group::<T>(cx, s, o) { return; } } }
}
fn p02_small(cx: &mut Ctx) { pick_small!(cx.block, p02_small_t, cx) }
/// Every recipe of a small type grouped by its points: one class per set.
fn p02_classes_t<T: Dom>(cx: &mut Ctx) {
    let max = T::max_rank();
    let rec = Mk::over(&all_ranks(max));
    for (i, m) in rec.iter().enumerate() {
        for n in &rec[i..] {
            let eq = m.set(max) == n.set(max);
            if !cx.case(key2(m.key(), n.key()) ^ max as u64, eq && !m.set(max).is_empty(), || format!("D<{}>: {m:?} vs {n:?}", max + 1), |ev| {
                let (a, b): (Interval<T>, Interval<T>) = (m.build(), n.build());
                want!((a == b) == eq, "{m:?} = {a:?} and {n:?} = {b:?}: == says {}, points say {}", a == b, eq);
                want!(!eq || hash_of(&a) == hash_of(&b), "{m:?} = {a:?} and {n:?} = {b:?}: equal points, different hashes");
                bump(ev, if eq { "equal pairs" } else { "different pairs" }, 1);
                Ok(())
            }) { return; }
        }
    }
}
fn p02_classes(cx: &mut Ctx) { pick_small!(cx.block, p02_classes_t, cx) }
fn p02_rand_t<T: Dom>(cx: &mut Ctx) {
    let max = T::max_rank();
    for _ in 0..60 {
        let hot = hot_ranks::<T>(&mut cx.rng);
        for _ in 0..20 {
            let s = rand_span(&mut cx.rng, &hot, max);
            let o = if cx.rng.chance(1, 4) { s.clone() } else { rand_span(&mut cx.rng, &hot, max) };
            if !p02_group::<T>(cx, &s, &o) { return; }
        }
    }
}
fn p02_rand(cx: &mut Ctx) { pick_dom!(cx.block, p02_rand_t, cx) }

fn suites(_: &str) -> Vec<Suite> {
    let s = |name, quick, thorough, run| Suite { name, quick, thorough, run };
    vec![s("small-pairs", 6, 8, p02_small as fn(&mut Ctx)), s("small-classes", 5, 7, p02_classes), s("random", 20 * TYPES, 60 * TYPES, p02_rand)]
}

fn main() {
    fn t<T: Dom>() { self_test_dom::<T>() }
    for i in 0..TYPES { pick_dom!(i, t,) }
    for i in 0..8 { pick_small!(i, t,) }
    main_with(suites)
}
