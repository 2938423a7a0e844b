//! P19: normal forms, against the rank model.
#![allow(unused_imports)]
use nimon::dom::*;
use nimon::ivs::*;
use nimon::mon::*;
use nimon::rng::{mix, Rng};
use nimon::rset::RSet;
use nimon::{pick_dom, pick_small, want, want_eq};
use normalize_interval::normalize::{Finite, Normalize};
use normalize_interval::raw_interval::RawInterval;
use normalize_interval::Interval;
use std::ops::Sub;

fn p19_case<T: Dom>(cx: &mut Ctx, r: Raw, probes: Option<&[u128]>) -> bool {
    let max = T::max_rank();
    let s = r.set(max);
    cx.case(Mk::Raw(r).key() ^ mix(max as u64), !s.is_empty(), || format!("{}[0..={max}]: {r:?}", T::NAME), |ev| {
        let raw: RawInterval<T> = r.build();
        let own;
        let pr = match probes { Some(p) => p, None => { own = s.probes(max); &own } };
        let same = |x: &RawInterval<T>, what: &str| -> Verdict {
            for &k in pr { want_eq!(x.contains(&T::from_rank(k)), s.contains(k), "{what} {x:?} contains(rank {k})"); }
            Ok(())
        };
        same(&raw, "raw")?;
        let n = raw.clone().normalized();
        same(&n, "normalized")?;
        let shape = match (&n, span(&s)) {
            (RawInterval::Empty, None) => true,
            (RawInterval::Point(p), Some((l, h))) => l == h && p.rank() == l,
            (RawInterval::Closed(a, b), Some((l, h))) => l < h && a.rank() == l && b.rank() == h,
            _ => false,
        };
        want!(shape, "normalized gives {n:?} for points {s:?}");
        want_eq!(n.clone().normalized(), n, "normalizing twice");
        let mut ip = raw.clone();
        ip.normalize();
        want_eq!(ip, n, "normalize in place");
        let d = raw.clone().denormalized();
        same(&d, "denormalized")?;
        let mut ip = raw.clone();
        ip.denormalize();
        want_eq!(ip, d, "denormalize in place");
        let dn = n.clone().denormalized();
        same(&dn, "normalized then denormalized")?;
        if !s.is_empty() {
            want!(matches!(dn, RawInterval::Open(..) | RawInterval::UpTo(_) | RawInterval::UpFrom(_) | RawInterval::Full),
                "denormalizing {n:?} gives {dn:?}, which has an inclusive side");
            want_eq!(dn.clone().normalized(), n, "denormalizing then normalizing {n:?}");
        }
        // Denormalising twice keeps the points as well.
        same(&d.clone().denormalized(), "denormalized twice")?;
        want_eq!(d.normalized(), n, "denormalizing then normalizing the raw interval");
        bump(ev, "normal forms compared", 7);
        Ok(())
    })
}
fn p19_over<T: Dom>(cx: &mut Ctx, ranks: &[u128], pr: Option<&[u128]>) {
    for r in [Raw::Empty, Raw::Full] { if !p19_case::<T>(cx, r, pr) { return; } }
    for &a in ranks {
        for r in Raw::all1(a) { if !p19_case::<T>(cx, r, pr) { return; } }
        for &b in ranks { for r in Raw::all2(a, b) { if !p19_case::<T>(cx, r, pr) { return; } } }
    }
}
fn p19_small_t<T: Dom>(cx: &mut Ctx) { let r = all_ranks(T::max_rank()); p19_over::<T>(cx, &r, Some(&r)) }
fn p19_small(cx: &mut Ctx) { pick_small!(cx.block, p19_small_t, cx) }
fn p19_crit_t<T: Dom>(cx: &mut Ctx) {
    p19_over::<T>(cx, &critical::<T>(), None);
    for _ in 0..20 { let hot = hot_ranks::<T>(&mut cx.rng); p19_over::<T>(cx, &hot, None); }
}
fn p19_crit(cx: &mut Ctx) { pick_dom!(cx.block, p19_crit_t, cx) }

fn suites(_: &str) -> Vec<Suite> {
    let s = |name, quick, thorough, run| Suite { name, quick, thorough, run };
    vec![s("small-exhaustive", 8, 8, p19_small as fn(&mut Ctx)), s("critical-points", TYPES, 40 * TYPES, p19_crit)]
}

fn main() {
    fn t<T: Dom>() { self_test_dom::<T>() }
    for i in 0..TYPES { pick_dom!(i, t,) }
    for i in 0..8 { pick_small!(i, t,) }
    main_with(suites)
}
