//! P24: serialised values restore to equal values with identical behaviour,
//! through five encodings; intervals restored from any bounds are normal.
use nimon::dom::*;
use nimon::grid::*;
use nimon::ivs::*;
use nimon::mon::*;
use nimon::rng::{hash_str, mix, Rng};
use nimon::rset::RSet;
use nimon::sel::*;
use nimon::{want, want_eq};
use normalize_interval::raw_interval::RawInterval;
use normalize_interval::tine_tree::TineTree;
use normalize_interval::{Bound, Interval, Selection};
use serde::de::DeserializeOwned;
use serde::Serialize;
use std::fmt::Debug;
use std::hash::Hash;

const FORMATS: u64 = 6;
const NAMES: [&str; FORMATS as usize] = ["JSON", "pretty JSON", "JSON value", "bincode", "CBOR", "big-endian bincode"];
/// Writes `v` and reads it back as `U`, in the `f`-th encoding.
fn cross<V: Serialize, U: DeserializeOwned>(v: &V, f: u64) -> Result<U, String> {
    use bincode::Options;
    let e = |s: String| format!("{}: {s}", NAMES[f as usize]);
    match f {
        0 => { let s = serde_json::to_string(v).map_err(|x| e(x.to_string()))?; serde_json::from_str(&s).map_err(|x| e(format!("{x} reading {s}"))) }
        1 => { let s = serde_json::to_vec_pretty(v).map_err(|x| e(x.to_string()))?; serde_json::from_reader(&s[..]).map_err(|x| e(x.to_string())) }
        2 => { let s = serde_json::to_value(v).map_err(|x| e(x.to_string()))?; serde_json::from_value(s).map_err(|x| e(x.to_string())) }
        3 => { let s = bincode::serialize(v).map_err(|x| e(x.to_string()))?; bincode::deserialize(&s).map_err(|x| e(x.to_string())) }
        4 => { let mut s = Vec::new(); ciborium::into_writer(v, &mut s).map_err(|x| e(x.to_string()))?; ciborium::from_reader(&s[..]).map_err(|x| e(x.to_string())) }
        _ => { let o = bincode::DefaultOptions::new().with_big_endian(); let s = o.serialize(v).map_err(|x| e(x.to_string()))?; o.deserialize(&s).map_err(|x| e(x.to_string())) }
    }
}
/// Restores `v` from the `f`-th encoding and compares.
fn restored<V: Serialize + DeserializeOwned + PartialEq + Hash + Debug>(v: &V, f: u64, ev: &mut Ev) -> Result<V, String> {
    let r: V = cross(v, f)?;
    want!(r == *v && *v == r && !(r != *v), "{v:?} restored from {} is {r:?}, which is not equal", NAMES[f as usize]);
    want_eq!(hash_of(&r), hash_of(v), "hash of {v:?} restored from {}", NAMES[f as usize]);
    bump(ev, "values restored", 1);
    Ok(r)
}

/// Two intervals or sets that must be indistinguishable.
fn alike<X: Space>(a: &X::S, b: &X::S, salt: u64, probes: &[u128]) -> Verdict where X::S: Eq {
    want!(a == b, "not equal: {a:?} {b:?}");
    want_eq!(hash_of(a), hash_of(b), "hash");
    for p in probes { want_eq!(X::contains(b, *p), X::contains(a, *p), "contains({})", X::atom_name(*p)); }
    for own in [false, true] {
        want_eq!(X::intervals(b, own).take(2000).collect::<Vec<_>>(), X::intervals(a, own).take(2000).collect::<Vec<_>>(), "intervals");
        want_eq!(X::intervals(b, own).rev().take(2000).collect::<Vec<_>>(), X::intervals(a, own).rev().take(2000).collect::<Vec<_>>(), "reversed intervals");
    }
    let mut rng = Rng::new(salt);
    let (mut x, mut y) = (X::intervals(a, false), X::intervals(b, false));
    for _ in 0..12 {
        if rng.chance(1, 2) { want_eq!(y.next(), x.next(), "front step"); } else { want_eq!(y.next_back(), x.next_back(), "back step"); }
    }
    Ok(())
}

/// The same history with and without values being restored in between.
fn twin<X: Space>(ops: &[Op], salt: u64, ev: &mut Ev) -> Verdict where X::S: Serialize + DeserializeOwned + Eq, X::I: Serialize + DeserializeOwned + Hash {
    let mut rng = Rng::new(salt);
    let mut plain = Regs::<X>::new(NREG);
    let mut back = Regs::<X>::new(NREG);
    for op in ops {
        let (a, b) = (guarded(|| plain.apply(op, ev)), guarded(|| back.apply(op, &mut Ev::new())));
        let d = match (a, b) {
            (Ok(d), Ok(_)) => d,
            (Err(_), Err(_)) => { bump(ev, "histories ended by a panic of both twins (not judged here)", 1); return Ok(()); }
            (a, b) => return Err(format!("{op:?}: plain {a:?}, with restored values {b:?}")),
        };
        if rng.chance(2, 3) { back.real[d] = restored(&back.real[d], rng.below(FORMATS), ev).map_err(|m| format!("after {op:?}: {m}"))?; }
        if rng.chance(1, 4) {
            for i in X::intervals(&plain.real[d], false).take(40) { restored(&i, rng.below(FORMATS), ev)?; }
        }
        let pr = plain.model[d].probes(X::max());
        let pr: Vec<u128> = (0..12).map(|_| *rng.pick(&pr)).collect();
        alike::<X>(&plain.real[d], &back.real[d], rng.u64(), &pr).map_err(|m| format!("after {op:?}, restored set behaves differently: {m}"))?;
        bump(ev, "twin comparisons", 1);
    }
    Ok(())
}
fn twins<X: Space>(cx: &mut Ctx) where X::S: Serialize + DeserializeOwned + Eq, X::I: Serialize + DeserializeOwned + Hash {
    let n = if cx.thorough { 300 } else { 100 };
    for i in 0..n {
        let hot = X::hot(&mut cx.rng);
        let l = 2 + cx.rng.idx(40);
        let ops: Vec<Op> = (0..l).map(|_| rand_op::<X>(&mut cx.rng, &hot, OpSet::All, i % 2 == 0)).collect();
        let salt = cx.rng.u64();
        if !cx.case(hash_str(&format!("{}{ops:?}", X::NAME)), l > 3, || format!("{} history {ops:?}", X::NAME), |ev| {
            twin::<X>(&ops, salt, ev).map_err(|m| {
                let short = shrink(&ops, |o| twin::<X>(o, salt, &mut Ev::new()).is_err());
                format!("{m} | reduced to {short:?}")
            })
        }) { return; }
    }
}
fn sel_twins(cx: &mut Ctx) {
    match cx.block % 10 {
        0 => twins::<Fin<u8>>(cx), 1 => twins::<Fin<i8>>(cx), 2 => twins::<Fin<i32>>(cx), 3 => twins::<Fin<u64>>(cx), 4 => twins::<Fin<i64>>(cx),
        5 => twins::<Fin<Rev>>(cx), 6 => twins::<Fin<Sparse>>(cx), 7 => twins::<Fin<Ch>>(cx), 8 => twins::<Fin<Lex>>(cx), _ => twins::<Fin<u16>>(cx),
    }
}
fn tree_twins(cx: &mut Ctx) {
    match cx.block % 4 {
        0 => twins::<Dense<i64, 5>>(cx), 1 => twins::<Dense<String, 40>>(cx), 2 => twins::<Dense<Down, 7>>(cx), _ => twins::<Dense<Fl, 300>>(cx),
    }
}

/// The queries of two selections, one of them restored.
fn sel_queries<T: Dom + Serialize + DeserializeOwned>(a: &Selection<T>, b: &Selection<T>) -> Verdict {
    want_eq!((b.lower_bound(), b.upper_bound(), b.infimum(), b.supremum()), (a.lower_bound(), a.upper_bound(), a.infimum(), a.supremum()), "bounds of restored {b:?}");
    want_eq!((b.is_empty(), b.is_full(), b.is_bounded(), b.is_left_bounded(), b.is_right_bounded(), b.is_half_bounded()),
        (a.is_empty(), a.is_full(), a.is_bounded(), a.is_left_bounded(), a.is_right_bounded(), a.is_half_bounded()), "predicates of restored {b:?}");
    want_eq!((b.enclose(), b.closure(), b.intersects(a)), (a.enclose(), a.closure(), a.intersects(a)), "enclosures of restored {b:?}");
    want_eq!(b.iter().take(40).collect::<Vec<_>>(), a.iter().take(40).collect::<Vec<_>>(), "points of restored {b:?}");
    want_eq!(b.iter().rev().take(40).collect::<Vec<_>>(), a.iter().rev().take(40).collect::<Vec<_>>(), "points of restored {b:?} in reverse");
    want_eq!(b.clone().into_iter().take(40).collect::<Vec<_>>(), a.iter().take(40).collect::<Vec<_>>(), "points of restored {b:?}");
    Ok(())
}
/// The queries of two intervals, one of them restored.
fn iv_queries<T: Dom>(a: &Interval<T>, b: &Interval<T>, o: &Interval<T>) -> Verdict {
    want_eq!((b.lower_bound(), b.upper_bound(), b.infimum(), b.supremum()), (a.lower_bound(), a.upper_bound(), a.infimum(), a.supremum()), "bounds of restored {b:?}");
    want_eq!((b.is_empty(), b.is_degenerate(), b.is_proper(), b.is_bounded(), b.is_closed(), b.is_open()),
        (a.is_empty(), a.is_degenerate(), a.is_proper(), a.is_bounded(), a.is_closed(), a.is_open()), "predicates of restored {b:?}");
    want_eq!((b.intersect(o), b.enclose(o), b.intersects(o), b.is_adjacent_to(o), b.closure(), b.clone().into_non_empty()),
        (a.intersect(o), a.enclose(o), a.intersects(o), a.is_adjacent_to(o), a.closure(), a.clone().into_non_empty()), "operations of restored {b:?} with {o:?}");
    want_eq!(b.union(o).collect::<Vec<_>>(), a.union(o).collect::<Vec<_>>(), "union of restored {b:?} with {o:?}");
    want_eq!(b.minus(o).collect::<Vec<_>>(), a.minus(o).collect::<Vec<_>>(), "difference of restored {b:?} with {o:?}");
    want_eq!(b.complement().collect::<Vec<_>>(), a.complement().collect::<Vec<_>>(), "complement of restored {b:?}");
    want_eq!(b.iter().take(20).collect::<Vec<_>>(), a.iter().take(20).collect::<Vec<_>>(), "points of restored {b:?}");
    want_eq!(b.iter().rev().take(20).collect::<Vec<_>>(), a.iter().rev().take(20).collect::<Vec<_>>(), "points of restored {b:?} in reverse");
    want_eq!(Selection::from(b.clone()), Selection::from(a.clone()), "selection of restored {b:?}");
    Ok(())
}

/// An interval through every encoding, and its bounds in every notation read as an interval.
fn interval_case<T: Dom + Serialize + DeserializeOwned>(cx: &mut Ctx, m: Mk, o: Mk) -> bool {
    let max = T::max_rank();
    cx.case(m.key() ^ mix(o.key()) ^ hash_str(T::NAME), !m.set(max).is_empty(), || format!("{}[0..={max}]: {m:?}, with {o:?}", T::NAME), |ev| {
        let a: Interval<T> = m.build();
        let o: Interval<T> = o.build();
        for f in 0..FORMATS {
            let b = restored(&a, f, ev)?;
            iv_queries(&a, &b, &o)?;
            if let Some(l) = a.lower_bound() { restored(&l, f, ev)?; }
            restored(&Some(a.clone()), f, ev)?;
            restored(&Selection::from(a.clone()), f, ev)?;
        }
        if let Mk::Raw(r) = m {
            let raw: RawInterval<T> = r.build();
            for f in 0..FORMATS {
                restored(&raw, f, ev)?;
                let b: Interval<T> = cross(&raw, f)?;
                want_eq!(b, Interval::from(raw.clone()), "interval restored from the bounds {raw:?} by {}", NAMES[f as usize]);
                check_points(&b, &m.set(max), &m.set(max).probes(max))?;
                iv_queries(&a, &b, &o)?;
                let v: Vec<Interval<T>> = cross(&vec![raw.clone(), RawInterval::Empty, raw.clone()], f)?;
                want_eq!(v[2], a, "interval restored within a list");
                bump(ev, "intervals restored from raw bounds", 2);
            }
        }
        Ok(())
    })
}
fn small_ivs<T: Dom + Serialize + DeserializeOwned>(cx: &mut Ctx, ranks: Vec<u128>) {
    let mut all = Mk::over(&ranks);
    // Bounds out of order too.
    for &a in &ranks { for &b in &ranks { all.extend(Raw::all2(a, b).iter().map(|r| Mk::Raw(*r))); } }
    let n = all.len();
    for i in 0..n {
        if i as u64 % cx.blocks.div_ceil(8) != cx.block / 8 { continue; }
        let o = all[cx.rng.idx(n)];
        if !interval_case::<T>(cx, all[i], o) { return; }
    }
}
fn intervals(cx: &mut Ctx) {
    match cx.block % 8 {
        0 => small_ivs::<u8>(cx, critical::<u8>()), 1 => small_ivs::<i16>(cx, critical::<i16>()), 2 => small_ivs::<u64>(cx, critical::<u64>()), 3 => small_ivs::<i32>(cx, critical::<i32>()),
        4 => small_ivs::<Rev>(cx, critical::<Rev>()), 5 => small_ivs::<Ch>(cx, critical::<Ch>()), 6 => small_ivs::<Lex>(cx, all_ranks(14)), _ => small_ivs::<i64>(cx, critical::<i64>()),
    }
}
fn rand_ivs<T: Dom + Serialize + DeserializeOwned>(cx: &mut Ctx) {
    for _ in 0..400 {
        let hot = hot_ranks::<T>(&mut cx.rng);
        let (m, o) = (Mk::random(&mut cx.rng, &hot), Mk::random(&mut cx.rng, &hot));
        if !interval_case::<T>(cx, m, o) { return; }
    }
}
fn random_ivs(cx: &mut Ctx) {
    match cx.block % 5 { 0 => rand_ivs::<u64>(cx), 1 => rand_ivs::<i64>(cx), 2 => rand_ivs::<Sparse>(cx), 3 => rand_ivs::<u32>(cx), _ => rand_ivs::<i8>(cx) }
}

/// Raw intervals, bounds and trees over any order.
fn raw_t<K: Key + Serialize + DeserializeOwned, const N: u32>(cx: &mut Ctx) {
    for r in Dense::<K, N>::ranges() {
        if !cx.case(hash_of(&(r, K::NAME)), r.is_some(), || format!("{}: {:?}", K::NAME, Dense::<K, N>::raw(r)), |ev| {
            let i = Dense::<K, N>::raw(r);
            for f in 0..FORMATS {
                let b = restored(&i, f, ev)?;
                for a in 0..=Dense::<K, N>::MAX { let k = K::at(a as i64); want_eq!(b.contains(&k), i.contains(&k), "restored {b:?} contains {k:?}"); }
                for x in i.lower_bound().into_iter().chain(i.upper_bound()) {
                    let y: Bound<K> = restored(&x, f, ev)?;
                    want_eq!((y.is_finite(), y.is_inclusive(), y.is_exclusive(), y.as_ref()), (x.is_finite(), x.is_inclusive(), x.is_exclusive(), x.as_ref()), "restored bound");
                }
                restored(&TineTree::from_raw_interval(i.clone()), f, ev)?;
                restored(&(i.clone(), i.complement().collect::<Vec<_>>()), f, ev)?;
            }
            Ok(())
        }) { return; }
    }
}
fn raws(cx: &mut Ctx) {
    match cx.block % 4 { 0 => raw_t::<i64, 4>(cx), 1 => raw_t::<String, 3>(cx), 2 => raw_t::<Down, 4>(cx), _ => raw_t::<Fl, 4>(cx) }
}

/// Every selection of a byte's edge points, through every encoding.
fn small_sels(cx: &mut Ctx) {
    fn go<T: Dom + Serialize + DeserializeOwned>(cx: &mut Ctx, ranks: &[u128]) {
        for mask in 0..1u64 << ranks.len() {
            let salt = cx.rng.u64();
            if !cx.case(mask ^ hash_str(T::NAME), mask != 0, || format!("{}: points {mask:b} of {ranks:?}", T::NAME), |ev| {
                let m = RSet::from_ranges(ranks.iter().enumerate().filter(|(i, _)| mask >> i & 1 == 1).map(|(_, r)| (*r, *r)).collect());
                let s = build::<Fin<T>>(&m, salt);
                for f in 0..FORMATS { sel_queries(&s, &restored(&s, f, ev)?)?; }
                Ok(())
            }) { return; }
        }
    }
    match cx.block {
        0 => go::<u8>(cx, &[0, 1, 2, 127, 128, 253, 254, 255]),
        1 => go::<i32>(cx, &[0, 1, 2, (1 << 31) - 1, 1 << 31, (1 << 32) - 3, (1 << 32) - 2, (1 << 32) - 1]),
        2 => go::<Lex>(cx, &[0, 1, 2, 3, 7, 12, 13, 14]),
        _ => go::<Ch>(cx, &[0, 1, 0xD7FF, 0xD800, 0xD801, Ch::max_rank() - 1, Ch::max_rank()]),
    }
}

/// One of them.
fn large_one<X: Space>(m: &RSet, f: u64, salt: u64, ev: &mut Ev) -> Verdict where X::S: Serialize + DeserializeOwned + Eq, X::I: Serialize + DeserializeOwned + Hash {
    let max = X::max();
    nimon::dom::budget(CASE_STEPS + 4 * (m.v.len() as u64).pow(2));
    let mut rng = Rng::new(salt);
    let a = build::<X>(m, salt);
    let t = restored(&a, f, ev)?;
    let mut g = Regs::<X> { real: vec![a, t], model: vec![m.clone(), m.clone()] };
    let pr = m.probes(max);
    for k in 0..4 {
        if late() { break; }
        beat();
        let p: Vec<u128> = (0..12).map(|_| *rng.pick(&pr)).chain(pr.last().copied()).collect();
        alike::<X>(&g.real[0], &g.real[1], rng.u64(), &p).map_err(|e| format!("restored set behaves differently after {k} operations: {e}"))?;
        want_eq!(X::intervals(&g.real[1], true).count(), g.model[1].v.len(), "intervals of the restored set after {k} operations");
        let c = *rng.pick(&pr);
        let (r, s) = (Some((c, c.saturating_add(rng.below(5) as u128).min(max))), rng.u64());
        for d in 0..2 { g.apply(&match k { 0 => Op::MinusIn(d, r, s), 1 => Op::UnionIn(d, r, s), _ => Op::IntersectIn(d, Some((0, c)), s) }, ev); }
    }
    bump(ev, "large sets restored", 1);
    Ok(())
}
/// Sets of many intervals through every encoding, and used afterwards.
fn large_t<X: Space>(cx: &mut Ctx, n: usize) where X::S: Serialize + DeserializeOwned + Eq, X::I: Serialize + DeserializeOwned + Hash {
    let max = X::max();
    let mut n = n + cx.rng.idx(3);
    if n > 5000 {
        // Slow code is no violation: smaller sets for it.
        let cap = calibrated(std::any::type_name::<X>(), || (affordable(4.0, 8192, |n| {
            let m = RSet::from_ranges((0..n as u128).map(|k| (4 * k, 4 * k + 1)).collect());
            (0..8).map(|k| {
                let t = cpu_time(false);
                let _ = guarded(|| large_one::<X>(&m, k % FORMATS, k, &mut Ev::new()));
                beat();
                (cpu_time(false) - t).as_secs_f64()
            }).fold(0.0, f64::max)
        }), 0)).0;
        if cap < n { cx.ev("large sets made smaller for lack of time", 1); n = cap; }
    }
    let (width, gap) = (1 + cx.rng.below(3) as u128, 1 + cx.rng.below(3) as u128);
    let n = (n as u128).min(max / (width + gap));
    let start = if cx.rng.chance(1, 2) { 0 } else { cx.rng.range128(0, max - n * (width + gap)) };
    let m = RSet::from_ranges((0..n).map(|k| { let l = start + k * (width + gap) + if k % 7 == 3 && gap > 1 { 1 } else { 0 }; (l, l + width - 1) }).collect());
    let salt = cx.rng.u64();
    let f = cx.rng.below(FORMATS);
    cx.case(mix(salt), true, || format!("{}: {n} intervals of {width} from {start}, {}", X::NAME, NAMES[f as usize]), |ev| large_one::<X>(&m, f, salt, ev));
}
fn large(cx: &mut Ctx) {
    let n = [60, 126, 254, 510, 1000, 1023, 4095, 70_000][(cx.block % 8) as usize];
    for _ in 0..if n > 5000 { 1 } else { 4 } {
        match cx.block / 8 % 4 { 0 => large_t::<Fin<u32>>(cx, n), 1 => large_t::<Dense<i64, 600_000>>(cx, n), 2 => large_t::<Fin<Rev>>(cx, n), _ => large_t::<Fin<i64>>(cx, n) }
    }
}

fn suites(_: &str) -> Vec<Suite> {
    let s = |name, quick, thorough, run| Suite { name, quick, thorough, run };
    vec![
        s("raw-intervals-exhaustive", 4, 4, raws as fn(&mut Ctx)),
        s("intervals-critical", 8, 8, intervals),
        s("small-selections", 4, 4, small_sels),
        s("large-sets", 32, 320, large),
        s("intervals-random", 200, 2000, random_ivs),
        s("selection-histories", 1000, 6000, sel_twins),
        s("tree-histories", 600, 3000, tree_twins),
    ]
}
fn main() { main_with(suites) }
