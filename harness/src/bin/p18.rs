//! P18: canonical decomposition, iteration and equality of raw interval trees.
use nimon::grid::*;
use nimon::mon::*;
use nimon::sel::*;
use nimon::want_eq;

const OPS: OpSet = OpSet::All;
fn obs<K: Key, const N: u32>(g: &Regs<Dense<K, N>>, d: usize, salt: u64, ev: &mut Ev) -> Verdict {
    obs_intervals::<Dense<K, N>>(g, d, salt, ev)?;
    obs_canonical::<Dense<K, N>>(g, d, salt, ev)?;
    let (s, m) = (&g.real[d], &g.model[d]);
    // The very raw intervals, not only the same cells.
    let want: Vec<_> = m.v.iter().map(|r| Dense::<K, N>::raw(Some(*r))).collect();
    want_eq!(s.interval_iter().take(want.len() + 2).collect::<Vec<_>>(), want, "intervals of {s:?}");
    let re: <Dense<K, N> as Space>::S = s.interval_iter().take(want.len() + 2).collect();
    want_eq!(re, *s, "tree collected from its own intervals");
    let re: <Dense<K, N> as Space>::S = s.clone().into_iter().rev().take(want.len() + 2).collect();
    want_eq!(re, *s, "tree collected from its own intervals, last first");
    bump(ev, "re-collections compared", 2);
    Ok(())
}
fn hist(cx: &mut Ctx) {
    let n = if cx.thorough { 300 } else { 80 };
    let o = OpSet::All;
    match cx.block % 8 {
        0 => histories::<Dense<i64, 2>>(cx, n, 30, o, obs),
        1 => histories::<Dense<i64, 5>>(cx, n, 40, o, obs),
        2 => histories::<Dense<String, 7>>(cx, n, 40, o, obs),
        3 => histories::<Dense<Down, 40>>(cx, n, 40, o, obs),
        4 => histories::<Dense<Fl, 3>>(cx, n, 30, o, obs),
        6 => histories::<Dense<[u64; 24], 20>>(cx, n, 30, o, obs),
        7 => histories::<Dense<nimon::dom::Nest, 20>>(cx, n, 40, o, obs),
        _ => histories::<Dense<Fl, 1000>>(cx, n, 30, o, obs),
    }
}
fn ladder(cx: &mut Ctx) {
    let size = LADDER[(cx.block % 16) as usize];
    let steps = if size > 9000 { 8 } else { 16 };
    match (cx.block + cx.block / 16) % 3 {
        0 => ladders::<Dense<i64, 400_000>>(cx, size, steps, OPS, obs),
        1 => ladders::<Dense<Fl, 400_000>>(cx, size, steps, OPS, obs),
        _ => ladders::<Dense<Down, 400_000>>(cx, size, steps, OPS, obs),
    }
}
fn wide_hist(cx: &mut Ctx) {
    let runs = [20, 60, 150][cx.idx(3)];
    match cx.block % 2 {
        0 => wide::<Dense<i64, 600>>(cx, runs, 20, OpSet::All, obs),
        _ => wide::<Dense<String, 300>>(cx, runs, 20, OpSet::All, obs),
    }
}
/// Every set of a small grid under every front/back schedule of its intervals.
fn sched_n<K: Key, const N: u32>(cx: &mut Ctx) {
    use nimon::rset::RSet;
    let n = Dense::<K, N>::MAX as u32 + 1;
    for mask in 0..1u64 << n {
        let m = RSet::from_mask(mask, n);
        let s = build::<Dense<K, N>>(&m, cx.rng.u64());
        let want: Vec<_> = m.v.iter().map(|r| Dense::<K, N>::raw(Some(*r))).collect();
        let k = want.len() as u32;
        for bits in 0..1u64 << k {
            if !cx.case(nimon::rng::mix(mask << 24 | bits << 8 | n as u64), k > 1, || format!("{}: {m:?} by schedule {bits:b} (1: front)", K::NAME), |ev| {
                let (mut a, mut b) = (s.interval_iter(), s.clone().into_iter());
                let (mut i, mut j) = (0, want.len());
                for t in 0..k + 4 {
                    let front = if t < k { bits >> t & 1 == 1 } else { t % 2 == 0 };
                    let w = if i >= j { None } else if front { i += 1; Some(&want[i - 1]) } else { j -= 1; Some(&want[j]) };
                    let (x, y) = if front { (a.next(), b.next()) } else { (a.next_back(), b.next_back()) };
                    want_eq!(x.as_ref(), w, "borrowing iterator, step {t}");
                    want_eq!(y.as_ref(), w, "consuming iterator, step {t}");
                }
                bump(ev, "complete schedules", 1);
                Ok(())
            }) { return; }
        }
    }
}
fn sched(cx: &mut Ctx) {
    match cx.block {
        0 => sched_n::<i64, 1>(cx),
        1 => sched_n::<Down, 2>(cx),
        2 => sched_n::<Fl, 3>(cx),
        3 => sched_n::<i64, 4>(cx),
        4 => sched_n::<String, 5>(cx),
        5 => sched_n::<(), 1>(cx),
        _ => sched_n::<i64, 6>(cx),
    }
}
fn pairs(cx: &mut Ctx) {
    let b = cx.block;
    cx.blocks = 1;
    match b {
        0 => small_binary::<Dense<i64, 1>>(cx, obs),
        3 => { cx.block = 0; small_binary::<Dense<(), 1>>(cx, obs) }
        1 => small_binary::<Dense<Down, 2>>(cx, obs),
        _ => { cx.blocks = if cx.thorough { 1 } else { 6 }; small_binary::<Dense<Fl, 3>>(cx, obs) }
    }
}
fn reach(cx: &mut Ctx) {
    match cx.block {
        0 => reachable::<Dense<i64, 1>>(cx, OpSet::All, obs, 3000),
        3 => reachable::<Dense<(), 1>>(cx, OpSet::All, obs, 3000),
        1 => reachable::<Dense<Down, 2>>(cx, OpSet::All, obs, 3000),
        _ => reachable::<Dense<Fl, 3>>(cx, OpSet::All, obs, 3000),
    }
}
fn unequal(cx: &mut Ctx) {
    let n = if cx.thorough { 40 } else { 6 };
    match cx.block % 3 {
        0 => lopsided::<Dense<i64, 400_000>>(cx, n, OPS, obs),
        1 => lopsided::<Dense<Fl, 400_000>>(cx, n, OPS, obs),
        _ => lopsided::<Dense<Down, 400_000>>(cx, n, OPS, obs),
    }
}
/// Points which panic now and then.
fn fragile(cx: &mut Ctx) {
    use nimon::trk::Kt;
    let n = if cx.thorough { 200 } else { 60 };
    match cx.block % 2 { 0 => interrupted::<Dense<Kt, 4>>(cx, n, 24, OPS, obs), _ => interrupted::<Dense<Kt, 100>>(cx, n, 24, OPS, obs) }
}
fn suites(_: &str) -> Vec<Suite> {
    let s = |name, quick, thorough, run| Suite { name, quick, thorough, run };
    vec![
        s("small-schedules", 6, 7, sched as fn(&mut Ctx)),
        s("small-pairs", 4, 4, pairs),
        s("reachable-representations", 4, 4, reach),
        s("interrupted-histories", 40, 400, fragile),
        s("histories", 360, 1200, hist),
        s("ladders", 32, 480, ladder),
        s("unequal-sizes", 40, 400, unequal),
        s("wide-histories", 80, 200, wide_hist),
    ]
}
fn main() {
    self_test::<[u64; 24]>(); self_test::<i64>(); self_test::<String>(); self_test::<Down>(); self_test::<Fl>();
    main_with(suites)
}
