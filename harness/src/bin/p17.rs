//! P17: raw interval tree algebra and queries against the cell model.
use nimon::grid::*;
use nimon::mon::*;
use nimon::sel::*;
use nimon::want_eq;

const OPS: OpSet = OpSet::All;
fn obs<K: Key, const N: u32>(g: &Regs<Dense<K, N>>, d: usize, salt: u64, ev: &mut Ev) -> Verdict {
    obs_contains_all::<Dense<K, N>>(g, d, salt, ev)?;
    let (s, m) = (&g.real[d], &g.model[d]);
    let max = Dense::<K, N>::MAX;
    let span = m.first().map(|l| (l, m.last().unwrap()));
    want_eq!(s.is_empty(), m.is_empty(), "is_empty of {s:?}");
    want_eq!(s.is_full(), m.v == [(0, max)], "is_full of {s:?}");
    want_eq!(s.lower_bound(), span.map(|x| Dense::<K, N>::lower(x.0)), "lower_bound of {s:?}");
    want_eq!(s.upper_bound(), span.map(|x| Dense::<K, N>::upper(x.1)), "upper_bound of {s:?}");
    want_eq!(s.enclose(), Dense::<K, N>::raw(span), "enclose of {s:?}");
    // The closure also takes in the finite end points.
    let closed = span.map(|(l, h)| (if l > 0 && l % 2 == 0 { l - 1 } else { l }, if h < max && h % 2 == 0 { h + 1 } else { h }));
    want_eq!(s.closure(), Dense::<K, N>::raw(closed), "closure of {s:?}");
    bump(ev, "summaries read", 6);
    Ok(())
}
fn hist(cx: &mut Ctx) {
    let n = if cx.thorough { 400 } else { 120 };
    let o = OpSet::All;
    match cx.block % 8 {
        0 => histories::<Dense<i64, 2>>(cx, n, 30, o, obs),
        1 => histories::<Dense<i64, 5>>(cx, n, 40, o, obs),
        2 => histories::<Dense<String, 7>>(cx, n, 40, o, obs),
        3 => histories::<Dense<Down, 40>>(cx, n, 40, o, obs),
        4 => histories::<Dense<Fl, 3>>(cx, n, 30, o, obs),
        6 => histories::<Dense<[u64; 24], 20>>(cx, n, 30, o, obs),
        7 => histories::<Dense<nimon::dom::Nest, 20>>(cx, n, 40, o, obs),
        _ => histories::<Dense<Fl, 1000>>(cx, n, 30, o, obs),
    }
}
fn ladder(cx: &mut Ctx) {
    let size = LADDER[(cx.block % 16) as usize];
    let steps = if size > 9000 { 8 } else { 16 };
    match (cx.block + cx.block / 16) % 3 {
        0 => ladders::<Dense<i64, 400_000>>(cx, size, steps, OPS, obs),
        1 => ladders::<Dense<Fl, 400_000>>(cx, size, steps, OPS, obs),
        _ => ladders::<Dense<Down, 400_000>>(cx, size, steps, OPS, obs),
    }
}
fn wide_hist(cx: &mut Ctx) {
    let runs = [20, 60, 150][cx.idx(3)];
    match cx.block % 2 {
        0 => wide::<Dense<i64, 600>>(cx, runs, 40, OpSet::All, obs),
        _ => wide::<Dense<String, 300>>(cx, runs, 40, OpSet::All, obs),
    }
}
fn pairs(cx: &mut Ctx) {
    let b = cx.block;
    cx.blocks = 1;
    match b {
        0 => small_binary::<Dense<i64, 1>>(cx, obs),
        3 => small_binary::<Dense<(), 1>>(cx, obs),
        1 => small_binary::<Dense<Down, 2>>(cx, obs),
        _ => small_binary::<Dense<Fl, 3>>(cx, obs),
    }
}
fn pairs4(cx: &mut Ctx) { if !cx.thorough { cx.blocks = 64; cx.block = cx.idx(64) as u64; } small_binary::<Dense<i64, 4>>(cx, obs) }
fn reach(cx: &mut Ctx) {
    match cx.block {
        0 => reachable::<Dense<i64, 1>>(cx, OpSet::All, obs, 3000),
        3 => reachable::<Dense<(), 1>>(cx, OpSet::All, obs, 3000),
        1 => reachable::<Dense<Down, 2>>(cx, OpSet::All, obs, 3000),
        _ => reachable::<Dense<Fl, 3>>(cx, OpSet::All, obs, 3000),
    }
}
fn unequal(cx: &mut Ctx) {
    let n = if cx.thorough { 40 } else { 12 };
    match cx.block % 3 {
        0 => lopsided::<Dense<i64, 400_000>>(cx, n, OPS, obs),
        1 => lopsided::<Dense<Fl, 400_000>>(cx, n, OPS, obs),
        _ => lopsided::<Dense<Down, 400_000>>(cx, n, OPS, obs),
    }
}
/// Points which panic now and then.
fn fragile(cx: &mut Ctx) {
    use nimon::trk::Kt;
    let n = if cx.thorough { 200 } else { 60 };
    match cx.block % 2 { 0 => interrupted::<Dense<Kt, 4>>(cx, n, 24, OPS, obs), _ => interrupted::<Dense<Kt, 100>>(cx, n, 24, OPS, obs) }
}
fn suites(_: &str) -> Vec<Suite> {
    let s = |name, quick, thorough, run| Suite { name, quick, thorough, run };
    vec![
        s("small-pairs", 4, 4, pairs as fn(&mut Ctx)),
        s("four-point-pairs", 6, 64, pairs4),
        s("reachable-representations", 4, 4, reach),
        s("interrupted-histories", 40, 400, fragile),
        s("histories", 360, 1800, hist),
        s("ladders", 32, 480, ladder),
        s("unequal-sizes", 40, 400, unequal),
        s("wide-histories", 160, 400, wide_hist),
    ]
}
fn main() {
    self_test::<[u64; 24]>(); self_test::<i64>(); self_test::<String>(); self_test::<Down>(); self_test::<Fl>();
    main_with(suites)
}
