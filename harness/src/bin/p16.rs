//! P16: in-place raw interval tree histories; membership against the model.
use nimon::grid::*;
use nimon::mon::*;
use nimon::sel::*;

const OPS: OpSet = OpSet::InPlace;
fn hist(cx: &mut Ctx) {
    let n = if cx.thorough { 400 } else { 150 };
    let o = OpSet::InPlace;
    match cx.block % 8 {
        0 => histories::<Dense<i64, 2>>(cx, n, 40, o, obs_contains::<Dense<i64, 2>>),
        1 => histories::<Dense<i64, 5>>(cx, n, 60, o, obs_contains::<Dense<i64, 5>>),
        2 => histories::<Dense<String, 7>>(cx, n, 60, o, obs_contains::<Dense<String, 7>>),
        3 => histories::<Dense<Down, 40>>(cx, n, 60, o, obs_contains::<Dense<Down, 40>>),
        4 => histories::<Dense<Fl, 3>>(cx, n, 40, o, obs_contains::<Dense<Fl, 3>>),
        6 => histories::<Dense<[u64; 24], 20>>(cx, n, 40, o, obs_contains::<Dense<[u64; 24], 20>>),
        7 => histories::<Dense<nimon::dom::Nest, 20>>(cx, n, 60, o, obs_contains::<Dense<nimon::dom::Nest, 20>>),
        _ => histories::<Dense<Fl, 1000>>(cx, n, 40, o, obs_contains::<Dense<Fl, 1000>>),
    }
}
fn ladder(cx: &mut Ctx) {
    let size = LADDER[(cx.block % 16) as usize];
    let steps = if size > 9000 { 8 } else { 16 };
    match (cx.block + cx.block / 16) % 3 {
        0 => ladders::<Dense<i64, 400_000>>(cx, size, steps, OPS, obs_contains::<Dense<i64, 400_000>>),
        1 => ladders::<Dense<Fl, 400_000>>(cx, size, steps, OPS, obs_contains::<Dense<Fl, 400_000>>),
        _ => ladders::<Dense<Down, 400_000>>(cx, size, steps, OPS, obs_contains::<Dense<Down, 400_000>>),
    }
}
fn wide_hist(cx: &mut Ctx) {
    let runs = [20, 60, 200][cx.idx(3)];
    match cx.block % 2 {
        0 => wide::<Dense<i64, 600>>(cx, runs, 60, OpSet::InPlace, obs_contains::<Dense<i64, 600>>),
        _ => wide::<Dense<String, 300>>(cx, runs, 60, OpSet::InPlace, obs_contains::<Dense<String, 300>>),
    }
}
fn exh(cx: &mut Ctx) {
    match cx.block {
        0 => small_in_place::<Dense<i64, 1>>(cx, obs_contains::<Dense<i64, 1>>),
        1 => small_in_place::<Dense<Down, 2>>(cx, obs_contains::<Dense<Down, 2>>),
        2 => small_in_place::<Dense<Fl, 3>>(cx, obs_contains::<Dense<Fl, 3>>),
        4 => small_in_place::<Dense<(), 1>>(cx, obs_contains::<Dense<(), 1>>),
        3 => small_in_place::<Dense<i64, 4>>(cx, obs_contains::<Dense<i64, 4>>),
        _ => small_in_place::<Dense<i64, 5>>(cx, obs_contains::<Dense<i64, 5>>),
    }
}
fn exhaustive(cx: &mut Ctx) { cx.blocks = 1; exh(cx) }
fn reach(cx: &mut Ctx) {
    match cx.block {
        0 => reachable::<Dense<i64, 1>>(cx, OpSet::InPlace, obs_contains::<Dense<i64, 1>>, 3000),
        1 => reachable::<Dense<Down, 2>>(cx, OpSet::InPlace, obs_contains::<Dense<Down, 2>>, 3000),
        4 => reachable::<Dense<(), 1>>(cx, OpSet::InPlace, obs_contains::<Dense<(), 1>>, 3000),
        2 => reachable::<Dense<Fl, 3>>(cx, OpSet::InPlace, obs_contains::<Dense<Fl, 3>>, 3000),
        _ => reachable::<Dense<i64, 4>>(cx, OpSet::InPlace, obs_contains::<Dense<i64, 4>>, 3000),
    }
}
fn unequal(cx: &mut Ctx) {
    let n = if cx.thorough { 40 } else { 12 };
    match cx.block % 3 {
        0 => lopsided::<Dense<i64, 400_000>>(cx, n, OPS, obs_contains::<Dense<i64, 400_000>>),
        1 => lopsided::<Dense<Fl, 400_000>>(cx, n, OPS, obs_contains::<Dense<Fl, 400_000>>),
        _ => lopsided::<Dense<Down, 400_000>>(cx, n, OPS, obs_contains::<Dense<Down, 400_000>>),
    }
}
/// Points which panic now and then.
fn fragile(cx: &mut Ctx) {
    use nimon::trk::Kt;
    let n = if cx.thorough { 200 } else { 60 };
    match cx.block % 2 { 0 => interrupted::<Dense<Kt, 4>>(cx, n, 24, OpSet::InPlace, obs_contains::<Dense<Kt, 4>>), _ => interrupted::<Dense<Kt, 100>>(cx, n, 24, OpSet::InPlace, obs_contains::<Dense<Kt, 100>>) }
}
fn suites(_: &str) -> Vec<Suite> {
    let s = |name, quick, thorough, run| Suite { name, quick, thorough, run };
    vec![
        s("small-exhaustive", 5, 6, exhaustive as fn(&mut Ctx)),
        s("reachable-representations", 5, 5, reach),
        s("interrupted-histories", 40, 400, fragile),
        s("histories", 360, 1800, hist),
        s("ladders", 32, 480, ladder),
        s("unequal-sizes", 40, 400, unequal),
        s("wide-histories", 240, 600, wide_hist),
    ]
}
fn main() {
    self_test::<[u64; 24]>(); self_test::<i64>(); self_test::<String>(); self_test::<Down>(); self_test::<Fl>();
    main_with(suites)
}
