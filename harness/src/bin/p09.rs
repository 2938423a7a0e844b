//! P09: equality, hash and bounds of selections depend on the points alone.
use nimon::dom::*;
use nimon::grid::Fin;
use nimon::mon::*;
use nimon::sel::*;
use nimon::{pick_small, pick_some};
const OPS: OpSet = OpSet::All;
fn observe<T: Dom>(g: &Regs<Fin<T>>, d: usize, salt: u64, ev: &mut Ev) -> Verdict {
    obs_canonical::<Fin<T>>(g, d, salt, ev)?;
    let o = build::<Fin<T>>(&g.model[d], salt);
    let s = &g.real[d];
    nimon::want_eq!((s.lower_bound(), s.upper_bound(), s.infimum(), s.supremum()), (o.lower_bound(), o.upper_bound(), o.infimum(), o.supremum()), "bounds of {s:?} against an equal set built another way, {o:?}");
    bump(ev, "summaries compared", 1);
    Ok(())
}

fn t_hist<T: Dom>(cx: &mut Ctx) {
    let n = if cx.thorough { 400 } else { 120 };
    histories::<Fin<T>>(cx, n, 40, OPS, observe::<T>);
}
fn hist(cx: &mut Ctx) { pick_some!(cx.block, t_hist, cx) }
/// Histories packed into a small space: every coincidence happens.
fn s_hist<T: Dom>(cx: &mut Ctx) {
    let n = if cx.thorough { 400 } else { 150 };
    histories::<Fin<T>>(cx, n, 60, OPS, observe::<T>);
}
fn dense_hist(cx: &mut Ctx) { pick_small!(2 + cx.block % 6, s_hist, cx) }
fn t_wide<T: Dom>(cx: &mut Ctx) {
    let runs = [20, 60, 200][cx.idx(3)];
    wide::<Fin<T>>(cx, runs, 40, OPS, observe::<T>);
}
fn wide_hist(cx: &mut Ctx) { pick_some!(cx.block, t_wide, cx) }
/// Sets of many equidistant intervals; sizes grow with the block.
fn ladder(cx: &mut Ctx) {
    let size = LADDER[(cx.block % 16) as usize];
    let steps = if size > 9000 { 8 } else { 16 };
    match (cx.block + cx.block / 16) % 5 {
        0 => ladders::<Fin<i32>>(cx, size, steps, OPS, observe::<i32>),
        1 => ladders::<Fin<u64>>(cx, size, steps, OPS, observe::<u64>),
        2 => ladders::<Fin<Ch>>(cx, size, steps, OPS, observe::<Ch>),
        3 => ladders::<Fin<i128>>(cx, size, steps, OPS, observe::<i128>),
        _ => ladders::<Fin<u32>>(cx, size, steps, OPS, observe::<u32>),
    }
}
fn t_reach<T: Dom>(cx: &mut Ctx) { reachable::<Fin<T>>(cx, OPS, observe::<T>, 3000) }
fn reach(cx: &mut Ctx) { pick_small!(cx.block, t_reach, cx) }
fn binary_t<T: Dom>(cx: &mut Ctx) { small_binary::<Fin<T>>(cx, observe::<T>) }
fn binary(cx: &mut Ctx) { cx.blocks = 1; pick_small!(cx.block, binary_t, cx) }
fn unequal(cx: &mut Ctx) {
    let n = if cx.thorough { 40 } else { 6 };
    match cx.block % 5 {
        0 => lopsided::<Fin<i32>>(cx, n, OPS, observe::<i32>),
        1 => lopsided::<Fin<u64>>(cx, n, OPS, observe::<u64>),
        2 => lopsided::<Fin<Ch>>(cx, n, OPS, observe::<Ch>),
        3 => lopsided::<Fin<i128>>(cx, n, OPS, observe::<i128>),
        _ => lopsided::<Fin<u32>>(cx, n, OPS, observe::<u32>),
    }
}
/// Points which panic now and then.
fn fragile(cx: &mut Ctx) {
    use nimon::trk::Trk;
    let n = if cx.thorough { 200 } else { 60 };
    match cx.block % 2 { 0 => interrupted::<Fin<Trk<9>>>(cx, n, 24, OPS, observe::<Trk<9>>), _ => interrupted::<Fin<Trk<200>>>(cx, n, 24, OPS, observe::<Trk<200>>) }
}
fn suites(_: &str) -> Vec<Suite> {
    let s = |name, quick, thorough, run| Suite { name, quick, thorough, run };
    vec![
        s("small-pairs", 5, 6, binary as fn(&mut Ctx)),
        s("reachable-representations", 5, 7, reach as fn(&mut Ctx)),
        s("small-histories", 240, 1200, dense_hist),
        s("interrupted-histories", 40, 400, fragile),
        s("histories", 30 * SOME, 150 * SOME, hist),
        s("ladders", 32, 480, ladder),
        s("unequal-sizes", 40, 400, unequal),
        s("wide-histories", 20 * SOME, 40 * SOME, wide_hist),
    ]
}

fn main() {
    fn t<T: Dom>() { self_test_dom::<T>() }
    for i in 0..SOME { pick_some!(i, t,) }
    for i in 0..8 { pick_small!(i, t,) }
    main_with(suites)
}
