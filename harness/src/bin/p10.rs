//! P10: point iteration of selections, from both ends.
use nimon::dom::*;
use nimon::grid::Fin;
use nimon::mon::*;
use nimon::prog::{compare, compare_ord};
use nimon::sel::*;
use nimon::{pick_small, pick_some};
const OPS: OpSet = OpSet::All;
use nimon::rng::Rng;
use nimon::rset::RSet;
use nimon::{want, want_eq};

/// A cursor over the points of a model, consumed from both ends.
struct Cursor { v: Vec<(u128, u128)>, i: usize, j: usize }
impl Cursor {
    fn new(m: &RSet) -> Self { Cursor { v: m.v.clone(), i: 0, j: m.v.len() } }
    fn front(&mut self) -> Option<u128> {
        if self.i >= self.j { return None; }
        let r = &mut self.v[self.i];
        let x = r.0;
        if r.0 == r.1 { self.i += 1 } else { r.0 += 1 }
        Some(x)
    }
    fn back(&mut self) -> Option<u128> {
        if self.i >= self.j { return None; }
        let r = &mut self.v[self.j - 1];
        let x = r.1;
        if r.0 == r.1 { self.j -= 1 } else { r.1 -= 1 }
        Some(x)
    }
    fn left(&self) -> u128 { RSet { v: self.v[self.i..self.j].to_vec() }.count() }
}

fn walk<T: Dom>(it: &mut dyn DoubleEndedIterator<Item = T>, m: &RSet, rng: &mut Rng, ev: &mut Ev) -> Verdict {
    let mut c = Cursor::new(m);
    let n = m.count();
    let style = rng.below(5);
    let cap = if n <= 600 { n + 6 } else { 60 };
    let (mut run, mut front) = (0u64, false);
    for k in 0..cap {
        if k % 16 == 0 {
            let left = c.left();
            let (min, sup) = it.size_hint();
            want!(min as u128 <= left && sup.is_none_or(|s| s as u128 >= left), "size_hint ({min}, {sup:?}) with {left} points left");
        }
        match style {
            0 => front = true,
            1 => front = false,
            2 => front = !front,
            s => { if run == 0 { run = 1 + rng.below(if s == 3 { 3 } else { 12 }); front = rng.chance(1, 2); } run -= 1; }
        }
        let (got, exp) = if front { (it.next(), c.front()) } else { (it.next_back(), c.back()) };
        want_eq!(got.map(|p| p.rank()), exp, "{} step {k} (style {style})", if front { "front" } else { "back" });
        bump(ev, "iteration steps", 1);
    }
    bump(ev, if n <= 600 { "walks to exhaustion" } else { "partial walks" }, 1);
    Ok(())
}
fn observe<T: Dom>(g: &Regs<Fin<T>>, d: usize, salt: u64, ev: &mut Ev) -> Verdict {
    let mut rng = Rng::new(salt);
    let (s, m) = (&g.real[d], &g.model[d]);
    for k in 0..4 {
        match k {
            0 | 1 => walk::<T>(&mut s.iter(), m, &mut rng, ev)?,
            2 => walk::<T>(&mut s.into_iter(), m, &mut rng, ev)?,
            _ => walk::<T>(&mut s.clone().into_iter(), m, &mut rng, ev)?,
        }
    }
    let n = m.count();
    // Now and then, dozens of iterators live side by side.
    if n > 0 && m.v.len() < 100 && rng.chance(1, 24) {
        let (l, h) = (m.v[0].0, m.v[m.v.len() - 1].1);
        let mut its: Vec<(bool, Box<dyn DoubleEndedIterator<Item = T> + '_>)> = (0..20 + rng.idx(300)).map(|k| (k % 2 == 0, if k % 31 == 3 { Box::new(s.clone().into_iter()) as Box<dyn DoubleEndedIterator<Item = T>> } else { Box::new(s.iter()) })).collect();
        for (k, it) in &mut its { want_eq!(if *k { it.next() } else { it.next_back() }.map(|p| p.rank()), Some(if *k { l } else { h }), "first step of one of many iterators"); }
        for (k, mut it) in its { want_eq!(if k { it.next_back() } else { it.next() }.map(|p| p.rank()), (n > 1).then_some(if k { h } else { l }), "second step of one of many iterators"); }
        bump(ev, "crowds of live iterators", 1);
    }
    if n <= 40 {
        let n = n as usize;
        let want: Vec<u128> = m.v.iter().flat_map(|r| r.0..=r.1).collect();
        let at = |i: usize| want.get(i).copied();
        let back = |i: usize| n.checked_sub(i + 1).map(|j| want[j]);
        want_eq!(s.iter().take(n + 2).map(|p| p.rank()).collect::<Vec<_>>(), want, "collected");
        want_eq!(s.iter().rev().take(n + 2).map(|p| p.rank()).collect::<Vec<_>>(), want.iter().rev().copied().collect::<Vec<_>>(), "collected in reverse");
        want_eq!(s.clone().into_iter().take(n + 2).map(|p| p.rank()).collect::<Vec<_>>(), want, "consumed");
        want_eq!(s.clone().into_iter().rev().take(n + 2).map(|p| p.rank()).collect::<Vec<_>>(), want.iter().rev().copied().collect::<Vec<_>>(), "consumed in reverse");
        want_eq!(s.iter().fold(vec![], |mut v, p| { v.push(p.rank()); v }), want, "fold");
        want_eq!(s.clone().into_iter().rfold(vec![], |mut v, p| { v.insert(0, p.rank()); v }), want, "rfold");
        want_eq!((s.iter().count(), s.clone().into_iter().count()), (n, n), "count");
        want_eq!((s.iter().last().map(|p| p.rank()), s.clone().into_iter().last().map(|p| p.rank())), (want.last().copied(), want.last().copied()), "last");
        want_eq!((s.iter().min().map(|p| p.rank()), s.iter().max().map(|p| p.rank())), (want.first().copied(), want.last().copied()), "min, max");
        let k = rng.idx(n + 2);
        let mut it = s.iter();
        want_eq!((it.nth(k).map(|p| p.rank()), it.next().map(|p| p.rank())), (at(k), at(k + 1)), "nth({k}) and next");
        let mut it = s.clone().into_iter();
        want_eq!((it.nth_back(k).map(|p| p.rank()), it.next_back().map(|p| p.rank())), (back(k), back(k + 1)), "nth_back({k}) and next_back");
        // An iterator left half-way by one end is finished by an adapter.
        let mut it = s.iter();
        let f = it.next_back().map(|p| p.rank());
        want_eq!((f, it.take(n + 2).map(|p| p.rank()).collect::<Vec<_>>()), (want.last().copied(), want[..n.saturating_sub(1)].to_vec()), "rest after one back step");
        let mut it = s.clone().into_iter();
        let f = it.next().map(|p| p.rank());
        want_eq!((f, it.rev().take(n + 2).map(|p| p.rank()).collect::<Vec<_>>()), (want.first().copied(), want.iter().skip(1).rev().copied().collect::<Vec<_>>()), "reversed rest after one front step");
        compare(s.iter(), &want, |p| Ok(p.rank()), &mut rng, "point iterator", ev)?;
        compare(s.into_iter(), &want, |p| Ok(p.rank()), &mut rng, "point iterator by reference", ev)?;
        compare(s.clone().into_iter(), &want, |p| Ok(p.rank()), &mut rng, "consuming point iterator", ev)?;
        let pts: Vec<T> = want.iter().map(|r| T::from_rank(*r)).collect();
        compare_ord(s.iter(), &pts, &mut rng, "point iterator", ev)?;
        compare_ord(s.clone().into_iter(), &pts, &mut rng, "consuming point iterator", ev)?;
        bump(ev, "adapter results", 15);
    }
    Ok(())
}
/// Selections of a few hundred to a few ten thousand points in long or short
/// runs, walked to the end.
fn walk_long<T: Dom>(m: &RSet, salt: u64, ev: &mut Ev) -> Verdict {
    let mut rng = Rng::new(salt);
    nimon::dom::budget(CASE_STEPS + 4 * (m.v.len() as u64).pow(2));
    let s = build::<Fin<T>>(m, salt);
    beat();
    let pts: Vec<u128> = m.v.iter().flat_map(|r| r.0..=r.1).collect();
    let n = pts.len();
    for own in [false, true] {
        let mut it: Box<dyn DoubleEndedIterator<Item = T>> = if own { Box::new(s.clone().into_iter()) } else { Box::new(s.iter()) };
        let split = rng.below(n as u64 + 1) as usize;
        let style = rng.below(3);
        let (mut i, mut j) = (0, n);
        while i < j {
            let front = match style { 0 => i < split, 1 => j <= split, _ => rng.chance(1, 2) };
            if (j - i) % 256 == 0 { beat(); }
            let (got, exp) = if front { i += 1; (it.next(), pts[i - 1]) } else { j -= 1; (it.next_back(), pts[j]) };
            want_eq!(got.map(|p| p.rank()), Some(exp), "step with {i} taken in front and {} behind (own: {own})", n - j);
        }
        for k in 0..4 { let x = if k % 2 == 0 { it.next() } else { it.next_back() }; want!(x.is_none(), "{x:?} after the last point"); }
    }
    bump(ev, "iteration steps", 2 * n as u64);
    let ranks = |it: &mut dyn Iterator<Item = T>| it.map(|p| p.rank()).take(n + 2).collect::<Vec<_>>();
    beat();
    if ranks(&mut s.iter()) != pts { return Err("collected points differ".into()); }
    if s.clone().into_iter().fold(vec![], |mut v, p| { v.push(p.rank()); v }) != pts { return Err("folded points differ".into()); }
    let rev: Vec<u128> = pts.iter().rev().copied().collect();
    if s.iter().rfold(vec![], |mut v, p| { v.push(p.rank()); v }) != rev { return Err("points folded from the back differ".into()); }
    want_eq!((s.iter().count(), s.clone().into_iter().count()), (n, n), "count");
    want_eq!((s.iter().last().map(|p| p.rank()), s.clone().into_iter().last().map(|p| p.rank())), (pts.last().copied(), pts.last().copied()), "last");
    for _ in 0..6 {
        if late() { break; }
        beat();
        let k = match rng.below(3) { 0 => n - 1 - rng.idx(3).min(n - 1), 1 => n + rng.idx(2), _ => rng.idx(n) };
        let mut it = s.iter();
        want_eq!((it.nth(k).map(|p| p.rank()), it.next().map(|p| p.rank()), it.next_back().map(|p| p.rank())), (pts.get(k).copied(), pts.get(k + 1).copied(), if k + 2 < n { pts.last().copied() } else { None }), "nth({k}), next, next_back");
        let mut it = s.clone().into_iter();
        want_eq!((it.nth_back(k).map(|p| p.rank()), it.next_back().map(|p| p.rank()), it.next().map(|p| p.rank())), (rev.get(k).copied(), rev.get(k + 1).copied(), if k + 2 < n { pts.first().copied() } else { None }), "nth_back({k}), next_back, next");
        let step = 1 + rng.idx(700);
        want_eq!(s.iter().step_by(step).map(|p| p.rank() % 1_000_003).sum::<u128>(), pts.iter().step_by(step).map(|p| p % 1_000_003).sum::<u128>(), "sum by steps of {step}");
    }
    bump(ev, "long walks", 1);
    Ok(())
}
fn long_t<T: Dom>(cx: &mut Ctx) {
    let max = T::max_rank();
    let total = [255u128, 256, 257, 1000, 65_535, 65_536, 70_001][cx.idx(7)];
    let width = [1, 2, 250, 300, 5000, 66_000][cx.idx(6)].min(total);
    // Slow code is no violation: fewer runs and points for it.
    let cap = calibrated(T::NAME, || {
        let trial = |m: RSet| (1..=8).map(|salt| {
            let t = nimon::mon::cpu_time(false);
            let _ = guarded(|| walk_long::<T>(&m, salt, &mut Ev::new()));
            beat();
            (nimon::mon::cpu_time(false) - t).as_secs_f64()
        }).fold(0.0, f64::max);
        let lo = max / 2 + 1 - max / 16;
        (nimon::mon::affordable(3.0, 8192, |n| trial(RSet::from_ranges((0..n as u128).map(|i| (lo + 2 * i, lo + 2 * i)).collect()))),
         nimon::mon::affordable(3.0, 32768, |n| trial(RSet::from_ranges(vec![(lo, lo + n as u128)]))))
    });
    let (most, points) = if total > 1000 { cap } else { (usize::MAX, usize::MAX) };
    let total = total.min(points as u128);
    let mut v = vec![];
    let mut at = match cx.rng.below(3) { 0 => 0, 1 => max / 2 + 1 - (total / 2).min(max / 4), _ => cx.rng.range128(0, max / 2) };
    let mut left = total;
    while left > 0 && v.len() < most {
        let w = (1 + cx.rng.below(2 * width as u64) as u128).min(left);
        if at.checked_add(w).is_none_or(|e| e > max) { break; }
        v.push((at, at + w - 1));
        at += w + 1 + cx.rng.below(3) as u128;
        left -= w;
    }
    let v_short = v.len() == most || total == points as u128;
    let m = RSet::from_ranges(v);
    let n = m.count();
    let salt = cx.rng.u64();
    if v_short { cx.ev("walks shortened for lack of time", 1); }
    cx.case(salt, true, || format!("{}: long walk of {n} points in {} runs from {:?}", T::NAME, m.v.len(), m.first()), |ev| walk_long::<T>(&m, salt, ev));
}
fn long(cx: &mut Ctx) {
    for _ in 0..if cx.thorough { 10 } else { 3 } {
        match cx.block % 5 { 0 => long_t::<i32>(cx), 1 => long_t::<u128>(cx), 2 => long_t::<u64>(cx), 3 => long_t::<Ch>(cx), _ => long_t::<i64>(cx) }
    }
}
/// Every set of up to seven points under every front/back schedule.
fn sched_t<T: Dom>(cx: &mut Ctx) {
    let n = T::max_rank() as u32 + 1;
    for mask in 0..1u64 << n {
        let m = RSet::from_mask(mask, n);
        let k = m.count() as u32;
        let s = build::<Fin<T>>(&m, cx.rng.u64());
        for bits in 0..1u64 << k {
            if !cx.case(nimon::rng::mix(mask << 20 | bits << 8 | n as u64), k > 1, || format!("{}: {m:?} by schedule {bits:b} (1: front)", T::NAME), |ev| {
                let (mut a, mut b, mut c) = (s.iter(), s.clone().into_iter(), Cursor::new(&m));
                for i in 0..k + 4 {
                    let front = if i < k { bits >> i & 1 == 1 } else { i % 2 == 0 };
                    let (x, y, z) = if front { (a.next(), b.next(), c.front()) } else { (a.next_back(), b.next_back(), c.back()) };
                    want_eq!(x.map(|p| p.rank()), z, "borrowing iterator, step {i}");
                    want_eq!(y.map(|p| p.rank()), z, "consuming iterator, step {i}");
                }
                bump(ev, "complete schedules", 1);
                bump(ev, "iteration steps", 2 * (k as u64 + 4));
                Ok(())
            }) { return; }
        }
    }
}
fn sched(cx: &mut Ctx) { pick_small!(cx.block, sched_t, cx) }

fn t_hist<T: Dom>(cx: &mut Ctx) {
    let n = if cx.thorough { 400 } else { 120 };
    histories::<Fin<T>>(cx, n, 40, OPS, observe::<T>);
}
fn hist(cx: &mut Ctx) { pick_some!(cx.block, t_hist, cx) }
/// Histories packed into a small space: every coincidence happens.
fn s_hist<T: Dom>(cx: &mut Ctx) {
    let n = if cx.thorough { 400 } else { 150 };
    histories::<Fin<T>>(cx, n, 60, OPS, observe::<T>);
}
fn dense_hist(cx: &mut Ctx) { pick_small!(2 + cx.block % 6, s_hist, cx) }
fn t_wide<T: Dom>(cx: &mut Ctx) {
    let runs = [20, 60, 200][cx.idx(3)];
    wide::<Fin<T>>(cx, runs, 40, OPS, observe::<T>);
}
fn wide_hist(cx: &mut Ctx) { pick_some!(cx.block, t_wide, cx) }
/// Sets of many equidistant intervals; sizes grow with the block.
fn ladder(cx: &mut Ctx) {
    let size = LADDER[(cx.block % 16) as usize];
    let steps = if size > 9000 { 8 } else { 16 };
    match (cx.block + cx.block / 16) % 5 {
        0 => ladders::<Fin<i32>>(cx, size, steps, OPS, observe::<i32>),
        1 => ladders::<Fin<u64>>(cx, size, steps, OPS, observe::<u64>),
        2 => ladders::<Fin<Ch>>(cx, size, steps, OPS, observe::<Ch>),
        3 => ladders::<Fin<i128>>(cx, size, steps, OPS, observe::<i128>),
        _ => ladders::<Fin<u32>>(cx, size, steps, OPS, observe::<u32>),
    }
}
fn t_reach<T: Dom>(cx: &mut Ctx) { reachable::<Fin<T>>(cx, OPS, observe::<T>, 3000) }
fn reach(cx: &mut Ctx) { pick_small!(cx.block, t_reach, cx) }
fn unequal(cx: &mut Ctx) {
    let n = if cx.thorough { 40 } else { 6 };
    match cx.block % 5 {
        0 => lopsided::<Fin<i32>>(cx, n, OPS, observe::<i32>),
        1 => lopsided::<Fin<u64>>(cx, n, OPS, observe::<u64>),
        2 => lopsided::<Fin<Ch>>(cx, n, OPS, observe::<Ch>),
        3 => lopsided::<Fin<i128>>(cx, n, OPS, observe::<i128>),
        _ => lopsided::<Fin<u32>>(cx, n, OPS, observe::<u32>),
    }
}
fn suites(_: &str) -> Vec<Suite> {
    let s = |name, quick, thorough, run| Suite { name, quick, thorough, run };
    vec![
        s("small-schedules", 7, 8, sched as fn(&mut Ctx)),
        s("reachable-representations", 5, 7, reach as fn(&mut Ctx)),
        s("small-histories", 240, 1200, dense_hist),
        s("histories", 30 * SOME, 150 * SOME, hist),
        s("long-walks", 40, 400, long),
        s("ladders", 32, 480, ladder),
        s("unequal-sizes", 40, 400, unequal),
        s("wide-histories", 20 * SOME, 40 * SOME, wide_hist),
    ]
}

fn main() {
    fn t<T: Dom>() { self_test_dom::<T>() }
    for i in 0..SOME { pick_some!(i, t,) }
    for i in 0..8 { pick_small!(i, t,) }
    main_with(suites)
}
