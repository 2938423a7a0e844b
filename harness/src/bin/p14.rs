//! P14: bulk raw interval operations against their element-wise definitions.
use nimon::grid::*;
use nimon::ivs::hash_of;
use nimon::mon::*;
use nimon::rset::RSet;
use nimon::sel::{rand_range, Space, R};
use nimon::want_eq;
use normalize_interval::raw_interval::RawInterval;

fn set(r: R) -> RSet { match r { Some((l, h)) => RSet::range(l, h), None => RSet::empty() } }
fn seq<K: Key, const N: u32>(cx: &mut Ctx, v: &[R]) -> bool {
    let salt = cx.rng.u64();
    let max = Dense::<K, N>::MAX;
    cx.case(hash_of(&(v, N, K::NAME)), v.len() > 1, || format!("{}/{N}: {:?}", K::NAME, v.iter().map(|r| Dense::<K, N>::raw(*r)).collect::<Vec<_>>()), |ev| {
        let ivs: Vec<RawInterval<K>> = v.iter().enumerate().map(|(i, r)| <Dense<K, N>>::iv(*r, nimon::rng::mix(salt ^ i as u64))).collect();
        let union = RSet::from_ranges(v.iter().flatten().copied().collect());
        let inter = v.iter().fold(RSet::full(max), |a, r| a.intersect(&set(*r)));
        let hull = union.first().map(|l| (l, union.last().unwrap()));
        // From an iterator which knows its length, and from one which does not.
        let open = salt % 2 == 0;
        let got: Vec<RawInterval<K>> = if open { RawInterval::union_all(ivs.iter().cloned().filter(|_| true)).take(v.len() + 2).collect() } else { RawInterval::union_all(ivs.iter().cloned()).take(v.len() + 2).collect() };
        let mut c = Vec::new();
        for g in &got {
            match <Dense<K, N> as Space>::range(g)? { Some(r) => c.push(r), None => return Err(format!("union_all gives an empty interval among {got:?}")) }
        }
        c.sort();
        want_eq!(c, union.v, "union_all gives {got:?}, as cells");
        let i = if open { RawInterval::intersect_all(ivs.iter().cloned().filter(|_| true)) } else { RawInterval::intersect_all(ivs.iter().cloned()) };
        want_eq!(<Dense<K, N> as Space>::range(&i)?, inter.v.first().copied(), "intersect_all gives {i:?}, as cells");
        let e = if open { RawInterval::enclose_all(ivs.iter().cloned().filter(|_| true)) } else { RawInterval::enclose_all(ivs.iter().cloned()) };
        want_eq!(<Dense<K, N> as Space>::range(&e)?, hull, "enclose_all gives {e:?}, as cells");
        bump(ev, "bulk results checked", 3);
        bump(ev, "elements", v.len() as u64);
        Ok(())
    })
}
fn exh_n<K: Key, const N: u32>(cx: &mut Ctx, len: usize) {
    let r = Dense::<K, N>::ranges();
    let total = r.len().pow(len as u32);
    for mut k in 0..total {
        if k as u64 % cx.blocks != cx.block { continue; }
        let v: Vec<R> = (0..len).map(|_| { let x = r[k % r.len()]; k /= r.len(); x }).collect();
        if !seq::<K, N>(cx, &v) { return; }
    }
}
fn exh(cx: &mut Ctx) {
    for l in 0..=3 { exh_n::<i64, 2>(cx, l); }
    for l in 0..=4 { exh_n::<Fl, 1>(cx, l); }
    for l in 0..=2 { exh_n::<String, 4>(cx, l); }
    exh_n::<Down, 3>(cx, 3);
    for l in 0..=4 { exh_n::<(), 1>(cx, l); }
    if cx.thorough { exh_n::<i64, 2>(cx, 4); exh_n::<Fl, 1>(cx, 6); exh_n::<Down, 4>(cx, 3); exh_n::<Down, 3>(cx, 4); }
}
fn rand_n<K: Key, const N: u32>(cx: &mut Ctx) {
    for _ in 0..400 {
        let hot = <Dense<K, N> as Space>::hot(&mut cx.rng);
        let max = Dense::<K, N>::MAX;
        let n = match cx.rng.below(4) { 0 => cx.rng.idx(60), _ => cx.rng.idx(8) };
        let style = cx.rng.below(3);
        let v: Vec<R> = (0..n).map(|_| if style == 0 { rand_range(&mut cx.rng, &hot, max) } else {
            // Mostly narrow, so that several pieces survive and a later one may join them.
            let a = *cx.rng.pick(&hot); let w = cx.rng.below(if style == 1 { 3 } else { 6 }) as u128; Some((a, (a + w).min(max)))
        }).collect();
        if !seq::<K, N>(cx, &v) { return; }
    }
}
fn rand(cx: &mut Ctx) {
    match cx.block % 7 { 6 => rand_n::<nimon::dom::Nest, 30>(cx), 5 => rand_n::<[u64; 24], 30>(cx), 0 => rand_n::<i64, 1_000_000>(cx), 1 => rand_n::<String, 100_000>(cx), 2 => rand_n::<Down, 30>(cx), 3 => rand_n::<i64, 7>(cx), _ => rand_n::<Fl, 50>(cx) }
}
/// Sequences of hundreds or thousands of elements, of which many stay apart:
/// mostly scattered points and short pieces over a long grid, with clusters
/// that start or end at one point, in random, ascending or descending order.
fn long_n<K: Key, const N: u32>(cx: &mut Ctx, len: usize) {
    let max = Dense::<K, N>::MAX;
    let len = len + cx.rng.idx(9);
    let mut v: Vec<R> = Vec::new();
    while v.len() < len {
        let a = cx.rng.range128(0, max);
        match cx.rng.below(12) {
            0..=5 => { let w = cx.rng.below(4) as u128; v.push(Some((a, (a + w).min(max)))) }
            6 => { for _ in 0..3 { let w = cx.rng.below(9) as u128; v.push(Some((a, (a + w).min(max)))) } }
            7 => { for _ in 0..3 { let w = cx.rng.below(9) as u128; v.push(Some((a.saturating_sub(w), a))) } }
            8 => { let mut b = a; for _ in 0..4 { let w = cx.rng.below(3) as u128; v.push(Some((b, (b + w).min(max)))); b = (b + w + 1 + cx.rng.below(2) as u128).min(max) } }
            9 => { v.push(Some((a, (a + 40).min(max)))); v.push(Some(((a + 8).min(max), (a + 9).min(max)))) }
            10 => v.push(None),
            _ => v.push(Some((a, a))),
        }
    }
    if cx.rng.chance(1, 8) { v.push(Some((0, max / 2))) }
    if cx.rng.chance(1, 8) { v.push(Some((max / 2, max))) }
    match cx.rng.below(4) {
        0 => v.sort(),
        1 => { v.sort(); v.reverse() }
        2 => v.sort_by_key(|r| r.map(|r| r.1)),
        _ => for i in (1..v.len()).rev() { let j = cx.rng.idx(i + 1); v.swap(i, j) },
    }
    seq::<K, N>(cx, &v);
}
/// All elements share some points, so that the intersection stays non-empty.
fn nested_n<K: Key, const N: u32>(cx: &mut Ctx, len: usize) {
    let max = Dense::<K, N>::MAX;
    let c = cx.rng.range128(max / 4, 3 * max / 4);
    let v: Vec<R> = (0..len).map(|_| match cx.rng.below(8) {
        0 => Some((0, cx.rng.range128(c, max))),
        1 => Some((cx.rng.range128(0, c), max)),
        2 => Some((0, max)),
        _ => Some((cx.rng.range128(0, c), cx.rng.range128(c, max))),
    }).collect();
    seq::<K, N>(cx, &v);
}
/// Many alike elements, and one or two which decide the result, anywhere.
fn decisive_n<K: Key, const N: u32>(cx: &mut Ctx, len: usize) {
    let max = Dense::<K, N>::MAX;
    for _ in 0..6 {
        let len = len + cx.rng.idx(5);
        let (a, b) = (cx.rng.range128(max / 8, max / 3), cx.rng.range128(2 * max / 3, 7 * max / 8));
        let kind = cx.rng.below(4);
        let mut v: Vec<R> = (0..len).map(|i| match kind {
            // All wide: the narrowest decides the intersection.
            0 => Some((a, b)),
            1 => Some((a - cx.rng.below(2) as u128, b + cx.rng.below(2) as u128)),
            // Two islands, alternating: the bridge decides the union.
            2 => Some(if i % 2 == 0 { (a - 2, a) } else { (b, b + 2) }),
            // All short: the extreme one decides the hull.
            _ => Some((a + i as u128 % 5, a + i as u128 % 5)),
        }).collect();
        let n = v.len();
        let spots = [0, 1, n / 2, n / 2 - 1, n / 2 + 1, n - 1, n - 2, cx.rng.idx(n)];
        for _ in 0..1 + cx.rng.idx(2) {
            let at = *cx.rng.pick(&spots);
            v[at] = match cx.rng.below(6) {
                0 => Some((a + 1, b)), 1 => Some((a, b - 1)), 2 => Some((a + 1, b - 1)),
                3 => Some((cx.rng.range128(0, a), cx.rng.range128(b, max))), 4 => None,
                _ => { let x = cx.rng.range128(a, b); Some((x, x)) }
            };
        }
        if !seq::<K, N>(cx, &v) { return; }
    }
}
fn decisive(cx: &mut Ctx) {
    let len = [20, 40, 64, 100, 256, 300, 500, 1024, 2100][(cx.block % 9) as usize];
    match (cx.block + cx.block / 9) % 4 { 0 => decisive_n::<i64, 40_000>(cx, len), 1 => decisive_n::<Down, 500>(cx, len), 2 => decisive_n::<Fl, 4_000>(cx, len), _ => decisive_n::<String, 900>(cx, len) }
}
const LENS: [usize; 8] = [64, 100, 128, 256, 300, 512, 1000, 2500];
fn long(cx: &mut Ctx) {
    let len = LENS[(cx.block % 8) as usize];
    match (cx.block + cx.block / 8) % 4 { 0 => long_n::<i64, 40_000>(cx, len), 1 => long_n::<Down, 9_000>(cx, len), 2 => long_n::<i64, 4_000>(cx, len), _ => long_n::<String, 20_000>(cx, len.min(1000)) }
    match cx.block % 3 { 0 => nested_n::<i64, 40_000>(cx, len), 1 => nested_n::<Fl, 5_000>(cx, len), _ => nested_n::<String, 20_000>(cx, len) }
}
fn suites(_: &str) -> Vec<Suite> {
    let s = |name, quick, thorough, run| Suite { name, quick, thorough, run };
    vec![s("small-exhaustive", 16, 64, exh as fn(&mut Ctx)), s("random-sequences", 400, 2000, rand), s("long-sequences", 64, 640, long), s("decisive-elements", 360, 1800, decisive)]
}
fn main() {
    self_test::<[u64; 24]>(); self_test::<i64>(); self_test::<String>(); self_test::<Down>(); self_test::<Fl>();
    main_with(suites)
}
