//! P23: ownership of element values. Every value is tracked from creation to
//! drop; workloads abandon iterators half-way and make the n-th point
//! operation panic, for every n. Run natively, under AddressSanitizer and
//! under Miri.
use nimon::dom::*;
use nimon::grid::*;
use nimon::ivs::*;
use nimon::mon::*;
use nimon::prog::{run, Prog};
use nimon::rng::{mix, Rng};
use nimon::rset::RSet;
use nimon::sel::*;
use nimon::trk::*;
use nimon::want;
use normalize_interval::normalize::{Finite, Normalize};
use normalize_interval::raw_interval::RawInterval;
use normalize_interval::tine::Tine;
use normalize_interval::tine_tree::TineTree;
use normalize_interval::{Bound, Interval, Selection};
use std::hint::black_box as bb;

const MIRI: bool = cfg!(miri);
/// Points of the finite type.
const N: u16 = if MIRI { 30 } else { 200 };
/// Boundary points of the dense order.
const K: u32 = if MIRI { 15 } else { 100 };
type P = Trk<N>;
type Tree = TineTree<Kt>;
/// Sizes of the worlds with large containers.
const BIG_N: u16 = 20_000;
const BIG_K: u32 = 5_000;
type G = Dense<Kt, K>;

/// Marks the complaints that are about ownership.
const OWN: &str = "ownership:";

const LIVE: &str = "values still live after every container is gone";

/// Nothing created since `start` may be alive, nothing dropped twice.
fn settled(start: u64, ev: &mut Ev) -> Verdict {
    let faults = take_faults();
    let live = live_since(start);
    if !faults.is_empty() || !live.is_empty() { reset(); }
    want!(faults.is_empty(), "{faults:?}");
    want!(live.is_empty(), "{} {LIVE}: (id, value) {:?}", live.len(), &live[..live.len().min(10)]);
    bump(ev, "settlements (no value left live)", 1);
    Ok(())
}

/// Tracks one case: `body` must leave nothing behind.
fn owned(ev: &mut Ev, body: impl FnOnce(&mut Ev) -> Verdict) -> Verdict {
    let start = last_id();
    let (c0, d0, _) = counts();
    set_fuse(None);
    let r = guarded(|| body(ev));
    set_fuse(None);
    // What operations answer, and whether they panic by themselves, is judged
    // by other properties; here only what becomes of the values.
    let verdict = match r {
        Ok(Err(m)) if m.contains(OWN) => Err(m),
        Ok(Ok(())) => Ok(()),
        _ => { bump(ev, "cases ended by a panic or a wrong answer (not judged here)", 1); Ok(()) }
    };
    settled(start, ev)?;
    verdict?;
    let (c1, d1, _) = counts();
    want!(c1 - c0 == d1 - d0, "{} values created, {} dropped", c1 - c0, d1 - d0);
    bump(ev, "values created", c1 - c0);
    bump(ev, "values dropped", d1 - d0);
    Ok(())
}

/// The same for bodies in which a point operation panics. The standard
/// library's sets lose values (which is safe) when a comparison panics while
/// they are built in bulk; that is not this library's leak.
fn owned_but_for_std(ev: &mut Ev, body: impl Fn(&mut Ev) -> Verdict) -> Verdict {
    let r = owned(ev, &body);
    match &r {
        Err(m) if m.contains(LIVE) => {
            let mut again = Ok(());
            let at = traced(|| again = owned(&mut Ev::new(), &body));
            let bulk = ["bulk_push", "bulk_build", "dedup_sorted", "DedupSorted", "btree::append", "from_sorted_iter", "MergeIter", "merge_iter"];
            if matches!(again, Err(m) if m.contains(LIVE)) && bulk.iter().any(|b| at.contains(b)) {
                bump(ev, "leaks of a standard set interrupted in its bulk construction (not judged)", 1);
                return Ok(());
            }
            r
        }
        _ => r,
    }
}

/// Uses an iterator in one of several ways and abandons it.
fn nibble<I>(mut it: impl DoubleEndedIterator<Item = I>, rng: &mut Rng, keep: bool) {
    // Mostly a few steps; sometimes one of the iterator's other methods, which
    // a type may override, some of them left by a panic of the caller's.
    let at = rng.idx(4);
    let mut i = 0;
    match rng.below(if MIRI { 24 } else { 16 }) {
        0 => { let p = Prog::random(rng, 6); bb(run(it, &p, &mut Vec::new(), 300).len()); return }
        1 => { bb(it.find(|_| { i += 1; i > at })); bb(it.next_back()); return }
        2 => { bb(it.rfind(|_| { i += 1; i > at })); bb(it.next()); return }
        3 => { let _ = guarded(|| it.for_each(|_| { i += 1; assert!(i <= at) })); return }
        4 => { let _ = guarded(|| it.rev().for_each(|_| { i += 1; assert!(i <= at) })); return }
        5 => { let r: Result<Vec<I>, I> = it.map(|x| { i += 1; if i > at { Err(x) } else { Ok(x) } }).collect(); bb(r.is_ok()); return }
        6 => { bb(it.next()); bb(it.last()); return }
        7 => { bb(it.next_back()); bb(it.count()); return }
        8 => { bb(it.nth_back(at)); bb(it.nth(at)); bb(it.size_hint()); return }
        9 => { let (a, b): (Vec<I>, Vec<I>) = it.partition(|_| { i += 1; i % 2 == 0 }); bb(a.len() + b.len()); return }
        10 => { let mut p = it.peekable(); bb(p.peek().is_some()); bb(p.next_back()); bb(p.peek().is_some()); return }
        _ => {}
    }
    if let 1 = rng.below(40) { let v: Vec<I> = it.by_ref().skip(at).step_by(2).collect(); bb(v.len()); }
    let (a, b) = (rng.idx(5), rng.idx(5));
    let mut kept = Vec::new();
    for i in 0..a + b {
        let x = if (i + a) % 2 == 0 || i >= 2 * b { it.next() } else { it.next_back() };
        if keep { kept.push(x); }
    }
    if rng.chance(1, 4) { bb(it.nth(rng.idx(3))); }
    drop(it);
    bb(kept.len());
}
fn nibble_fwd<I>(it: impl Iterator<Item = I>, rng: &mut Rng) {
    let v: Vec<I> = it.take(rng.idx(3)).collect();
    bb(v.len());
}

// ------------------------------------------------------------------ histories
fn observe<X: Space>(g: &Regs<X>, d: usize, salt: u64, ev: &mut Ev) -> Verdict {
    let mut rng = Rng::new(salt);
    let before = (last_id(), live_ids().len());
    nibble(X::intervals(&g.real[d], false), &mut rng, true);
    nibble(X::intervals(&g.real[d], true), &mut rng, false);
    // (The consuming walk clones the set; the clone must be gone again.)
    let left = live_since(before.0);
    want!(left.is_empty() && live_ids().len() == before.1, "{OWN} abandoned iterators of register {d} leave {} values live", left.len());
    bump(ev, "iterators abandoned", 2);
    Ok(())
}
fn observe_sel(g: &Regs<Fin<P>>, d: usize, salt: u64, ev: &mut Ev) -> Verdict {
    observe::<Fin<P>>(g, d, salt, ev)?;
    let mut rng = Rng::new(mix(salt));
    let before = last_id();
    nibble(g.real[d].iter(), &mut rng, true);
    nibble(g.real[d].clone().into_iter(), &mut rng, false);
    for p in &g.real[d] { if rng.chance(1, 4) { bb(p); break; } }
    let left = live_since(before);
    want!(left.is_empty(), "{OWN} abandoned point iterators of register {d} leave {} values live", left.len());
    bump(ev, "iterators abandoned", 3);
    Ok(())
}
fn tracked<X: Space>(cx: &mut Ctx, n: usize, len: usize, obs: Observe<X>) {
    for i in 0..n {
        let hot = X::hot(&mut cx.rng);
        let l = 2 + cx.rng.idx(len);
        let ops: Vec<Op> = (0..l).map(|_| rand_op::<X>(&mut cx.rng, &hot, OpSet::All, i % 2 == 0)).collect();
        let salt = cx.rng.u64();
        let key = nimon::rng::hash_str(&format!("{ops:?}"));
        if !cx.case(key, l > 3, || format!("{} history {ops:?}", X::NAME), |ev| {
            owned(ev, |ev| run_history::<X>(&ops, obs, salt, ev)).map_err(|m| {
                let short = shrink(&ops, |o| owned(&mut Ev::new(), |ev| run_history::<X>(o, obs, salt, ev)).is_err());
                format!("{m} | reduced to {short:?}")
            })
        }) { return; }
    }
}
fn hist(cx: &mut Ctx) {
    let (n, l) = if MIRI { (2, 7) } else if cx.thorough { (200, 40) } else { (60, 40) };
    match cx.block % 2 {
        0 => tracked::<Fin<P>>(cx, n, l, observe_sel),
        _ => tracked::<G>(cx, n, l, observe::<G>),
    }
}
/// Plain strings, for the memory checkers: no tracking, no oracle but theirs.
fn exercise<X: Space>(g: &Regs<X>, d: usize, salt: u64, ev: &mut Ev) -> Verdict {
    let mut rng = Rng::new(salt);
    nibble(X::intervals(&g.real[d], false), &mut rng, true);
    nibble(X::intervals(&g.real[d], true), &mut rng, true);
    bb((hash_of(&g.real[d]), g.real[d] == g.real[0]));
    bump(ev, "iterators abandoned", 2);
    Ok(())
}
fn string_hist<X: Space>(cx: &mut Ctx, n: usize, len: usize) {
    for i in 0..n {
        let hot = X::hot(&mut cx.rng);
        let l = 2 + cx.rng.idx(len);
        let ops: Vec<Op> = (0..l).map(|_| rand_op::<X>(&mut cx.rng, &hot, OpSet::All, i % 2 == 0)).collect();
        let salt = cx.rng.u64();
        let key = nimon::rng::hash_str(&format!("{ops:?}"));
        if !cx.case(key, l > 3, || format!("{} history {ops:?}", X::NAME), |ev| {
            if run_history::<X>(&ops, exercise::<X>, salt, ev).is_err() { bump(ev, "cases ended by a panic or a wrong answer (not judged here)", 1); }
            Ok(())
        }) { return; }
    }
}
fn strings(cx: &mut Ctx) {
    let (n, l) = if MIRI { (2, 10) } else { (60, 40) };
    match cx.block % 2 {
        0 => string_hist::<Fin<Lex>>(cx, n, l),
        _ => string_hist::<Dense<String, 5>>(cx, n, l),
    }
}

// -------------------------------------------------------------- one operation
/// A few containers to operate on, rebuilt identically from a salt.
struct World<const N: u16, const K: u32> {
    s: [Selection<Trk<N>>; 2], t: [Tree; 2],
    i: [Interval<Trk<N>>; 2], r: [RawInterval<Kt>; 3], f: RawInterval<Trk<N>>,
    b: [Bound<Kt>; 2], n: Vec<Tine<Kt>>,
}
fn rand_set(rng: &mut Rng, max: u128, runs: usize) -> RSet {
    let k = rng.idx(runs + 1);
    RSet::from_ranges((0..k).map(|_| { let a = rng.range128(0, max); (a, (a + rng.below(3) as u128).min(max)) }).collect())
}
impl<const N: u16, const K: u32> World<N, K> {
    fn new(salt: u64, runs: usize) -> Self {
        let mut rng = Rng::new(salt);
        let max = N as u128 - 1;
        let hot: Vec<u128> = { let a = rng.range128(0, max); let mut h = vec![0, 1, a, (a + 1).min(max), (a + 3).min(max), max - 1, max]; h.sort(); h };
        let s = [0, 1].map(|_| build::<Fin<Trk<N>>>(&rand_set(&mut rng, max, runs), rng.u64()));
        let t = [0, 1].map(|_| build::<Dense<Kt, K>>(&rand_set(&mut rng, Dense::<Kt, K>::MAX, runs), rng.u64()));
        let i = [0, 1].map(|_| Mk::random(&mut rng, &hot).build());
        let rr = |rng: &mut Rng| { let a = rng.range128(0, Dense::<Kt, K>::MAX); let b = rng.range128(0, Dense::<Kt, K>::MAX); if rng.chance(1, 10) { None } else { Some((a.min(b), a.max(b))) } };
        let r = [0, 1, 2].map(|_| Dense::<Kt, K>::raw(rr(&mut rng)));
        let (a, b) = (*rng.pick(&hot), *rng.pick(&hot));
        let f = if rng.chance(1, 2) { rng.pick(&Raw::all2(a.min(b), a.max(b))).build() } else { rng.pick(&Raw::all1(a)).build() };
        let bnd = |rng: &mut Rng| { let c = 2 * rng.below(K as u64) as i64 + 1; match rng.below(5) { 0 => Bound::Infinite, 1 | 2 => Bound::Include(Kt::at(c)), _ => Bound::Exclude(Kt::at(c)) } };
        let b = [bnd(&mut rng), bnd(&mut rng)];
        let n = r.iter().flat_map(|x| Tine::from_raw_interval(x.clone())).collect();
        World { s, t, i, r, f, b, n }
    }
}

const ACTIONS: u64 = 55;
/// Performs the `k`-th operation of the catalogue.
fn act<const N: u16, const K: u32>(w: &mut World<N, K>, k: u64, salt: u64) {
    let mut rng = Rng::new(salt);
    let max = N as u128 - 1;
    let x = rng.idx(2);
    let p = Trk::<N>::from_rank(rng.range128(0, max));
    let q = Kt::at(2 * rng.below(K as u64) as i64 + 1);
    let iv = |w: &mut World<N, K>| std::mem::take(&mut w.i[x]);
    match k {
        // Selections.
        0 => { let i = iv(w); w.s[0].union_in_place(i) }
        1 => { let i = iv(w); w.s[0].intersect_in_place(i) }
        2 => { let i = iv(w); w.s[0].minus_in_place(i) }
        3 => w.s[1] = w.s[0].union(&w.s[1]),
        4 => w.s[1] = w.s[0].intersect(&w.s[1]),
        5 => w.s[1] = w.s[0].minus(&w.s[1]),
        6 => w.s[x] = w.s[x].complement(),
        7 => { bb(w.s[0].intersects(&w.s[1])); bb(w.s[0].contains(&p)); bb(w.s[0] == w.s[1]); bb(hash_of(&w.s[0])); }
        8 => { bb(w.s[x].lower_bound()); bb(w.s[x].upper_bound()); bb(w.s[x].infimum()); bb(w.s[x].supremum()); bb(w.s[x].enclose()); bb(w.s[x].closure()); }
        9 => { bb(w.s[x].is_empty()); bb(w.s[x].is_full()); bb(w.s[x].is_bounded()); bb(w.s[x].is_left_bounded()); bb(w.s[x].is_right_bounded()); bb(w.s[x].is_half_bounded()); }
        10 => nibble(w.s[x].interval_iter(), &mut rng, true),
        11 => nibble(std::mem::take(&mut w.s[x]).into_interval_iter(), &mut rng, true),
        12 => nibble(w.s[x].iter(), &mut rng, true),
        13 => nibble(std::mem::take(&mut w.s[x]).into_iter(), &mut rng, true),
        14 => { let (a, b) = (iv(w), w.i[1 - x].clone()); w.s[0].extend(vec![a, b]) }
        15 => { let v: Vec<Interval<Trk<N>>> = w.s[0].interval_iter().collect(); w.s[1] = v.into_iter().rev().collect(); }
        16 => { w.s[1] = (0..6).map(|_| Trk::<N>::from_rank(rng.range128(0, max))).collect(); }
        17 => { w.s[0] = Selection::from(iv(w)); }
        18 => { w.s[0] = w.s[1].clone(); bb(format!("{:?}", w.s[0])); }
        // Trees.
        19 => w.t[0].union_in_place(&w.r[x]),
        20 => w.t[0].intersect_in_place(&w.r[x]),
        21 => w.t[0].minus_in_place(&w.r[x]),
        22 => w.t[1] = w.t[0].union(&w.t[1]),
        23 => w.t[1] = w.t[0].intersect(&w.t[1]),
        24 => w.t[1] = w.t[0].minus(&w.t[1]),
        25 => w.t[x] = w.t[x].complement(),
        26 => { bb(w.t[0].contains(&q)); bb(w.t[0] == w.t[1]); bb(hash_of(&w.t[0])); bb(w.t[0].is_full()); bb(w.t[0].is_empty()); }
        27 => { bb(w.t[x].lower_bound()); bb(w.t[x].upper_bound()); bb(w.t[x].enclose()); bb(w.t[x].closure()); }
        28 => nibble(w.t[x].interval_iter(), &mut rng, true),
        29 => nibble(std::mem::take(&mut w.t[x]).into_iter(), &mut rng, true),
        30 => { let v: Vec<_> = w.t[0].interval_iter().collect(); w.t[1] = v.into_iter().rev().collect(); }
        31 => { w.t[1] = TineTree::from(w.r.clone().into_iter()); w.t[0] = TineTree::from_raw_interval(w.r[0].clone()); }
        32 => { w.t[0] = w.t[1].clone(); bb(format!("{:?}", w.t[0])); }
        // Intervals.
        33 => { let m = Mk::random(&mut rng, &[0, 1, 5, 6, max - 1, max]); w.i[0] = m.build(); }
        34 => nibble_fwd(w.i[0].complement(), &mut rng),
        35 => nibble_fwd(w.i[0].union(&w.i[1]), &mut rng),
        36 => nibble_fwd(w.i[0].minus(&w.i[1]), &mut rng),
        37 => { bb(w.i[0].intersect(&w.i[1])); bb(w.i[0].enclose(&w.i[1])); bb(w.i[0].closure()); }
        38 => { bb(w.i[0].intersects(&w.i[1])); bb(w.i[0].is_adjacent_to(&w.i[1])); bb(w.i[0].contains(&p)); bb(w.i[0] == w.i[1]); bb(hash_of(&w.i[0])); }
        39 => { bb(w.i[x].lower_bound()); bb(w.i[x].upper_bound()); bb(w.i[x].infimum()); bb(w.i[x].supremum()); bb(w.i[x].size()); bb(iv(w).into_non_empty()); }
        40 => { bb(w.i[x].is_degenerate()); bb(w.i[x].is_proper()); bb(w.i[x].is_open()); bb(w.i[x].is_closed()); bb(w.i[x].is_bounded()); bb(w.i[x].is_half_open()); bb(w.i[x].is_half_closed()); bb(w.i[x].is_half_bounded()); }
        41 => nibble(w.i[x].iter(), &mut rng, true),
        42 => nibble(iv(w).into_iter(), &mut rng, false),
        43 => { nibble((&w.i[x]).into_iter(), &mut rng, true); bb(w.i[x].clone()); bb(format!("{:?}", w.i[x])); }
        // Raw intervals.
        44 => nibble_fwd(w.r[0].complement(), &mut rng),
        45 => nibble_fwd(w.r[0].union(&w.r[1]), &mut rng),
        46 => nibble_fwd(w.r[0].minus(&w.r[1]), &mut rng),
        47 => { bb(w.r[0].intersect(&w.r[1])); bb(w.r[0].enclose(&w.r[1])); bb(w.r[0].closure()); bb(w.r[0].intersects(&w.r[1])); bb(w.r[0].is_adjacent_to(&w.r[1])); bb(w.r[0].contains(&q)); }
        48 => { if let (Some(a), Some(b)) = (w.r[x].lower_bound(), w.r[x].upper_bound()) { w.r[2] = RawInterval::new(a, b); } bb(w.r[x].infimum()); bb(w.r[x].supremum()); bb(w.r[0] == w.r[1]); bb(hash_of(&w.r[0])); }
        49 => { bb(RawInterval::enclose_all(w.r.clone().into_iter())); bb(RawInterval::intersect_all(w.r.iter().cloned())); }
        50 => nibble_fwd(RawInterval::union_all(w.r.clone().into_iter()), &mut rng),
        51 => { let s = format!("{}", w.r[x]); bb(s.parse::<RawInterval<Kt>>().ok()); bb("(1,".parse::<RawInterval<Kt>>().ok()); bb("[5,x)".parse::<RawInterval<Kt>>().ok()); bb("[7,1]".parse::<RawInterval<Kt>>().ok()); }
        52 => { w.f.normalize(); w.f.denormalize(); w.f.normalize(); bb(w.f.clone().denormalized()); bb(p.succ()); bb(p.pred()); }
        // Bounds and markers.
        53 => {
            let [a, b] = &mut w.b;
            bb(a.least_union(b)); bb(a.least_intersect(b)); bb(a.greatest_union(b)); bb(a.greatest_intersect(b));
            if let Some(v) = a.as_mut() { *v = q.clone(); }
            bb(b.as_ref().is_some());
            bb(a.clone().unwrap_or(q.clone())); bb(b.clone().unwrap_or_else(|| q.clone()));
            bb(a.clone().map(|v| (v.clone(), v))); bb(b.clone().map_or(q.clone(), |v| v)); bb(a.clone().map_or_else(|| q.clone(), |v| v));
            bb(Bound::transfer(&*a, q.clone())); bb(Bound::from(q)); bb(a == b);
        }
        _ => {
            let y = rng.idx(w.n.len().max(1));
            if let (Some(a), Some(b)) = (w.n.first(), w.n.get(y)) {
                // Markers combine at one point only.
                if a.as_ref().is_some() && a.as_ref() == b.as_ref() { bb(a.clone().union(b)); bb(a.clone().intersect(b)); bb(a.clone().minus(b)); }
                bb(a.cmp(b));
                bb(b.clone().invert()); bb(b.clone().into_inner()); bb(a.as_ref().is_some());
            }
            w.n.sort();
        }
    }
}
/// Uses whatever an interrupted operation left behind. It may answer
/// anything or panic, but must stay sound.
fn aftermath<const N: u16, const K: u32>(w: &mut World<N, K>, salt: u64) {
    let mut rng = Rng::new(salt);
    for _ in 0..3 {
        let k = rng.below(ACTIONS);
        budget(200_000);
        let _ = guarded(|| act(w, k, rng.u64()));
    }
    for s in &w.s { budget(200_000); let _ = guarded(|| { bb(s.contains(&Trk::<N>::from_rank(3))); bb(s.interval_iter().take(50).count()); bb(s.iter().rev().take(50).count()); }); }
    for t in &w.t { budget(200_000); let _ = guarded(|| { bb(t.contains(&Kt::at(3))); bb(t.interval_iter().take(50).count()); bb(t.complement()); }); }
    budget(CASE_STEPS);
}

fn operations(cx: &mut Ctx) {
    let n = if MIRI { 1 } else { 400 };
    let chunk = ACTIONS.div_ceil(cx.blocks.min(11));
    let first = (cx.block % cx.blocks.min(11)) * chunk;
    for k in first..(first + chunk).min(ACTIONS) {
        for i in 0..n {
            let (a, b) = (cx.rng.u64(), cx.rng.u64());
            let runs = if MIRI { 4 } else { [4, 2, 12, 60][i % 4] };
            if !cx.case(mix(a ^ mix(b ^ mix(k))), true, || format!("operation {k} of the catalogue, on world {a:#x}, choices {b:#x}"), |ev| owned(ev, |ev| {
                let mut w = World::<N, K>::new(a, runs);
                act(&mut w, k, b);
                bump(ev, "operations", 1);
                Ok(())
            })) { return; }
        }
    }
}

/// The same on containers of hundreds to thousands of intervals: discipline
/// must not depend on the size, on the capacity a container has, or on how
/// much of it an operation walks.
fn large(cx: &mut Ctx) {
    let per = 6;
    for i in 0..ACTIONS {
        if i % cx.blocks.min(11) != cx.block % cx.blocks.min(11) { continue; }
        for j in 0..per {
            let (a, b) = (cx.rng.u64(), cx.rng.u64());
            let runs = [150, 600, 2000][j % 3];
            if !cx.case(mix(a ^ mix(b ^ mix(i))), true, || format!("operation {i} of the catalogue, on large world {a:#x}, choices {b:#x}"), |ev| owned_but_for_std(ev, |ev| {
                let mut w = World::<BIG_N, BIG_K>::new(a, runs);
                let held = live_since(0).len() as u64;
                budget(u64::MAX);
                let salts = [b, mix(b)];
                act(&mut w, i, salts[0]);
                // Half of the cases interrupt the operation as well.
                if j % 2 == 1 {
                    let mut rng = Rng::new(b);
                    let total = { let o = ops(); let _ = guarded(|| act(&mut w, i, salts[1])); ops() - o };
                    set_fuse(Some(rng.below(total + 1)));
                    let r = guarded(|| act(&mut w, i, salts[1]));
                    set_fuse(None);
                    if matches!(r, Err(m) if m.contains(BLOWN)) { bump(ev, "panics injected", 1); }
                }
                bump(ev, "operations on large containers", 1);
                bump(ev, "values held by large containers", held);
                Ok(())
            })) { return; }
        }
    }
}

/// One interrupted run; true if the fuse blew.
fn interrupted(k: u64, a: u64, b: u64, fuse: u64, runs: usize, ev: &mut Ev) -> Result<bool, String> {
    let blew = std::cell::Cell::new(false);
    owned_but_for_std(ev, |ev| {
        let mut w = World::<N, K>::new(a, runs);
        set_fuse(Some(fuse));
        let r = guarded(|| act(&mut w, k, b));
        set_fuse(None);
        match &r {
            Ok(()) => {}
            Err(m) if m.contains(BLOWN) => { blew.set(true); bump(ev, "panics injected", 1); }
            Err(_) => bump(ev, "cases ended by a panic or a wrong answer (not judged here)", 1),
        }
        if r.is_err() { aftermath(&mut w, mix(b ^ fuse)); }
        Ok(())
    })?;
    Ok(blew.get())
}
/// Every point operation of an operation is made to panic in turn.
fn panics(cx: &mut Ctx) {
    let n = if MIRI { 1 } else if cx.thorough { 6 } else { 3 };
    let chunk = ACTIONS.div_ceil(cx.blocks.min(11));
    let first = (cx.block % cx.blocks.min(11)) * chunk;
    let runs = if MIRI { [1, 4, 8] } else { [2, 9, 60] }[(cx.block / 11) as usize % 3];
    for k in first..(first + chunk).min(ACTIONS) {
        for _ in 0..n {
            let (a, b) = (cx.rng.u64(), cx.rng.u64());
            if MIRI && !cx.thorough && b % 2 == 0 { continue; }
            // Long operations are sampled beyond the first points; under Miri,
            // a few points of each are.
            let total = { let mut w = World::<N, K>::new(a, runs); let o = ops(); let _ = guarded(|| act(&mut w, k, b)); ops() - o };
            let mut fuse = if MIRI { cx.rng.below(total + 1) } else { 0 };
            let mut step = 1;
            loop {
                let mut more = true;
                if !cx.case(mix(a ^ mix(b ^ mix(k ^ fuse << 8))), true,
                    || format!("operation {k} of the catalogue, on world {a:#x}, choices {b:#x}, point operation {fuse} panics"),
                    |ev| { more = interrupted(k, a, b, fuse, runs, ev)?; Ok(()) }) { return; }
                if !more { break; }
                if MIRI { step = 1 + total; } else if fuse > 400 { step = 1 + cx.rng.below(fuse / 20); }
                fuse += step;
            }
        }
    }
    cx.ev("operations interrupted at every point", if MIRI { 0 } else { n as u64 * chunk });
}

/// Values a bulk operation's own input iterator panics over.
fn input_panics(cx: &mut Ctx) {
    let n = if MIRI { 2 } else { 300 };
    for _ in 0..n {
        let (a, at, kind) = (cx.rng.u64(), cx.rng.idx(4), cx.rng.below(6));
        if !cx.case(mix(a ^ mix(at as u64 ^ kind << 8)), true, || format!("input iterator panics at element {at}, bulk operation {kind}, world {a:#x}"), |ev| owned(ev, |ev| {
            let mut w = World::<N, K>::new(a, 4);
            let max = N as u128 - 1;
            let mut i = 0;
            let mut bomb = move || { i += 1; if i > at { panic!("{BLOWN} in input") } };
            let r = guarded(|| match kind {
                0 => { let v: Vec<_> = vec![w.i[0].clone(), w.i[1].clone(), w.i[0].clone(), w.i[1].clone(), w.i[0].clone()]; w.s[0].extend(v.into_iter().inspect(|_| bomb())) }
                1 => { let r = w.r.clone().into_iter().chain(w.r.clone()); w.t[0] = r.inspect(|_| bomb()).collect(); }
                2 => { bb(RawInterval::enclose_all(w.r.clone().into_iter().chain(w.r.clone()).inspect(|_| bomb()))); }
                3 => { bb(RawInterval::union_all(w.r.clone().into_iter().chain(w.r.clone()).inspect(|_| bomb())).count()); }
                4 => { w.s[1] = (0..9).map(|x| { bomb(); P::from_rank(x % max) }).collect(); }
                _ => { bb(RawInterval::intersect_all(w.r.clone().into_iter().chain(w.r.clone()).inspect(|_| bomb()))); }
            });
            if r.is_err() { bump(ev, "panics injected", 1); aftermath(&mut w, a); }
            Ok(())
        })) { return; }
    }
}

fn suites(_: &str) -> Vec<Suite> {
    let s = |name, quick, thorough, run| Suite { name, quick, thorough, run };
    vec![
        s("histories", if MIRI { 2 } else { 120 }, if MIRI { 12 } else { 3000 }, hist as fn(&mut Ctx)),
        s("strings", if MIRI { 3 } else { 24 }, if MIRI { 9 } else { 400 }, strings),
        s("operations", 11, if MIRI { 44 } else { 330 }, operations),
        s("large", if MIRI { 0 } else { 11 }, if MIRI { 0 } else { 220 }, large),
        s("panics", if MIRI { 11 } else { 66 }, if MIRI { 33 } else { 990 }, panics),
        s("input-panics", if MIRI { 2 } else { 16 }, if MIRI { 6 } else { 400 }, input_panics),
    ]
}

fn main() {
    if !MIRI {
        self_test_dom::<P>();
        self_test::<Kt>();
    }
    // The registry notices a leak and a second drop.
    let start = last_id();
    let mut ev = Ev::new();
    let x = Kt::at(1);
    assert!(settled(start, &mut ev).is_err());
    drop(x);
    assert_eq!(take_faults().len(), 1);
    assert!(settled(start, &mut ev).is_ok());
    main_with(suites)
}
