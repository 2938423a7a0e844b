//! P26: values can be sent to and shared between threads; concurrent readers
//! observe what a single thread does, without data races.
//!
//! Values are shared by force (`Force`), so the workload also builds when a
//! type stops being thread-safe; the probes report that by itself.
use nimon::dom::*;
use nimon::ivs::*;
use nimon::mon::*;
use nimon::rng::{hash_str, mix, Rng};
use nimon::rset::RSet;
use nimon::sel::*;
use nimon::grid::*;
use nimon::want;
use normalize_interval::normalize::Finite;
use normalize_interval::raw_interval::RawInterval;
use normalize_interval::tine_tree::TineTree;
use normalize_interval::{Bound, Interval, Selection};
use std::cell::Cell;
use std::cmp::Ordering as Cmp;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::marker::PhantomData;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{mpsc, Arc, Mutex};
use std::time::Duration;

/// Carries any value to another thread, whatever its type promises.
struct Force<T>(T);
unsafe impl<T> Send for Force<T> {}
unsafe impl<T> Sync for Force<T> {}
impl<T> Force<T> { fn get(&self) -> &T { &self.0 } fn into(self) -> T { self.0 } }

// ---------------------------------------------------------------- probes

/// `(&&P::<T>::new()).send()` answers whether `T: Send` without requiring it.
struct P<T>(PhantomData<T>);
trait No { fn send(&self) -> bool { false } fn sync(&self) -> bool { false } }
impl<T> No for &P<T> {}
trait YesSend { fn send(&self) -> bool { true } }
impl<T: Send> YesSend for P<T> {}
trait YesSync { fn sync(&self) -> bool { true } }
impl<T: Sync> YesSync for P<T> {}
macro_rules! is_send { ($t:ty) => { (&P::<$t>(PhantomData)).send() } }
macro_rules! is_sync { ($t:ty) => { (&P::<$t>(PhantomData)).sync() } }

macro_rules! probe_types { ($cx:expr, $want:expr, $($t:ty),*) => { $(
    probe!($cx, $want, $t; Bound<$t>, RawInterval<$t>, Interval<$t>, TineTree<$t>, Selection<$t>);
)* } }
macro_rules! probe { ($cx:expr, $want:expr, $pt:ty; $($t:ty),*) => { $(
    if !$cx.case(hash_str(concat!(stringify!($t), stringify!($pt))), true, || format!("type {} over {}", stringify!($t), stringify!($pt)), |ev| {
        let (s, y) = (is_send!($t), is_sync!($t));
        bump(ev, "types probed", 1);
        if $want {
            want!(s, "{} cannot be sent to another thread although its points can", std::any::type_name::<$t>());
            want!(y, "{} cannot be shared between threads although its points can", std::any::type_name::<$t>());
        } else {
            want!(!s && !y, "{} is declared thread-safe although its points are not", std::any::type_name::<$t>());
        }
        Ok(())
    }) { return; }
)* } }

fn probes(cx: &mut Ctx) {
    // The probes themselves, on types whose answer is known.
    assert!(is_send!(i32) && is_sync!(i32) && is_send!(Cell<i32>) && !is_sync!(Cell<i32>) && !is_send!(std::rc::Rc<i32>));
    assert!(!is_send!(std::sync::MutexGuard<'static, i32>) && is_sync!(std::sync::MutexGuard<'static, i32>));
    probe_types!(cx, true, u8, i8, u16, i16, u32, i32, u64, i64, u128, i128, usize, isize, String, Vec<u8>, Arc<str>, char, Y, Rev, Sparse, Ch, Lex, &'static str, Option<i32>, (i32, String), std::time::Duration);
    probe_types!(cx, false, std::rc::Rc<i32>, std::rc::Rc<str>, *const i32);
}

// ---------------------------------------------------------------- a point that makes way

thread_local! { static LOT: Cell<u64> = const { Cell::new(0) }; }
/// Sets how often this thread's point operations give way to others: one in `n`.
fn give_way(seed: u64) { LOT.with(|l| l.set(seed | 1)); }
#[inline]
fn way() {
    LOT.with(|l| {
        let mut x = l.get();
        if x == 0 { return; }
        x ^= x << 13; x ^= x >> 7; x ^= x << 17;
        l.set(x);
        match x & 63 { 0 => std::thread::yield_now(), 1..=3 if !cfg!(miri) => for _ in 0..(x >> 8 & 127) { std::hint::spin_loop() }, _ => {} }
    })
}
/// A point, mostly owning heap memory, whose comparisons, copies and steps are
/// moments at which another thread may get in between.
#[derive(Debug)]
pub struct Y(u16, Option<Arc<u16>>);
const YMAX: u16 = 999;
impl Y { fn at(v: u16) -> Y { Y(v, (v % 4 != 0).then(|| Arc::new(v))) } }
impl Clone for Y { fn clone(&self) -> Self { way(); if self.0 % 3 == 0 { Y(self.0, self.1.clone()) } else { Y::at(self.0) } } }
impl PartialEq for Y { fn eq(&self, o: &Self) -> bool { way(); self.0 == o.0 } }
impl Eq for Y {}
impl PartialOrd for Y { fn partial_cmp(&self, o: &Self) -> Option<Cmp> { Some(self.cmp(o)) } }
impl Ord for Y { fn cmp(&self, o: &Self) -> Cmp { way(); self.0.cmp(&o.0) } }
impl Hash for Y { fn hash<H: Hasher>(&self, h: &mut H) { way(); self.0.hash(h) } }
impl Finite for Y {
    const MINIMUM: Self = Y(0, None);
    const MAXIMUM: Self = Y(YMAX, None);
    fn pred(&self) -> Option<Self> { way(); self.0.checked_sub(1).map(Y::at) }
    fn succ(&self) -> Option<Self> { way(); (self.0 < YMAX).then(|| Y::at(self.0 + 1)) }
}
impl Dom for Y {
    const NAME: &'static str = "Y";
    fn max_rank() -> u128 { YMAX as u128 }
    fn rank(&self) -> u128 { self.0 as u128 }
    fn from_rank(r: u128) -> Self { Y::at(r as u16) }
}

// ---------------------------------------------------------------- concurrent readers

/// Values many threads look at, rebuilt alike from the same seed.
struct World<T> { sels: Vec<Selection<T>>, trees: Vec<TineTree<T>>, ivs: Vec<Interval<T>>, raws: Vec<RawInterval<T>>, pts: Vec<T>, models: Vec<RSet> }
const VALUES: usize = 4;
impl<T: Dom> World<T> {
    fn build(seed: u64, big: bool) -> Self {
        let mut rng = Rng::new(seed);
        let max = T::max_rank();
        let hot = hot_ranks::<T>(&mut rng);
        let mut w = World { sels: vec![], trees: vec![], ivs: vec![], raws: vec![], pts: vec![], models: vec![] };
        for _ in 0..VALUES {
            let n = 1 + rng.idx(if big { 40 } else { 6 });
            // Once in a while a set of hundreds of intervals.
            let m = if big && !cfg!(miri) && rng.chance(1, 6) {
                RSet::from_ranges((0..200 + rng.idx(300)).map(|_| { let a = rng.range128(0, max); (a, (a + rng.below(3) as u128).min(max)) }).collect())
            } else { RSet::from_ranges((0..n).filter_map(|_| rand_range(&mut rng, &hot, max)).collect()) };
            w.sels.push(build::<Fin<T>>(&m, rng.u64()));
            w.trees.push(m.v.iter().map(|(l, h)| RawInterval::closed(T::from_rank(*l), T::from_rank(*h))).collect());
            w.models.push(m);
            let k = Mk::random(&mut rng, &hot);
            w.ivs.push(k.build());
            w.raws.push(RawInterval::new(Bound::Exclude(T::from_rank(*rng.pick(&hot))), Bound::Include(T::from_rank(max - max / 3))));
        }
        for _ in 0..24 { w.pts.push(T::from_rank(*rng.pick(&hot))); }
        w
    }
    fn show(&self) -> u64 { hash_str(&format!("{:?}{:?}{:?}{:?}", self.sels, self.trees, self.ivs, self.raws)) }
}

/// One observation: which value is read, how, and together with which other.
#[derive(Clone, Copy, Debug)]
struct Read { how: u8, a: usize, b: usize, salt: u64 }
const HOWS: u64 = 36;
macro_rules! dig { ($($e:expr),*) => { hash_str(&format!("{:?}", ($($e,)*))) } }
/// Carries out a read and digests everything it returned.
fn read<T: Dom>(w: &World<T>, r: Read) -> u64 {
    let mut rng = Rng::new(r.salt);
    let (s, s2) = (&w.sels[r.a], &w.sels[r.b]);
    let (t, t2) = (&w.trees[r.a], &w.trees[r.b]);
    let (i, i2) = (&w.ivs[r.a], &w.ivs[r.b]);
    let (v, v2) = (&w.raws[r.a], &w.raws[r.b]);
    let p = rng.pick(&w.pts);
    match r.how {
        0 => dig!(w.pts.iter().map(|p| s.contains(p)).collect::<Vec<_>>()),
        1 => dig!(s.contains(p), s.intersects(s2)),
        2 => dig!(s.interval_iter().collect::<Vec<_>>()),
        3 => dig!(s.interval_iter().rev().collect::<Vec<_>>()),
        4 => { let (mut it, mut o) = (s.interval_iter(), vec![]); for _ in 0..60 { let x = if rng.chance(1, 2) { it.next() } else { it.next_back() }; o.push(x); } dig!(o) }
        5 => dig!(s.iter().take(25).collect::<Vec<_>>()),
        6 => dig!(s.iter().rev().take(25).collect::<Vec<_>>()),
        7 => { let (mut it, mut o) = (s.iter(), vec![]); for _ in 0..25 { let x = if rng.chance(1, 2) { it.next() } else { it.next_back() }; o.push(x); } dig!(o) }
        8 => dig!(s.lower_bound(), s.upper_bound(), s.infimum(), s.supremum()),
        9 => dig!(s.is_empty(), s.is_full(), s.is_bounded(), s.is_left_bounded(), s.is_right_bounded(), s.is_half_bounded()),
        10 => dig!(s.union(s2)),
        11 => dig!(s.intersect(s2)),
        12 => dig!(s.minus(s2)),
        13 => dig!(s.complement(), s.complement().complement() == *s),
        14 => dig!(s.enclose(), s.closure()),
        15 => dig!(s == s2, s != s2, s == s, hash_of(s), hash_of(s2)),
        16 => { let mut c = s.clone(); c.union_in_place(i.clone()); c.minus_in_place(i2.clone()); dig!(c, s) }
        17 => { let mut c = s.clone(); c.intersect_in_place(i.clone()); c.extend(s2.interval_iter().take(5)); dig!(c) }
        18 => dig!(s.clone().into_interval_iter().collect::<Vec<_>>(), s.clone().into_iter().take(5).collect::<Vec<_>>()),
        19 => dig!(t.interval_iter().collect::<Vec<_>>(), t.interval_iter().rev().count()),
        20 => dig!(w.pts.iter().map(|p| t.contains(p)).collect::<Vec<_>>()),
        21 => dig!(t.union(t2)),
        22 => dig!(t.intersect(t2)),
        23 => dig!(t.minus(t2)),
        24 => dig!(t.complement(), t.lower_bound(), t.upper_bound(), t.enclose(), t.closure(), t.is_empty(), t.is_full()),
        25 => { let mut c = t.clone(); c.union_in_place(v); c.minus_in_place(v2); c.intersect_in_place(v); dig!(c, hash_of(t), t == t2) }
        26 => dig!(i.lower_bound(), i.upper_bound(), i.infimum(), i.supremum(), i.is_empty(), i.is_degenerate(), i.is_proper(), i.is_bounded(), i.is_open(), i.is_closed()),
        27 => dig!(i.union(i2).collect::<Vec<_>>(), i.minus(i2).collect::<Vec<_>>(), i.complement().collect::<Vec<_>>()),
        28 => dig!(i.intersect(i2), i.enclose(i2), i.closure(), i.intersects(i2), i.is_adjacent_to(i2), i == i2, hash_of(i)),
        29 => dig!(i.iter().take(15).collect::<Vec<_>>(), i.iter().rev().take(15).collect::<Vec<_>>(), w.pts.iter().map(|p| i.contains(p)).collect::<Vec<_>>()),
        30 => dig!(v.union(v2).collect::<Vec<_>>(), v.minus(v2).collect::<Vec<_>>(), v.complement().collect::<Vec<_>>(), v.intersect(v2), v.enclose(v2), v.closure()),
        31 => dig!(RawInterval::union_all(w.raws.iter().cloned()).collect::<Vec<_>>(), RawInterval::intersect_all(w.raws.iter().cloned()), RawInterval::enclose_all(w.raws.iter().cloned())),
        32 => dig!(v.contains(p), v.lower_bound(), v.upper_bound(), v.infimum(), v.intersects(v2), v.is_adjacent_to(v2), v == v2, hash_of(v)),
        33 => { let (x, y) = (i.lower_bound(), i2.upper_bound()); match (x, y) { (Some(x), Some(y)) => dig!(x.least_union(&y), x.least_intersect(&y), x.greatest_union(&y), x.greatest_intersect(&y), x.as_ref(), x.is_finite()), _ => 0 } }
        34 => dig!(s, t, i, v),
        _ => { let c: Selection<T> = s.interval_iter().chain(s2.interval_iter()).collect(); dig!(c, Selection::from(i.clone()), TineTree::from_raw_interval(v.clone())) }
    }
}

static SEQ: AtomicU64 = AtomicU64::new(0);
static SEEN: Mutex<Option<HashSet<u64>>> = Mutex::new(None);

/// A start line that, unlike a barrier, orders nothing but the start.
fn line_up(arrived: &AtomicUsize, n: usize) {
    arrived.fetch_add(1, Ordering::Relaxed);
    while arrived.load(Ordering::Relaxed) < n { std::thread::yield_now(); }
}

/// Waits for `n` answers; an error when nothing has moved for a long time.
fn gather<V>(rx: &mpsc::Receiver<(usize, Result<V, String>)>, n: usize, progress: &AtomicU64) -> Result<Vec<V>, String> {
    let mut out: Vec<Option<V>> = (0..n).map(|_| None).collect();
    let (mut last, mut still) = (u64::MAX, 0);
    let mut got = 0;
    while got < n {
        match rx.recv_timeout(Duration::from_secs(1)) {
            Ok((i, r)) => { out[i] = Some(r?); got += 1; }
            Err(_) => {
                let p = progress.load(Ordering::Relaxed);
                if p == last { still += 1 } else { last = p; still = 0 }
                want!(still < 30, "threads are stuck: no operation on shared values has finished for 30 seconds, {got} of {n} threads done");
            }
        }
    }
    Ok(out.into_iter().map(|o| o.unwrap()).collect())
}

struct Done { digest: u64, start: u64, end: u64 }

fn readers<T: Dom>(cx: &mut Ctx, cases: usize, threads: usize, len: usize) {
    for c in 0..cases {
        let seed = cx.rng.u64();
        let big = !cfg!(miri) && cx.rng.chance(1, 3);
        let mut progs: Vec<Vec<Read>> = Vec::new();
        let common: Vec<Read> = (0..len).map(|_| Read { how: cx.rng.below(HOWS) as u8, a: cx.rng.idx(VALUES), b: cx.rng.idx(VALUES), salt: cx.rng.u64() }).collect();
        let one = cx.rng.idx(VALUES);
        let how = cx.rng.below(HOWS) as u8;
        for t in 0..threads {
            progs.push(match (c + t) % 4 {
                // The same reads everywhere, at the same time.
                0 | 1 if c % 3 == 0 => common.clone(),
                // One kind of read of one value against everything else.
                2 if c % 2 == 0 => (0..len).map(|_| Read { how, a: one, b: cx.rng.idx(VALUES), salt: cx.rng.u64() }).collect(),
                _ => (0..len).map(|_| Read { how: cx.rng.below(HOWS) as u8, a: if c % 2 == 0 { one } else { cx.rng.idx(VALUES) }, b: cx.rng.idx(VALUES), salt: cx.rng.u64() }).collect(),
            });
        }
        let warm = cx.rng.chance(1, 2);
        let lots: Vec<u64> = (0..threads).map(|_| cx.rng.u64()).collect();
        let key = mix(seed) ^ hash_str(&format!("{progs:?}"));
        if !cx.case(key, true, || format!("{} world {seed:#x} (big: {big}) read by {threads} threads: {}", T::NAME, brief(&progs)), |ev| {
            // Fresh values, first looked at by all threads together.
            let mut w = World::<T>::build(seed, big);
            if warm { w = std::thread::scope(|sc| { let f = Force(w); sc.spawn(move || Force(f.into())).join().map_err(|_| "sending values back panicked") }).map(|f| f.into())?; bump(ev, "worlds sent through another thread", 1); }
            let before = w.show();
            let w = if warm { w } else { World::<T>::build(seed, big) };
            let w = Arc::new(Force(w));
            let progs = Arc::new(progs.clone());
            let arrived = Arc::new(AtomicUsize::new(0));
            let progress = Arc::new(AtomicU64::new(0));
            let (tx, rx) = mpsc::channel();
            let mut hs = vec![];
            for t in 0..threads {
                let (w, progs, arrived, progress, tx, lot) = (Arc::new(Force(w.clone())), progs.clone(), arrived.clone(), progress.clone(), tx.clone(), lots[t]);
                hs.push(std::thread::spawn(move || {
                    give_way(lot);
                    let w: &World<T> = w.get().get();
                    line_up(&arrived, threads);
                    let r = guarded(|| progs[t].iter().map(|r| {
                        let start = SEQ.fetch_add(1, Ordering::Relaxed);
                        let digest = read(w, *r);
                        let end = SEQ.fetch_add(1, Ordering::Relaxed);
                        progress.fetch_add(1, Ordering::Relaxed);
                        Done { digest, start, end }
                    }).collect::<Vec<Done>>());
                    let _ = tx.send((t, r.map_err(|m| format!("thread {t} panicked: {m}"))));
                }));
            }
            drop(tx);
            let logs = gather(&rx, threads, &progress)?;
            for h in hs { let _ = h.join(); }
            // What a single thread that has seen nothing else observes.
            let alone = std::thread::scope(|sc| sc.spawn(|| guarded(|| {
                let w = World::<T>::build(seed, big);
                let d: Vec<Vec<u64>> = progs.iter().map(|p| p.iter().map(|r| read(&w, *r)).collect()).collect();
                (w.show(), d)
            })).join()).map_err(|_| "the single thread died".to_string())?;
            let (show, alone) = alone.map_err(|m| format!("the single thread panicked: {m}"))?;
            for (t, log) in logs.iter().enumerate() {
                for (k, d) in log.iter().enumerate() {
                    want!(d.digest == alone[t][k], "thread {t}, read {k} ({:?}) observed something else than a single thread does: {}", progs[t][k], reveal(&w.get(), progs[t][k]));
                }
            }
            want!(w.get().show() == show && before == show, "the shared values look different after having been read");
            for (m, s) in w.get().models.iter().zip(&w.get().sels) {
                let got: Result<Vec<_>, String> = s.interval_iter().take(2 * m.v.len() + 9).map(|i| ends(&i)).collect();
                let got: Vec<(u128, u128)> = got?.into_iter().flatten().collect();
                want!(got == m.v, "shared selection holds {got:?} after having been read, expected {:?}", m.v);
            }
            observe(&logs, &progs, ev);
            Ok(())
        }) { return; }
    }
}
fn reveal<T: Dom>(w: &World<T>, r: Read) -> String { format!("values {:?} and {:?}, {:?} and {:?}", w.sels[r.a], w.sels[r.b], w.ivs[r.a], w.ivs[r.b]) }
fn brief(p: &[Vec<Read>]) -> String { p.iter().map(|v| v.iter().map(|r| format!("{}:{}{}", r.how, r.a, r.b)).collect::<Vec<_>>().join(" ")).collect::<Vec<_>>().join(" | ") }

/// What the event log shows about how the threads ran against each other.
fn observe(logs: &[Vec<Done>], progs: &[Vec<Read>], ev: &mut Ev) {
    let mut marks: Vec<(u64, usize)> = Vec::new();
    for (t, l) in logs.iter().enumerate() { for d in l { marks.push((d.start, t)); marks.push((d.end, t)); } }
    marks.sort();
    let mut sig = 0u64;
    for (_, t) in &marks { sig = mix(sig ^ (*t as u64 + 1)); }
    let switches = marks.windows(2).filter(|m| m[0].1 != m[1].1).count();
    let mut over = 0;
    for t in 0..logs.len() { for u in 0..t { for (i, d) in logs[t].iter().enumerate() { for (j, e) in logs[u].iter().enumerate() {
        if d.start < e.end && e.start < d.end {
            let (r, q) = (progs[t][i], progs[u][j]);
            if r.a == q.a || r.a == q.b || r.b == q.a || r.b == q.b { over += 1 }
        }
    } } } }
    bump(ev, "reads of shared values", logs.iter().map(|l| l.len() as u64).sum());
    bump(ev, "pairs of overlapping reads of one value", over);
    bump(ev, "switches between threads within logs", switches as u64);
    if SEEN.lock().unwrap().get_or_insert_with(HashSet::new).insert(sig) { bump(ev, "distinct interleavings (orders of starts and ends)", 1); }
}

fn reading(cx: &mut Ctx) {
    let n = if cfg!(miri) { 2 } else { 40 };
    let threads = if cfg!(miri) { 2 + (cx.block % 2) as usize } else { 2 + (cx.block % 6) as usize };
    let len = if cfg!(miri) { 5 } else { 24 };
    match cx.block % 6 {
        0 | 3 => readers::<Y>(cx, n, threads, len), 1 => readers::<i32>(cx, n, threads, len), 2 => readers::<Lex>(cx, n, threads, len),
        4 => readers::<u8>(cx, n, threads, len), _ => readers::<Y>(cx, n, threads.max(5), len),
    }
}

// ---------------------------------------------------------------- sent values

/// Sets travel from thread to thread, every thread changing whichever it holds.
fn travellers<X: Space>(cx: &mut Ctx, cases: usize, threads: usize, sets: usize, laps: usize) where X::S: Eq {
    for _ in 0..cases {
        let hot = X::hot(&mut cx.rng);
        // Each set's own history, cut into legs.
        let legs: Vec<Vec<Vec<Op>>> = (0..sets).map(|_| (0..laps).map(|_| (0..1 + cx.rng.idx(4)).map(|_| rand_op::<X>(&mut cx.rng, &hot, OpSet::All, false)).collect()).collect()).collect();
        let routes: Vec<Vec<usize>> = (0..sets).map(|_| (0..laps).map(|_| cx.rng.idx(threads)).collect()).collect();
        let lots: Vec<u64> = (0..threads).map(|_| cx.rng.u64()).collect();
        if !cx.case(hash_str(&format!("{}{legs:?}{routes:?}", X::NAME)), true, || format!("{}: {sets} sets of registers travel {laps} legs over {threads} threads, routes {routes:?}, legs {legs:?}", X::NAME), |ev| {
            let progress = Arc::new(AtomicU64::new(0));
            let stop = Arc::new(AtomicBool::new(false));
            let (home_tx, home_rx) = mpsc::channel();
            type Parcel<X> = (usize, usize, Force<Regs<X>>);
            let chans: Vec<(mpsc::Sender<Parcel<X>>, mpsc::Receiver<Parcel<X>>)> = (0..threads).map(|_| mpsc::channel()).collect();
            let txs: Vec<mpsc::Sender<Parcel<X>>> = chans.iter().map(|c| c.0.clone()).collect();
            for (k, route) in routes.iter().enumerate() { let _ = txs[route[0]].send((k, 0, Force(Regs::new(NREG)))); }
            let (legs2, routes2) = (Arc::new(legs.clone()), Arc::new(routes.clone()));
            let mut hs = vec![];
            for (t, (_, rx)) in chans.into_iter().enumerate() {
                let (txs, home, progress, legs, routes, stop, lot) = (txs.clone(), home_tx.clone(), progress.clone(), legs2.clone(), routes2.clone(), stop.clone(), lots[t]);
                hs.push(std::thread::spawn(move || {
                    give_way(lot);
                    while !stop.load(Ordering::Relaxed) {
                        let Ok((k, leg, regs)) = rx.recv_timeout(Duration::from_millis(20)) else { continue };
                        let mut regs = regs.into();
                        let r = guarded(|| {
                            for op in &legs[k][leg] { regs.apply(op, &mut Ev::new()); }
                            // Copies made and dropped here, originals made elsewhere.
                            drop(regs.real[leg % NREG].clone());
                            regs
                        });
                        progress.fetch_add(1, Ordering::Relaxed);
                        match r {
                            Err(m) => { let _ = home.send((k, Err(format!("set {k}, leg {leg}, on thread {t}: panicked: {m}")))); }
                            Ok(regs) if leg + 1 == routes[k].len() => { let _ = home.send((k, Ok(Force(regs)))); }
                            Ok(regs) => { let _ = txs[routes[k][leg + 1]].send((k, leg + 1, Force(regs))); }
                        }
                    }
                }));
            }
            drop(home_tx);
            let back = gather(&home_rx, sets, &progress);
            stop.store(true, Ordering::Relaxed);
            if back.is_ok() { for h in hs { let _ = h.join(); } }
            bump(ev, "legs travelled", progress.load(Ordering::Relaxed));
            for (k, regs) in back?.into_iter().enumerate() {
                let regs = regs.into();
                let mut alone = Regs::<X>::new(NREG);
                for leg in &legs[k] { for op in leg { alone.apply(op, &mut Ev::new()); } }
                for d in 0..NREG {
                    want!(regs.real[d] == alone.real[d] && format!("{:?}", regs.real[d]) == format!("{:?}", alone.real[d]),
                        "set {k}, register {d}, after travelling is {:?}, made by one thread it is {:?}", regs.real[d], alone.real[d]);
                    for a in regs.model[d].probes(X::max()) { want!(X::contains(&regs.real[d], a) == regs.model[d].contains(a), "set {k}, register {d}, after travelling: contains({})", X::atom_name(a)); }
                }
                bump(ev, "values sent between threads and judged", NREG as u64);
            }
            Ok(())
        }) { return; }
    }
}
fn sending(cx: &mut Ctx) {
    let (n, threads, sets, laps) = if cfg!(miri) { (1, 2, 2, 2) } else { (25, 2 + (cx.block % 5) as usize, 6, 5) };
    match cx.block % 6 {
        0 => travellers::<Fin<Y>>(cx, n, threads, sets, laps), 1 => travellers::<Fin<i32>>(cx, n, threads, sets, laps), 2 => travellers::<Fin<Lex>>(cx, n, threads, sets, laps),
        3 => travellers::<Dense<i64, 20>>(cx, n, threads, sets, laps), 4 => travellers::<Dense<String, 12>>(cx, n, threads, sets, laps), _ => travellers::<Fin<u8>>(cx, n, threads, sets, laps),
    }
}

fn suites(_: &str) -> Vec<Suite> {
    let s = |name, quick, thorough, run| Suite { name, quick, thorough, run };
    vec![
        s("probes", 1, 1, probes as fn(&mut Ctx)),
        s("concurrent-reads", if cfg!(miri) { 12 } else { 240 }, if cfg!(miri) { 1200 } else { 12000 }, reading),
        s("travelling-values", if cfg!(miri) { 12 } else { 120 }, if cfg!(miri) { 400 } else { 6000 }, sending),
    ]
}
fn main() { main_with(suites) }
