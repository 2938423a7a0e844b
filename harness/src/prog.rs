//! Random programs over double-ended iterators, run alike on the real iterator
//! (as its own type, so that methods it overrides are the ones called) and on
//! the standard vector iterator over what it should give.
use crate::mon::{bump, Ev};
use crate::rng::Rng;
use std::fmt::Debug;

#[derive(Clone, Debug)]
pub enum St { Next, Back, Nth(usize), NthBack(usize), Take(usize), TakeRev(usize), Find(usize), RFind(usize), Hint }
#[derive(Clone, Debug)]
pub enum Fin { Leave, Count, Last, Fold, RFold, Collect, RevCollect, Skip(usize), StepBy(usize), TryFold(usize), Reduce, ForEach, Partition, Max, Zip, Cycleless }
#[derive(Clone, Debug)]
pub struct Prog { steps: Vec<St>, fin: Fin }
impl Prog {
    pub fn random(rng: &mut Rng, len: usize) -> Prog {
        let small: Vec<usize> = (0..8).map(|_| rng.idx(if len > 8 { 5 } else { len + 2 })).collect();
        let steps = (0..rng.idx(7)).map(|i| { let k = small[i]; match rng.below(12) {
            0 | 1 => St::Next, 2 | 3 => St::Back, 4 => St::Nth(k), 5 => St::NthBack(k), 6 => St::Take(k), 7 => St::TakeRev(k),
            8 => St::Find(k), 9 => St::RFind(k), _ => St::Hint,
        } }).collect();
        let k = small[7];
        let fin = match rng.below(17) {
            0 => Fin::Leave, 1 => Fin::Count, 2 => Fin::Last, 3 => Fin::Fold, 4 => Fin::RFold, 5 => Fin::Collect, 6 => Fin::RevCollect, 7 => Fin::Skip(k), 8 => Fin::StepBy(k + 1),
            9 => Fin::TryFold(k), 10 => Fin::Reduce, 11 => Fin::ForEach, 12 => Fin::Partition, 13 => Fin::Max, 14 => Fin::Zip, 15 => Fin::Cycleless, _ => Fin::Collect,
        };
        Prog { steps, fin }
    }
}
/// Everything a program saw: elements and counts, in order.
#[derive(Debug, PartialEq)]
pub enum Saw<W> { One(Option<W>), Many(Vec<W>), Num(usize) }

/// `hint(lo, hi)` receives every size hint with nothing else to compare it to.
pub fn run<I: DoubleEndedIterator>(mut it: I, p: &Prog, hints: &mut Vec<(usize, Option<usize>)>, cap: usize) -> Vec<Saw<I::Item>> {
    let mut o = vec![];
    for s in &p.steps {
        o.push(match s {
            St::Next => Saw::One(it.next()),
            St::Back => Saw::One(it.next_back()),
            St::Nth(k) => Saw::One(it.nth(*k)),
            St::NthBack(k) => Saw::One(it.nth_back(*k)),
            St::Take(k) => Saw::Many(it.by_ref().take(*k).collect()),
            St::TakeRev(k) => Saw::Many(it.by_ref().rev().take(*k).collect()),
            St::Find(k) => { let mut n = 0; Saw::One(it.find(|_| { n += 1; n > *k })) }
            St::RFind(k) => { let mut n = 0; Saw::One(it.rfind(|_| { n += 1; n > *k })) }
            St::Hint => { hints.push(it.size_hint()); Saw::Num(0) }
        });
    }
    // A runaway iterator is cut off, except inside a method of its own.
    let mut v = vec![];
    let end = match p.fin {
        Fin::Leave => Saw::Num(0),
        Fin::Count => Saw::Num(it.count()),
        Fin::Last => Saw::One(it.last()),
        Fin::Fold => Saw::Many(it.fold(v, |mut v, x| { v.push(x); v })),
        Fin::RFold => Saw::Many(it.rfold(v, |mut v, x| { v.push(x); v })),
        Fin::Collect => Saw::Many(it.take(cap).collect()),
        Fin::RevCollect => Saw::Many(it.rev().take(cap).collect()),
        Fin::Skip(k) => Saw::Many(it.skip(k).collect()),
        Fin::StepBy(k) => Saw::Many(it.step_by(k).collect()),
        Fin::TryFold(k) => { let n = it.try_fold(0, |n, x| { v.push(x); if n < k { Ok(n + 1) } else { Err(n) } }); v.extend(it.next_back()); v.extend(it.next()); o.push(Saw::Num(n.unwrap_or_else(|n| n + 1000))); Saw::Many(v) }
        Fin::Reduce => Saw::One(it.reduce(|a, _| a)),
        Fin::ForEach => { it.for_each(|x| v.push(x)); Saw::Many(v) }
        Fin::Partition => { let mut n = 0; let (a, b): (Vec<_>, Vec<_>) = it.partition(|_| { n += 1; n % 3 == 0 }); o.push(Saw::Many(a)); Saw::Many(b) }
        Fin::Max => Saw::Num(it.position(|_| false).map_or(7, |_| 8)),
        Fin::Zip => Saw::Many(it.zip(0..cap).map(|(x, _)| x).collect()),
        Fin::Cycleless => { v.extend(it.by_ref()); for _ in 0..3 { v.extend(it.next_back()); v.extend(it.next()); } Saw::Many(v) }
    };
    o.push(end);
    o
}

/// Runs a random program on `it` and on `want`, and compares.
pub fn compare<I: DoubleEndedIterator, W: Clone + PartialEq + Debug>(it: I, want: &[W], map: impl Fn(I::Item) -> Result<W, String>, rng: &mut Rng, what: &str, ev: &mut Ev) -> Result<(), String> {
    let p = Prog::random(rng, want.len());
    let (mut h, mut g) = (vec![], vec![]);
    let cap = want.len() + 3;
    let saw = run(it, &p, &mut h, cap);
    let exp = run(want.to_vec().into_iter(), &p, &mut g, cap);
    for (i, (s, e)) in saw.into_iter().zip(exp).enumerate() {
        let s = match s {
            Saw::One(x) => Saw::One(x.map(&map).transpose()?),
            Saw::Many(v) => Saw::Many(v.into_iter().map(&map).collect::<Result<_, _>>()?),
            Saw::Num(n) => Saw::Num(n),
        };
        if s != e { return Err(format!("{what}: step {i} of {p:?} gives {s:?}, expected {e:?}")); }
    }
    for ((lo, hi), (n, _)) in h.iter().zip(&g) {
        if lo > n || hi.is_some_and(|h| h < *n) { return Err(format!("{what}: size_hint ({lo}, {hi:?}) with {n} left, in {p:?}")); }
    }
    bump(ev, "iterator programs compared", 1);
    Ok(())
}

/// The methods of iterators over ordered elements, after steps from either end.
fn run_ord<I: DoubleEndedIterator>(mut it: I, steps: &[bool], fin: u64, other: Vec<I::Item>) -> String where I::Item: Ord + Debug {
    use std::cmp::Reverse;
    for f in steps { if *f { it.next() } else { it.next_back() }; }
    match fin {
        0 => format!("{:?}", it.max()),
        1 => format!("{:?}", it.min()),
        2 => format!("{:?}", it.is_sorted()),
        3 => format!("{:?}", it.cmp(other)),
        4 => format!("{:?}", it.eq(other)),
        5 => format!("{:?}", it.partial_cmp(other)),
        6 => format!("{:?}", it.lt(other)),
        7 => format!("{:?}", it.max_by(|a, b| b.cmp(a))),
        8 => format!("{:?}", it.min_by(|a, b| b.cmp(a))),
        9 => { let mut k = 0; format!("{:?}", it.max_by_key(|_| { k += 1; k % 4 })) }
        10 => { let mut k = 0; format!("{:?}", it.min_by_key(|_| { k += 1; Reverse(k % 4) })) }
        11 => { let mut k = 0; let r = it.any(|_| { k += 1; k > 3 }); format!("{r:?} {:?}", it.next()) }
        12 => { let mut k = 0; let r = it.all(|_| { k += 1; k < 3 }); format!("{r:?} {:?}", it.next_back()) }
        13 => { let mut k = 0; format!("{:?}", it.find_map(|x| { k += 1; (k > 2).then_some(x) })) }
        14 => { let mut k = 0; let r = it.position(|_| { k += 1; k > 2 }); format!("{r:?} {:?}", it.next()) }
        15 => format!("{:?} {:?}", it.rev().max(), other.last()),
        16 => { let (a, b): (Vec<_>, Vec<_>) = it.map(|x| (x, ())).unzip(); format!("{a:?} {}", b.len()) }
        17 => format!("{:?}", it.try_rfold(0, |n, x| if n < 2 { Ok(n + 1) } else { Err((n, x)) })),
        18 => format!("{:?}", it.chain(other).collect::<Vec<_>>()),
        _ => { let mut p = it.peekable(); let a = p.next_if(|_| true); let b = format!("{:?}", p.peek()); let c = p.next_back(); format!("{a:?} {b} {c:?} {:?}", p.collect::<Vec<_>>()) }
    }
}
/// Compares such a method with that of the standard vector iterator.
pub fn compare_ord<I: DoubleEndedIterator>(it: I, want: &[I::Item], rng: &mut Rng, what: &str, ev: &mut Ev) -> Result<(), String> where I::Item: Ord + Clone + Debug {
    let n = want.len();
    let k = match rng.below(3) { 0 => 0, 1 => rng.idx(n + 3), _ => n.saturating_sub(rng.idx(4)) };
    let bias = rng.below(5);
    let steps: Vec<bool> = (0..k).map(|_| rng.below(4) < bias).collect();
    let fin = rng.below(20);
    let mut other = want.to_vec();
    if rng.chance(1, 2) { let f = steps.iter().filter(|s| **s).count(); other = other.into_iter().skip(f).rev().skip(k - f).collect(); other.reverse(); }
    if rng.chance(1, 4) { other.pop(); }
    let e = run_ord(want.to_vec().into_iter(), &steps, fin, other.clone());
    let s = run_ord(it, &steps, fin, other);
    if s != e { return Err(format!("{what}: method {fin} after steps {steps:?} (true: front) gives {s}, expected {e}")); }
    bump(ev, "iterator methods compared", 1);
    Ok(())
}

/// An iterator over given items that reports its length more or less exactly,
/// as adapters of the standard library do.
pub struct Shaped<I> { it: std::vec::IntoIter<I>, shape: u64 }
pub fn shaped<I>(v: Vec<I>, salt: u64) -> Shaped<I> { Shaped { it: v.into_iter(), shape: crate::rng::mix(salt ^ 77) % 8 } }
impl<I> Iterator for Shaped<I> {
    type Item = I;
    fn next(&mut self) -> Option<I> { self.it.next() }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.it.len();
        match self.shape {
            0 => (0, None),
            1 => (0, Some(n)),
            2 => (0, Some(usize::MAX)),
            3 => (n / 2, Some(n * 2 + 3)),
            4 => (n.min(1), None),
            5 => (n, None),
            _ => (n, Some(n)),
        }
    }
}
