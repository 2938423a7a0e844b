//! Points that own heap memory and are tracked one by one: a registry knows
//! every live value, and a fuse makes the n-th operation on points panic.
use crate::dom::{tick, Dom};
use crate::grid::Key;
use normalize_interval::normalize::Finite;
use std::cell::{Cell, RefCell};
use std::cmp::Ordering;
use std::collections::BTreeMap;
use std::hash::{Hash, Hasher};

#[derive(Default)]
struct Reg {
    next: u64,
    /// Live values by id.
    live: BTreeMap<u64, i64>,
    created: u64,
    dropped: u64,
    faults: Vec<String>,
}
thread_local! {
    static REG: RefCell<Reg> = RefCell::new(Reg::default());
    static FUSE: Cell<u64> = const { Cell::new(u64::MAX) };
    static TRACE: RefCell<Option<String>> = const { RefCell::new(None) };
    static OPS: Cell<u64> = const { Cell::new(0) };
}

/// The panic message of a blown fuse.
pub const BLOWN: &str = "FUSE-BLOWN";

/// Counts a point operation; panics when the fuse has burnt down.
fn op(what: &str) {
    tick();
    OPS.with(|o| o.set(o.get() + 1));
    let f = FUSE.with(|f| f.get());
    if f == u64::MAX { return; }
    if f == 0 {
        FUSE.with(|f| f.set(u64::MAX));
        TRACE.with(|t| if let Some(t) = &mut *t.borrow_mut() { *t = std::backtrace::Backtrace::force_capture().to_string(); });
        panic!("{BLOWN} in {what}");
    }
    FUSE.with(|x| x.set(f - 1));
}
/// Lets `n` more point operations pass; the one after panics.
pub fn set_fuse(n: Option<u64>) { FUSE.with(|f| f.set(n.unwrap_or(u64::MAX))) }
/// Runs `f`; the call stack at which the fuse blew, if it did.
pub fn traced(f: impl FnOnce()) -> String {
    TRACE.with(|t| *t.borrow_mut() = Some(String::new()));
    f();
    TRACE.with(|t| t.borrow_mut().take()).unwrap_or_default()
}
pub fn fuse_blown() -> bool { FUSE.with(|f| f.get() == u64::MAX) }
/// Point operations so far on this thread.
pub fn ops() -> u64 { OPS.with(|o| o.get()) }

/// (values ever created, values dropped, values live)
pub fn counts() -> (u64, u64, u64) { REG.with(|r| { let r = r.borrow(); (r.created, r.dropped, r.live.len() as u64) }) }
/// The ids alive now.
pub fn live_ids() -> Vec<u64> { REG.with(|r| r.borrow().live.keys().copied().collect()) }
/// Ids of values created after `since` values had been, and still alive.
pub fn live_since(since: u64) -> Vec<(u64, i64)> { REG.with(|r| r.borrow().live.range(since + 1..).map(|(k, v)| (*k, *v)).collect()) }
pub fn last_id() -> u64 { REG.with(|r| r.borrow().next) }
/// Double drops and corrupted values noticed since the last call.
pub fn take_faults() -> Vec<String> { REG.with(|r| std::mem::take(&mut r.borrow_mut().faults)) }
/// Starts over after a violation has been reported.
pub fn reset() { REG.with(|r| { let mut r = r.borrow_mut(); r.live.clear(); r.faults.clear(); }); set_fuse(None); }

/// The tracked part: the value lives on the heap, except in the type's two
/// constants, which are made by the compiler and have no identity.
#[derive(Debug)]
pub struct Cellar { v: i64, heap: Option<Box<i64>>, id: u64 }
impl Cellar {
    const fn fixed(v: i64) -> Self { Cellar { v, heap: None, id: 0 } }
    pub fn new(v: i64) -> Self {
        let id = REG.with(|r| {
            let mut r = r.borrow_mut();
            r.next += 1;
            r.created += 1;
            let id = r.next;
            r.live.insert(id, v);
            id
        });
        Cellar { v, heap: Some(Box::new(v ^ id as i64)), id }
    }
    /// Reads through the heap, so that a dead value shows.
    pub fn get(&self) -> i64 {
        if let Some(h) = &self.heap {
            let x = **h ^ self.id as i64;
            if x != self.v { REG.with(|r| r.borrow_mut().faults.push(format!("value {} (id {}) reads {x} on the heap", self.v, self.id))); }
        }
        self.v
    }
}
impl Clone for Cellar { fn clone(&self) -> Self { Cellar::new(self.get()) } }
impl Drop for Cellar {
    fn drop(&mut self) {
        if self.id == 0 { return; }
        let v = self.get();
        // Dropping at thread exit, after the registry, is ignored.
        let _ = REG.try_with(|r| {
            let mut r = r.borrow_mut();
            r.dropped += 1;
            if r.live.remove(&self.id) != Some(v) {
                let m = format!("value {v} (id {}) dropped while not live", self.id);
                r.faults.push(m);
            }
        });
    }
}

/// A finite type of `N` tracked points.
#[derive(Debug)]
pub struct Trk<const N: u16>(Cellar);
impl<const N: u16> Clone for Trk<N> { fn clone(&self) -> Self { op("clone"); Trk(self.0.clone()) } }
impl<const N: u16> PartialEq for Trk<N> { fn eq(&self, o: &Self) -> bool { op("eq"); self.0.get() == o.0.get() } }
impl<const N: u16> Eq for Trk<N> {}
impl<const N: u16> PartialOrd for Trk<N> { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { Some(self.cmp(o)) } }
impl<const N: u16> Ord for Trk<N> { fn cmp(&self, o: &Self) -> Ordering { op("cmp"); self.0.get().cmp(&o.0.get()) } }
impl<const N: u16> Hash for Trk<N> { fn hash<H: Hasher>(&self, h: &mut H) { op("hash"); self.0.get().hash(h) } }
impl<const N: u16> Finite for Trk<N> {
    const MINIMUM: Self = Trk(Cellar::fixed(0));
    const MAXIMUM: Self = Trk(Cellar::fixed(N as i64 - 1));
    fn pred(&self) -> Option<Self> { op("pred"); let v = self.0.get(); (v > 0).then(|| Trk(Cellar::new(v - 1))) }
    fn succ(&self) -> Option<Self> { op("succ"); let v = self.0.get(); (v < N as i64 - 1).then(|| Trk(Cellar::new(v + 1))) }
}
impl<const N: u16> Dom for Trk<N> {
    const NAME: &'static str = "Trk<N>";
    fn max_rank() -> u128 { N as u128 - 1 }
    fn rank(&self) -> u128 { self.0.get() as u128 }
    fn from_rank(r: u128) -> Self { assert!(r < N as u128); Trk(Cellar::new(r as i64)) }
}
impl<const N: u16> std::ops::Sub for Trk<N> { type Output = Self; fn sub(self, o: Self) -> Self { op("sub"); Trk(Cellar::new(self.0.get() - o.0.get())) } }

/// An ordered type of tracked points, for raw intervals and trees.
#[derive(Debug)]
pub struct Kt(Cellar);
impl Clone for Kt { fn clone(&self) -> Self { op("clone"); Kt(self.0.clone()) } }
impl PartialEq for Kt { fn eq(&self, o: &Self) -> bool { op("eq"); self.0.get() == o.0.get() } }
impl Eq for Kt {}
impl PartialOrd for Kt { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { Some(self.cmp(o)) } }
impl Ord for Kt { fn cmp(&self, o: &Self) -> Ordering { op("cmp"); self.0.get().cmp(&o.0.get()) } }
impl Hash for Kt { fn hash<H: Hasher>(&self, h: &mut H) { op("hash"); self.0.get().hash(h) } }
impl Key for Kt {
    const NAME: &'static str = "Kt";
    fn at(c: i64) -> Kt { Kt(Cellar::new(c * 3 + 1)) }
    fn cell(&self) -> i64 { (self.0.get() - 1) / 3 }
}
impl std::fmt::Display for Kt { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { op("display"); write!(f, "{}", self.0.get()) } }
impl std::str::FromStr for Kt { type Err = (); fn from_str(s: &str) -> Result<Kt, ()> { op("from_str"); s.parse().map(|v| Kt(Cellar::new(v))).map_err(|_| ()) } }
