//! The runner: seeded blocks of cases on worker threads, panic capture,
//! evidence counters, and the status files that let the driver pin down a
//! case that kills or hangs the process.
use crate::rng::{hash_str, mix, Rng};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{BuildHasherDefault, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex, OnceLock};
use std::time::{Duration, Instant};

#[derive(Default)]
pub struct IdHasher(u64);
impl Hasher for IdHasher {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, _: &[u8]) { unreachable!() }
    fn write_u64(&mut self, x: u64) { self.0 = x }
}
pub type IdSet = HashSet<u64, BuildHasherDefault<IdHasher>>;

thread_local! {
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
    static CAPTURE: RefCell<bool> = const { RefCell::new(false) };
}

/// Collects messages of panics raised by monitored code instead of printing them.
pub fn install_hook() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if CAPTURE.with(|c| *c.borrow()) {
            PANIC.with(|p| *p.borrow_mut() = Some(info.to_string().replace('\n', " | ")));
        } else {
            old(info)
        }
    }));
}

/// Runs monitored code; a panic becomes `Err(message)`.
pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    let was = CAPTURE.with(|c| c.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    CAPTURE.with(|c| *c.borrow_mut() = was);
    r.map_err(|_| PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into()))
}

pub type Verdict = Result<(), String>;

static DEADLINE: OnceLock<Option<Instant>> = OnceLock::new();
/// The time set for the run is over: no further case or step is begun, and what
/// has been observed until then is judged. Workloads are sized to end long
/// before; a slower library or machine is not a violation.
pub fn late() -> bool { DEADLINE.get().copied().flatten().is_some_and(|d| Instant::now() >= d) }

thread_local! { static BEAT: RefCell<Option<Arc<AtomicU64>>> = const { RefCell::new(None) }; }
/// Tells the watchdog that this thread gets on.
pub fn beat() { BEAT.with(|b| if let Some(b) = &*b.borrow() { b.fetch_add(1, Ordering::Relaxed); }) }

/// How large an input can be for the work on it to take no more than `secs`
/// seconds of processor time, going by the time which `trial` takes (and
/// returns) for a fourth of `size` and for `size`.
pub fn affordable(secs: f64, size: usize, mut trial: impl FnMut(usize) -> f64) -> usize {
    let a = trial(size / 4).max(1e-6);
    if a * 16.0 > 10.0 * secs { return size / 8; }
    let b = trial(size).max(1e-6);
    let grows = ((b / a).log2() / 2.0).clamp(2.0, 4.0);
    if b > secs { return size / 2; }
    (size as f64 * (secs / b).powf(1.0 / grows)) as usize
}

/// What `f` measures, once for every key. Threads waiting for another's
/// measurement count as getting on.
pub fn calibrated(key: &'static str, f: impl FnOnce() -> (usize, usize)) -> (usize, usize) {
    static KNOWN: Mutex<BTreeMap<&str, Option<(usize, usize)>>> = Mutex::new(BTreeMap::new());
    loop {
        {
            let mut k = KNOWN.lock().unwrap_or_else(|e| e.into_inner());
            match k.get(key) {
                Some(Some(v)) => return *v,
                Some(None) => {}
                None => { k.insert(key, None); break; }
            }
        }
        beat();
        std::thread::sleep(Duration::from_millis(20));
    }
    let v = f();
    KNOWN.lock().unwrap_or_else(|e| e.into_inner()).insert(key, Some(v));
    v
}

/// Processor time used by this thread or by the whole process.
pub fn cpu_time(process: bool) -> Duration {
    #[cfg(any(miri, not(target_os = "linux")))]
    { let _ = process; static T0: OnceLock<Instant> = OnceLock::new(); T0.get_or_init(Instant::now).elapsed() }
    #[cfg(all(not(miri), target_os = "linux"))]
    {
        extern "C" { fn clock_gettime(id: i32, t: *mut [i64; 2]) -> i32; }
        let mut t = [0i64; 2];
        // CLOCK_PROCESS_CPUTIME_ID is 2, CLOCK_THREAD_CPUTIME_ID is 3.
        unsafe { clock_gettime(if process { 2 } else { 3 }, &mut t) };
        Duration::new(t[0] as u64, t[1] as u32)
    }
}

/// Fails the current case with a formatted message.
#[macro_export]
macro_rules! want {
    ($c:expr, $($a:tt)+) => { if !($c) { return Err(format!($($a)+)); } };
}
/// Fails the current case unless two values are equal, printing both.
#[macro_export]
macro_rules! want_eq {
    ($a:expr, $b:expr, $($m:tt)+) => {
        match (&$a, &$b) { (a, b) => if !(*a == *b) {
            return Err(format!("{}: observed {:?}, expected {:?}", format!($($m)+), a, b));
        } }
    };
}

#[derive(Clone, Debug)]
pub struct Violation { pub suite: String, pub block: u64, pub case: u64, pub desc: String, pub msg: String }

/// Sample cases kept per block, chosen by hash so the choice is deterministic.
const SAMPLES: usize = 4;
/// Point operations one case may perform before it counts as not finishing.
pub const CASE_STEPS: u64 = 40_000_000;
const DISTINCT_CAP: usize = 4_000_000;

pub struct Ctx {
    pub rng: Rng,
    pub suite: &'static str,
    pub block: u64,
    pub blocks: u64,
    pub thorough: bool,
    pub evals: u64,
    pub distinct: IdSet,
    pub events: BTreeMap<&'static str, u64>,
    pub samples: BTreeMap<u64, String>,
    pub violation: Option<Violation>,
    case: u64,
    only_case: Option<u64>,
    trace: Option<std::fs::File>,
    beat: Arc<AtomicU64>,
}

impl Ctx {
    pub fn new(seed: u64, suite: &'static str, block: u64, blocks: u64, thorough: bool, beat: Arc<AtomicU64>) -> Self {
        Ctx {
            rng: Rng::new(mix(seed) ^ mix(hash_str(suite)) ^ mix(block.wrapping_mul(0x1_0001))),
            suite, block, blocks, thorough,
            evals: 0, distinct: IdSet::default(), events: BTreeMap::new(), samples: BTreeMap::new(),
            violation: None, case: 0, only_case: None, trace: None, beat,
        }
    }
    /// Count an observed event.
    #[inline]
    pub fn ev(&mut self, name: &'static str, n: u64) { *self.events.entry(name).or_insert(0) += n; }
    pub fn failed(&self) -> bool { self.violation.is_some() }

    /// Run one case. `key` identifies its content; `nontrivial` whether it
    /// counts as such by the suite's rule. Returns false once a case failed.
    pub fn case(
        &mut self, key: u64, nontrivial: bool,
        desc: impl Fn() -> String,
        body: impl FnOnce(&mut BTreeMap<&'static str, u64>) -> Verdict,
    ) -> bool {
        if self.failed() || late() && self.only_case.is_none() { return false; }
        let n = self.case;
        self.case += 1;
        if let Some(o) = self.only_case { if o != n { return true; } }
        if let Some(f) = &mut self.trace {
            use std::io::{Seek, Write};
            let _ = f.set_len(0);
            let _ = f.rewind();
            let _ = write!(f, "{} {}", n, desc());
            let _ = f.flush();
        }
        self.beat.fetch_add(1, Ordering::Relaxed);
        self.evals += 1;
        let key = mix(key ^ hash_str(self.suite));
        if nontrivial && self.distinct.len() < DISTINCT_CAP { self.distinct.insert(key); }
        if nontrivial && (self.samples.len() < SAMPLES || key < *self.samples.keys().next_back().unwrap()) {
            self.samples.insert(key, desc());
            if self.samples.len() > SAMPLES { self.samples.pop_last(); }
        }
        let ev = &mut self.events;
        crate::dom::budget(CASE_STEPS);
        let r = guarded(|| body(ev)).unwrap_or_else(|p| Err(format!("panicked: {p}")));
        crate::dom::budget(u64::MAX);
        if let Err(msg) = r {
            self.violation = Some(Violation { suite: self.suite.into(), block: self.block, case: n, desc: desc(), msg });
            return false;
        }
        true
    }
    pub fn idx(&mut self, n: usize) -> usize { self.rng.idx(n) }
}

pub type Ev = BTreeMap<&'static str, u64>;
#[inline]
pub fn bump(ev: &mut Ev, name: &'static str, n: u64) { *ev.entry(name).or_insert(0) += n; }

pub struct Suite {
    pub name: &'static str,
    /// Blocks run in the quick and the thorough tier.
    pub quick: u64,
    pub thorough: u64,
    pub run: fn(&mut Ctx),
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for (i, c) in s.chars().enumerate() {
        if i == 6000 { o.push_str(" ..."); break; }
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Args { prop: String, seed: u64, thorough: bool, threads: usize, out: String, status: String, only: Option<String>, trace: Option<String>, suites: Option<String>, shard: Option<String> }

fn args() -> Args {
    let mut a = Args { prop: String::new(), seed: 1, thorough: false, threads: 8, out: String::new(), status: String::new(), only: None, trace: None, suites: None, shard: None };
    let mut it = std::env::args().skip(1);
    while let Some(k) = it.next() {
        let mut v = || it.next().unwrap_or_else(|| panic!("{k} needs a value"));
        match &*k {
            "--prop" => a.prop = v(),
            "--seed" => a.seed = v().parse().unwrap(),
            "--tier" => a.thorough = v() == "thorough",
            "--threads" => a.threads = v().parse().unwrap(),
            "--out" => a.out = v(),
            "--status" => a.status = v(),
            "--only" => a.only = Some(v()),
            "--trace" => a.trace = Some(v()),
            "--suites" => a.suites = Some(v()),
            "--shard" => a.shard = Some(v()),
            _ => panic!("unknown argument {k}"),
        }
    }
    a
}

#[derive(Default)]
struct Total { evals: u64, distinct: IdSet, events: BTreeMap<String, u64>, samples: BTreeMap<u64, String>, per: BTreeMap<String, (u64, u64)>, viol: Vec<Violation> }

/// The entry point of every workload binary.
/// Exit codes: 0 quiet, 10 violation recorded in the output, 11 stuck.
pub fn main_with(suites: fn(&str) -> Vec<Suite>) {
    if std::env::args().any(|a| a == "--nothing") { return; }
    install_hook();
    if !cfg!(miri) { crate::rset::self_test(); }
    let a = args();
    let mut list = suites(&a.prop);
    if let Some(names) = &a.suites { list.retain(|s| names.split(',').any(|n| n == s.name)); }
    assert!(!list.is_empty(), "no suite for property {}", a.prop);
    let mut jobs: Vec<(usize, u64)> = Vec::new();
    for (i, s) in list.iter().enumerate() {
        let n = if a.thorough { s.thorough } else { s.quick };
        for b in 0..n { jobs.push((i, b)); }
    }
    if let Some(sh) = &a.shard {
        let (i, n) = sh.split_once('/').unwrap();
        let (i, n): (usize, usize) = (i.parse().unwrap(), n.parse().unwrap());
        let mut k = 0;
        jobs.retain(|_| { k += 1; (k - 1) % n == i });
    }
    let mut only_case = None;
    if let Some(o) = &a.only {
        let p: Vec<&str> = o.split(':').collect();
        let b: u64 = p[1].parse().unwrap();
        jobs.retain(|j| list[j.0].name == p[0] && j.1 == b);
        only_case = p.get(2).map(|c| c.parse().unwrap());
        assert_eq!(jobs.len(), 1, "no such block");
    }
    let threads = a.threads.min(jobs.len()).max(1);
    let _ = DEADLINE.set(std::env::var("NIMON_BUDGET_S").ok().and_then(|v| v.parse().ok()).map(|s| Instant::now() + Duration::from_secs(s)));
    let next = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let done = AtomicUsize::new(0);
    let total = Mutex::new(Total::default());
    let beats: Vec<Arc<AtomicU64>> = (0..threads).map(|_| Arc::new(AtomicU64::new(0))).collect();
    let current: Vec<Mutex<Option<String>>> = (0..threads).map(|_| Mutex::new(None)).collect();
    std::thread::scope(|sc| {
        for w in 0..threads {
            let (next, stop, done, total, list, jobs, a, beats, current) = (&next, &stop, &done, &total, &list, &jobs, &a, &beats, &current);
            std::thread::Builder::new().stack_size(16 << 20).spawn_scoped(sc, move || {
                BEAT.with(|b| *b.borrow_mut() = Some(beats[w].clone()));
                loop {
                    let j = next.fetch_add(1, Ordering::SeqCst);
                    if j >= jobs.len() || stop.load(Ordering::SeqCst) { break; }
                    if late() { *total.lock().unwrap().events.entry("blocks not begun for lack of time".into()).or_insert(0) += 1; continue; }
                    let (si, b) = jobs[j];
                    let s = &list[si];
                    let id = format!("{}:{}", s.name, b);
                    *current[w].lock().unwrap() = Some(id.clone());
                    if !a.status.is_empty() {
                        std::fs::write(format!("{}.{}", a.status, w), &id).unwrap();
                    }
                    let blocks = if a.thorough { s.thorough } else { s.quick };
                    let mut ctx = Ctx::new(a.seed, s.name, b, blocks, a.thorough, beats[w].clone());
                    ctx.only_case = only_case;
                    ctx.trace = a.trace.as_ref().map(|p| std::fs::File::create(p).unwrap());
                    // A panic outside a case: of the library (values prepared for
                    // cases), or else an error of the harness, which ends the run.
                    if let Err(p) = guarded(|| (s.run)(&mut ctx)) {
                        if !p.contains("/repo/src/") {
                            eprintln!("HARNESS ERROR in {id}: {p}");
                            std::process::exit(70);
                        }
                        let case = ctx.case.saturating_sub(1);
                        ctx.violation = Some(Violation { suite: ctx.suite.into(), block: ctx.block, case, desc: "preparing a case".into(), msg: format!("panicked: {p}") });
                    }
                    *current[w].lock().unwrap() = None;
                    let mut t = total.lock().unwrap();
                    t.evals += ctx.evals;
                    let e = t.per.entry(s.name.to_string()).or_insert((0, 0));
                    e.0 += ctx.evals;
                    e.1 += 1;
                    for (k, v) in ctx.events {
                        // Events named "max ..." are high-water marks, the rest are counts.
                        let e = t.events.entry(k.to_string()).or_insert(0);
                        if k.starts_with("max ") { *e = v.max(*e) } else { *e += v }
                    }
                    t.distinct.extend(ctx.distinct);
                    t.samples.extend(ctx.samples);
                    while t.samples.len() > 12 { t.samples.pop_last(); }
                    if let Some(v) = ctx.violation {
                        t.viol.push(v);
                        stop.store(true, Ordering::SeqCst);
                    }
                }
                if !a.status.is_empty() { let _ = std::fs::remove_file(format!("{}.{}", a.status, w)); }
                done.fetch_add(1, Ordering::SeqCst);
            }).unwrap();
        }
        // Stuck-case watchdog: only nominates blocks; the driver re-runs a
        // nominated block alone under a CPU-time limit before judging.
        let mut last: Vec<(u64, u32)> = vec![(0, 0); threads];
        let limit: u32 = std::env::var("NIMON_STUCK_S").ok().and_then(|v| v.parse().ok()).unwrap_or(40);
        let mut tick = 0u32;
        let mut cpu = Duration::ZERO;
        while done.load(Ordering::SeqCst) < threads {
            std::thread::sleep(std::time::Duration::from_millis(20));
            tick += 1;
            if tick % 50 != 0 { continue; }
            for w in 0..threads {
                let b = beats[w].load(Ordering::Relaxed);
                if b == last[w].0 && current[w].lock().unwrap().is_some() { last[w].1 += 1 } else { last[w] = (b, 0); cpu = cpu_time(true) }
                // A single thread is judged by processor time.
                let alone = threads > 1 || cpu_time(true).saturating_sub(cpu).as_secs() >= limit as u64;
                if last[w].1 > limit && alone {
                    let id = current[w].lock().unwrap().clone().unwrap_or_default();
                    eprintln!("STUCK {id}");
                    for x in 0..threads { if x != w && !a.status.is_empty() { let _ = std::fs::remove_file(format!("{}.{}", a.status, x)); } }
                    std::process::exit(11);
                }
            }
        }
    });
    let mut t = total.into_inner().unwrap();
    t.viol.sort_by_key(|v| (v.suite.clone(), v.block));
    let mut o = String::from("{");
    o += &format!("\"evaluations\":{},\"distinct\":{},", t.evals, t.distinct.len());
    o += &format!("\"events\":{{{}}},", t.events.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(","));
    o += &format!("\"suites\":{{{}}},", t.per.iter().map(|(k, v)| format!("{}:{{\"evaluations\":{},\"blocks\":{}}}", esc(k), v.0, v.1)).collect::<Vec<_>>().join(","));
    o += &format!("\"samples\":[{}],", t.samples.values().map(|s| esc(s)).collect::<Vec<_>>().join(","));
    o += &format!("\"violations\":[{}]}}", t.viol.iter().map(|v| format!(
        "{{\"suite\":{},\"block\":{},\"case\":{},\"desc\":{},\"msg\":{}}}",
        esc(&v.suite), v.block, v.case, esc(&v.desc), esc(&v.msg))).collect::<Vec<_>>().join(","));
    if a.out.is_empty() { println!("{o}"); } else { std::fs::write(&a.out, &o).unwrap(); }
    // A quiet run ends normally, so that leak checkers see a complete program.
    if !t.viol.is_empty() { std::process::exit(10); }
}

/// Removes steps from a failing history while it still fails.
pub fn shrink<O: Clone>(ops: &[O], fails: impl Fn(&[O]) -> bool) -> Vec<O> {
    let mut cur = ops.to_vec();
    let mut chunk = (cur.len() / 2).max(1);
    let mut tries = 0;
    let start = std::time::Instant::now();
    loop {
        let mut i = 0;
        let mut changed = false;
        while i < cur.len() {
            let mut cand = cur.clone();
            let end = (i + chunk).min(cand.len());
            cand.drain(i..end);
            tries += 1;
            if tries > 3000 || start.elapsed().as_secs() > 15 { return cur; }
            if fails(&cand) { cur = cand; changed = true; } else { i += chunk; }
        }
        if chunk == 1 && !changed { return cur; }
        if !changed || chunk > 1 { chunk = (chunk / 2).max(1); }
    }
}
