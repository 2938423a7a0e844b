//! P15: interval notation, against an independent strict recogniser.
use nimon::ivs::hash_of;
use nimon::mon::*;
use nimon::rng::Rng;
use nimon::{want, want_eq};
use normalize_interval::raw_interval::RawInterval;
use std::fmt::{self, Debug, Display, Write as _};
use std::net::{Ipv4Addr, Ipv6Addr};
use std::num::NonZeroI16;
use std::str::FromStr;

trait Txt: Ord + Clone + Debug + Display + FromStr<Err: Debug> + 'static {
    const NAME: &'static str;
    fn pool() -> Vec<Self>;
    fn random(r: &mut Rng) -> Self;
    /// Fragments of this type's own text, for mutations.
    const BITS: &'static [&'static str] = &["0", "1", "7", "-", "+", "128", "255", "256", "00", "-0"];
}
macro_rules! int_txt { ($($t:ident),*) => { $(impl Txt for $t {
    const NAME: &'static str = stringify!($t);
    fn pool() -> Vec<Self> { vec![$t::MIN, $t::MIN + 1, 3, 12, $t::MAX - 1, $t::MAX] }
    fn random(r: &mut Rng) -> Self { if r.chance(1, 2) { r.u128() as $t } else { r.below(100) as $t } }
})* } }
int_txt![i8, u8, i16, u16, i32, u32, i64, u64, i128, u128, isize, usize];
impl Txt for bool {
    const NAME: &'static str = "bool";
    fn pool() -> Vec<Self> { vec![false, true] }
    fn random(r: &mut Rng) -> Self { r.chance(1, 2) }
    const BITS: &'static [&'static str] = &["true", "false", "t", "e", "True"];
}
impl Txt for Ipv4Addr {
    const NAME: &'static str = "Ipv4Addr";
    fn pool() -> Vec<Self> { vec![[0, 0, 0, 0].into(), [10, 0, 0, 1].into(), [255; 4].into()] }
    fn random(r: &mut Rng) -> Self { (r.u64() as u32).into() }
    const BITS: &'static [&'static str] = &["10.0.0.1", ".", "1", "0.0", "256"];
}
impl Txt for Ipv6Addr {
    const NAME: &'static str = "Ipv6Addr";
    fn pool() -> Vec<Self> { vec![0.into(), 1.into(), u128::MAX.into(), (0xffffu128 << 32 | 5).into()] }
    fn random(r: &mut Rng) -> Self { r.u128().into() }
    const BITS: &'static [&'static str] = &["::", ":", "ffff", "::1", "0"];
}
impl Txt for NonZeroI16 {
    const NAME: &'static str = "NonZeroI16";
    fn pool() -> Vec<Self> { [-9, -1, 1, 300].iter().map(|x| NonZeroI16::new(*x).unwrap()).collect() }
    fn random(r: &mut Rng) -> Self { NonZeroI16::new(r.u64() as i16 | 1).unwrap() }
}
impl Txt for char {
    const NAME: &'static str = "char";
    fn pool() -> Vec<Self> { vec!['\0', ' ', '(', ')', '-', '3', '[', ']', 'ß', '日', '😀', char::MAX] }
    fn random(r: &mut Rng) -> Self { loop { if let Some(c) = char::from_u32(r.below(0x800) as u32) { if c != ',' && c != 'Ø' && c != '∞' { return c; } } } }
    const BITS: &'static [&'static str] = &["a", "∞", "(", "]", " ", "日", "-"];
}
/// Every text is a point.
impl Txt for String {
    const NAME: &'static str = "String";
    fn pool() -> Vec<Self> { ["", " ", "(", ")", "[", "]", "-", "a", "ab", "(a", "a)", "(a)", "[a]", "日本", "a b", "\n", "∅", "()", "[]", "[)", "(]", "z"].iter().map(|s| s.to_string()).collect() }
    fn random(r: &mut Rng) -> Self {
        let n = if r.chance(1, 12) { r.idx(400) } else { r.idx(6) };
        (0..n).map(|_| *r.pick(&['a', 'b', '(', ')', '[', ']', '-', ' ', 'é', '日', '😀', '0', '\t', '"'])).collect()
    }
    const BITS: &'static [&'static str] = &["a", "(", ")", "[", "]", "é"];
}
/// Totally ordered floats: "inf", "-0", "NaN", "1e300" are points.
#[derive(Clone, Copy, Debug)]
struct F(f64);
impl PartialEq for F { fn eq(&self, o: &Self) -> bool { self.cmp(o).is_eq() } }
impl Eq for F {}
impl PartialOrd for F { fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> { Some(self.cmp(o)) } }
impl Ord for F { fn cmp(&self, o: &Self) -> std::cmp::Ordering { self.0.total_cmp(&o.0) } }
impl Display for F { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { Display::fmt(&self.0, f) } }
impl FromStr for F { type Err = std::num::ParseFloatError; fn from_str(s: &str) -> Result<Self, Self::Err> { s.parse().map(F) } }
impl Txt for F {
    const NAME: &'static str = "F";
    fn pool() -> Vec<Self> { [f64::NEG_INFINITY, f64::MIN, -1.5, -0.0, 0.0, 5e-324, 0.1, 1e21, f64::MAX, f64::INFINITY].map(F).to_vec() }
    fn random(r: &mut Rng) -> Self { loop { let x = if r.chance(1, 2) { f64::from_bits(r.u64()) } else { r.below(1000) as f64 / 8.0 - 40.0 }; if !x.is_nan() { return F(x) } } }
    const BITS: &'static [&'static str] = &["inf", "-", ".", "e", "1.5", "NaN", "-inf", "infinity"];
}
/// A point whose own text carries brackets, a minus sign and non-ASCII characters.
macro_rules! wrapped { ($n:ident, $name:expr, $pre:expr, $post:expr) => {
    #[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
    struct $n(i16);
    impl Display for $n { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, concat!($pre, "{}", $post), self.0) } }
    impl FromStr for $n {
        type Err = String;
        fn from_str(s: &str) -> Result<Self, String> {
            s.strip_prefix($pre).and_then(|s| s.strip_suffix($post)).and_then(|s| s.parse().ok()).map($n).ok_or_else(|| s.to_string())
        }
    }
    impl Txt for $n {
        const NAME: &'static str = $name;
        fn pool() -> Vec<Self> { vec![$n(-4), $n(0), $n(9)] }
        fn random(r: &mut Rng) -> Self { $n(r.u64() as i16) }
        const BITS: &'static [&'static str] = &[$pre, $post, "5", concat!($pre, "5", $post)];
    }
} }
wrapped!(Call, "Call", "f(", ")");
wrapped!(Sq, "Sq", "[", "]");
wrapped!(Par, "Par", "(", ")");
wrapped!(Half, "Half", "[", ")");
wrapped!(Uni, "Uni", "«é", "日»");
wrapped!(Sp, "Sp", " ", " ");

/// What parsing a text must give: `None` for an error, and whether an
/// out-of-order pair makes either answer acceptable.
/// When every text is a point, bounds with points between them are an interval
/// too, and either answer will do (printed notations are judged by `trip_case`).
struct Expect<T> { value: Option<RawInterval<T>>, or_err: bool, also: Option<T> }

fn point<T: Txt>(s: &str) -> Option<T> { T::from_str(s).ok() }
fn recognise<T: Txt>(s: &str) -> Expect<T> {
    use RawInterval::*;
    if s == "Ø" { return Expect { value: Some(Empty), or_err: false, also: None }; }
    let mut e = bounds(s);
    match (&e.value, point(s)) {
        (Some(_), p) => e.also = p,
        (None, p) => e.value = p.map(Point),
    }
    e
}
fn bounds<T: Txt>(s: &str) -> Expect<T> {
    use RawInterval::*;
    let yes = |i| Expect { value: Some(i), or_err: false, also: None };
    let no = Expect { value: None, or_err: false, also: None };
    let c: Vec<char> = s.chars().collect();
    let Some(k) = c.iter().position(|x| *x == ',') else { return no };
    let (left, right) = (&c[..k], &c[k + 1..]);
    let text = |v: &[char]| v.iter().collect::<String>();
    // (kind, point): kind 0 infinite, 1 excluded, 2 included.
    let lo = match left {
        ['(', '-', '∞'] => Some((0, None)),
        ['(', r @ ..] => point(&text(r)).map(|p: T| (1, Some(p))),
        ['[', r @ ..] => point(&text(r)).map(|p: T| (2, Some(p))),
        _ => None,
    };
    let hi = match right {
        ['∞', ')'] => Some((0, None)),
        [r @ .., ')'] => point(&text(r)).map(|p: T| (1, Some(p))),
        [r @ .., ']'] => point(&text(r)).map(|p: T| (2, Some(p))),
        _ => None,
    };
    let (Some((a, x)), Some((b, y))) = (lo, hi) else { return no };
    match (a, x, b, y) {
        (0, _, 0, _) => yes(Full),
        (0, _, 1, Some(y)) => yes(UpTo(y)),
        (0, _, _, Some(y)) => yes(To(y)),
        (1, Some(x), 0, _) => yes(UpFrom(x)),
        (_, Some(x), 0, _) => yes(From(x)),
        (a, Some(x), b, Some(y)) => {
            if x < y { return yes(match (a, b) { (1, 1) => Open(x, y), (1, _) => LeftOpen(x, y), (_, 1) => RightOpen(x, y), _ => Closed(x, y) }); }
            // No points between: an interval without them, or no interval.
            if x == y && (a, b) != (1, 1) { return Expect { value: Some(Point(x)), or_err: true, also: None }; }
            Expect { value: Some(Empty), or_err: true, also: None }
        }
        _ => unreachable!(),
    }
}

fn text_case<T: Txt>(cx: &mut Ctx, s: &str) -> bool {
    let e = recognise::<T>(s);
    let notation = e.value.is_some();
    cx.case(hash_of(&(T::NAME, s)), notation || s.contains(['(', '[', '∞', 'Ø']), || format!("{}: {s:?}", T::NAME), |ev| {
        let got = RawInterval::<T>::from_str(s);
        match (&got, &e.value) {
            (Err(_), None) => bump(ev, "texts rejected", 1),
            (Err(err), Some(v)) => want!(e.or_err, "the notation of {v:?} is rejected with {err:?}"),
            (Ok(g), None) => return Err(format!("{s:?} is read as {g:?}")),
            (Ok(RawInterval::Point(p)), Some(_)) if e.also.as_ref() == Some(p) => bump(ev, "texts read as points", 1),
            (Ok(g), Some(v)) => { want_eq!(g, v, "read as"); bump(ev, "texts accepted", 1) }
        }
        let again: Result<RawInterval<T>, _> = s.parse();
        want_eq!(again.ok(), got.ok(), "str::parse");
        Ok(())
    })
}
/// Takes so many bytes and no more.
struct Sink(usize, String);
impl fmt::Write for Sink {
    fn write_str(&mut self, t: &str) -> fmt::Result { if self.1.len() + t.len() > self.0 { return Err(fmt::Error); } self.1.push_str(t); Ok(()) }
}
fn trip_case<T: Txt>(cx: &mut Ctx, i: RawInterval<T>) -> bool {
    let s = i.to_string();
    cx.case(hash_of(&(T::NAME, &s, 1)), i != RawInterval::Empty, || format!("{}: round trip of {i:?}", T::NAME), |ev| {
        match RawInterval::<T>::from_str(&s) {
            Ok(g) => want_eq!(g, i, "parsing {s:?}"),
            Err(e) => return Err(format!("parsing {s:?} fails with {e:?}")),
        }
        // What does not fit is an error, not a shorter text.
        let mut full = Sink(s.len(), String::new());
        want!(write!(full, "{i}").is_ok() && full.1 == s, "{s:?} written again as {:?}", full.1);
        let mut short = Sink((s.len() - s.len() / 3).saturating_sub(1), String::new());
        want!(s.is_empty() || write!(short, "{i}").is_err(), "writing {s:?} into too little room succeeds with {:?}", short.1);
        bump(ev, "round trips", 1);
        Ok(())
    }) && text_case::<T>(cx, &s)
}
fn over<T: Txt>(a: &T, b: &T) -> Vec<RawInterval<T>> {
    use RawInterval::*;
    let mut v = vec![Point(a.clone()), UpTo(a.clone()), UpFrom(a.clone()), To(a.clone()), From(a.clone())];
    if a < b { let (a, b) = (|| a.clone(), || b.clone()); v.extend([Open(a(), b()), LeftOpen(a(), b()), RightOpen(a(), b()), Closed(a(), b())]); }
    v
}
fn trips<T: Txt>(cx: &mut Ctx) {
    trip_case::<T>(cx, RawInterval::Empty);
    trip_case::<T>(cx, RawInterval::Full);
    let p = T::pool();
    for a in &p { for b in &p { for i in over(a, b) { if !trip_case(cx, i) { return; } } } }
    for _ in 0..400 { let (a, b) = (T::random(&mut cx.rng), T::random(&mut cx.rng)); for i in over(&a, &b) { if !trip_case(cx, i) { return; } } }
}
const TOKENS: &[&str] = &["(", "[", ")", "]", ",", "-", "∞", "Ø", "3", "-∞", "∞)", "(-∞", " ", "7"];
fn mutate<T: Txt>(rng: &mut Rng, s: &str) -> String {
    let mut c: Vec<char> = s.chars().collect();
    for _ in 0..1 + rng.idx(3) {
        let n = c.len();
        let at = rng.idx(n + 1);
        let mut frag: Vec<char> = match rng.below(4) {
            0 => rng.pick(T::BITS).chars().collect(),
            1 | 2 => rng.pick(TOKENS).chars().collect(),
            _ => vec![*rng.pick(&['\u{0}', 'é', 'x', '\n', '\u{301}', '∞', '−', '–', '，', 'ø', '0', '"', '\u{feff}', '}', '<', '😀', 'e', '.', '_'])],
        };
        // Some of it very often, past any length one might think of.
        if rng.chance(1, 24) { frag = frag.repeat(*rng.pick(&[17, 40, 65, 130, 257, 520])); }
        match rng.below(9) {
            0 | 1 => { c.splice(at..at, frag); }
            2 if at < n => { c.remove(at); }
            3 if at < n => { c.splice(at..at + 1, frag); }
            4 => c.truncate(at),
            5 => { c.drain(..at); }
            6 => { let e = at + rng.idx(n - at + 1); let d: Vec<char> = c[at..e].to_vec(); c.splice(at..at, d); }
            7 if n > 0 => { let j = rng.idx(n); c.swap(at.min(n - 1), j); }
            8 => c.extend(frag),
            _ => { let mut f = frag; f.extend(c); c = f; }
        }
    }
    c.into_iter().collect()
}
fn mutants<T: Txt>(cx: &mut Ctx) {
    let pool = T::pool();
    for _ in 0..2500 {
        let (a, b) = if cx.rng.chance(1, 2) { (cx.rng.pick(&pool).clone(), cx.rng.pick(&pool).clone()) } else { (T::random(&mut cx.rng), T::random(&mut cx.rng)) };
        let mut v: Vec<String> = over(&a, &b).iter().map(|i| i.to_string()).collect();
        v.extend(["Ø".into(), "(-∞,∞)".into(), format!("[{b},{a}]"), format!("({a},{a}]"), format!("({b},{a})"), format!("[-∞,{a}]"), format!("({a},∞]")]);
        let s = cx.rng.pick(&v).clone();
        let s = if cx.rng.chance(1, 8) { s } else { mutate::<T>(&mut cx.rng, &s) };
        if !text_case::<T>(cx, &s) { return; }
    }
}
/// Every token string up to a length.
fn tokens<T: Txt>(cx: &mut Ctx, len: usize) {
    let mut toks: Vec<&str> = vec!["(", "[", ")", "]", ",", "-", "∞", "Ø", " "];
    toks.push(T::BITS[0]);
    toks.push(T::BITS[1]);
    let n = toks.len();
    for l in 0..=len {
        for mut k in 0..n.pow(l as u32) {
            if k as u64 % cx.blocks != cx.block { continue; }
            let mut s = String::new();
            for _ in 0..l { s.push_str(toks[k % n]); k /= n; }
            if !text_case::<T>(cx, &s) { return; }
        }
    }
}
/// Every pair of left and right halves from lists of sound and unsound ones.
fn halves<T: Txt>(cx: &mut Ctx) {
    let (a, b) = (T::pool()[0].to_string(), T::pool()[1].to_string());
    let mut left: Vec<String> = Vec::new();
    let mut right: Vec<String> = Vec::new();
    for p in ["", &a, &b, "-∞", "∞", "+∞", "-", "Ø", "-∞ ", "x", "∞-∞", "-∞∞", "((", "--∞"] {
        for o in ["", "(", "[", "((", "[[", " (", "( ", "{", "<", "]", ")"] { left.push(format!("{o}{p}")); }
        for o in ["", ")", "]", "))", "]]", ") ", " )", "}", ">", "(", "["] { right.push(format!("{p}{o}")); }
    }
    for l in &left { for r in &right { for sep in [",", "", ";", ",,", ", ", " ,", "，"] {
        if (sep != ",") && cx.rng.chance(3, 4) { continue; }
        if !text_case::<T>(cx, &format!("{l}{sep}{r}")) { return; }
    } } }
}
const KINDS: u64 = 24;
macro_rules! pick_txt { ($i:expr, $f:ident, $($a:expr),*) => { match $i % KINDS {
    0 => $f::<i32>($($a),*), 1 => $f::<u8>($($a),*), 2 => $f::<i128>($($a),*), 3 => $f::<u128>($($a),*), 4 => $f::<bool>($($a),*),
    5 => $f::<Ipv4Addr>($($a),*), 6 => $f::<Ipv6Addr>($($a),*), 7 => $f::<NonZeroI16>($($a),*), 8 => $f::<char>($($a),*),
    9 => $f::<Call>($($a),*), 10 => $f::<Sq>($($a),*), 11 => $f::<Par>($($a),*), 12 => $f::<Uni>($($a),*), 13 => $f::<Sp>($($a),*), 14 => $f::<Half>($($a),*),
    15 => $f::<i8>($($a),*), 16 => $f::<i64>($($a),*), 17 => $f::<u64>($($a),*), 18 => $f::<isize>($($a),*), 19 => $f::<u16>($($a),*), 20 => $f::<u32>($($a),*), 21 => $f::<String>($($a),*), 22 => $f::<F>($($a),*), _ => $f::<usize>($($a),*),
} } }
fn s_trips(cx: &mut Ctx) { pick_txt!(cx.block, trips, cx) }
fn s_mut(cx: &mut Ctx) { pick_txt!(cx.block, mutants, cx) }
fn s_halves(cx: &mut Ctx) { pick_txt!(cx.block, halves, cx) }
fn s_tokens(cx: &mut Ctx) {
    let l = if cx.thorough { 6 } else { 5 };
    tokens::<i32>(cx, l);
    tokens::<bool>(cx, l - 1);
    tokens::<char>(cx, l - 1);
    tokens::<Sq>(cx, l - 1);
    tokens::<Call>(cx, l - 1);
    tokens::<Half>(cx, l - 1);
    tokens::<String>(cx, l - 1);
}
/// The recogniser itself, on texts read by hand.
fn self_test() {
    use RawInterval::*;
    let ok = |s: &str| recognise::<i32>(s).value;
    for (s, i) in [("Ø", Empty), ("7", Point(7)), ("(1,2)", Open(1, 2)), ("(1,2]", LeftOpen(1, 2)), ("[1,2)", RightOpen(1, 2)), ("[-1,2]", Closed(-1, 2)),
        ("(-∞,2)", UpTo(2)), ("(-∞,2]", To(2)), ("(2,∞)", UpFrom(2)), ("[2,∞)", From(2)), ("(-∞,∞)", Full)] { assert_eq!(ok(s), Some(i)); }
    for s in ["", "Øx", "(1,2", "1,2)", "(1 ,2)", "(-∞x,2)", "(1,x∞)", "[-∞,2)", "(1,∞]", "(1,2,3)", "(,2)", "(1,)", "()", ",", "[1]"] { assert_eq!(ok(s), None); }
    assert_eq!(recognise::<Par>("((1),(2)]").value, Some(LeftOpen(Par(1), Par(2))));
}
fn suites(_: &str) -> Vec<Suite> {
    let s = |name, quick, thorough, run| Suite { name, quick, thorough, run };
    vec![
        s("round-trips", 10 * KINDS, 20 * KINDS, s_trips as fn(&mut Ctx)), s("mutated-notations", 40 * KINDS, 100 * KINDS, s_mut),
        s("bound-halves", KINDS, KINDS, s_halves), s("token-strings", 8, 32, s_tokens),
    ]
}
fn main() { self_test(); main_with(suites) }
