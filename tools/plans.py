"""What each property's check runs: stages, rules for counting cases, assumptions."""

ASSUMPTIONS = [
    "held on the executions observed; nothing is claimed about inputs or histories the workload never produced",
    "the reference model (sorted range lists over ranks or cells, harness/src/rset.rs, self-tested against bit masks at start-up) states set algebra correctly",
]

CHECKED = dict(name="checked", kind="native", profile="checked", how="real code, opt-level 1, with debug assertions and overflow checks as additional monitors")
RELEASE = dict(name="release", kind="native", profile="release", how="real code as shipped, opt-level 2")
NATIVE = [CHECKED, RELEASE]

HIST = ("cases are histories of operations over four registers, each shadowed by the model and observed after every step "
        "(random over extremes and neighbouring points of twelve point types, dense over types of 3..8 points, wide over sets of up to 200 intervals, "
        "ladders of up to 65,535 equidistant intervals, operands of very unequal sizes), "
        "every pair or every single set of small types, and every representation reachable from the empty and the full set of small types; "
        "a history counts as non-trivial with at least three steps, a pair or set when non-empty; distinct by content")
IVR = "; counted non-trivial when the points are neither none nor (for constructors) all of the type; distinct by recipe and type"

PLANS = {}


def plan(pid, rule, must=(), stages=None, assumptions=(), technique=None, note=None):
    PLANS[pid] = dict(rule=rule, must_observe=list(must), stages=stages or NATIVE, assumptions=list(assumptions), technique=technique, note=note)


plan("P01", "cases are constructor recipes: all of them over types of 1..8 points, all bound pairs over extremes and neighbours of 19 point types, byte pairs, random pairs" + IVR)
plan("P02", "cases are pairs of recipes (all pairs over small types) and equivalence classes of every recipe and operation result for one point set" + IVR)
plan("P03", "cases are recipes and operation results whose every accessor is compared with the model; size cases over all sizes of signed and unsigned types" + IVR)
plan("P04", "cases are operand pairs (all pairs over types of 1..8 points, all pairs of critical points and random pairs over 19 types); non-trivial when both operands are non-empty; distinct by operands and type")
plan("P05", "cases are an interval and a schedule of front and back steps (all schedules of small types; random programs of every iterator method elsewhere; walks of up to 70,000 steps; up to 320 iterators alive at once); non-trivial with more than one point; distinct by content")
for i in ("P06", "P07", "P08", "P09", "P10", "P11"):
    plan(i, HIST)
plan("P12", "cases are bound pairs through every raw constructor over six dense orders (all over 1..40 boundary points, random over up to a million); non-trivial when some point is selected; distinct by content")
plan("P13", "cases are pairs of raw intervals as cell ranges of a dense grid (all pairs over small grids, random over large); non-trivial when both are non-empty; distinct by content")
plan("P14", "cases are sequences of raw intervals (all short sequences over small grids, random up to dozens of elements, sequences of up to thousands of elements of which all stay apart, are nested, or are alike but for one); non-trivial with at least two elements; distinct by content")
plan("P15", "cases are texts (printed forms of every interval kind, mutations of them, all token strings up to a length) judged by an independent recogniser of the notation; non-trivial when the text is a notation or contains one of its signs; distinct by text and point type")
for i in ("P16", "P17", "P18"):
    plan(i, HIST.replace("twelve point types", "six dense orders (integers, strings, reversed, totally ordered floats, 192-byte values, a type of one value)").replace("small types", "small grids of boundary points").replace("types of 3..8 points", "grids of 2..7 boundary points"))
plan("P19", "cases are raw intervals over finite types (all over types of 1..8 points, critical points of 19 types); non-trivial when some point is selected; distinct by content")
plan("P20", "cases are values of the twelve integer types: all of the 8 and 16 bit ones, critical, decimal and random ones of the others, and blocks of up to 2^20 values which together are all of the 32 bit ones and all patterns of 16 adjacent bits of the longer ones; distinct by value or block")
plan("P21", "cases are triples of bounds in every role (all over small grids, random over large); non-trivial when the first two differ; distinct by content")
plan("P22", "cases are pairs of boundary markers of every kind at the same and at different points, and sorted lists of them; distinct by content")
plan("P25", "cases are histories (some over hundreds of intervals) replayed over the same line at six block sizes; point operations of every step are counted by the point type; non-trivial when some interval is stored; distinct by content")

ASAN = dict(name="asan", kind="asan", profile="release", how="nightly build with AddressSanitizer")
plan("P23", "cases are histories over tracked points with abandoned iterators, containers of hundreds of intervals, single operations of a catalogue of 55 on random containers, and the same operations interrupted by a panic at each of their point operations in turn; all are counted non-trivial except histories of three steps and fewer; distinct by content; every value is followed from creation to drop",
     must=["panics injected", "iterators abandoned", "settlements (no value left live)"],
     stages=[CHECKED, RELEASE, dict(ASAN, args=["--shard", "0/3"]),
             dict(name="miri", kind="miri", profile="", shards=8, threads=1, suites="histories,strings,operations,input-panics", must=["iterators abandoned", "settlements (no value left live)"], how="interpreted by Miri (undefined behaviour, leaks at exit)"),
             # The standard sets leak what they build in bulk when a comparison
             # panics: here only the registry looks for leaks.
             dict(name="miri-panics", kind="miri", profile="", shards=8, threads=1, suites="panics", must=["settlements (no value left live)"], miriflags=["-Zmiri-ignore-leaks"], how="operations interrupted by panics, interpreted by Miri (undefined behaviour)")])

plan("P24", "cases are intervals with their raw bounds (all over critical points of eight types, random over five), raw intervals, bounds and trees of four dense orders, selections of byte edges, sets of up to thousands of intervals, and histories replayed with and without restoring every register in between, each through six encodings (JSON three ways, bincode in two configurations, CBOR); non-trivial when some point is selected, histories with over three steps; distinct by content",
     must=["values restored", "twin comparisons", "intervals restored from raw bounds"],
     stages=[dict(CHECKED, crate="serde"), dict(RELEASE, crate="serde")],
     technique="runtime monitoring: every value is written and read back through six encodings and both twins are observed side by side, over exhaustive small spaces and random histories")

TSAN = dict(name="tsan", kind="tsan", profile="release", how="nightly build, standard library included, with ThreadSanitizer")
plan("P26", "cases are type probes, worlds of shared values (some of hundreds of intervals) read by 2..7 threads running random programs of 36 kinds of read, and sets of registers travelling between threads while they are changed; all are counted non-trivial; distinct by world and programs",
     must=["pairs of overlapping reads of one value"],
     stages=[RELEASE, CHECKED, dict(TSAN, args=["--shard", "0/2"]),
             dict(name="miri", kind="miri", profile="", shards=8, threads=1, miriflags=["-Zmiri-preemption-rate=0.1"], how="interpreted by Miri (data races, undefined behaviour), many pre-emptions")],
     technique="runtime monitoring: event logs of concurrent readers over values without synchronisation, each result compared with a single thread's; ThreadSanitizer and Miri watch for data races; type probes for Send and Sync")
