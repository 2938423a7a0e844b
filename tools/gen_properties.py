#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the wording is easy to edit)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    d = {
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "observe_at": observe,
            "hook_needed": None,
        },
    }
    if state:
        d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append(d)


IV, NM, RI = "src/interval.rs", "src/normalize.rs", "src/raw_interval.rs"
SE, TT, TI, BO = "src/selection.rs", "src/tine_tree.rs", "src/tine.rs", "src/bound.rs"
TREE_STATE = [("TineTree.0", "ordered set of boundary markers of a disjoint union of intervals", TT)]

prop("P01", "Interval constructors select exactly the points their bounds describe",
     "For every finite point type and every pair of bound points, an interval built by any constructor or range conversion contains a point exactly when the point satisfies both bounds, where an unbounded side reaches the type's extreme value. Bounds that are out of order, or that leave no point between them, give an empty interval; equal bound points give that single point unless both bounds are exclusive, which gives the empty interval.",
     ["inputs", "configurations"], "every Finite type (built-in and user-defined), every constructor and conversion, every bound combination including the type's extremes and neighbouring points",
     "The doc-tests build a handful of i32 intervals with well separated bounds; neighbouring bound points, type extremes and non-i32 types are never built.",
     [IV, RI, NM], [("normalising constructors", IV), ("successor/predecessor closing of open bounds", NM), ("bound ordering checks", RI)],
     ["Interval::contains", "Interval::is_empty"])

prop("P02", "Equal point sets give equal intervals: the interval form is canonical",
     "Any two intervals over the same finite point type that contain the same points are equal and hash equally, whichever constructors, conversions or set operations produced them, and intervals with different points are unequal. An interval with no points is the empty interval and one with a single point is the point interval.",
     ["inputs", "programs", "configurations"], "every pair of intervals reachable by any constructor, conversion or operation, over every Finite type",
     "Normal forms are asserted by doc-tests for a few i32 intervals; canonicity is a relation between all construction paths and needs all of them compared.",
     [NM, IV], [("Normalize for RawInterval", NM), ("every Interval operation re-normalises its result", IV)],
     ["Interval ==", "Hash", "is_empty", "is_degenerate"])

prop("P03", "Interval bounds, size and classification agree with the selected points",
     "For every interval over a finite point type, the lower and upper bounds are inclusive and are exactly the least and greatest selected point, infimum and supremum are those points, and all are absent exactly when no point is selected. Size is the difference of the extreme points whenever that difference is representable, and the empty, degenerate and proper predicates and the conversion to an optional non-empty interval are decided by whether zero, one or more points are selected. Every interval is reported closed, bounded on both sides and not half-bounded, half-open or half-closed; a non-empty one is left-closed and right-closed and not open.",
     ["inputs", "configurations"], "every interval over every Finite type",
     "Doc-tests check each accessor on one or two i32 values; no test crosses accessors with the point set or uses extremes.",
     [IV, RI], [("bound accessors and predicates over the normal form", IV), ("raw bound accessors", RI)],
     ["lower_bound", "upper_bound", "infimum", "supremum", "size", "is_*", "into_non_empty"])

prop("P04", "Interval set operations are exact pointwise",
     "For every pair of intervals over a finite point type, intersection, union, difference and complement select exactly the points that set algebra prescribes, given as non-empty, pairwise disjoint intervals no two of which could be merged into one. The enclosure is the smallest interval containing both operands, the closure selects the same points as the interval, the overlap test is true exactly when the intervals share a point, and the adjacency test is true exactly when the greatest point of one interval is the least point of the other.",
     ["inputs", "configurations"], "all pairs of intervals over every Finite type, including extremes, points and neighbours",
     "The raw-interval unit tests pin a fixed grid of dense relations on i32; normalised intervals have one doc-test per operation and no neighbouring or extreme operands.",
     [IV, RI, BO], [("set operations on the raw form followed by normalisation", IV), ("bound combination", BO), ("raw set operations", RI)],
     ["Interval::{intersect, union, minus, complement, enclose, closure, intersects, is_adjacent_to}"])

prop("P05", "Interval iteration yields every point exactly once, from either end",
     "Iterating an interval over a finite point type yields exactly its points in strictly ascending order, or strictly descending order from the back, and any interleaving of front and back steps yields each point exactly once with the two ends meeting in the middle. After the last point every further step from either end yields nothing, and iteration reaches the type's extreme values without overflow.",
     ["inputs", "histories", "configurations"], "every interval and every sequence of next/next_back calls",
     "Two doc-tests iterate one three-point interval; no mixed-ended sequence, no extreme value, no empty interval is iterated.",
     [IV, NM], [("Iter next/next_back by removing the end point", IV)],
     ["Interval::iter", "IntoIterator for Interval and &Interval", "DoubleEndedIterator"])

prop("P06", "In-place selection updates track the mathematical set over any history",
     "After any sequence of in-place unions, intersections and differences with intervals, extensions, and collections from intervals or points, a selection over a finite point type contains exactly the points of the set computed by the same sequence. No sequence of these operations panics.",
     ["histories", "inputs", "configurations"], "all finite sequences of in-place operations from any reachable selection, over every Finite type",
     "Tests apply one operation, or one fixed aggregation, to a fresh tree; a selection's behaviour depends on the boundary markers left by all earlier operations.",
     [SE, TT, TI], [("denormalise before insertion into the marker tree", SE), ("in-place union/intersect/minus on the marker tree", TT)],
     ["Selection::contains after every step"], TREE_STATE)

prop("P07", "Selection set algebra is exact for every pair of selections",
     "For any two selections over a finite point type, however they were produced, complement, intersection, union and difference contain exactly the points that set algebra prescribes, and the overlap test is true exactly when they share a point. The operands are left unchanged, and results remain valid operands of further operations without panicking.",
     ["inputs", "histories", "programs"], "all pairs of selections reachable by any history, including multi-interval operands and results of earlier operations",
     "Each operation has one or two doc-tests with single-interval i32 operands; multi-interval and derived operands are never used.",
     [SE, TT], [("binary operations on marker trees", TT), ("normalising wrapper", SE)],
     ["Selection::{complement, intersect, union, minus, intersects}"], TREE_STATE)

prop("P08", "Selections decompose into their unique maximal intervals",
     "The interval iterators of a selection over a finite point type, borrowing or consuming, yield exactly its maximal runs of consecutive points: every interval is non-empty, they ascend, and no two overlap or are neighbours. Walking from the back yields the same intervals in reverse, any interleaving of the two ends yields each interval exactly once, and the iterators stay exhausted once finished.",
     ["histories", "inputs"], "every selection reachable by any history and every interleaving of front and back steps",
     "interval_iter is only checked forward on one- and two-interval selections; backward walking of selections with neighbouring runs is never tested.",
     [SE, TT], [("IntervalIter/IntoIntervalIter over the tree iterators", SE), ("tree iterators with saved shared markers", TT)],
     ["Selection::interval_iter", "Selection::into_interval_iter"], TREE_STATE)

prop("P09", "Equal point sets give equal selections, independent of history",
     "Two selections over the same finite point type containing the same points are equal, hash equally and report identical bounds, infimum, supremum and intervals, whatever sequence of operations produced each of them. Selections containing different points are unequal.",
     ["histories", "inputs"], "all pairs of selections reachable by any two histories",
     "No test compares selections built in two different ways; canonicity is a relation between all histories.",
     [SE, TT, NM], [("denormalised-inside, normalised-outside representation", SE), ("marker merging", TI)],
     ["Selection ==", "Hash", "lower_bound", "upper_bound", "infimum", "supremum"], TREE_STATE)

prop("P10", "Selection point iteration yields every point exactly once, from either end",
     "Iterating the points of a selection over a finite point type, borrowing or consuming, yields exactly its points in strictly ascending order, or strictly descending from the back. Any interleaving of front and back steps yields each point exactly once, the front steps ascending and the back steps descending, and the iterators stay exhausted once finished.",
     ["histories", "inputs"], "every selection and every sequence of next/next_back calls",
     "No test iterates the points of a selection at all.",
     [SE, TT, IV], [("Iter/IntoIter over intervals with a current interval", SE)],
     ["Selection::iter", "IntoIterator for Selection and &Selection"], TREE_STATE)

prop("P11", "Selection queries and summaries agree with the selected points",
     "For every selection over a finite point type, membership, emptiness and fullness are decided by its points, the lower and upper bounds are inclusive and are its least and greatest points (absent when empty), and it is reported bounded on both sides and never half-bounded. Its enclosure and closure are both the smallest interval containing all of its points. Its infimum and supremum are the points just outside its extremes, and absent when empty or when the extreme is the type's own extreme value.",
     ["inputs", "histories"], "every selection reachable by any history over every Finite type",
     "Doc-tests query single-interval i32 selections; disjoint, empty, full and extreme-touching selections are not queried.",
     [SE, TT], [("query methods through the tree and the interval iterator", SE), ("tree enclose/closure/bounds", TT)],
     ["Selection::{contains, is_empty, is_full, lower_bound, upper_bound, infimum, supremum, is_bounded, is_left_bounded, is_right_bounded, is_half_bounded, enclose, closure}"])

prop("P12", "Raw intervals describe exactly their bounds in any ordered type",
     "For every ordered point type, a raw interval built from bounds contains a point exactly when the point satisfies both bounds, is empty when the bounds are out of order or equal and both exclusive, and is the single point when they are equal with at least one inclusive. Lower and upper bound accessors return the bounds of the interval with their kind (inclusive, exclusive, unbounded), absent when empty, rebuilding from them gives an equal interval, and infimum and supremum are the bound points, absent when empty or unbounded.",
     ["inputs", "configurations"], "every totally ordered type, dense or discrete, and every bound combination",
     "Unit tests use three fixed i32 points per case; other types and orders of bounds are not covered.",
     [RI, BO], [("constructors with ordering match", RI), ("bound accessors", RI)],
     ["RawInterval::{new, open, left_open, right_open, closed, contains, lower_bound, upper_bound, infimum, supremum, is_empty, is_full}"])

prop("P13", "Raw interval set operations are exact over dense orders",
     "For any two raw intervals over an ordered type, reading an open interval between distinct points as non-empty, intersection, union, difference and complement contain exactly the prescribed points as non-empty disjoint intervals, and union merges operands that overlap or touch. Enclosure is the smallest interval containing both operands, closure adds exactly the finite excluded end points, the overlap test is true exactly when the intersection is non-empty, and the adjacency test is true exactly when an upper bound point of one equals a lower bound point of the other and at least one of the two bounds is inclusive.",
     ["inputs", "configurations"], "all pairs of raw intervals over every ordered type",
     "Unit tests enumerate one relative position per variant pair; they do not cover all coincidences of four end points.",
     [RI, BO], [("bound least/greatest union/intersect", BO), ("raw set operations", RI)],
     ["RawInterval::{intersect, union, minus, complement, enclose, closure, intersects, is_adjacent_to}"])

prop("P14", "Bulk raw-interval operations equal their element-wise definitions",
     "For any finite sequence of raw intervals in any order, the bulk union yields non-empty intervals, pairwise disjoint and not touching, that cover exactly the points covered by some element; the bulk intersection contains exactly the points in every element; and the bulk enclosure is the smallest interval containing all elements. The empty sequence gives no intervals, the full interval and the empty interval respectively.",
     ["inputs"], "every finite sequence of raw intervals, every order",
     "No test calls any bulk operation.",
     [RI], [("enclose_all / intersect_all / union_all folds", RI)],
     ["RawInterval::{enclose_all, intersect_all, union_all}"])

prop("P15", "Interval notation round-trips and malformed text is rejected",
     "For every raw interval whose points print and parse faithfully, in a text without commas, infinity or empty-set signs, parsing its printed notation gives back an equal interval. Parsing never panics on any text, and text that is not an interval notation - a bare point, the empty-set sign, or a bracketed pair of bounds with an optional infinity on either side - is reported as an error instead of being read as some interval.",
     ["inputs"], "all raw intervals over printable types; all strings",
     "Eleven round trips of one i32 value per variant; no malformed, extreme, negative or multi-byte text is parsed.",
     [RI], [("Display and FromStr for RawInterval", RI)],
     ["to_string", "from_str"])

prop("P16", "In-place tree updates track the set over any history, for any order",
     "For every ordered point type, after any sequence of in-place unions, intersections and differences of a raw interval tree with raw intervals of every kind, the tree contains exactly the points of the mathematically computed set, reading the order as dense. No sequence of these operations panics, whichever end points coincide.",
     ["histories", "inputs"], "all finite sequences of in-place tree operations with all kinds of raw interval",
     "The tree tests apply one operation to a tree holding one interval; trees with several intervals, shared points and closed/open coincidences are not reached.",
     [TT, TI], [("exterior/interior split and boundary merging", TT), ("tine union/intersect/minus", TI)],
     ["TineTree::contains", "TineTree::interval_iter after every step"], TREE_STATE)

prop("P17", "Tree set algebra is exact for every pair of trees",
     "For any two raw interval trees over an ordered type, complement, intersection, union and difference contain exactly the prescribed points reading the order as dense, and leave the operands unchanged. Emptiness, fullness, membership, the extreme bounds, the enclosure and the closure of a tree agree with the points it contains.",
     ["inputs", "histories"], "all pairs of trees reachable by any history",
     "No test calls a binary tree operation, complement, enclose or closure with more than one interval.",
     [TT], [("complement/intersect/union/minus", TT), ("bounds and enclosure", TT)],
     ["TineTree::{complement, intersect, union, minus, contains, is_empty, is_full, lower_bound, upper_bound, enclose, closure}"], TREE_STATE)

prop("P18", "Trees decompose canonically and iterate alike from both ends",
     "The interval iterators of a raw interval tree, borrowing or consuming, yield the unique ascending sequence of non-empty, disjoint, non-touching intervals covering its points; walking from the back yields the reverse, and any interleaving of both ends yields each interval exactly once. Trees containing the same points, and only those, are equal, and they hash equally, whatever history produced them, and collecting a tree's intervals gives an equal tree.",
     ["histories", "inputs"], "every reachable tree, every interleaving of front and back steps",
     "Tests only walk trees forward; no backward or mixed walk and no comparison of histories.",
     [TT, TI], [("Iter and IntoIter with saved shared markers", TT)],
     ["TineTree::interval_iter", "TineTree::into_iter", "==", "Hash"], TREE_STATE)

prop("P19", "Normalising and denormalising preserve points and invert each other",
     "For every raw interval over a finite point type, normalising and denormalising both keep exactly the same points of the type. Normalising is idempotent and gives the empty interval, the point, or a closed interval with distinct ascending end points; denormalising a non-empty normalised interval gives an interval with only exclusive or unbounded sides, and normalising that gives the normalised interval back.",
     ["inputs", "configurations"], "every raw interval over every Finite type, including type extremes and one-point types",
     "No test calls normalize or denormalize directly; extremes and unbounded variants are unreached.",
     [NM], [("Normalize for RawInterval<T: Finite>", NM)],
     ["Normalize::{normalize, denormalize, normalized, denormalized}", "RawInterval::contains"])

prop("P20", "Finite successor and predecessor walk every integer type without gaps",
     "For each of the twelve built-in integer types, the declared minimum and maximum are the type's own; the successor of every value but the maximum is the next value and the predecessor of every value but the minimum is the previous one, and the maximum has no successor and the minimum no predecessor. No value overflows or panics.",
     ["inputs", "configurations"], "every value of every built-in integer type",
     "No test calls succ or pred; types other than i32 are never exercised.",
     [NM], [("std_integer_countable_impl", NM)], ["Finite::{MINIMUM, MAXIMUM, succ, pred}"])

prop("P21", "Bound combination yields the tightest or loosest bound, exactly",
     "Combining two lower bounds as a union or intersection gives the bound whose half-line is exactly the union or intersection of theirs, and likewise for upper bounds, with an absent bound denoting the whole line. Combination is commutative, associative and idempotent, and the bound's query, extraction, mapping and transfer functions act on the contained point alone and keep the kind of bound.",
     ["inputs", "configurations"], "all pairs and triples of bounds over any ordered type",
     "Doc-tests cover only the accessors; the four combination functions have no tests of their own.",
     [BO], [("least/greatest union/intersect", BO)], ["Bound::{least_union, least_intersect, greatest_union, greatest_intersect, map, transfer, unwrap_or, as_ref, ...}"])

prop("P22", "Boundary markers combine exactly around their point",
     "Two boundary markers at the same point combine under union, intersection and difference to the marker that describes set algebra applied just before, at and just after that point, or to nothing when no boundary remains there. Inverting a finite marker complements all three and is an involution, and markers are totally ordered by position with unbounded lower markers first and unbounded upper markers last.",
     ["inputs"], "all pairs of coincident markers of every kind, and all orderings",
     "No test exercises markers directly, and the tree tests reach few marker coincidences.",
     [TI], [("Tine::{union, intersect, minus, invert, cmp, from_raw_interval}", TI)],
     ["Tine operations"])

prop("P23", "Element values are owned soundly: no leak, double drop or undefined behaviour",
     "For point types that own heap memory, any history of interval, selection and tree operations, including partially consumed and abandoned iterators and point types whose comparison or clone panics part-way, drops every element value exactly once and leaves none live when all containers are gone (what the standard library's own sets leak when a comparison panics inside their bulk construction aside). No execution has undefined behaviour or touches invalid memory.",
     ["histories", "inputs", "fault_sequences"], "all operation histories over owning point types, including panics injected into comparisons and clones",
     "All tests use Copy integers, for which ownership errors are unobservable.",
     [TT, SE, IV, RI], [("clone/move discipline of markers", TT), ("mem::replace in normalisation", NM), ("Few (unsafe replace_with) used by complement", RI)],
     ["live-value counters of an instrumented point type", "Miri", "AddressSanitizer/LeakSanitizer"])

prop("P24", "Serialised intervals, selections and trees restore to equal values",
     "With serialisation enabled, every bound, raw interval, interval, tree and selection restores from its serialised form to an equal value that behaves identically under all later operations. An interval restored from serialised bounds that are not in normal form is normalised like any other constructed interval.",
     ["inputs", "configurations", "histories"], "all values of all serialisable types, in self-describing and binary formats",
     "The serde feature has no tests; the build only type-checks it.",
     [IV, RI, SE, TT, BO], [("serde derives and transparent wrappers", IV), ("TineTree serde bound", TT)],
     ["serde_json and bincode round trips"])

prop("P25", "Operation cost depends on the number of intervals, not on the points",
     "Every interval, selection and tree operation except point iteration finishes with a number of point comparisons, copies and steps bounded by a low polynomial of the number of stored intervals, independently of how many points the intervals contain. Taking one point from an iterator does not visit the others.",
     ["inputs", "histories"], "all selections, in particular of 2 to 2000 intervals spanning up to the whole 128-bit range",
     "Tests use small intervals, for which enumerating every point would go unnoticed.",
     [TT, SE, IV], [("tree of interval bounds instead of points", TT)],
     ["instrumented point type counting comparisons, clones, successor and predecessor calls"])

prop("P26", "Values can be shared and sent across threads; concurrent reads agree",
     "Bounds, intervals, raw intervals, trees and selections over thread-safe point types (and only over those) can be sent to and shared between threads. Any number of threads reading one shared value concurrently, including iterating it and combining it with others, observe the results a single thread would, without data races.",
     ["schedules", "inputs"], "all interleavings of concurrent read operations on shared values",
     "Tests are single-threaded and do not assert thread-safety of any type.",
     [SE, TT, IV, RI, BO], [("plain owned data without interior mutability", TT)],
     ["type-level probes", "Miri and ThreadSanitizer data-race detection on concurrent readers"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
