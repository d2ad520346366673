#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the table below."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def P(id, title, statement, over, text, why, files, mech, observe, technique, note, state=None):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                mech=mech, observe=observe, technique=technique, note=note, state=state)

LIB, TOP, SEG, POS, ORD, CUR, GEO, SWL, RNG, TV = (
    "src/lib.rs", "src/topology.rs", "src/segments.rs", "src/position.rs", "src/order.rs",
    "src/curve/mod.rs", "src/geom.rs", "src/sweep/sweep_line.rs", "src/sweep/range.rs", "src/treevec.rs")
GEN = "Cases are generated at random (structured shapes: polygons, rectangles, ellipses, random cubics, stars, grids, slivers, degenerate paths, copies nudged by the tolerance), so this is a search, not a proof."

PROPS = [
P("C01", "Boolean operations agree with the fill rules at every point",
  "For any two closed paths, either fill rule and each of union, intersection, difference and xor, a point that is farther from all input curves than a small multiple of the tolerance is enclosed by the result exactly when the winding numbers of the two inputs there, read by the fill rule and combined by the operation, say so. The result winds exactly once around points inside and zero times around points outside. This holds with the automatic tolerance and with an explicit one, for self-intersecting, overlapping, touching, degenerate and multi-contour inputs.",
  ["inputs", "configurations"], "every pair of closed Bézier paths, fill rule, operation and tolerance; every point of the plane away from the input curves",
  "The tests compare a handful of shapes with stored snapshots of the output, and the fuzz targets only look for panics; nothing compares the result with the fill rules at points, over all inputs.",
  [LIB, TOP, SWL, RNG, POS, CUR], [("operation and fill rule applied to winding numbers", "binary_op_with_eps in src/lib.rs"), ("winding numbers along output segments", "Topology::from_segments in src/topology.rs"), ("sweep line", "src/sweep/sweep_line.rs"), ("output positioning", "src/position.rs")],
  ["binary_op", "binary_op_with_eps"],
  "property-based testing: generated path pairs against a point-winding oracle",
  GEN + " The oracle computes winding numbers by recursive subdivision of the control polygons, independently of the library. Points within 8 tolerances of an input curve are not judged."),
P("C02", "Output boundaries stay within the tolerance of the input curves",
  "Every point of every output contour lies within a small multiple of the tolerance of some input curve. No operation draws a boundary where the inputs have none.",
  ["inputs", "configurations"], "every pair of closed paths, fill rule, operation and tolerance; every point of the output's contours",
  "The documentation promises that the tolerance bounds how much outputs can differ from inputs; the tests never measure the distance.",
  [TOP, POS, SWL, CUR], [("output positioning within the tolerance", "ordered_curves_all_close, horizontal_positions in src/position.rs"), ("path simplification / merging of split pieces", "Topology::segs_to_path in src/topology.rs")],
  ["binary_op", "binary_op_with_eps"],
  "property-based testing: generated path pairs, distance oracle on sampled output points",
  GEN + " Nine samples per output segment; 8 tolerances allowed."),
P("C03", "Contours are closed, consistently oriented and correctly nested",
  "Every contour of a result is one closed loop. Outer contours have the result's interior just inside them and holes have it just outside, walking along a contour keeps the interior on the same side, and each contour's parent is the smallest contour that encloses it, of the opposite kind, a contour having no parent exactly when nothing encloses it. Grouping collects each outermost contour with exactly its descendants, beginning with the outermost one.",
  ["inputs", "configurations"], "every pair of closed paths, fill rule, operation and tolerance; every contour of the result; results nested several levels deep and touching at points",
  "Tests look at the hierarchy of a few fixed drawings; touching holes, deep nesting and near-degenerate contours are only met by generated inputs.",
  [TOP], [("contour extraction and splitting at self-touching points", "Topology::contours, Contour construction in src/topology.rs"), ("parent/outer bookkeeping from the scan line order", "Topology::contours in src/topology.rs"), ("grouping", "Contours::grouped in src/topology.rs")],
  ["Contours::contours", "Contours::grouped", "Contour.parent", "Contour.outer"],
  "property-based testing: nesting and orientation of generated results against per-contour winding numbers",
  GEN + " Judged at points farther than 8 tolerances from every input curve; thinner slivers are only checked for closedness and bookkeeping."),
P("C04", "The set-algebra laws hold between results",
  "Areas and membership of the four operations on the same inputs satisfy the laws of set algebra: inclusion-exclusion, A-B = A minus the intersection, xor = union minus intersection, commutativity, idempotence, and the laws for the empty set. Results fed back as inputs under either fill rule behave as the sets they stand for: normalising again changes nothing, (A or B)-B = A-B, (A xor B) xor B = A, De Morgan inside a frame.",
  ["inputs", "configurations", "histories"], "every pair of closed paths, fill rule and tolerance; chains of operations on earlier outputs",
  "Relations between several runs, and runs on the library's own slightly perturbed output, are not expressible as fixed examples and are not tested at all.",
  [LIB, TOP, SWL], [("fill rule and operation predicates", "binary_op_with_eps in src/lib.rs"), ("merging of output segments", "Topology::can_merge in src/topology.rs"), ("sweep line robustness against near-coincident inputs", "src/sweep/sweep_line.rs")],
  ["binary_op", "binary_op_with_eps"],
  "property-based testing: metamorphic relations between operations, areas and points",
  GEN + " Areas are compared up to (input length) x 16 tolerances."),
P("C05", "Every output segment carries the true winding numbers of both its sides",
  "For each output segment of a topology built from any tagged closed paths, the two winding numbers attached to it equal the winding numbers (per tag) of the input paths on either side of the segment, clockwise and counter-clockwise as documented. The second half of a segment reports the same two numbers exchanged.",
  ["inputs", "configurations"], "every collection of tagged closed paths and every tolerance; every output segment, including horizontal ones and stacks of coincident input segments",
  "Unit tests assert the numbers for a few squares; whether the bookkeeping survives merged, overlapping, horizontal and simultaneously crossing segments needs arbitrary inputs.",
  [TOP, RNG], [("winding numbers assigned along the sweep line", "Topology::process_sweep_line / second_half winding in src/topology.rs"), ("horizontal segments in a sweep range", "src/sweep/range.rs")],
  ["Topology::winding_clockwise", "Topology::winding_counter_clockwise"],
  "property-based testing: winding numbers beside positioned output segments against a point-winding oracle",
  GEN + " Judged beside segment samples that are clearly apart from all other curves."),
P("C06", "Custom winding-number predicates and n-ary topologies give the right sets",
  "Extracting contours from a topology with any predicate on winding numbers encloses exactly the points whose input winding numbers satisfy the predicate, for single paths, pairs, and arbitrarily many tagged paths, and one topology can be queried repeatedly with different predicates. Building the same curves as polylines or as Bézier paths gives the same sets.",
  ["inputs", "configurations", "histories"], "every list of tagged closed paths, every tolerance, every predicate that is false for winding zero, every sequence of queries on one topology",
  "The tests only use the built-in binary winding number with the four operations; the generic interface with more tags and other predicates is exercised by one example program without assertions.",
  [TOP], [("generic winding numbers", "WindingNumber trait and Topology::from_paths in src/topology.rs"), ("contour extraction", "Topology::contours in src/topology.rs")],
  ["Topology::from_paths", "Topology::from_path", "Topology::from_polylines_binary", "Topology::contours"],
  "property-based testing: generated n-ary topologies and predicates against a point-winding oracle",
  GEN),
P("C07", "Output segment positions meet their endpoints, their inputs and their order",
  "The computed position of every output segment starts and ends exactly at the segment's two endpoints, stays within a few tolerances of the input segment it comes from (except at its end heights and beside almost horizontal pieces), never goes back upwards by more than the tolerance, and segments of the same height range are drawn in their scan-line order up to the tolerance. Positions marked as copied from the input really are that part of the input curve.",
  ["inputs", "configurations"], "every collection of closed paths and every tolerance; every output segment",
  "Positioning is tested on snapshots of a few drawings; the ordering guarantee between neighbors is about all heights of all inputs.",
  [POS, TOP], [("positioning of groups of close segments", "src/position.rs"), ("endpoints and scan-line order", "Topology::compute_positions, ScanLineOrder in src/topology.rs")],
  ["Topology::compute_positions"],
  "property-based testing: positions of generated topologies against endpoint, distance and order oracles",
  GEN),
P("C08", "Faulty input is rejected precisely and valid input never panics",
  "A path with a NaN, an infinite coordinate or an open subpath is rejected with the error that names that fault (for an open subpath, with its two end points), and every finite closed input, however degenerate, is accepted and processed without panicking, overflowing the stack or failing to produce closed contours.",
  ["inputs", "configurations"], "every pair of paths with one faulty number or open subpath in either operand; every degenerate finite closed input with coordinates up to 1e6",
  "No test feeds non-finite or open input to the boolean operations; degenerate inputs (zero-length, coincident, doubled back, tolerance as large as the drawing) are sampled only by hand-picked cases.",
  [LIB, SEG], [("input validation", "binary_op, binary_op_with_eps in src/lib.rs"), ("closedness check", "Segments::add_path_without_updating_enter_exit in src/segments.rs")],
  ["binary_op", "binary_op_with_eps", "Topology::from_paths"],
  "fuzzing: injected faults and degenerate inputs, with a panic/abort detector and an error oracle",
  GEN + " A run that does not terminate is reported as no answer, not as a violation."),
P("C09", "The segment arena represents the added paths faithfully",
  "After any sequence of additions of paths and polylines, walking the arena along its contour links visits each added subpath in order, with the original directions, as pieces that are monotone in height, whose ends meet exactly, and that together trace the curves that were added (up to rounding; curves without vertical extent may become chords); closed subpaths are cycles and open ones have no neighbor beyond their ends. The entrance and exit lists contain every segment (exits: every non-horizontal one) once, sorted by height.",
  ["inputs", "histories"], "every sequence of additions of closed and open paths and polylines",
  "Tests add one or two small paths; splitting at extrema, dropped zero-length pieces and repeated additions are only combined by generated histories.",
  [SEG, GEO], [("adding paths", "Segments::add_path_without_updating_enter_exit in src/segments.rs"), ("splitting into monotone pieces", "monotonic_pieces in src/geom.rs"), ("entrance/exit lists", "Segments::update_enter_exit in src/segments.rs")],
  ["Segments"],
  "property-based testing: generated addition histories against an independent reading of the paths",
  GEN),
P("C10", "Comparing two curves tells left, right and close apart correctly",
  "Comparing two y-monotone curves partitions exactly their common height range into intervals; wherever the first curve is more than tolerance + accuracy to one side of the second at a height (give or take a vertical error of tolerance + accuracy), that side is reported, and wherever a definite side is reported the curves are at least tolerance - accuracy apart on that side.",
  ["inputs", "configurations"], "every pair of y-monotone cubics with a common height range, and every tolerance/accuracy within the documented relative precision",
  "The unit tests have a few pairs of curves; the fuzz target is not part of the test suite. The guarantee is about every height of every pair.",
  [CUR, ORD], [("recursive comparison by quadratic approximations", "intersect_cubics_rec in src/curve/mod.rs"), ("error bounds of the approximations", "EstParab::from_cubic in src/curve/mod.rs"), ("sign intervals of quadratics", "push_quadratic_signs, Quadratic::signs in src/curve/mod.rs")],
  ["intersect_cubics", "CurveOrder"],
  "property-based testing: generated curve pairs, sampled heights against direct evaluation by bisection",
  GEN),
P("C11", "Curve order queries agree with the order's own intervals",
  "For any computed curve order, looking up the order at or after a height, the next touch or crossing, flipping, and widening by a vertical slop all agree with the list of intervals it consists of: flipping exchanges left and right and is an involution, widening by a slop grows exactly the close intervals by that amount on each side and leaves definite intervals that shrink correspondingly, and the reported next crossing is a transition from left to right that lies after the given height.",
  ["inputs", "histories"], "every computed curve order, height, slop and sequence of flips and widenings",
  "The queries are tested through a couple of fixed orders; boundary heights and merged intervals need arbitrary orders.",
  [CUR], [("queries", "CurveOrder::{next_touch_after, with_y_slop, order_at, entry_at, order_after, flip} in src/curve/mod.rs")],
  ["CurveOrder"],
  "property-based testing: queries on generated orders against a naive interval model",
  GEN),
P("C12", "The strong horizontal order of segments has no cycles",
  "At any height, among any set of segments crossing that height, the definite comparisons (left of / right of, as used by the sweep) never form a cycle and never contradict each other when the arguments are exchanged.",
  ["inputs", "configurations"], "every set of monotone segments, tolerance and height",
  "The source itself says that ordering loops are not known to be impossible and that nobody looked hard; the tests do not look at all.",
  [CUR, ORD], [("vertical slop that is meant to exclude loops", "CurveOrder::with_y_slop in src/curve/mod.rs, ComparisonCache::new in src/order.rs")],
  ["ComparisonCache::compare_segments", "SweepLine::compare_segments"],
  "property-based testing: cycle search over comparisons of generated near-coincident segment bundles",
  GEN),
P("C13", "Solving a monotone curve for a height is accurate",
  "For every y-monotone cubic and every height in its range, the returned parameter lies in [0, 1] and evaluates to that height up to rounding, the returned horizontal position lies on the curve, and cutting the curve to a height range gives a curve that starts and ends at these heights and traces the same points (up to rounding).",
  ["inputs"], "every y-monotone cubic of any scale, flat or steep, and every height and sub-range in its range",
  "A few fixed curves are tested; accuracy is a claim about all scales and near-degenerate curves.",
  [CUR], [("root finding", "solve_t_for_y, solve_x_for_y in src/curve/mod.rs"), ("cutting", "y_subsegment in src/curve/mod.rs")],
  ["solve_t_for_y", "solve_x_for_y", "y_subsegment"],
  "property-based testing: generated monotone cubics against direct evaluation and bisection",
  GEN),
P("C14", "Quadratic sign analysis and curve approximations are sound",
  "The sign intervals reported for a quadratic agree with evaluating it; and the quadratic approximation of a monotone cubic together with its error interval really brackets the cubic's horizontal position at every height of its range, with an error interval that is not needlessly wide once the piece is short.",
  ["inputs"], "every quadratic and every y-monotone cubic whose heights are within [-1, 1]",
  "Unit tests pin a few coefficients; soundness of the bounds is universally quantified over curves and heights.",
  [CUR], [("sign intervals", "Quadratic::signs in src/curve/mod.rs"), ("approximating parabola and its bounds", "EstParab::from_cubic in src/curve/mod.rs")],
  ["Quadratic::signs", "EstParab::from_cubic"],
  "property-based testing: generated quadratics and cubics against dense evaluation",
  GEN),
P("C15", "Cached segment comparisons are symmetric and independent of history",
  "Comparing two segments through a comparison cache gives the same answer whatever was compared before, exchanging the two segments gives the flipped answer, and repeating a comparison gives the identical answer.",
  ["inputs", "histories"], "every set of segments and every sequence of comparisons, with and without vertical slop",
  "No test exercises the cache with a history.",
  [ORD], [("cache", "ComparisonCache::compare_segments in src/order.rs")],
  ["ComparisonCache"],
  "stateful property-based testing: generated comparison histories against fresh caches",
  GEN),
P("C16", "The sweep accounts for every input segment from end to end",
  "Sweeping any set of segments reports heights in increasing order and, for each input segment, a connected chain of positions that starts at the segment's first endpoint, ends at its last (up to rounding), is connected above and below exactly as its neighbors in the chain say, and never strays farther than the tolerance scale from the segment, except along almost-horizontal input that touches it. Each sweep line lists exactly the segments that cross its height, weakly ordered both there and halfway to the next one: no segment is definitely to the left of one listed before it.",
  ["inputs", "configurations"], "every set of closed and open paths and every tolerance",
  "Unit tests compare a few sweeps with snapshots; the invariants between all events of one sweep over arbitrary inputs are not stated in any always-on test.",
  [SWL, RNG, "src/sweep/output_event.rs"], [("sweep line updates", "Sweeper::next_line, State::process_intersection in src/sweep/sweep_line.rs"), ("output events", "SweepLineRange::events in src/sweep/range.rs")],
  ["sweep", "Sweeper::next_line", "OutputEvent"],
  "property-based testing: event histories of generated sweeps against chain and order invariants",
  GEN),
P("C17", "Iterating a sweep range point by point agrees with its event list",
  "Walking a changed range of a sweep line position by position reports, at each position, exactly the segments (and which of them connect above and below) that the list of output events of the same range has there, and the active horizontal segments between consecutive positions are exactly those whose events span the gap.",
  ["inputs", "histories"], "every sweep over every set of paths; every changed range of every sweep line",
  "The two interfaces are used by different clients and are never compared in the tests.",
  [RNG], [("event list", "SweepLineRange::events in src/sweep/range.rs"), ("stepwise iteration", "SweepLineRange::{x, increase_x, update_segments_at_x, active_horizontals} in src/sweep/range.rs")],
  ["SweepLineRange"],
  "property-based testing: differential comparison of two interfaces over generated sweeps",
  GEN),
P("C18", "The tree vector behaves like a plain vector",
  "After any sequence of insertions and removals at any positions, the tree vector holds the same elements in the same order as an ordinary vector after the same operations, for lookup, shared and mutable iteration, sub-ranges, in-place mutation and binary search, for every branching factor of at least four.",
  ["histories"], "every operation sequence, size and branching factor",
  "There are randomised unit tests for a few operations with one branching factor; splits and merges at every level of deep trees and iterator corner cases need long histories.",
  [TV], [("node splitting and rebalancing", "src/treevec.rs")],
  ["TreeVec"],
  "stateful property-based testing: operation histories against Vec",
  GEN),
P("C19", "Segment evaluation and bounds are as accurate as floating point allows",
  "The horizontal position of a monotone segment at a height is the endpoint's at the end heights and lies on the curve in between (both up to rounding), within the segment's reported horizontal extent. Its lower and upper bounds for a tolerance enclose every position of the segment within that tolerance's vertical neighborhood.",
  ["inputs"], "every line and monotone cubic and every height and tolerance",
  "Only a couple of fixed evaluations are tested.",
  [GEO], [("evaluation and bounds", "Segment::{at_y, lower, upper, min_x, max_x} in src/geom.rs")],
  ["Segment"],
  "property-based testing: generated segments against direct evaluation",
  GEN),
P("C20", "Results do not depend on how the input is written down",
  "Reversing paths, reordering or re-starting subpaths, splitting segments, raising their degree, mirroring, transposing, translating or scaling the input changes the result only by the corresponding transformation (up to the tolerance).",
  ["inputs", "configurations"], "every pair of closed paths, fill rule, operation, tolerance and such rewriting",
  "Metamorphic relations are not tested; each rewriting takes the sweep through entirely different events.",
  [LIB, TOP, SEG, SWL], [("orientation and closing of input paths", "src/segments.rs"), ("sweep direction and order", "src/sweep/sweep_line.rs"), ("fill rules", "src/lib.rs")],
  ["binary_op", "binary_op_with_eps"],
  "property-based testing: metamorphic relations under input rewriting",
  GEN),
P("C21", "Results are deterministic and independent of earlier queries",
  "Running the same operation again, on another thread or after other operations gives exactly the same contours, bit for bit and in the same order, and a topology that has been queried before answers exactly as a fresh one and as the one-call interface.",
  ["inputs", "histories", "schedules"], "every pair of inputs, every repetition and interleaving of queries",
  "Tests run each operation once.",
  [LIB, TOP], [("no hidden state or hash-order dependence", "src/topology.rs, src/sweep/sweep_line.rs")],
  ["binary_op", "Topology::contours"],
  "property-based testing: repeated runs compared exactly",
  GEN),
P("C22", "Curves that nothing touches come back whole",
  "A closed curve that comes near neither itself nor anything else reappears in a union or xor as one contour with the very same segments (up to direction, starting point and rounding), whatever splitting was needed internally.",
  ["inputs", "configurations"], "every set of simple, well separated closed curves without sharp corners or very flat humps, either fill rule, automatic or explicit tolerance",
  "One snapshot test covers re-merging of split pieces; which pieces get split depends on every extremum and every other contour's heights.",
  [TOP, GEO], [("re-merging of pieces of one input segment", "Topology::can_merge, segs_to_path in src/topology.rs"), ("split parameters", "monotonic_pieces in src/geom.rs")],
  ["binary_op", "binary_op_with_eps"],
  "property-based testing: round-trip of generated isolated curves",
  GEN),
P("C23", "The topology's bounding box is the box of the input",
  "The bounding box of a topology is the tight bounding box of the curves it was built from (up to rounding), and every contour extracted from it stays within that box up to the tolerance.",
  ["inputs", "configurations"], "every pair of closed paths and tolerance",
  "Not tested.",
  [TOP, GEO], [("bounding box", "Topology::bounding_box in src/topology.rs")],
  ["Topology::bounding_box"],
  "property-based testing: generated inputs against a subdivision oracle",
  GEN),
]

def main():
    src = subprocess.run(["grep", "-rhoE", r'id: "C[0-9]+"', V + "/harness/src/props"], capture_output=True, text=True).stdout
    claimed = set(l.split('"')[1] for l in src.split("\n") if l)
    with open(V + "/properties.jsonl", "w") as f:
        for p in PROPS:
            a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "observe_at": p["observe"], "hook_needed": None}
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": a}, ensure_ascii=False) + "\n")
    checks, na = [], []
    for p in PROPS:
        if p["id"] in claimed:
            checks.append({"property": p["id"], "quick_cmd": f"./run.sh {p['id']} quick", "thorough_cmd": f"./run.sh {p['id']} thorough",
                "technique": p["technique"], "level": "exploration", "level_note": p["note"]})
        else:
            na.append({"property": p["id"], "reason": "the check is not built yet"})
    m = {"version": 1, "setup_cmd": "./run.sh build", "checks": checks, "not_applicable": na,
         "notes": "No hooks are needed: the harness crate in /verif/harness uses only /repo's public interface. Fixed defects are listed in known_findings.txt."}
    with open(V + "/MANIFEST.json", "w") as f:
        json.dump(m, f, indent=1, ensure_ascii=False)
        f.write("\n")
    for p in PROPS:
        assert len(p["title"]) <= 80, p["id"]
        assert p["statement"].count(". ") <= 2, p["id"]
main()
