HEAD = """# Model checking dlr1516/rofl

Generated by `python3 tools/design.py` from `tools/props.py`, `tools/design_text.py`, the bounds written in
`checks/*.cpp` and `seeded/*/meta.json`; edit those, not this file.

## 1. What the system is and what is checked

ROFL is a C++ library of components for robotics: containers (min-max heap, disjoint sets, label sets, index
intervals, grids), algorithms on them (peak finding, Morton order and tree, truncated least squares), numerics
(bit-level traits, fast trigonometry, Fourier bounds, scaled Bessel functions), infrastructure (parameters,
profiler, directory listing) and geometry (Hough transforms, association by consistency graph, box
registration, geographic coordinates, planes of point clouds). It is single-threaded, keeps no persistent
state other than parameter files, and talks to no other process. So the executions to explore are *histories
of operations and inputs* rather than thread interleavings or crash points; the only environment is the clock,
the file system and the home directory, and these are controlled by the checks (virtual clock, scratch
directories, environment variables).

The existing tests are demonstration programs that print and return 0: they settle nothing except that the
program does not crash on one input.

## 2. Method

All properties are decided by *stateless model checking of the real code* (`mc/mc.h`): each check
(`checks/Cxx.cpp`) is a program that includes /repo's headers and is linked with /repo's sources, and is made of
*families*. The body of a family asks the explorer for every nondeterministic decision (`c.choose(n)`: next
operation, argument, initial size, value of a cell, ...) and drives the real object together with a reference
model, comparing them after every step. The explorer enumerates **all** choice sequences (depth first,
replaying prefixes), split over 8 worker processes by the first choices. Nothing is sampled: a family ends when the tree is exhausted, and
a run that does not exhaust its tree is reported as an error (exit 2), never as "held". Thus every explored execution is an execution of the
implementation, and model and implementation are bound by construction: each model trace is replayed on
the implementation while it is generated (`traces_validated_against_impl` in the evidence counts them).

- *Numeric domains* are finite sets, so they are enumerated too: all 2^8, 2^16 or 2^32 bit patterns where this is
  feasible, otherwise all tuples over a stated finite set (all neighbours of the powers of two, grids that
  include the switching points). Where a bound is a sub-lattice of the domain, it is a fixed lattice that is completely enumerated.
- *Three bound levels*: a bound written `a (b); thorough tier up to c` is a at level 0, b at level 1 and c at level 2 (a bound with no
  alternatives is the same at all levels). The quick tier runs level 1 where this takes less than about half a minute (line `// QUICK: 1`
  of the check) and level 0 otherwise; the thorough tier runs level 2. The level used is in the evidence (`coverage.bounds_level`).
- *Crashes*: workers run in forked processes; a crash, an `exit` of the code under test, a hang (watchdog per execution) or a
  sanitizer report is a violation with the choice sequence as replay. The checks of containers and parsing are compiled with
  `-fsanitize=address` (line `// FLAVOUR: asan` of the check).
- *Replay*: before a violation is reported it is executed again from its choice sequence; the file
  `replays/<id>-*.json` has family, choices and description, and `python3 run.py <id> --replay FILE` runs it alone.
- *States* in the evidence counts distinct hashes of the model state (`c.state`) or, for pure functions, distinct inputs; *transitions* counts operations or evaluations on
  the real code (`c.step`, `c.bulk`).
- *Rebuild*: `run.py` preprocesses each translation unit of /repo and of the check and recompiles when the preprocessed
  text differs from the cached one (`.build/`), so a change anywhere in /repo is seen, and an unchanged unit is not compiled again.
  A tree that does not compile gives exit 2 (no verdict), not a violation.
- *Oracles* are written from the documentation and the mathematics, independently of the implementation, and compare observable results
  only (return values, contents through the public interface, output files), so rewriting the code does not affect them.
  Where the documentation leaves a choice open, every allowed result is accepted.

Cost: a quick check takes 1 to 35 s of exploration plus up to about a minute of compilation (Eigen, PCL) when the cache is empty; thorough checks take from
seconds to about 10 minutes.
"""
ORACLE = {
"C01": "a sorted list of (key, identity) pairs; items carry an identity that the comparator ignores, so loss, duplication and alteration are visible even among equal keys.",
"C02": "second and second last element of the sorted keys of the same model.",
"C03": "a partition kept as an array of class names, merged naively.",
"C04": "std::set and the algorithms of set algebra.",
"C05": "the explicit set of integer cells of the box; for wide boxes arithmetic in 128 bits at probe cells.",
"C06": "the list of cells produced by nested counting; neighbour test for the boustrophedon.",
"C07": "a map from cell to value and nested counting for the raster numbering.",
"C08": "the definition: for each cell a scan over all cells of the window; the value map refuses (and reports) evaluation outside the domain.",
"C09": "the interleaved bit string built bit by bit.",
"C10": "fixed point expansion of every coordinate on the powers of two; comparison on the first differing bit.",
"C11": "the smallest aligned power-of-two interval found by search from the finest level.",
"C12": "a sorted list of items by the comparison of C09/C10, a scan for boxes.",
"C13": "bit by bit search.",
"C14": "ldexp in extended precision and the bit layout of IEEE 754.",
"C15": "a std::map of strings and an independent parser of the documented text format.",
"C16": "an independent reading of the argument vector.",
"C17": "an independent splitter; string replacement at the beginning of the value.",
"C18": "two-pass mean and variance in extended precision; the clocks (`clock_gettime`, `gettimeofday`, `time`) are replaced by scripted ones that move independently.",
"C19": "enumeration of every group of measures that share a point, cost computed from the definition; equal costs are all accepted.",
"C20": "libm in higher precision.",
"C21": "direct sums in extended precision; extremes from the critical points inside the interval.",
"C22": "numerical quadrature of the integral representation, accurate to 1e-12.",
"C23": "a histogram computed in double precision from the definition, with points within rounding of a border allowed on either side; peaks from the definition on the detector's own votes.",
"C24": "as C23 in two dimensions.",
"C25": "enumeration of all partial one-to-one matchings.",
"C26": "distance to each face computed with clamping.",
"C27": "optimal alignment from closed forms (angle in 2D, largest eigenvalue of the quaternion matrix in 3D).",
"C28": "the WGS84 formulas in long double.",
"C29": "exact integer arithmetic for triangles, long double remainder for angles.",
"C30": "double precision vector algebra from the statement.",
"C31": "the content the check itself created in its scratch directory; gmtime/localtime of the scripted clock recomputed from the civil calendar.",
"C32": "the scalar operation applied to each component.",
"C33": "covariance recomputed in double precision; eigenvector residual and order of the spreads.",
"C34": "the expected text built from the values; assertions run in a child process whose outputs and exit status are read.",
"C35": "integer cross products, shoelace formula and crossing test.",
}
MID = """
## 4. Limits, and what is deliberately not claimed

No property is listed as not applicable: all are properties of deterministic code whose input and history space can be enumerated up to a bound.
Beyond the bounds nothing is decided; the bounds above were chosen so that each known branch of the code (and every planted bug) is reached in the quick tier.

Behaviour that the documentation does not settle, or where I accept more than one result:

- PeakFinderD's default comparator `std::less` finds minima although the comment speaks of maxima: the property is stated in terms of the comparator.
- Morton order of floats is claimed for zero and magnitudes 1e-30..1e30 (the exponent is shifted in an int); the split of negative floats is the mirror image; which axis is
  split is not claimed for floats when a coordinate is equal in both vectors.
- `findItem` is the first item not preceding the query (also when the point is absent).
- The return value of `DisjointSet::join` on nodes of the same set; `LabelSet::insert` returns whether the label was *already* there (as the code documents).
- `K_2PI` is defined in two headers with the same name: they cannot be included together; not behaviour at run time.
- `ParamMap::setParam` prints numbers with 6 digits, lines of 2000 characters or more stop the reading, the value of a failed cast and `~user` paths are unspecified.
- `fastAtan2(0, 0)` is excluded. TLS with touching intervals may consider any group that shares a point. PNEBI for |x| > 600 is not claimed.
- Hough votes of points within float rounding of a bin border may fall on either side. The template `insert` of the detectors resets first (stated by the code), so
  it is only used on a fresh or reset detector.
- Association of empty sets: no result or one empty result.
- The level along Z where the plane aligner puts the plane; the undeclared `insideAngleInterval(x, y, ...)` of base_geometry2.cpp; conversions across the antimeridian;
  listing a missing directory (throws).
- Thread safety of the profiler (it uses a plain global map): no thread is started anywhere in the repository and no documentation promises it.

## 5. Statements and oracles corrected because the code is right

These raised alarms (or would have) with a stricter first formulation, and the formulation was wrong, not the code:

- C10/C11: the split of negative floats is the mirror image of the split of the absolute values, and the axis that is split is not determined when a coordinate is equal.
- C19: groups of intervals that only touch at an endpoint may or may not be visited by the sweep; any group that shares a point is accepted.
- C23/C24: points within float rounding of a bin border may fall on either side.
- C28: single precision coordinates of 6 million metres have a resolution of 0.5 m: the bound is 3 m.
- C08, C19, C33: ties (equal values, equal costs, equal spreads) leave more than one correct result; all are accepted.
"""
FIXPROP = [("iteration over more cells", "C06"), ("popTop", "C01"), ("nextTop", "C02"), ("nextBottom", "C02"), ("DisjointSet", "C03"), ("LabelSet", "C04"), ("IntervalIndices", "C05"),
 ("Boustrophedon", "C06"), ("PeakFinderD", "C08"), ("FloatTraits<double>", "C14"), ("log2Mod", "C13"), ("Morton comparison", "C10"),
 ("intervalPow2", "C11"), ("MortonTree", "C12"), ("adaptTilde", "C17"), ("Profiler", "C18"), ("SCOPED_TIMER", "C18"), ("normalize360", "C20"),
 ("Pnebi", "C22"), ("HoughPlane", "C23"), ("HoughLine", "C24"), ("CorrespondenceGraph", "C25"), ("computeTransform", "C27"), ("estimateInit", "C33"), ("initial box placement", "C33"),
 ("normalizeAngle2Pi", "C29"), ("local coordinates", "C28"), ("VectorArray", "C32"), ("PointCloudPlaneAligner", "C30"), ("ROFL_VAR7", "C34"), ("Vector6", "C35")]
MISSED = {"C01-deep-level": "yes (first missed: family deep_heaps added)", "C03-stale-size": "yes (first missed: family rank_pairs added)",
 "C08-filter-order": "yes (first missed: family reconfigured added)",
 "C17-delim-default": "yes (first missed: family words added)", "C18-timer-trunc": "yes (first missed: waits that are not whole microseconds)",
 "C21-eval-drift": "yes (first missed: more harmonics)", "C25-index-src": "yes (first missed: family rectangular added)",
 "C33-reuse": "yes (first missed: family resized added)", "C27-prev-inverse": "yes (first missed: placements far from the origin)",
 "C23-window-scalar": "yes (first missed: plane patches and unequal resolutions in family windows)",
 "C01-short-index": "yes (first missed: family huge_heaps added)", "C03-find-hops": "yes (first missed: family deep_merges added, nodes asked in several orders)",
 "C07-reinit-origin": "yes (first missed: grids that had another origin are initialised again)", "C19-inlier-closed": "yes (first missed: family borders added)",
 "C24-window-cells": "yes (first missed: peak windows in units that are not whole cells)", "C27-close-points": "yes (first missed: family touching added)",
 "C29-ccw-expanded": "yes (first missed: family far_triangles added)", "C22-reinit": "yes (first missed: tables initialised again with the same order)",
 "C25-tol-eq": "yes (first missed: family exact_tolerance added)",
 "C04-sparse": "yes (first missed: sets of very different size in family scale)", "C07-fill-block": "yes (first missed: filling and copies of large grids)",
 "C17-long-word": "yes (first missed: family long_words added)", "C18-long-label": "yes (first missed: family names added)",
 "C01-parent16": "yes (first missed: heaps of up to 263144 items)", "C19-short-index": "yes (first missed: family many added)", "C05-gap-high": "yes (first missed: families gaps5, gaps9 added)", "C34-labels-elided": "yes", "C09-nine-dims": "yes",
 "C25-many-best": "yes (first missed: families many and symmetric added)", "C25-same-first": "yes (first missed: family symmetric added)",
 "C25-node-limit": "yes (first missed: family many added)", "C30-many-inliers": "yes (first missed: clouds of 70000 points in family large)",
 "C31-long-prefix": "yes (first missed: prefixes of up to 5000 characters)",
 "C30-single-inlier": "yes (first missed: the heights along the normal are part of the property now)", "C22-shared-memo": "yes (family two_tables)", "C25-shared-tolerance": "yes (family two_associations)", "C26-shared-half": "yes (family two_boxes)", "C08-shared-window": "yes (family two_finders)"}
TAIL = """
## 8. Layout

- `mc/mc.h` explorer, `mc/vclock.h` virtual clocks; `checks/` one harness per property; `run.py` builds, explores, writes evidence and replays.
- `tools/props.py`, `tools/gen.py` -> `properties.jsonl`, `MANIFEST.json`; `tools/design.py` -> this file and `known_findings.json`.
- `tools/bugs*.py`, `tools/plant.py` -> `seeded/`; `tools/regress.py` reverts each repair in a scratch copy and expects the alarm.
- `tools/mutate.py` mutates one source file operator by operator and lists the mutants a check lets pass; it was used to find what the bounds above leave out
  (the families on units, scale, near-coincident and far-away inputs come from it).
- No hooks in /repo.
"""
