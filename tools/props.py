"""The single table from which properties.jsonl and MANIFEST.json are written (tools/gen.py)."""
P = []
def prop(id, title, statement, over, text, why, files, mech, note, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, note=note, observe=observe or [], state=state or []))
H = "common/include/rofl/common/"
G = "geometry/include/rofl/geometry/"
DEMO = "The tests are demonstration programs that print results and always exit 0; they cannot settle it: "

prop("C01", "Double-ended heap yields the exact minimum and maximum",
 "After any sequence of insertions and removals on the min-max heap, size and emptiness match the number of items inserted and not yet removed, reading the top (bottom) gives an item that no stored item precedes (that precedes no other) in the comparator's order, and popping either end removes exactly one such item and nothing else. No item is ever lost, duplicated or altered, for any comparator and any of the supported storage containers.",
 ["histories", "inputs", "configurations"], "every history of push, popTop, popBottom over arbitrary keys (with duplicates), any heap size, comparator and storage",
 DEMO + "test_min_max_heap pushes one fixed list and prints what it pops.",
 [H + "min_max_heap.h"], [("sift up and down on alternating min and max levels", H + "min_max_heap.h")],
 "Stateless exploration of the real template against a multiset with item identity; exhaustive for the stated history lengths, heap sizes and key alphabets. Larger heaps only by patterns.",
 ["top/bottom/popTop/popBottom/size/empty"])
prop("C02", "Second smallest and second largest item of the heap are correct",
 "For every heap with at least two items, reading the item next to the top gives the second item of the sorted sequence of the stored items and reading the item next to the bottom gives the second last one, with duplicates counted. Reading does not change the heap.",
 ["histories", "inputs"], "every reachable heap content and shape",
 DEMO + "no test calls these accessors on more than one heap.",
 [H + "min_max_heap.h"], [("inspection of the levels below the root", H + "min_max_heap.h")],
 "Exhaustive over histories, permutations and key patterns up to the stated sizes, each state compared with a sorted copy.",
 ["nextTop/nextBottom"])
prop("C03", "Disjoint sets represent exactly the partition made by the joins",
 "After any sequence of initialisations, set creations, joins and finds, two nodes have the same representative exactly when they are connected by the performed joins; the representative is a member of its own set, the number of sets, the number of nodes and the size of the set of each node are exact, and the list of representatives has one entry per set. Operations with ids that do not exist leave the partition unchanged and touch no memory out of range.",
 ["histories", "inputs"], "every sequence of operations, every shape of the internal forest, valid and invalid ids",
 DEMO + "test_disjoint_set is not among the stable tests and does one fixed set of joins.",
 [H + "disjoint_set.h", "common/src/disjoint_set.cpp"], [("union by rank and path compression", "common/src/disjoint_set.cpp")],
 "Exhaustive over operation histories and merge trees to the stated depth; address sanitizer watches the invalid-id calls.",
 ["find/join/makeSet/size/setNum/nodeNum/parents"])
prop("C04", "Label sets behave as mathematical sets",
 "Union, intersection and difference of label sets contain exactly the labels that set algebra prescribes and leave their operands unchanged; two sets compare equal exactly when they hold the same labels; after any sequence of insertions, removals and clearings the membership test, the size and the iteration show exactly the labels inserted and not removed, and insertion reports whether the label was already present.",
 ["histories", "inputs"], "all pairs of sets and all histories of modifications, any integer labels",
 DEMO + "test_label_set prints the operations on two fixed sets.",
 [H + "label_set.h", "common/src/label_set.cpp"], [("ordered container with merge algorithms", "common/src/label_set.cpp")],
 "All pairs of subsets of 5-label universes (extreme labels included), all short histories, larger sets by arithmetic progressions, against std::set.",
 ["operators, insert/remove/inside/size/begin/end"])
prop("C05", "Index intervals are exactly the boxes of cells they denote",
 "For every index interval built from bounds, from dimensions or centred, the membership test, the number of cells, the extremes and the dimensions agree with the set of integer cells between the lower (included) and upper bound in every coordinate, and an interval with a non-positive dimension is empty. Intersecting gives exactly the common cells of the two boxes, translating shifts all cells by the given amounts, and stacking by n along an axis gives the n layers of cells right after the box (right before it for negative n), leaving the box itself unchanged.",
 ["inputs", "configurations"], "all intervals and pairs of intervals of any dimension and signed index type, empty ones included",
 DEMO + "test_interval_indices prints a few intervals.",
 [H + "interval_indices.h"], [("per-dimension min/max arithmetic", H + "interval_indices.h")],
 "All intervals and pairs within the stated bounds in 1 to 4 dimensions against explicit cell sets; wide sizes by probe cells.",
 ["inside/size/min/max/dimensions/intersect/translate/stack"])
prop("C06", "Interval traversal visits every cell exactly once, in its order",
 "Iterating a non-empty index interval from begin to end visits each of its cells exactly once and no other cell. The raster iteration advances the first index fastest, the boustrophedon iteration starts from the lower corner and moves between neighbouring cells that differ by one in exactly one index; incrementing and decrementing an iterator are inverse, and an empty interval has begin equal to end.",
 ["inputs", "configurations"], "boxes of any dimensionality, size, offset and signed index type (also with more cells than the index type can count)",
 DEMO + "one 2D and one 3D box are printed.",
 [H + "interval_indices.h"], [("position to index conversion of the indexers", H + "interval_indices.h")],
 "Every box up to the stated sizes in 1 to 5 dimensions is walked completely.",
 ["begin/end/beginBoustrophedon/endBoustrophedon, ++, --"])
prop("C07", "Grid cells and storage positions correspond one to one",
 "For every grid, however initialised, converting a cell index to its position and back is the identity, positions are the raster numbering 0..size-1 of the cells and the inside test accepts exactly the cells of the domain. A value written to a cell through any accessor is read back by all accessors, no write affects another cell or a copy of the grid, filling reaches every cell, and positional access outside 0..size-1 is refused.",
 ["inputs", "configurations", "histories"], "grids of any dimensionality, origin, size, value and storage type whose cells the index type can number; every cell",
 DEMO + "no stable test exercises the grid beyond one instance.",
 [H + "grid.h", H + "interval_indices.h"], [("indexer used by the accessors", H + "grid.h")],
 "Every grid up to the stated sizes in 1 to 4 dimensions, all initialisations, every cell written individually and all others re-read; address sanitizer on.",
 ["value/getPos/getIndices/inside/fill/size"])
prop("C08", "Peak detection reports exactly the strict local optima",
 "Given a value map on a domain, a window half-size per axis and optionally a threshold, the detector reports exactly the cells whose value strictly precedes, in the comparator's order, the value of every other domain cell within the window (and precedes the threshold when filtering is enabled), each once. The reported cells are sorted by the comparator with the best value first, and the map is never evaluated outside the domain.",
 ["inputs", "configurations"], "all maps, domains, windows, thresholds and comparators in any number of dimensions",
 DEMO + "test_peak_finder_d runs on one fixed map and does not compare the output.",
 [H + "peak_finder_d.h", H + "min_max_heap.h"], [("sliding windows with heaps per dimension and candidate propagation", H + "peak_finder_d.h")],
 "All value assignments on small domains (1D to 4D) and structured maps on larger ones, against the definition.",
 ["detect"])
prop("C09", "Morton comparison of integer vectors is the interleaved-bit order",
 "For vectors of 8, 16, 32 or 64-bit signed or unsigned integers in any dimension, the Morton comparison says that one vector precedes another exactly when its interleaved bit string (most significant bits first, lower dimensions first within a level, negative numbers before non-negative ones) is smaller. Hence it is a strict total order on vectors.",
 ["inputs"], "all pairs of integer vectors",
 DEMO + "test_morton_order sorts one sample and prints it.",
 [H + "morton_sort.h", H + "numeric_traits.h", "common/src/bit_manip.cpp"], [("most significant differing bit by xor", H + "morton_sort.h")],
 "Exhaustive for 8-bit (all 2^32 pairs of 2D vectors) and over neighbours of all powers of two for wider types.",
 ["MortonTraits::compare"])
prop("C10", "Morton comparison of floating-point vectors is a consistent Z-order",
 "For vectors of finite float or double coordinates (zeros of either sign, or magnitudes between 1e-30 and 1e30) the Morton comparison orders two vectors by the coordinate in which they differ at the coarsest power-of-two grid (lowest dimension on ties, different signs count as coarsest): the vector with the smaller value there precedes. Equal vectors, including positive against negative zero, precede each other in neither direction.",
 ["inputs"], "all pairs of floating-point vectors in the stated range of magnitudes",
 DEMO + "test_morton_order samples random points and prints them.",
 [H + "morton_sort.h", H + "numeric_traits.h", "common/src/bit_manip.cpp"], [("mantissa/exponent decomposition and xor", H + "morton_sort.h")],
 "All pairs over tables of mixed magnitudes, neighbours of powers of two, dense mantissas and integers in 1 to 3 dimensions, against fixed-point bit expansions.",
 ["MortonTraits::compare"])
prop("C11", "Morton distance and split give the smallest common dyadic box",
 "For two vectors the Morton distance is the level (bit weight) of the coarsest bit in which any coordinate differs, and the split returns, in every coordinate, the bounds of the smallest power-of-two aligned interval that contains both values (for negative floats the mirror image of the interval of the absolute values). The middle vector equals the lower bound in all coordinates except one with the widest interval, where it is the first value of the upper half.",
 ["inputs"], "all pairs of integer vectors of any width, and of float/double vectors of magnitudes 1e-30..1e30",
 DEMO + "test_morton_functions prints intermediate values.",
 [H + "morton_sort.h", H + "numeric_traits.h", "common/src/bit_manip.cpp"], [("power-of-two intervals", H + "morton_sort.h")],
 "Exhaustive for 8-bit scalars and blocks of 2D/3D vectors, neighbours of powers of two for wider and floating types, against an independent construction of the dyadic box. With equal float coordinates the choice of the split axis is not claimed.",
 ["MortonTraits::distance/split"])
prop("C12", "Morton tree keeps every item, ordered, and finds exactly what is asked",
 "After any sequence of insertions (single or from ranges, ids kept or renumbered) the tree holds exactly the inserted items with the ids prescribed, and after sorting or a lookup they are in Morton order. Looking up a point gives the position of the first item that does not precede it, and searching in a box, or around a centre, returns exactly the items inside the closed box, each once. Copies are independent of the tree they were made from, and an item built from values and an id holds and prints exactly these (zeros and the id -1 by default).",
 ["histories", "inputs"], "all multisets of points, insertion orders, query points and boxes, integer and floating coordinates",
 DEMO + "test_morton_tree performs one query and prints.",
 [H + "morton_tree.h", H + "morton_sort.h"], [("sorted array with lazy sorting", H + "morton_tree.h")],
 "All multisets of a few points with all query points and boxes, all short histories, lattices; address sanitizer on.",
 ["insert/size/begin/end/findItem/searchInBox/computeLevel"])
prop("C13", "Bit-level helpers are exact on every representable value",
 "For every value of the 8, 16, 32 and 64-bit signed and unsigned integer types, the number of leading zeros, the integer logarithm of the magnitude, and the largest power of two not above and the smallest power of two not below the value (for negative values, the powers of two in magnitude bracketing them) are exact whenever representable. The comparison of most significant bits says whether the leading bit of the first value is lower than that of the second.",
 ["inputs"], "all values of each type",
 DEMO + "test_numeric_traits prints a handful of values.",
 [H + "bit_manip.h", "common/src/bit_manip.cpp", H + "numeric_traits.h"], [("bit tricks per width", H + "numeric_traits.h")],
 "All 2^8, 2^16 and (thorough tier) 2^32 values; 64-bit values with few bits set, their complements and predecessors.",
 ["nlz/log2Mod/floorPow2/ceilPow2/msb"])
prop("C14", "Floating-point numbers decompose and recompose exactly",
 "Splitting a finite float or double in mantissa, exponent and sign and recomposing it gives back the same bits; for normal numbers the parts denote the number, i.e. value = (-1)^sign (1 + mantissa / 2^bits) 2^exponent. The constants that describe the formats (mantissa bits, exponent bits, bias, masks) match the IEEE 754 layout.",
 ["inputs"], "all finite floats and doubles",
 DEMO + "a few numbers are printed.",
 [H + "numeric_traits.h"], [("bit masks and shifts", H + "numeric_traits.h")],
 "All 2^32 float patterns; doubles with all exponents and sparse mantissas.",
 ["getMantissaExpSign/setMantissaExpSign and traits"])
prop("C15", "Parameters survive storing, writing and reading back",
 "After any sequence of typed assignments, reads and clearings, each parameter of the store has the last value given to it and no other parameter changes; asking for an absent parameter returns the given default, stores it and reports that it was absent. Writing the store to a text or file and reading it back reproduces exactly the same names and values, where a line denotes a parameter by its first two words, lines starting with # (after spaces) and lines with fewer than two words are ignored, and values are those whose text has no blanks and is exact (integers, booleans, strings, numbers of up to 6 significant digits; lines below 2000 characters).",
 ["histories", "inputs"], "all histories of operations, all texts of names, values, blanks and comments",
 DEMO + "test_param_map reads one hand-written file and prints the content.",
 [H + "param_map.h", "common/src/param_map.cpp"], [("line parser and writer", "common/src/param_map.cpp"), ("typed get with default", H + "param_map.h")],
 "All histories and texts within the stated lengths and alphabets on the real class, compared with a map; files only inside a scratch directory.",
 ["setParam/setParamString/getParam/read/write/clear"])
prop("C16", "Command line options define exactly the parameters given",
 "Parsing a command line stores, for each argument made of a dash and a name starting with a letter that is followed by an argument that is not such an option, the parameter of that name with the following argument as its value, and nothing else; negative numbers, isolated dashes and empty arguments count as values. When the same parameter is defined more than once, on the command line or in a text read before or after, the last definition wins and the other parameters keep their values.",
 ["inputs", "histories"], "all argument vectors and orders of sources",
 DEMO + "the tests are run without arguments, so nothing is parsed.",
 [H + "param_map.h", "common/src/param_map.cpp"], [("recognition of options and values", "common/src/param_map.cpp")],
 "All argument vectors up to the stated length over the forms that matter, all characters after the dash.",
 ["read(argc, argv)"])
prop("C17", "List parameters and home paths are expanded exactly",
 "Reading a list parameter into a range assigns to its elements, in order, the items of the text split at the delimiters (commas and square brackets unless others are given); elements without an item, or from the first item that is not a value of the type, receive the given default value, and reading through an inserter appends exactly the leading valid items. An absent list parameter takes the default text and stores it, and expanding home paths replaces the tilde of values that are \"~\" or begin with \"~/\" by the home directory, leaving every other parameter unchanged.",
 ["inputs", "histories"], "all texts, delimiters, range lengths, and sets of parameters",
 DEMO + "one well-formed list is read and printed.",
 [H + "param_map.h", "common/src/param_map.cpp"], [("tokenizer and lexical conversion", H + "param_map.h"), ("tilde substitution", "common/src/param_map.cpp")],
 "All texts up to the stated number of pieces, range lengths 0..4, delimiter sets, and all combinations of four parameters over 14 path forms.",
 ["getParamContainer/adaptTildeInPaths"])
prop("C18", "Profiler statistics are exact for every label and scope",
 "For every label, the profiler reports the number of the measures given to that label and their mean, sample variance (divided by n-1), minimum and maximum, whatever the order and interleaving of labels. A scoped timer adds to its label exactly one measure, the time elapsed on a monotonic clock between its creation and its end in milliseconds, unaffected by other timers and by changes of the wall clock, and the scope macro measures the scope it is written in.",
 ["histories", "inputs", "schedules"], "all sequences of measures over labels, all nestings of timers and advances of time",
 DEMO + "test_profiler prints times that depend on the machine.",
 [H + "profiler.h", "common/src/profiler.cpp"], [("running mean and variance", "common/src/profiler.cpp"), ("scoped timer", H + "profiler.h")],
 "All sequences of measures and all timer histories to the stated length with the clocks replaced by scripted ones.",
 ["updateStat/getStat/ScopedTimer/macro"])
prop("C19", "Scalar consensus picks the best-supported group of measures",
 "Given one or more measures with positive ranges of comparable size, the estimate is, up to rounding, the mean, weighted by the inverse squared ranges (a range below 1e-6 weighs as 1e-6), of the group of all measures whose interval (value minus range to value plus range) contains some common point, and no other such group has a smaller cost, the cost being the sum of the squared deviations from the group's mean inside the group plus the sum of the ranges outside it. The measures flagged as inliers are exactly those closer to the estimate than their range.",
 ["inputs"], "all vectors of values and ranges, with duplicates and touching intervals",
 DEMO + "test_tls_scalar_consensus is not checked and runs one random sample.",
 [H + "tls_scalar_consensus.h"], [("sweep over sorted interval endpoints", H + "tls_scalar_consensus.h")],
 "All assignments on small grids, larger structured clusters, compared with enumeration of every group. Groups with equal costs are all accepted.",
 ["estimateTranslationTls"])
prop("C20", "Fast trigonometry and angle normalisation stay within their bounds",
 "The fast sine and cosine differ from the exact ones by at most 1.2e-3 and the fast arc tangents by at most 1.3e-5 radians, in every quadrant, on the axes and at every switching point, in single and double precision (the two-argument form takes x before y and is defined for points other than the origin). The normalisation of an angle to a full (half) turn returns a value congruent to the angle modulo a full (half) turn inside the interval from zero, included, to a full (half) turn, excluded.",
 ["inputs"], "all finite arguments of magnitude up to about a thousand turns",
 DEMO + "test_fast_math samples and prints errors without a bound.",
 [H + "functions.h", "common/src/functions.cpp"], [("polynomial and parabola approximations with quadrant reduction", "common/src/functions.cpp")],
 "Every float in range, dense grids of doubles and their neighbours.",
 ["fastCosSin(f)/fastAtan(f)/fastAtan2/normalize360/normalize180"])
prop("C21", "Fourier series are evaluated exactly and bounded safely",
 "Evaluating a series of cosine and sine coefficients at an angle gives the sum of its harmonics up to rounding for any number of harmonics. The range of the cosine on an interval is exact, and the lower and upper bound of a Fourier series (of period a half turn) on an interval enclose every value the series takes there and equal the sum of the ranges of the single harmonics.",
 ["inputs"], "all coefficient vectors and intervals",
 DEMO + "no test compares the bounds with the function.",
 [H + "functions.h", "common/src/functions.cpp"], [("recurrence of harmonics; extremes of the cosine on an interval", "common/src/functions.cpp")],
 "All small coefficient vectors and unit vectors of up to 60 harmonics, all pairs of interval endpoints on grids and next to the critical angles.",
 ["evaluateFourier/findLUCos/findLUFourier"])
prop("C22", "Scaled Bessel functions and their table respect the tolerance",
 "For arguments of magnitude up to 600 the scaled modified Bessel function of order zero is within 4e-7 and the vector of orders zero to n within 3e-6 of 2 exp(-|x|) I_k(|x|), for every maximum order n, whatever the previous content of the output vector. The look-up table built for a tolerance returns for every stored order and every such argument a value within the tolerance of the function, asking for one order or for all gives the same values, and a table initialised again gives the values of a newly built one.",
 ["inputs", "configurations"], "all orders, arguments and tolerances",
 DEMO + "values are printed and never compared.",
 [H + "functions.h", "common/src/functions.cpp"], [("polynomial approximations, downward recurrence, adaptive table", "common/src/functions.cpp")],
 "Dense argument lists for each of the listed orders and tolerances against quadrature accurate to 1e-12.",
 ["evaluatePnebi0Polynom/evaluatePnebiVector/PnebiLUT"])
prop("C23", "Plane detection counts votes exactly and reports exactly the peaks",
 "For each normal direction of the discretised half space the transform counts, per distance bin (lower border included, upper excluded), exactly the points inserted since the last reset or initialisation whose projection on the normal falls in the bin, and the spectrum is the sum over bins of the squared counts. The spectrum maxima, the parallel planes of a direction and the detected planes are exactly the strict local maxima over the configured windows (cells, or units rounded up to cells), best first, and every reported plane equation consists of the direction's unit normal and minus the distance of its bin (minimum plus index times resolution).",
 ["inputs", "configurations", "histories"], "all point sets, resolutions, parameter domains, windows and insertion histories",
 DEMO + "test_hough_plane_detector reads a point cloud file that is not part of the tests and prints.",
 [G + "hough_plane_detector.h", "geometry/src/hough_plane_detector.cpp", H + "peak_finder_d.h"], [("voting loop and spectrum", "geometry/src/hough_plane_detector.cpp"), ("peak search in two steps", "geometry/src/hough_plane_detector.cpp")],
 "All bin counts in the stated ranges, subsets of fixed point lists, short histories, one dense plane per cell; votes within float rounding of a bin border may fall on either side.",
 ["insert/getHoughTransform/getHoughSpectrum/findSpectrumMax/findNormalMax/findParallelPlanes/findPlanes/getPlaneParam"])
prop("C24", "Line detection counts votes exactly and reports exactly the peaks",
 "For each discretised normal direction in the plane the transform counts, per distance bin, exactly the points inserted since the last reset or initialisation whose projection on the normal falls in the bin, and the spectrum is the sum over bins of the squared counts. The spectrum maxima (as indices, angles and normals) and the detected lines are exactly the strict local maxima over the configured windows (cells, or units rounded up to cells), and each line equation consists of the unit normal of its direction and minus the distance of its bin.",
 ["inputs", "configurations", "histories"], "all point sets, resolutions, parameter domains, windows and insertion histories",
 DEMO + "no test uses the line detector.",
 [G + "hough_line_detector.h", "geometry/src/hough_line_detector.cpp", H + "peak_finder_d.h"], [("voting loop and spectrum", "geometry/src/hough_line_detector.cpp")],
 "As for the planes, in two dimensions and with larger bounds.",
 ["insert/getHoughTransform/getHoughSpectrum/findSpectrum*Max/findNormalMax/findLines"])
prop("C25", "Association returns exactly the maximum sets of coherent pairs",
 "Given the pairwise distances inside a source and a destination set, the association returns exactly the largest one-to-one partial matchings in which every two matched pairs are coherent (source distance above the configured minimum and closer to the destination distance than the tolerance), each once. The result depends only on the last source and destination sets and settings, not on previous insertions or calls.",
 ["inputs", "histories"], "all pairs of sets with any distance functions, tolerances and call histories",
 DEMO + "test_correspondence_graph runs one example, is not among the stable tests and does not compare its output.",
 [G + "correspondence_graph_association.h", "geometry/src/correspondence_graph_association.cpp", H + "label_set.h"], [("correspondence graph", "geometry/src/correspondence_graph_association.cpp"), ("recursive clique search", "geometry/src/correspondence_graph_association.cpp")],
 "All distance assignments for up to 4x4 items over small alphabets, planar examples up to 8x8, all short histories, against enumeration of all partial matchings.",
 ["insertSrc/insertDst/setTolerance/setDistanceMin/associate"])
prop("C26", "Box association finds the nearest boundary point",
 "For every query point, inside, on or outside a box of any (non-negative) sides centred at the origin, the associated point lies on the boundary of the box and no boundary point is closer to the query.",
 ["inputs", "configurations"], "all boxes and query points in 2 and 3 dimensions, single and double precision",
 DEMO + "no test uses the box registration.",
 [G + "box_registration.h"], [("per-axis clamping and nearest face", G + "box_registration.h")],
 "All queries on grids around each of the listed boxes, faces, edges and corners included.",
 ["associate"])
prop("C27", "Box alignment step is the best proper rigid motion and never worsens",
 "From any rigid initial placement and non-empty cloud, an alignment step returns a rotation with determinant one plus a translation, leaves the cloud unchanged, and its sum of squared distances between the cloud points and the transformed nearest boundary points of the previous placement is the least among all rigid motions. Hence the sum of squared distances of the cloud from the box boundary never increases from step to step.",
 ["inputs", "histories"], "all clouds, boxes and initial placements in 2 and 3 dimensions, any number of iterations",
 DEMO + "no test uses the box registration.",
 [G + "box_registration.h"], [("least squares alignment by singular value decomposition with reflection correction", G + "box_registration.h")],
 "All subsets of fixed points with all listed boxes and rotations for 3 iterations, 40 iterations on full boxes; optimum from closed forms (2D angle, 3D quaternion).",
 ["computeTransform"])
prop("C28", "Geographic conversions agree with the WGS84 ellipsoid",
 "Geodetic coordinates convert to Earth-centred coordinates within single precision (3 m) for all latitudes, longitudes and altitudes up to 400 km. Local coordinates around an origin of latitude up to 84 degrees are the arcs of parallel (x, east) and of meridian (y, north) at the origin's latitude, within 0.03 % plus a few metres per degree, and converting to local coordinates and back gives the same point.",
 ["inputs"], "all origins and points (without crossing the antimeridian)",
 DEMO + "no test uses the conversions.",
 [G + "gis.h", "geometry/src/gis.cpp"], [("ellipsoid formulas and series for the length of a degree", "geometry/src/gis.cpp")],
 "Dense grids over the whole Earth against extended precision formulas.",
 ["convertLatLonAltToECEF/convertLatLonToLocalXY/convertLocalXYToLatLon/meterPerDegLat/meterPerDegLon"])
prop("C29", "Planar poses, angles and orientations are exact",
 "A pose becomes the transformation that rotates by its angle and then translates, whatever the previous content of the output. Normalised angles are in [0, 2 pi[ and congruent to the input; an angle is inside an interval exactly when it is met before the end when turning counter-clockwise from the begin (begin included, end excluded, or included in the closed form), for any representation of the angles; and the orientation value of three points is twice the signed area, positive for counter-clockwise order.",
 ["inputs"], "all poses, angles over many turns, intervals, triples of points",
 DEMO + "no test checks these functions.",
 [G + "base_geometry2.h", "geometry/src/base_geometry2.cpp"], [("angle reduction by floor", "geometry/src/base_geometry2.cpp")],
 "Every float up to 1024 in magnitude for the normalisation; all triples on grids for intervals and triangles.",
 ["poseToIsometry2/normalizeAngle2Pi/insideAngleInterval/insideAngleIntervalEq/ccw"])
prop("C30", "Plane alignment is a rigid motion that maps the normal to Z",
 "For every plane equation (of any scale and sign) and cloud, the computed transformation is a proper rigid motion that maps to the axis Z the unit normal oriented so that the constant coefficient is positive, and maps the centroid of the cloud points closer to the plane than the tolerance (Euclidean distance) on the axis Z, keeping the heights along the normal (the Z of a transformed point is its projection on the oriented normal; without such points the motion is a rotation). The output cloud holds every input point transformed in order with its other fields, points without a measure (not a number) count for nothing, the input cloud is unchanged and the result does not depend on previous uses of the object.",
 ["inputs", "configurations", "histories"], "all planes, clouds, tolerances and reuses",
 DEMO + "the library part has no test at all.",
 ["pcl/include/rofl/pcl/point_cloud_plane_aligner.h", "pcl/src/point_cloud_plane_aligner.cpp"], [("choice and orthonormalisation of axes", "pcl/include/rofl/pcl/point_cloud_plane_aligner.h")],
 "All small integer normals, offsets, signs and scales, all subsets of a fixed cloud, dense patches for a grid of directions.",
 ["setInputCloud/setPlaneCoeffs/setPlaneTol/compute/getTransform/transform"])
prop("C31", "Directory listings and time stamps are exact",
 "Listing a directory returns the path, in the form the directory was given, of every regular file in it (links to files included; hidden files too) and of nothing else (no directories, their content, broken links or other entries), sorted. A stamped name is the given prefix, the local date and time as YYYYMMDD_HHMM_SS, and the given postfix, both verbatim.",
 ["inputs", "configurations"], "all directory contents, path forms, times, time zones, prefixes and postfixes",
 DEMO + "test_io lists one directory and prints.",
 [H + "io.h", "common/src/io.cpp"], [("directory iteration and formatting of the local time", "common/src/io.cpp")],
 "All combinations of entry kinds, all subsets of names, every day of 100 years and every second of some days with the clock replaced; only in a scratch directory.",
 ["getDirectoryFiles/generateStampedString"])
prop("C32", "Small vector algebra is componentwise",
 "Sum, difference, product, quotient and scaling of fixed-size vectors apply the scalar operation to each component separately, leave their operands unchanged, and agree with the assigning forms, which return the object itself (also when an object is combined with itself). A new vector is zero, and writing a component changes no other component.",
 ["inputs", "configurations"], "all dimensions, component types and values",
 DEMO + "no test includes the class.",
 [H + "vector_array.h"], [("loops over components", H + "vector_array.h")],
 "All operand pairs and scalars over small value sets for dimensions 1 to 4, positions in dimension 17.",
 ["operators"])
prop("C33", "Initial box placement follows the cloud's principal axes",
 "For a cloud of two or more points the initial placement is a rotation with determinant one and the cloud's centroid; the box axes are principal axes of the cloud and longer box sides lie along axes of not smaller spread, whatever the order of the sides and earlier settings. With fewer than two points it is the identity.",
 ["inputs", "configurations"], "all clouds and box sides in 2 and 3 dimensions, single and double precision",
 DEMO + "no test uses the box registration.",
 [G + "box_registration.h"], [("eigenvectors of the covariance permuted by the order of the sides", G + "box_registration.h")],
 "All subsets of fixed points with all side triples; full boxes with all permutations of sides and many rotations.",
 ["estimateInitTranform"])
prop("C34", "Diagnostics and printed forms show exactly what they are given",
 "The variable-printing macros write one line on standard output with the source file name, the line, and each of their one to seven expressions followed by its own value, in order, evaluating each once; the message macros write the same place and the message (errors on standard error). An assertion that holds has no effect and evaluates its condition once; one that does not hold writes the condition and all its variables and ends the program with a failure status, never going on. Printing an index interval, a tuple of indices, a label set, a heap, a Morton item or a Bessel table shows exactly its content.",
 ["inputs", "configurations"], "all numbers of arguments, values, truth values and contents",
 DEMO + "the tests print but nothing reads what they print.",
 [H + "macros.h", H + "interval_indices.h", H + "min_max_heap.h", H + "morton_tree.h", "common/src/functions.cpp"], [("printing and assertion macros", H + "macros.h"), ("print methods", H + "min_max_heap.h")],
 "All assignments of values to the arguments of every macro, all conditions with the assertion run in a child process, all small contents.",
 ["ROFL_VARn/ROFL_MSG/ROFL_ERR/ROFL_ASSERT*/print"])
prop("C35", "Geometric types carry the sizes and orientation they are declared with",
 "The vector and matrix types have as many components as their name says. Polygons of the library are open and counter-clockwise: their area is the signed area of the vertices, positive counter-clockwise, and correcting, membership of a point, perimeter, bounding box and distance agree with the geometry of the vertices; a ring of vectors is closed and clockwise and a collection of polygons has the sum of the areas.",
 ["inputs"], "all polygons, points and segments",
 DEMO + "no test uses the polygon types.",
 [G + "types.h"], [("aliases and registrations for the geometry algorithms", G + "types.h")],
 "All polygons with 3 to 5 vertices, segments and points on small lattices, compared with integer arithmetic.",
 ["Polygon2/Box2/Segment2/VectorPolygon2/VectorVector2 and VectorN/MatrixN"])
