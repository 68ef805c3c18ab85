# Every harness (a bounded-exhaustive explorer over the real code) and every property. gen.py derives
# properties.jsonl and MANIFEST.json from this file.
def H(quick, thorough, **kw):
    return dict(space=dict(quick=quick, thorough=thorough), **kw)

HARNESS = {
 "complex_list": H("all distance words: n<=4 points over 5 levels (inside, equal to the threshold, outside, inside', 0), D=0..4, 3 expansion modes; 5 points over 3 levels; 6 points over 2 levels; the same under other embeddings of the levels (nearly equal and large, tiny); 13 graph families with 7..260 points in several vertex orders", "quick + 5 points over 5 levels, 6 points over 3 levels, 7 points over 2 levels", src="complex", flags=["-DREPS=\"L\""]),
 "complex_tree": H('as complex_list for both tree representations, compared after every insertion', 'as complex_list, both tree representations', src="complex", flags=["-DREPS=\"TI\""]),
 "lifecycle": H('all operation words up to length 7 over insert/query/clear, 3 representations, 5x5 matrices, D=1..3; three epochs of up to 9 points of 6 graph families, each queried in the middle, at the end or not at all, D up to 5; histories of 4..12 epochs', 'words up to length 9, 8x8 matrices; four times the epochs'),
 "persist0": H('all weak orders of the distances of <=4 points x all thresholds x dims, 5 points/3 levels, 6 points/2 levels; list, tree and indexed tree; weighted cycles, structured orders, trees, rings and closures of up to 130 points, paths and trees up to 300; 6 embeddings of the levels (coincident, nearly equal, geometric, one ulp apart, half the threshold)', "quick + 5 points/4 levels, 6 points/3 levels", src="persist", flags=["-DWHAT=0"]),
 "persist1": H('all weak orders of the distances of <=4 points x thresholds x dims, 5 points/3 levels, 6 points/2 levels, octahedron weightings; every rotation and reflection of weighted cycles, structured orders; rings, spheres, tori, Klein bottles, Moebius bands, cross polytopes and other families of up to 40 points in 5 labellings and 12 orders, rings up to 130 points; 6 embeddings of the levels', "quick + all 10! strict orders of 5 points, 5 points/4 levels", src="persist", flags=["-DWHAT=1"]),
 "persist2": H("as persist1 for the pairing stage; paths and trees up to 310 points, closures of up to 36", "quick + half of all strict orders of 5 points, 5 points/4 levels", src="persist", flags=["-DWHAT=2"]),
 "collapse": H('option on and off in every spelling; n<=3 over 4 levels, 4 points over 5 levels, 5 points over 3 levels, 6 points inside/outside; 11 graph families of 6..12 points in 4 vertex orders, D=2..4', 'quick + 5 points over 4 levels, 6 points all words, families in 12 vertex orders'),
 "pipeline": H('all grid placements of <=5 points on a line, <=4 (5 binary) in the plane, 3-4 in 3-4 dimensions; 16 structured families of 5..12 points in every cyclic order; sparse clouds of 17..260 points; 5 scales, D=1..3, both stages, 3 representations', 'quick + 5 points over 3x3 grids, 5 points in 3-space, 7 points in the plane, families up to 14 points'),
 "stages": H('all stage x complex names, all 512 key subsets (and all earlier subsets) of 14 stages, 5 chains x 3 representations x all sets of <=4 points x 3 debug modes, sets up to 12 points', 'quick + all sets of 5 points'),
 "utilops": H('all pairs of sequences of <=4 elements of 5 values, structured pairs up to 15, up to 70 elements with one changed, values that agree in their low bytes, all subset enumerations, all vectors over 7 coordinates up to dimension 2 (4 up to 3), structured up to 40, magnitudes 1e-60..1e60, log histories with line breaks and levels', 'quick + sequences of 5 elements'),
 "bmatrix": H('all binary matrices up to 16 entries, circulant boundary matrices, structured matrices up to 40x62, 130x515 and 600x33, all chain sets on <=4 points, all lists of 3 of 12 simplices', 'quick + 4x5, 5x4, 6x3, 3x6, 9x2'),
 "program": H('all clouds of <=4 points on a line and <=3 in the plane, 5 points on a binary grid, 19 families of 4..12 points x modes x pipelines x complex types x scales x dimensions x cluster counts and iteration limits x file styles; no data, unknown types and stages, window modes', 'quick + families up to 12 points', needs_lhf=True),
 "window": H('all streams of <=6 points (windows 2..4), all 5-letter continuations of full windows of 3..8 points, runs that make partitions outdated, windows of 30..60 and the default 200 with structured streams of up to 400 points, points with 1..5 coordinates, streams of up to 1050 points, earlier runs; naive window with streams of up to 250 points', 'quick with words of length 7'),
 "readio": H('all layouts (4 separators x 2 line ends x trailing x 3 ends x 8 blank patterns x 3 paddings) of small tables, all cells over 10 number spellings, all line lengths near multiples of the buffer size up to 2100 and up to 40000, matrix files up to 3x3 cut short, files of up to 3000 rows or 700 columns', 'quick + larger tables, lines up to 4100'),
 "writeio": H('all tables up to 4 cells over 5..10 values, empty tables, 6 headers, tables of up to 300 rows or 130 columns, text output of 0..3000 lines', 'quick with tables up to 6 cells'),
 "cli": H('all command lines of <=2 options in 4 forms, 3 options where two coincide, all 16 at once; all combinations of 6 mode-related options', 'quick + all command lines of 3 options'),
 "kmeans": H("all sets of <=4 points on a line, <=4 in the plane, 5 points for 2-3 clusters, five scales, structured sets of up to 300 points, 260 clusters and 40 dimensions, stages used before, 1-3 seeds, 12 runs each; outcome compared with every outcome of Lloyd's iteration (every ordered choice of distinct starting points) for up to 4 clusters", 'quick with 6-12 seeds, 6 points'),
 "partition": H('all sets of <=4 points x labellings x 4 radii, 3 points in the plane; structured sets of up to 300 points in up to 9 dimensions with up to 20 labels', 'quick + 5 points x 3 labels, 4 points x 4 labels'),
 "microcluster": H('all sequences of <=5 insertions over 3 time steps x 4 points, 4 decay factors, 2 dimensions; all sequences of <=3 insertions in 3..6 dimensions, structured sequences up to 200, steps of up to 40000, decay 1e-4..3, other magnitudes', 'quick + all sequences of 6'),
 "denstream": H('all small initial windows of three sites, full windows followed by all words of <=3 arrival blocks of 9 kinds, the same with scattered clusters in 1..4 dimensions, slow and fast periodic histories, outliers of every age and weight at a pruning moment, radii of exactly the bound, other magnitudes, 5 decay factors, repeated runs, stages used before', 'words of 4 blocks, one more initial window'),
 "kdtree": H('all point sets: <=6 on a line, <=4 on a 3x3 grid, 6 on a binary grid, 4 in 3-space; structured sets up to 200 in 2, up to 24 in 3 and 4 dimensions; 6 scales; every grid query and radius', 'quick + 5 points on 3x3, 7 binary, 5 in 3-space'),
 "pipeline_san": H("reduced space of pipeline", "quick space of pipeline", src="pipeline", variant="san", tier_quick="small", tier_thorough="quick"),
 "window_san": H("reduced space of window", "quick space of window", src="window", variant="san", tier_quick="small", tier_thorough="quick"),
 "readio_san": H("reduced space of readio", "reduced space of readio", src="readio", variant="san", tier_quick="small", tier_thorough="small"),
 "writeio_san": H("reduced space of writeio", "quick space of writeio", src="writeio", variant="san", tier_quick="small", tier_thorough="quick"),
 "denstream_san": H("reduced space of denstream", "reduced space of denstream", src="denstream", variant="san", tier_quick="small", tier_thorough="small"),
 "cli_san": H("reduced space of cli", "quick space of cli", src="cli", variant="san", tier_quick="small", tier_thorough="quick"),
 "kdtree_san": H("reduced space of kdtree", "reduced space of kdtree", src="kdtree", variant="san", tier_quick="small", tier_thorough="small"),
 "dbscan_san": H("reduced space of dbscan", "quick space of dbscan", src="dbscan", variant="san", tier_quick="small", tier_thorough="quick"),
 "microcluster_san": H("reduced space of microcluster", "quick space of microcluster", src="microcluster", variant="san", tier_quick="small", tier_thorough="quick"),
 "kmeans_san": H("reduced space of kmeans", "quick space of kmeans", src="kmeans", variant="san", tier_quick="small", tier_thorough="quick"),
 "partition_san": H("reduced space of partition", "quick space of partition", src="partition", variant="san", tier_quick="small", tier_thorough="quick"),
 "stages_san": H("reduced space of stages", "quick space of stages", src="stages", variant="san", tier_quick="small", tier_thorough="quick"),
 "utilops_san": H("reduced space of utilops", "quick space of utilops", src="utilops", variant="san", tier_quick="small", tier_thorough="quick"),
 "bmatrix_san": H("reduced space of bmatrix", "quick space of bmatrix", src="bmatrix", variant="san", tier_quick="small", tier_thorough="quick"),
 "lifecycle_san": H("reduced space of lifecycle", "quick space of lifecycle", src="lifecycle", variant="san", tier_quick="small", tier_thorough="quick"),
 "collapse_san": H("reduced space of collapse", "quick space of collapse", src="collapse", variant="san", tier_quick="small", tier_thorough="quick"),
 "complex_san": H("reduced space of complex", "reduced space of complex", src="complex", variant="san", tier_quick="small", tier_thorough="small", flags=["-DREPS=\"LTI\""]),
 "dbscan": H('all point sets: <=4 on a line of 5 with every radius, minimum and prefix, <=7 on a line, <=4 on a 3x3 grid; structured sets up to 200 in 1..4 dimensions', 'quick + 5 points on 3x3, 8 on a line'),
}

T = "bounded-exhaustive stateless exploration of the real code (every case of an enumerated space) against an independent reference model"
BIT = "Every case of the enumerated space runs on the code compiled from /repo's working tree; trusts the reference model in /verif/harness, the explorer and g++. "

PROPS = {
 "C01": dict(harnesses=["complex_list"],
  title="The list complex is exactly the Vietoris-Rips complex of the points",
  statement="For every matrix of pairwise distances, threshold and dimension bound, the array-list complex built by inserting the points and expanding holds every set of at most D+1 points whose pairwise distances are all at most the threshold, and nothing else, each exactly once with the largest of its pairwise distances as weight. Listings are grouped by dimension in non-decreasing order of weight, and simplex count, vertex count, membership, weight lookup and per-dimension lookup agree with that set, however often and in whatever steps expansion is requested.",
  over=["inputs", "configurations"], quant="all pairwise distance matrices, thresholds and dimension bounds; all ways of requesting the expansion",
  why="The tests build one or two small complexes and compare a handful of counts; ties with the threshold, coincident points, repeated expansion and higher dimensions are never exercised.",
  files=["Complex/simplexArrayList.cpp", "Complex/simplexBase.cpp"],
  mech=["neighbourhood insertion and clique expansion @ Complex/simplexArrayList.cpp", "representation factory @ Complex/simplexBase.cpp"],
  rule="a case is one distance word x representation x dimension bound x expansion mode, enumerated exhaustively in order; non-trivial when the complex holds a simplex of dimension 2 or more",
  technique=T, note=BIT + "Bounded: up to 6 (thorough 7) points and 5 distance levels."),
 "C02": dict(harnesses=["complex_tree"],
  title="Both tree complexes are exactly the Vietoris-Rips complex of the points",
  statement="For every matrix of pairwise distances, threshold and dimension bound of at least 1, the simplex tree and the indexed simplex tree hold, after every single insertion, exactly the sets of at most D+1 inserted points whose pairwise distances are all strictly below the threshold, each exactly once with its largest pairwise distance as weight. Listings are grouped by dimension in non-decreasing order of weight, and simplex count, vertex count, per-dimension listing, indexed listing (with the recorded positions), size and weight lookup agree with it, and a dimension above the top lists nothing.",
  over=["inputs", "configurations", "histories"], quant="all distance matrices, thresholds and dimension bounds; every prefix of the insertion order",
  why="The tests insert a few points and look at counts of one configuration; prefix-trie defects show only for particular neighbourhood structures.",
  files=["Complex/simplexTree.cpp", "Complex/indSimplexTree.cpp"],
  mech=["recursive trie insertion @ Complex/simplexTree.cpp", "indexed trie insertion and per-dimension sorted lists @ Complex/indSimplexTree.cpp"],
  rule="a case is one distance word x representation x dimension bound; non-trivial when the complex holds a simplex of dimension 2 or more",
  technique=T, note=BIT + "Bounded: up to 6 (thorough 7) points and 5 distance levels."),
 "C03": dict(harnesses=["lifecycle"],
  title="A complex always reflects the points inserted since it was last cleared",
  statement="For every interleaving of insertions, queries (expand and list) and clears on any of the three representations, what a query reports (the listing by dimension with weights, simplex count, vertex count, size) is the Vietoris-Rips complex of exactly the points inserted since the last clear. A query never changes what a later query or insertion sees, and a cleared complex is indistinguishable from a new one.",
  over=["histories", "inputs"], quant="all operation histories over insert, query and clear",
  why="Tests insert once and query once; stale sorted lists, counters and node links show only in particular sequences of operations.",
  files=["Complex/simplexArrayList.cpp", "Complex/simplexTree.cpp", "Complex/indSimplexTree.cpp"],
  mech=["insert, clear, getAllEdges and their cached sorted state @ Complex/simplexTree.cpp", "same @ Complex/indSimplexTree.cpp"],
  rule="a case is a word over insert/query/clear x representation x matrices; non-trivial when an insertion or clear follows a query",
  technique="bounded-exhaustive exploration of all operation sequences on the real code against a reference model",
  note=BIT + "Bounded: sequences up to 7 (thorough 9) operations, 4 points per epoch."),
 "C04": dict(harnesses=["persist0"],
  title="Connected-component intervals equal the merge heights of the point set",
  statement="For every distance matrix and threshold, the fast persistence stage reports in dimension 0 exactly one interval per point: those of the components that merge below the threshold die at the distances of a minimum spanning forest, and one interval (0, threshold) is reported per connected component at the threshold. The result is the same for all three complex representations, in the text output and in the interval table, and does not depend on what the stage processed before.",
  over=["inputs", "configurations", "histories"], quant="all distance matrices and thresholds; both complex representations; repeated use of one stage object",
  why="The tests only check that the stage runs or compare one data set; ties, disconnected complexes and empty edge sets need the whole input space.",
  files=["Pipes/fastPersistence.cpp"],
  mech=["union by minimum spanning tree over edges in weight order @ Pipes/fastPersistence.cpp"],
  rule="a case is one weak order of the distances x threshold x representation; non-trivial when some component merges",
  technique=T, note=BIT + "Oracle: textbook column reduction of the full boundary matrix over GF(2)."),
 "C05": dict(harnesses=["persist1"],
  title="Loop and void intervals of the fast stage equal textbook persistent homology",
  statement="For every distance matrix, threshold and dimension bound D, the fast persistence stage reports for every dimension from 1 to D-1 exactly the finite intervals of positive length of the persistent homology (over the two-element field) of the Vietoris-Rips filtration up to the threshold; classes of these dimensions that are still open at the threshold are not reported. Text output and interval table agree, for all three complex representations, however often the stage has been used before.",
  over=["inputs", "configurations", "histories"], quant="all distance matrices (all orders and ties of the distances), thresholds and dimension bounds; repeated use",
  why="The tests compare no interval of dimension 1 or more with ground truth; pairing mistakes depend on the order of the distances, of which there are many.",
  files=["Pipes/fastPersistence.cpp"],
  mech=["cohomology-style column reduction by dimension with clearing of pivots @ Pipes/fastPersistence.cpp"],
  rule="a case is one order of the distances x threshold x dimension x representation; non-trivial when at least one interval of dimension 1 or more exists",
  technique=T, note=BIT + "Oracle: textbook column reduction. Bounded: up to 6 points."),
 "C06": dict(harnesses=["persist2"],
  title="The pairing stage reports textbook intervals, open classes included",
  statement="For every distance matrix, threshold and dimension bound D, the persistence stage on the list or tree complex reports for every dimension from 0 to D-1 exactly the intervals of positive length of the persistent homology over the two-element field of the Vietoris-Rips filtration up to the threshold, where classes still open at the threshold die at the threshold. Using the same stage again on another complex gives the answer for that complex alone.",
  over=["inputs", "configurations", "histories"], quant="all distance matrices (all orders and ties), thresholds and dimension bounds; repeated use",
  why="The tests check only that the stage runs; wrong pairings depend on the order of the distances.",
  files=["Pipes/persistencePairs.cpp"],
  mech=["rank pivots of the boundary matrices @ Pipes/persistencePairs.cpp", "pairing by boundary reduction @ Pipes/persistencePairs.cpp"],
  rule="a case is one order of the distances x threshold x dimension x representation; non-trivial when an interval other than an open component exists",
  technique=T, note=BIT + "Oracle: textbook column reduction. Bounded: up to 6 points. The indexed tree is excluded (known finding)."),
 "C07": dict(harnesses=["collapse"],
  title="Collapsing keeps a valid subcomplex with unchanged persistent homology",
  statement="When the expansion stage is asked to collapse, the resulting complex is a subset of the Vietoris-Rips complex, closed under taking faces, with every remaining simplex listed once and counted. Both persistence stages report exactly the same intervals for it as for the uncollapsed complex, and without the option nothing is removed.",
  over=["inputs", "configurations"], quant="all distance matrices and dimension bounds, list and tree complex",
  why="The tests only call the reduction and look for exceptions; a wrong removal changes homology only for particular shared faces and equal weights.",
  files=["Complex/simplexArrayList.cpp", "Pipes/ripsPipe.cpp"],
  mech=["recursive removal of simplex and maximal face @ Complex/simplexArrayList.cpp", "collapse option @ Pipes/ripsPipe.cpp"],
  rule="a case is one distance word x dimension bound x representation; non-trivial when at least one simplex was removed",
  technique=T, note=BIT + "Bounded: up to 6 points."),

 "C08": dict(harnesses=["pipeline"],
  title="The standard pipeline turns a point cloud into its persistence intervals",
  statement="For every point cloud, scale, dimension and complex type, running distance matrix, neighbourhood graph, expansion and a persistence stage one after another yields the Euclidean distances, the neighbourhood graph, the Vietoris-Rips complex and the persistence intervals of exactly those points. No stage changes the points handed to it, and every interval's boundary names points of the cloud that carry a cycle opened with the interval and filled by its end (a cycle being given by those of its faces that open a class), and no others.",
  over=["inputs", "configurations"], quant="all point clouds, scales, dimensions, complex types and both persistence stages",
  why="Tests run the stages on one or two data sets and check that nothing throws; a wrong hand-over between stages or a defect that needs many points, a higher dimension or ties is not noticed.",
  files=["Pipes/distMatrixPipe.cpp", "Pipes/neighGraphPipe.cpp", "Pipes/ripsPipe.cpp", "Pipes/fastPersistence.cpp", "Pipes/persistencePairs.cpp", "Pipes/basePipe.cpp"],
  mech=["runPipeWrapper and newPipe @ Pipes/basePipe.cpp", "distance matrix and filtration values @ Pipes/distMatrixPipe.cpp", "graph insertion @ Pipes/neighGraphPipe.cpp", "clique expansion @ Pipes/ripsPipe.cpp"],
  rule="a case is one cloud (every grid placement of a few points, and structured families of 5 to 12 points in many orders) x scale x dimension x stage x representation; non-trivial when a class of dimension 1 or more exists",
  technique=T, note=BIT + "Bounded: grids of up to 5 points, structured families of up to 12 (thorough 14) points."),
 "C09": dict(harnesses=["stages"],
  title="Every stage refuses to run unconfigured and reports each run truthfully",
  statement="A stage or preprocessor is selected by exactly its documented names, accepts exactly the configurations that contain everything it needs, and when run without such a configuration says so and leaves the data untouched. Each successful run appends exactly one statistics line with the stage's name, its time, and the size, vertex and simplex counts held after it; debug mode writes the stage's result to file without changing any result.",
  over=["configurations", "histories", "inputs"], quant="all stage and complex names tried, all subsets of configuration keys, configuration histories, and all small point sets in every debug mode",
  why="Tests construct stages directly with one complete configuration; incomplete configurations, reconfiguration and debug output are not exercised.",
  files=["Pipes/basePipe.cpp", "Preprocessing/preprocessor.cpp", "Pipes/distMatrixPipe.cpp", "Pipes/neighGraphPipe.cpp", "Pipes/ripsPipe.cpp", "Pipes/fastPersistence.cpp", "Pipes/persistencePairs.cpp"],
  mech=["newPipe, runPipeWrapper, configPipe @ Pipes/basePipe.cpp", "newPreprocessor, runPreprocessorWrapper @ Preprocessing/preprocessor.cpp"],
  rule="a case is one name x complex, one stage x key subset (x earlier key subset), or one stage chain x representation x point set x 3 debug modes; non-trivial when a stage was selected, refused or ran on more than 2 points",
  technique=T, note=BIT),
 "C10": dict(harnesses=["cli"],
  title="The command line is parsed as documented and selects the documented pipeline",
  statement="For every command line of options and values, each option, in its long or short form and anywhere on the line, sets exactly its own argument, every other argument keeps its default, and an option without a value is answered with the usage text. The mode then selects the documented pipeline, preprocessor, upscaling and complex type, without overriding an explicitly given pipeline; selecting twice changes nothing.",
  over=["inputs", "configurations"], quant="all command lines of up to three options in all forms and orders, and all combinations of mode, preprocessor, pipeline, mpi, complex and upscale options",
  why="No test calls the argument parser.",
  files=["Utils/argParser.cpp"],
  mech=["option tables and parse @ Utils/argParser.cpp", "setPipeline @ Utils/argParser.cpp"],
  rule="a case is one command line, enumerated exhaustively; non-trivial when several options interact or a mode other than the default is selected",
  technique=T, note=BIT + "Bounded: command lines of up to 3 options (plus all 16 at once)."),
 "C11": dict(harnesses=["readio"],
  title="Reading a data file yields exactly the numbers written in it",
  statement="For every table of numbers and every accepted layout (separators, blanks, line endings, blank lines, trailing separators, missing final newline, rows longer than any buffer), the batch reader returns exactly those rows and values, and the streaming reader delivers the same rows in the same order and then reports the end, also when used again. A matrix file yields exactly the values it contains in the announced shape, a missing file yields no rows and is reported, and a line with a missing value is refused rather than read as a shorter row.",
  over=["inputs", "histories"], quant="all tables over a set of number spellings in every layout, all line lengths around the buffer sizes, truncated matrix files",
  why="Tests read one or two well-formed files.",
  files=["Utils/readInput.cpp"],
  mech=["readCSV, readMAT, streamInit, streamRead, parseDoubleVector @ Utils/readInput.cpp"],
  rule="a case is one file content; non-trivial when the layout is not the plain one or there is more than one row",
  technique=T, note=BIT + "Bounded: tables up to 3x2, lines up to 2100 (thorough 4100) characters."),
 "C12": dict(harnesses=["writeio"],
  title="Written results can be read back unchanged",
  statement="For every table, writing it as csv or matrix file and reading that file back yields the same rows and, up to the six decimals written, the same values. Statistics, barcode and csv output have the documented header and file name, replace older content, and touch no other file.",
  over=["inputs"], quant="all tables up to 4x4 over a set of values including the empty table; all kinds of output",
  why="Tests write one table and check that the call returns true.",
  files=["Utils/writeOutput.cpp"],
  mech=["writeCSV, writeMAT, writeBarcodes, writeStats @ Utils/writeOutput.cpp"],
  rule="a case is one table x output kind x header; non-trivial with more than one cell",
  technique=T, note=BIT),
 "C13": dict(harnesses=["kdtree"],
  title="Nearest-neighbour and range queries agree with exhaustive search",
  statement="For every point set and query point, the spatial index returns a point of the set at minimal distance, with its correct position, and for every radius exactly the points within that radius (those exactly at it included), each once. All forms of the query agree with each other, also when only the first points of the data are indexed.",
  over=["inputs"], quant="all small point sets on a grid (coincident points, ties, collinear points), all query points on a finer grid, all radii equal to a distance",
  why="No test queries the index.",
  files=["Preprocessing/kdTree.cpp"],
  mech=["tree construction by median @ Preprocessing/kdTree.cpp", "nearest and neighborhood recursion with pruning @ Preprocessing/kdTree.cpp"],
  rule="a case is one point set x number of points used, queried at every grid point and radius; non-trivial with 3 or more points",
  technique=T, note=BIT + "Bounded: up to 6 points exhaustively, structured sets of up to 200 points."),
 "C14": dict(harnesses=["dbscan"],
  title="Density clustering follows its definition",
  statement="For every point set, radius and minimum count, the density clustering labels two core points alike exactly when they are density-connected, gives every non-core point within reach of a core point the label of such a cluster, and labels all other points as noise. There is one label per point and clusters are numbered from 1 without gaps.",
  over=["inputs", "configurations"], quant="all small point sets on a line or grid, radii equal to, below and above distances, all minimum counts",
  why="No test checks a clustering result.",
  files=["Preprocessing/dbscan.cpp", "Preprocessing/kdTree.cpp"],
  mech=["cluster and expandCluster @ Preprocessing/dbscan.cpp"],
  rule="a case is one point set x radius x minimum count x number of points used; non-trivial when a cluster exists",
  technique=T, note=BIT + "Bounded: up to 7 (thorough 8) points exhaustively, structured sets of up to 200 points."),
 "C15": dict(harnesses=["microcluster"],
  title="A micro-cluster is the decayed sum of the points inserted into it",
  statement="After any sequence of timed insertions, a micro-cluster's weight, centre and radius are those of the inserted points weighted by exponential decay since their insertion, and the radius predicted for an insertion is the radius after it. The radius is never negative or undefined, and asking for a value changes nothing.",
  over=["histories", "inputs"], quant="all sequences of insertions (point, time step) up to the depth, several decay factors and dimensions",
  why="No test checks a micro-cluster's numbers.",
  files=["Preprocessing/denStream.cpp"],
  mech=["insertPoint, getCenter, getRadius, mergeRadius, getWeight @ Preprocessing/denStream.cpp"],
  rule="a case is one sequence of insertions x dimension x decay factor; non-trivial from the third insertion on",
  technique="bounded-exhaustive exploration of all operation sequences on the real code against a reference model",
  note=BIT + "Bounded: up to 5 (thorough 6) insertions exhaustively, structured sequences of up to 200."),
 "C16": dict(harnesses=["denstream"],
  title="Stream clustering keeps exactly the micro-clusters of the algorithm",
  statement="For every data stream, the stream-clustering preprocessor outputs exactly the centres of the potential micro-clusters the published algorithm maintains: density clusters of the initial window, then merging into the nearest micro-cluster whose radius stays within the bound, promotion of outlier clusters, and periodic pruning by decayed weight. Data sets smaller than the initial window and repeated runs are handled alike, and the original data are kept unchanged.",
  over=["histories", "inputs", "configurations"], quant="all enumerated initial windows and all words of arrivals after it, two decay factors, repeated runs",
  why="The test runs the preprocessor on one data set and checks nothing about the clusters.",
  files=["Preprocessing/denStream.cpp", "Preprocessing/dbscan.cpp"],
  mech=["runPreprocessor and merging @ Preprocessing/denStream.cpp", "initial clustering @ Preprocessing/dbscan.cpp"],
  rule="a case is an initial window x word of arrivals x decay factor; non-trivial when a cluster is promoted or pruned",
  technique="bounded-exhaustive exploration of all arrival histories on the real code against a reference model",
  note=BIT + "Bounded: tails of up to 3 (thorough 4) arrival blocks."),
 "C17": dict(harnesses=["kmeans"],
  title="Clustering labels every point with its centroid, whatever the random choices",
  statement="For every data set, cluster count, iteration limit and stream of random choices, k-means++ returns as many centroids as clusters were asked for (or as there are distinct points, if fewer), one label per point, and every non-empty cluster's centroid is the mean of its points: the outcome of Lloyd's iteration, stopped at convergence or at the limit, from distinct points of the data set. When it ran to convergence every point is labelled with a nearest centroid; the full data are unchanged, and the label and centroid files hold what is returned.",
  over=["inputs", "configurations", "histories"], quant="all small data sets, cluster counts, iteration limits; random streams enumerated by seed and by repeated use",
  why="The test runs k-means on one data set with one random stream and checks nothing about the result.",
  files=["Preprocessing/kMeansPlusPlus.cpp"],
  mech=["seeding, assignment and update loops @ Preprocessing/kMeansPlusPlus.cpp"],
  rule="a case is one data set x clusters x iterations x seed, run 12 times along the random stream; non-trivial with 2 or more clusters",
  technique=T, note=BIT + "The random choices are a bounded set of enumerated generator seeds, not all real-valued outcomes."),
 "C18": dict(harnesses=["partition"],
  title="Partitioning and mapping back lose, invent or mix up no point",
  statement="Partitioning data by label puts every point into exactly its cluster's partition, partitioning by radius puts it into exactly the partitions whose centroid is nearer than the radius, and boundary partitions hold exactly the points of the named clusters, each with its own data in order. Mapping intervals found in a partition back replaces every local point by the original one and changes nothing else; the maximum radius is the largest distance of a point from its centroid.",
  over=["inputs"], quant="all small data sets, labellings, centroids and radii",
  why="No test calls the partitioning helpers.",
  files=["Utils/utils.cpp", "LHFmain/main.cpp"],
  mech=["separatePartitions, separateBoundaryPartitions, mapPartitionIndexing, computeMaxRadius @ Utils/utils.cpp"],
  rule="a case is one data set x labelling x radius; non-trivial with 2 or more points",
  technique=T, note=BIT + "Bounded: up to 4 (thorough 5) points exhaustively, structured sets of up to 300."),
 "C19": dict(harnesses=["utilops"],
  title="Set, subset, distance and logging helpers compute what they are named for",
  statement="For all inputs, intersection, union, symmetric difference and subset enumeration are the mathematical ones (each element or subset once), sorted or not, and the distance is the Euclidean one, symmetric and zero from a point to itself. Log, error and debug messages go to exactly the console or the configured file, appended in order, with debug messages only in debug mode.",
  over=["inputs", "histories"], quant="all pairs of sequences over a small universe including extreme values; all vectors over a set of coordinates; all message histories up to the depth",
  why="No test calls these helpers directly.",
  files=["Utils/utils.cpp"],
  mech=["setIntersect, setUnion, symmetricDiff, intersect, getSubsets, vectors_distance, writeLog, writeDebug @ Utils/utils.cpp"],
  rule="a case is one pair of sequences, one set, one pair of vectors or one message history; non-trivial when the sets overlap partly",
  technique=T, note=BIT),
 "C20": dict(harnesses=["bmatrix"],
  title="Boundary matrices are built and reduced correctly over the two-element field",
  statement="For every matrix over the two-element field, the reduction returns its rank and nullity and a matrix of the same shape with the same row space and as many non-zero rows as the rank; the rank computation names exactly the rows independent of the earlier ones. A boundary matrix built from chains has a one exactly where the face lies in the simplex, and selecting simplices by size and weight returns exactly those. Extracting boundaries names, column by column, the points of the rows with a one, keeping the sets of at least two points that are disjoint from those kept before.",
  over=["inputs"], quant="all binary matrices up to the bounded shapes, boundary matrices of circulant graphs, all sets of chains on up to 4 points",
  why="No test checks the algebra.",
  files=["Pipes/boundaryPipe.cpp", "Pipes/persistencePairs.cpp"],
  mech=["reduceBoundaryMatrix, boundaryMatrix, extractBoundaries, nSimplices, checkFace @ Pipes/boundaryPipe.cpp", "getRankNull, nSimplices, checkFace @ Pipes/persistencePairs.cpp"],
  rule="a case is one matrix, one pair of chain sets or one list of simplices; non-trivial when the matrix has dependent and independent rows",
  technique=T, note=BIT + "Bounded: all matrices up to 16 entries; structured ones up to 48x24 and 40x62."),
 "C21": dict(harnesses=["window"],
  title="The sliding window holds and reports exactly the points its policy accepts",
  statement="For every data stream, the sliding window holds the first points until it is full and then exactly the points and partition labels its documented acceptance and deletion rules give; its nearest-neighbour distances, partition averages and sizes and its distance matrix always equal those recomputed from the points held. The intervals and points it reports are those of the window at that moment, whatever was processed before, and the naive window hands on exactly its latest points.",
  over=["histories", "inputs", "configurations"], quant="all data streams over small alphabets up to the depth, window sizes, dimensions and scales; earlier runs",
  why="Tests only construct the stages; the state of a window depends on the whole history of the stream.",
  files=["Pipes/slidingWindow.cpp", "Pipes/naiveWindow.cpp"],
  mech=["nnBasedEvaluator and the update/deletion routines @ Pipes/slidingWindow.cpp", "runSubPipeline @ Pipes/slidingWindow.cpp", "runPipe @ Pipes/naiveWindow.cpp"],
  rule="a case is one stream x window size x dimension x scale x earlier stream; non-trivial when the window changed at least twice after it was full",
  technique="bounded-exhaustive exploration of all arrival histories on the real code against a brute-force model of the window",
  note=BIT + "Decisions closer than 1e-9 to a threshold are left undecided. Bounded: streams of up to 7 points exhaustively (window 2 to 4), structured streams of up to 1050."),
 "C22": dict(harnesses=["program"],
  title="The program turns a data file into interval and statistics files",
  statement="For every data file and command line, the program exits normally and writes the interval file with the persistence intervals of the points in the file (or of the centroids or partitions the mode asks for) and a statistics file with one line per stage run, under the requested name; with console output it writes no file. Without data it prints the usage text and writes nothing, an unknown complex type is refused, and reduced mode merges the intervals of each partition in terms of the original points.",
  over=["inputs", "configurations"], quant="small clouds and structured families, file layouts, modes, pipelines, complex types, scales, dimensions",
  why="No test runs the program.",
  files=["LHFmain/main.cpp", "Utils/argParser.cpp", "Utils/readInput.cpp", "Utils/writeOutput.cpp"],
  mech=["main, runPipeline, processDataWrapper, processReducedWrapper @ LHFmain/main.cpp"],
  rule="a case is one data file x command line, executed as a process; non-trivial when intervals of dimension 1 or more, partitions or windows are involved",
  technique=T, note=BIT + "The distributed mode runs with one process."),
 "C23": dict(harnesses=[n for n in HARNESS if n.endswith("_san")],
  title="No input, configuration or history makes the library misuse memory or crash",
  statement="For every input, configuration and operation history explored, no part of the library (complexes, persistence stages, windows, preprocessors, readers, writers, partitioning and algebra helpers, command line) reads or writes outside the storage of its objects, uses storage after it was released, or releases it twice; none of them crashes.",
  over=["inputs", "configurations", "histories"], quant="all cases of the other properties' enumerations (reduced spaces), run on an address-sanitized build with checked containers",
  why="Tests run without instrumentation on a handful of inputs; most out-of-bounds accesses go unnoticed.",
  files=["Complex/simplexTree.cpp", "Complex/indSimplexTree.cpp", "Complex/simplexArrayList.cpp", "Pipes/fastPersistence.cpp", "Pipes/persistencePairs.cpp", "Pipes/slidingWindow.cpp", "Preprocessing/kdTree.cpp", "Preprocessing/denStream.cpp", "Utils/readInput.cpp", "Utils/utils.cpp"],
  mech=["node ownership in insert, deletion and clear @ Complex/simplexTree.cpp", "index arithmetic of every stage @ Pipes/", "buffers of the readers @ Utils/readInput.cpp"],
  rule="a case is one case of another property's harness run on the instrumented build; non-trivial as defined there",
  technique="bounded-exhaustive exploration of the real code, instrumented with AddressSanitizer and container assertions as the safety monitor", limit_quick=700, limit_thorough=800, crash_only=True,
  note=BIT + "Only crashes and sanitizer reports count here; wrong results belong to the other properties. Memory leaks are not judged."),
}
NOT_CLAIMED = {}
