#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 lib/props.py > properties.jsonl)."""
import json
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe=None, hook=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if observe:
        d['anchors']['observe_at'] = observe
    if hook:
        d['anchors']['hook_needed'] = hook
    assert len(title) <= 80, title
    P.append(d)


I, S, C, H, F, X = 'inputs', 'schedules', 'configurations', 'histories', 'fault_sequences', 'crash_points'

# ------------------------------------------------------------------ geometry, the purpose of the library
prop('G01', 'Divide and conquer yields the Delaunay triangulation of the input',
     'Triangulating a point set by recursive division yields exactly the Delaunay triangulation of the input points together with the auxiliary points that enclose them, in 2D and in 3D: every circumsphere is empty, the simplices tile the convex hull exactly once, and the simplices are the same as those of a direct triangulation of the same points. This holds for every splitting strategy, recursion depth, way of triangulating the border, split of the work and order of the parallel tasks. The auxiliary points enclose all input points, wherever the input lies and even if the points agree in every coordinate; of points that coincide one takes part.',
     [I, S, C], 'all point sets in general position, all splitters (d-way, cycling, longest extent, fixed dimension), thread counts, border modes and task orders',
     'No triangulation test builds here, and upstream tests compare a few random clouds on whatever schedule occurs; the border criterion and the merge fail only for particular configurations of points near a cut or particular task orders.',
     ['src/lib/DCTriangulator.cpp', 'src/lib/CGALTriangulator.cpp', 'src/lib/Partitioner.cpp', 'include/Geometry.h', 'include/datastructures/LP_MultiMap.hxx'],
     [('border extraction by circumsphere', 'DCTriangulator::getEdge'), ('merge of partial and border triangulation', 'DCTriangulator::mergeTriangulation'), ('auxiliary points', 'DCTriangulator constructor')],
     ['Triangulator::triangulate()'], 'PARDETRIA_VERIF sets the recursion cutoff')
prop('G02', 'A returned triangulation is internally consistent',
     'In every triangulation the library returns, each simplex has a unique id under which it can be looked up, its vertices are sorted and carry the matching fingerprint, and the neighbour stored opposite a vertex is exactly the simplex sharing the remaining vertices, or "none" on the boundary, symmetrically. The list of hull simplices names exactly the simplices that touch an auxiliary point, each once, and the number of simplices reported is the number listed.',
     [I, S, C], 'all point sets, sequential and recursive triangulation, all splitters and task orders',
     'No existing test looks at neighbour links of merged triangulations; stale links only appear for particular border shapes.',
     ['src/lib/DCTriangulator.cpp', 'src/lib/CGALTriangulator.cpp', 'include/Geometry.h', 'include/mods/Indexed_Triangulation_data_structure_2.h', 'include/mods/Indexed_Triangulation_data_structure_3.h'],
     [('neighbour repair after the merge', 'DCTriangulator::updateNeighbors'), ('conversion of the base triangulation', '_delaunayCgal'), ('face lookup table', 'DCTriangulator::buildWhereUsed')],
     ['the simplices, neighbour arrays and hull list of the result'], 'PARDETRIA_VERIF')
prop('G03', 'Load-balanced triangulation is correct for any partition tree',
     'The load-balanced triangulator returns the Delaunay triangulation of the input and the auxiliary points, internally consistent, whatever tree of partitions its partitioner produces (any number of children, any assignment of the points, uneven depth) and whichever conservative intersection test is used, also when points coincide, lie on a common sphere or form a lattice.',
     [I, S, C], 'all point sets, all partition trees over them (including children that hold few points), all provided partitioners, task orders',
     'Nothing of the load-balancing code is compiled or tested here.',
     ['include/LoadBalancedDCTriangulator.tpp', 'include/LoadBalancedDCTriangulator.h', 'include/load_balancing/PartitionTree.h'],
     [('recursive merge over the tree', 'LoadBalancing::DCTriangulator::triangulateTree/mergeTriangulation'), ('intersection test with the sibling partitions', 'IntersectionChecker')],
     ['triangulate()'])
prop('G04', 'Verification accepts correct triangulations and rejects every flawed one',
     'Verifying a triangulation reports it valid if and only if every input point (of those listed, if a list is given) and no other point is used, the hull list names exactly the simplices that touch an auxiliary point, no simplex occurs twice, the neighbour stored opposite a vertex is exactly the simplex across that facet, and no input point of a neighbour lies strictly inside a circumsphere. Cross-checking against a reference is never clean if the simplices differ, always clean if simplices and neighbours agree, and lists exactly the missing and the superfluous simplices.',
     [I], 'all triangulations of small point sets and all single corruptions of them (vertex replaced, simplex dropped, duplicated or added, neighbour link changed)',
     'The tests use the verifier as an oracle but never show it a wrong triangulation.',
     ['src/lib/Geometry.cpp', 'include/Geometry.h'],
     [('self verification', 'dSimplices::verify'), ('comparison with a reference', 'dSimplices::crossCheck')])
prop('G05', 'Adaptive predicates return the exact sign',
     'The robust orientation and in-circle/in-sphere predicates return a value whose sign equals that of the exact determinant for every input of representable coordinates without overflow or underflow, in particular for nearly and exactly degenerate inputs, also when compiled for processors with fused operations; the adaptive and the exact variants agree.',
     [I], 'all coordinates, dominated by nearly degenerate configurations that reach each adaptive stage',
     'The predicate tests are not built and use a handful of well separated points, which never leave the first filter stage.',
     ['src/utils/Predicates.cpp', 'include/utils/Predicates.h', 'src/lib/Geometry.cpp'],
     [('floating point filters and expansion arithmetic', 'Predicates.cpp orient2d/orient3d/incircle/insphere and their adapt stages')])
prop('G06', 'Simplex geometry agrees with exact geometry',
     'For any non-degenerate simplex: the orientation has the sign of the signed volume, a point is reported inside the simplex exactly if it lies in it, inside the sphere exactly if it lies within or on the circumsphere regardless of the order of the vertices, and the circumsphere passes through all vertices. The nearest vertex is a closest one, and the walk to the simplex nearest to a point returns a containing simplex whenever there is one and an existing simplex otherwise.',
     [I], 'all simplices and query points of integer lattices in 2D and 3D, single and double precision, all vertex orders',
     'The geometry tests are not built and check a few fixed triangles and tetrahedra.',
     ['src/lib/Geometry.cpp', 'include/Geometry.h'],
     [('orientation, in-sphere, circumsphere', 'GeometryCore'), ('vertex set comparison and sorting', 'dSimplex'), ('point location', 'dSimplices::findNearestSimplex')])
prop('G07', 'Box tests against points, boxes and spheres are exact',
     'A box contains a point, a box or a sphere exactly if it does so as a closed set, and it intersects a sphere exactly if their closed sets meet; subtracting a sub-box that shares all but one face yields the remaining box.',
     [I], 'all boxes, points and spheres of an integer lattice in 2D and 3D, single and double precision',
     'No test covers the box tests systematically; an error in one coordinate direction shows only for spheres beyond that face, edge or corner.',
     ['include/Geometry.h', 'include/load_balancing/BoxUtils.h'],
     [('closed box tests', 'dBox::contains/intersects/operator-'), ('box helpers', 'BoxUtils.h')])
prop('G08', 'Splitting distributes every point to exactly one part within its bounds',
     'Every splitting strategy assigns each input point to exactly one part, whose bounds contain it, numbers the parts consecutively, splits at the given midpoint in the dimensions the strategy names, adds all auxiliary points to every part unless told not to, and loses or invents no point. The bounds of the parts cover the bounding box of the points and overlap only in their boundaries, and the part recorded for a point is the one that holds it.',
     [I, S, C], 'all small lattice point sets (including points exactly on the cut), all strategies and dimensions, task orders',
     'No test calls a splitter; points on the cut and unbalanced splits are the interesting cases.',
     ['src/lib/Partitioner.cpp', 'include/Partitioner.h'],
     [('strategies', 'dWayPartitioner, OneDimPartitioner, CyclePartitioner, ExtendPartitioner'), ('recursion depth', 'getRecursionDepth'), ('lookup', 'Partitioning::partition')])
prop('G09', 'Intersection tests never miss a partition a circumsphere reaches',
     'Every intersection test used to find border simplices answers yes whenever the sphere meets the region of the partition, i.e. whenever it could contain a point of that partition; tests that claim to be exact for their region also answer no otherwise.',
     [I, C], 'all spheres and partitions over an integer lattice; box, grid, refined grid, box hierarchy and half-space tests',
     'Only a grid iteration test exists and it is not built; a missed intersection corrupts a triangulation silently and rarely.',
     ['include/load_balancing/BoundsIntersectionChecker.h', 'include/load_balancing/GridIntersectionChecker.h', 'include/load_balancing/AccurateGridIntersectionChecker.h', 'include/load_balancing/HyperplaneIntersectionChecker.h', 'include/datastructures/AABBTree.h', 'include/load_balancing/Grid.h'],
     [('tests', 'the IntersectionChecker implementations'), ('hierarchy', 'AABBTree')])
prop('G10', 'Load-balancing partitioners assign every point to exactly one leaf',
     'Every load-balancing partitioner returns a tree whose leaves together hold each input point exactly once, with auxiliary points in every leaf where promised; collapsing, dumping or copying the tree preserves the partition. The intersection tests of the subtrees never deny a sphere that reaches a point of theirs.',
     [I, C], 'all small point sets, all provided partitioners, parameters and sampling results',
     'None of these partitioners is compiled or tested here.',
     ['include/load_balancing/SimplePartitioner.h', 'include/load_balancing/FlatPartitioner.h', 'include/load_balancing/kWaySplitter.h', 'include/load_balancing/PartitionTree.h', 'include/load_balancing/OldPartitionerPartitioner.h', 'include/load_balancing/sample_partitioner/HyperplaneBipartitioner.h', 'include/load_balancing/sample_partitioner/CenterDistancePointAssigningSamplePartitioner.h', 'include/load_balancing/sample_partitioner/BoundsDistancePointAssigningSamplePartitioner.h', 'include/load_balancing/sample_partitioner/BinaryBoxEstimatingSamplePartitioner.h'],
     [('tree construction', 'the Partitioner implementations'), ('tree helpers', 'PartitionTree.h, dumpPartitionTree.h')])
prop('G12', 'The sample graph and the assignment of points by the sample are right',
     'The sampler draws the asked number of distinct input points. The graph it hands to the graph partitioner is the Delaunay graph of the sample: one vertex per sample point, an edge both ways between any two Delaunay neighbours and no other, no loops, weights between 1 and 99 that follow the edge weight function (1 if uniform), together with the number of parts, the mode and the imbalance asked for; it is the same whatever the interleaving of the threads that build it. Each sample-based partitioner then assigns every point to the partition of the nearest sample point, of the nearest mean of the sample points of a partition, or of the nearest box around them, respectively, and never to a partition without sample points.',
     [I, S, C], 'all small point sets, sample sizes, samples and results of the graph partitioner, parameters, thread interleavings up to a preemption bound',
     'None of the sampling code is compiled or tested here; the sample is random, and the graph is built by concurrent insertions into a growing hash map.',
     ['include/load_balancing/sample_partitioner/Sampler.h', 'include/load_balancing/sample_partitioner/NearestSamplePointAssigningSamplePartitioner.h', 'include/load_balancing/sample_partitioner/CenterDistancePointAssigningSamplePartitioner.h', 'include/load_balancing/sample_partitioner/BoundsDistancePointAssigningSamplePartitioner.h'],
     [('sample, graph and weights', 'Sampler::operator(), makeGraph, Mapper'), ('assignment', 'the makePartitioning/closest functions of the sample partitioners')], ['the Sampling returned', 'the arguments of kaffpa()', 'the leaves of the partition tree'])
prop('G11', 'Point statistics and point ids are right wherever the points lie',
     'The minimum, maximum and midpoint reported for a set of points are exactly those of its finite points (all points if asked), for any coordinates, any split of the work and both the sequential and the parallel way. A point id is classified as input or auxiliary point consistently everywhere, and looking up an id returns the coordinates stored under it.',
     [I, S], 'all small point sets with negative, zero and positive coordinates, all subsets of ids, splits and task orders',
     'No test computes statistics; points with only negative coordinates are never used in the tests.',
     ['include/Partitioner.h', 'include/Geometry.h', 'include/datastructures/VectorAdapter2.hxx', 'include/utils/MakeIds.h'],
     [('statistics', 'getPointStats, getPointStatsSeq'), ('id ranges', 'dPoint::isFinite/infIndex, VectorAdapter2')])

# ------------------------------------------------------------------ data structures
prop('G13', 'Parallel triangulation is race-free and right under every interleaving',
     'When the recursive triangulators run their parallel loops - partitions, edge detection, where-used lists, the merge and the neighbor update - with several threads, no two threads access the same memory without ordering (at least one of them writing), every interleaving terminates, and each yields the same consistent Delaunay triangulation as the sequential run.',
     [S], 'every interleaving up to a number of preemptions of the logical threads of all parallel loops, for several clouds, splitters, partition trees and both kinds of triangulating the edge',
     'The tests do not run the recursive triangulators; a race shows on few schedules and few machines.',
     ['src/lib/DCTriangulator.cpp', 'include/LoadBalancedDCTriangulator.tpp', 'include/Geometry.h'], [('parallel loops', 'getEdge, buildWhereUsed, mergeTriangulation, updateNeighbors'), ('shared simplices', 'dSimplices::filter, _valid, dSimplex::raiseMark')])
prop('H01', 'Hash set, map and multimap behave like their mathematical counterparts',
     'After any sequence of insertions, lookups, merges, filters, copies, moves and iterations the open-addressing set, map and multimap hold exactly the elements a plain set, map or multimap would hold, report the right size, and find every element and nothing else, across growth and wrap-around of the table.',
     [H, C], 'all operation sequences up to a length over few keys that collide or wrap around, all initial capacities',
     'The data structure tests are not built and insert random keys once; collisions at the end of the table followed by growth are not hit systematically.',
     ['include/datastructures/LP_Set.hxx', 'include/datastructures/LP_Map.hxx', 'include/datastructures/LP_MultiMap.hxx'],
     [('linear probing', 'LP_Set, LP_Map, LP_MultiMap'), ('growth and rehash', 'rehash, merge')])
prop('H02', 'Concurrent hash tables are linearizable',
     'Concurrent insertions and lookups on the shared set, map and multimap behave as if each happened at one instant between its call and its return: of two insertions of the same set element exactly one reports success, an element whose insertion has returned is found by every later lookup, and afterwards exactly the inserted elements are present once each.',
     [S, H], 'all interleavings (up to a preemption bound) of two or three threads inserting and looking up colliding keys',
     'The upstream test runs many threads once on distinct keys; the windows between probe and compare-exchange are a few instructions wide.',
     ['include/datastructures/LP_Set.hxx', 'include/datastructures/LP_Map.hxx', 'include/datastructures/LP_MultiMap.hxx'],
     [('compare and exchange per slot', 'Concurrent_LP_Set/Map/MultiMap::_insert')])
prop('H03', 'Growing concurrent tables lose nothing while they migrate',
     'While several threads insert into a growing concurrent table, no element is lost or duplicated by a migration to a larger table, every insertion returns after finitely many steps, and afterwards the table holds exactly the inserted elements.',
     [S, H], 'all interleavings (up to a preemption bound) of two or three threads whose insertions trigger one or more migrations',
     'Migration happens rarely and the races lie between announcing a new table and entering it; no test controls that schedule.',
     ['include/datastructures/Growing_LP.hxx', 'include/datastructures/LP_Set.hxx', 'include/datastructures/LP_MultiMap.hxx'],
     [('helping migration and table exchange', 'GrowingHashTable::grow, GrowingHashTableHandle')])
prop('H04', 'The bit set is an exact set of small integers',
     'After any sequence of setting, clearing, testing, merging, filtering and resizing, sequentially or through several threads, the bit set holds exactly the bits set and not cleared, counts them exactly and iterates over them in order.',
     [H, S], 'all operation sequences up to a length over positions around word boundaries; interleavings of concurrent setters',
     'Not built here; the word-boundary and last-partial-word cases are what breaks.',
     ['include/datastructures/Bit_Set.hxx'], [('blocks of bits', 'Bit_Set, Concurrent_Bit_Set')])
prop('H05', 'Id-addressed block storage returns what was stored under an id',
     'The block-structured and index-adapting containers return under each valid id exactly the element stored under it, report an id as contained exactly if it lies in one of their blocks, keep this through adding blocks, merging, moving and any lookup hint, and iterate over all elements in order exactly once.',
     [H, I], 'all operation sequences up to a length over non-empty blocks of various sizes and gaps, all lookup hints, all id offsets',
     'One plain use is tested and not built here; stale hints and gaps between blocks are the cases that break.',
     ['include/datastructures/BlockedArray.hxx', 'include/datastructures/BlockedArray2.hxx', 'include/datastructures/VectorAdapter.hxx', 'include/datastructures/VectorAdapter2.hxx', 'include/datastructures/IndexedVector.hxx'],
     [('block search with hint', 'BlockedArray2::_findBlock'), ('offset arithmetic', 'VectorAdapter2')])
prop('H06', 'Parallel ranges cover every element exactly once',
     'However a parallel range over one of the containers is split, its parts together visit every element exactly once and nothing else, splitting terminates, and an empty container yields an empty range.',
     [I, S], 'all small contents of set, map, multimap, bit set, block storage and filtered block storage; all recursive splittings',
     'A test would have to control the splits; runtime scheduling picks a few.',
     ['include/datastructures/LP_Set.hxx', 'include/datastructures/LP_MultiMap.hxx', 'include/datastructures/LP_Map.hxx', 'include/datastructures/Bit_Set.hxx', 'include/datastructures/BlockedArray2.hxx', 'include/datastructures/VectorAdapter2.hxx'],
     [('splitting constructors', 'range_type')])
prop('H07', 'Ids handed out are never in use twice',
     'The id allocators of the triangulation data structure hand out each id to at most one live simplex, reuse released ids, and report a maximum above every id handed out, also when several threads allocate and release at once.',
     [H, S], 'all sequences and interleavings of allocate and release',
     'Not tested; a duplicate id silently merges two simplices.',
     ['include/utils/IndexHandler.h'], [('free list', 'IndexHandler, Concurrent_IndexHandler')])

# ------------------------------------------------------------------ sorting
prop('S01', 'Sorting with attached data keeps pairs together',
     'The fixed-size insertion sort orders the keys ascending and applies the same permutation to the attached data, for every length and every order including duplicates, so that vertex and opposite neighbour stay together.',
     [I], 'all key sequences up to length six over few values (all permutations and ties)',
     'Not tested at all; a wrong inner step only shows for some permutations.',
     ['include/utils/StaticSort.h', 'include/Geometry.h'], [('insertion sort', 'static_insertion_sort_with_data')])
prop('S02', 'Spatial and multi-scale sorting only reorder',
     'Spatial sorting leaves the reserved first slot untouched and returns a permutation of the points, and multi-scale sorting applies the given sort to consecutive pieces that cover the whole range exactly once, for every size, threshold and ratio, where every piece is smaller than the threshold as far as the ratio divides it.',
     [I, S, C], 'all small ranges, thresholds and ratios; all splits and orders of the parallel work',
     'No test calls either; empty pieces, sizes at the threshold and odd counts are the edge cases.',
     ['src/lib/SpatialSort.cpp', 'include/SpatialSort.h', 'include/mods/Multiscale_sort.h'], [('multi-scale recursion', 'Multiscale_sort'), ('Hilbert sort', 'CGALSpatialSorter')])

# ------------------------------------------------------------------ utilities
prop('U01', 'Experiment records survive storing and loading',
     'Writing an experiment record as text and reading it back yields an equal record, with every trait, counter and measurement in order (names and values that contain a separator of the format excepted); two records compare equal exactly if they agree in everything but the fields declared irrelevant, in both directions. The averages are those of the recorded values.',
     [I, H], 'all records built from short sequences of traits, counters and measurements over representative names and values',
     'The test stores a single record with two traits and no measurements.',
     ['include/utils/Timings.h', 'src/utils/Timings.cpp'], [('text format', 'ExperimentRun::str, ExperimentRun(const std::string&)'), ('comparison', 'ExperimentRun::operator==')])
prop('U02', 'Number recognition accepts exactly the numerals',
     'A text is recognised as an integer exactly if it is an optional sign followed by decimal digits, and as a floating point number exactly if it is an optionally signed decimal numeral with optional fraction and optional exponent; nothing else is accepted and nothing of that form is refused.',
     [I], 'all strings up to length six over digits, signs, dot, exponent letters and other characters',
     'The test samples some thirty strings and misses letters or brackets in front of the digits.',
     ['include/utils/Timings.h', 'src/utils/Timings.cpp'], [('regular expressions', 'is_int, is_float')])
prop('U03', 'Concurrent bookkeeping loses no counter increments or measurements',
     'When several threads increment counters and add measurements to the same experiment record, every increment and every measurement is counted exactly once, whatever the schedule.',
     [S], 'all interleavings (up to a preemption bound) of two threads incrementing and measuring under the same and different names',
     'A lost update needs two threads inside the same increment.',
     ['include/utils/Timings.h', 'src/utils/Timings.cpp'], [('concurrent maps', 'ExperimentRun::incCounter, addMeasurement'), ('registry of runs', 'ExperimentRunAccessor')])
prop('U04', 'The log prints exactly the entries of the requested level in order',
     'Printing the log emits the entries at or below the requested verbosity, each once, complete, in the order they were added and with the indentation in force when they were added; a silent log records and prints nothing.',
     [H, S, C], 'all sequences of log, indent, level and print operations up to a length; concurrent writers',
     'No test reads the log back.',
     ['include/utils/Logger.h', 'src/utils/Logger.cpp'], [('log entries', 'Logger::addLogEntry, printLog')])
prop('U05', 'The progress display reaches its end exactly when all work is counted',
     'The progress display counts every increment exactly once, also from several threads, prints one tic per completed fiftieth (up to rounding), never more than the full bar, and completes the bar exactly when the expected count is reached.',
     [H, S], 'all sequences of increments for expected counts up to a bound; interleavings of two incrementing threads',
     'Not tested; the tic arithmetic is only wrong for some counts.',
     ['include/utils/ProgressDisplay.h'], [('tic arithmetic', 'ProgressDisplay::operator+=, display_tic')])
prop('U06', 'Text output is faithful',
     'Separated-value output keeps the order of the fields with exactly one separator between neighbours, and the textual forms of points, vectors, boxes, spheres and simplices show every component in order.',
     [I], 'all short lists over representative fields, all geometric types, dimensions and precisions',
     'No test covers output.',
     ['include/utils/CSV.h', 'src/utils/StringUtils.cxx', 'include/utils/StringUtils.h'], [('CSV stream', 'CSV'), ('to_string', 'StringUtils.cxx')])
prop('U07', 'Stored points and simplices are read back unchanged, or not at all',
     'Reading back what was written, in the binary archive or as a text file of points, yields the same points, bounds, simplices and containers bit by bit; reading a truncated archive or a text file with an incomplete line reports an error instead of returning a partial result silently, and so does storing if the file cannot be written completely.',
     [I, X, F], 'all small point sets and triangulations; every truncation point of the file; every write that fails',
     'No test stores anything.',
     ['include/utils/Serialization.hxx', 'include/Geometry.h', 'include/datastructures/VectorAdapter2.hxx', 'include/datastructures/BlockedArray2.hxx'], [('archives', 'storeObject, loadObject'), ('text points', 'dPoints::loadFromFile')])
prop('U08', 'Generators produce the requested points inside the bounds, reproducibly',
     'Every point generator produces exactly the requested number of points, all within the given bounds and all set, whatever the random numbers are; the same state of the random generator yields the same points and is advanced by it.',
     [I, C], 'all generators, small counts, several bounds and seeds, extreme random numbers at the beginning of the sequence',
     'No test checks a generator; counts that do not divide evenly are the edge cases.',
     ['include/utils/Generator.h', 'include/load_balancing/MaliciousBubbleGenerator.h', 'include/load_balancing/PatchBubbleGenerator.h', 'include/load_balancing/UnboundBubbleGenerator.h'], [('distributions', 'the PointGenerator implementations')])
prop('U09', 'The grid maps every point to the cell that contains it',
     'The grid index of a point names the cell whose box contains the point; a point on a border belongs to the upper cell; index, box and centre of a cell agree with each other, neighbouring cells share their border; and the test of a sphere against a cell answers yes exactly if they meet.',
     [I], 'all points and spheres of a lattice for several cell sizes, 1D to 3D, including negative coordinates and cells far from the origin',
     'The grid test is not built and checks a few spheres.',
     ['include/load_balancing/Grid.h', 'include/load_balancing/dIndex.h'], [('index arithmetic', 'Grid::indexAt, boundsOf, centerOf, diagonalCellLength, intersectsWith')])
prop('U10', 'Integer helpers are exact',
     'Power-of-two test and round-up, power-of-n test, integer logarithms and bit count are exact for every value of every width, and splitting a text at a separator returns exactly its fields.',
     [I], 'all 8 and 16 bit values, all values around powers of two for wider types, all short texts',
     'Not tested.',
     ['include/utils/Misc.h'], [('bit tricks', 'Misc.h')])

prop('U11', 'Timers and diagnostics report exactly what happened',
     'A task timer logs every started period exactly once when it is ended or destroyed, with the rank, the name, begin, end and their difference, and nothing for a period that was never started or while the log is silent. A stack trace names the place it was asked for and lists at most the requested number of frames; host name, time and memory use are those of the system; logging a container prints its elements once, in order.',
     [H, I], 'all sequences of starting, ending and destroying a timer up to a length; all stack depths and frame limits up to a bound; all short containers',
     'No test covers them; restarting, ending twice and destroying a running timer are the cases that break.',
     ['include/utils/TaskTimer.h', 'src/utils/System.cpp', 'src/utils/System.c', 'include/utils/Logger.h'], [('timer', 'TaskTimer'), ('diagnostics', 'print_stacktrace, getDatetime, getCurrentRSS'), ('containers', 'Logger::logContainer')])

prop('E01', 'Experiments write down what happened in each of their runs',
     'An experiment with the load-balanced triangulator writes one well-formed record: its set-up as given (texts without quotes or backslashes) with the number of input points, and for every run the sizes of all leaves of the partition tree that was used, every base triangulation (of leaves, borders and samples) once with its number of points and their total, the number of simplices of the result, the size of a sample that was drawn, and on request whether the result is valid, which it is exactly if it is the Delaunay triangulation. The figures of a run do not depend on earlier runs, and triangulations registered by several threads at once are all recorded.',
     [I, H, S], 'all small point sets with all partition trees of a family, right and wrong intersection tests, samples and partitions of the sample, up to three runs; all interleavings of registering threads up to a preemption bound',
     'No test runs an experiment; several runs, invalid results and concurrent registrations are what goes wrong.',
     ['include/load_balancing/Experiment.h', 'include/load_balancing/monitors/ComprehensiveMonitor.h', 'include/load_balancing/monitors/TimingMonitor.h', 'include/LoadBalancedDCTriangulator.tpp'], [('record', 'Experiment::start, runOnce, verify, finish'), ('bookkeeping', 'ComprehensiveMonitor, registration in the triangulator and the sampling partitioners')])

prop('E02', 'Command line options select the parts they name',
     'The options of the experiment programs yield what they name: the partitioner with its sample size, edge weights, imbalance, mode of the graph partitioner, intersection tests and cell width, split dimension, recursion depth for the number of threads and the library cutoff, flattened or not; and the point distribution with its number of bubbles and radius. What is not given has its documented default. An option naming nothing, a combination that excludes itself and a missing necessary option are refused with an error (an unknown mode of the graph partitioner is reported and replaced).',
     [I], 'all combinations of the values of up to three (thorough: five) options over all partitioners, dimensions and thread counts, compared with parts built by hand on point sets below and above the cutoff; all generator options',
     'No test passes a command line; what a wrong option does is decided by a combination of several of them.',
     ['include/load_balancing/CommandLineInterface.h', 'include/load_balancing/sample_partitioner/Sampler.h', 'include/load_balancing/OldPartitionerPartitioner.h'], [('parts', 'createPartitioner, createIntersectionPartitionMakerFunction, createGenerator, defaultOptions')])
prop('E03', 'Programs do what their command line asks for',
     'LBExperiments runs one experiment with the dimension, points (generated, or all of a file), partitioner, threads, seed, validation and verbosity asked for and its record says so; the same command line yields the same result, and so does naming the default seed, while the seed does reach the random choices. LBPointDump prints exactly the points of the distribution asked for. Both print their options on request, and end with an error and without a result if something necessary is missing or names nothing.',
     [I, H], 'all combinations of the options of the programs over families of values, each run in this process from main on, with a littered stack for what is never set',
     'No test runs a program; unset variables and options read too early show up only in some runs.',
     ['src/exe/LB_Experiments.cpp', 'src/exe/LB_PointDump.cpp'], [('LBExperiments', 'main, execute'), ('LBPointDump', 'main')])
prop('E04', 'Benchmarks generate and run exactly the experiments asked for',
     'From its options the Benchmark program generates every combination of distribution, number of points (from the least to the largest in steps of the leading digit), algorithm, threads (doubling between the bounds), occupancy and parallel base and edge that applies, each exactly once and no other; what --gen-only prints reads back as the same experiments. Experiments given as a string, from a file (in order, or in reverse) or generated are each run as often as asked with the traits given, and the reported RESULT carries these traits, the times, the memory and the number of simplices of the Delaunay triangulation. It ends, whatever the options: those that describe nothing that could be run are refused with an error and no result.',
     [I, H], 'all combinations of the options over families of values, against an independent enumeration of the grid; every sequence of experiments of a file up to a length; each run in this process from main on',
     'No test runs the program; a missing or doubled combination shows up only in the evaluation of the results.',
     ['src/exe/Benchmark.cpp', 'src/utils/Timings.cpp'], [('Benchmark', 'main, generateExperimentRuns, runExperiments, runExperiment'), ('ExperimentRun', 'str, ExperimentRun(string)')])

if __name__ == '__main__':
    for d in P:
        print(json.dumps(d))
