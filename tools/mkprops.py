#!/usr/bin/env python3
# Generates /verif/properties.jsonl (kept committed; run by hand when the list changes).
import json, os
P=[]
def prop(id,title,statement,over,text,why,files,mech,observe=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],hook_needed=None)))
DS='include/datastructures/'
LB='include/load_balancing/'
prop('C01','Sequential id set behaves as a mathematical set',
 'After any sequence of insertions of non-zero keys into a sequential linear-probing id set, insert reports true exactly for keys not yet present, contains/count report true exactly for inserted keys, size equals the number of distinct keys, and iteration yields each of them exactly once. A growing set keeps all of this across its own growth, explicit rehashing and copying, and every such call terminates.',
 ['inputs','histories'],'every sequence of keys, every hash multiplier and initial capacity',
 'unit tests insert 60 random keys in a half-empty 128-slot table with one hash multiplier; collisions, wrap-around, boundaries of growth and tiny tables are never reached (and that suite does not even build here)',
 [DS+'LP_Set.hxx'],[('LP_Set::insert/contains/rehash/copy',DS+'LP_Set.hxx'),('_detail::iterator',DS+'LP_Set.hxx')])
prop('C02','Sequential id map behaves as a map from keys to values',
 'After any sequence of insertions into a sequential linear-probing map, the last value inserted for a key is the value looked up for it, insert reports true exactly for keys not yet present (a repeated insertion updates the value and reports false), keys never inserted look up as absent, and the size and iteration agree with the distinct keys inserted. A growing map keeps all of this across its own growth, and every such call terminates.',
 ['inputs','histories'],'every sequence of (key, value) pairs with non-zero keys and values, every hash multiplier and initial capacity',
 'tests exercise only the concurrent variant at low load with random keys',
 [DS+'LP_Map.hxx'],[('LP_Map::insert/get/contains/rehash',DS+'LP_Map.hxx')])
prop('C03','Sequential multimap returns all and only the values of a key',
 'After any sequence of insertions into a sequential linear-probing multimap, the range looked up for a key enumerates exactly the multiset of values inserted under that key, and membership, size and full iteration agree with what was inserted. A growing multimap keeps all of this across its own growth, and every such call terminates.',
 ['inputs','histories'],'every sequence of (key, value) pairs with non-zero keys, every hash multiplier and initial capacity',
 'tests exercise only the concurrent variant at low load with random keys, so two colliding keys interleaved in one probe run are never seen',
 [DS+'LP_MultiMap.hxx'],[('LP_MultiMap::insert/get',DS+'LP_MultiMap.hxx')])
prop('C04','Merging and filtering id containers computes union and difference',
 'Merging one hash set, map or multimap into another leaves exactly the union of their contents (on duplicate map keys the value of one of the operands), filtering against a set keeps exactly the members whose membership in the filter is the requested one, and a merge with a filter is the filtered union. This holds for the sequential and the concurrent-capable containers, including empty operands, and conversions between the two kinds preserve the contents.',
 ['inputs','histories'],'every contents of both operands and of the filter, every hash multiplier and table capacity',
 'tests merge only disjoint random sets of 60 keys, without filter',
 [DS+'LP_Set.hxx',DS+'LP_Map.hxx',DS+'LP_MultiMap.hxx'],[('merge / filter / rehash with filter',DS+'LP_Set.hxx'),('Concurrent_LP_Set::unsafe_merge / unsafe_rehash',DS+'LP_Set.hxx')])
prop('C05','Concurrent insertion in a hash container is atomic',
 'When several threads insert into one concurrent hash set, map or multimap below its capacity, each distinct set or map key is won by exactly one insertion and every multimap pair is stored exactly once, under every interleaving; afterwards all inserted items are found, nothing else is, and the size equals the number of successful insertions. A lookup running meanwhile never reports an item nobody inserted and always reports an item whose insertion finished before it started.',
 ['schedules','inputs'],'every interleaving of the atomic steps of two or three threads (sequentially consistent), every choice of keys',
 'the only concurrent test hammers random keys and compares totals; the few-instruction windows between probe and claim are hit by chance only',
 [DS+'LP_Set.hxx',DS+'LP_Map.hxx',DS+'LP_MultiMap.hxx'],[('Concurrent_LP_Set::_insert (CAS on slot)',DS+'LP_Set.hxx'),('Concurrent_LP_Map::_insert',DS+'LP_Map.hxx'),('Concurrent_LP_MultiMap::_insert',DS+'LP_MultiMap.hxx')])
prop('C06','Growing a shared hash table neither loses nor duplicates items',
 'When a growing shared hash table outgrows its current table, every item inserted before the growth is afterwards found exactly once through every handle, including handles opened before the growth, and the size equals the number of distinct items. This holds whatever the division of the migration work among the participating handles.',
 ['schedules','inputs','histories'],'every sequence of insertions through one or more handles crossing several growths, every key choice and hash multiplier',
 'one test inserts consecutive integers in parallel and only checks the end state of one schedule',
 [DS+'Growing_LP.hxx',DS+'LP_Set.hxx',DS+'LP_Map.hxx',DS+'LP_MultiMap.hxx'],[('GrowingHashTableHandle::grow/help/insert',DS+'Growing_LP.hxx'),('_migrate / copy of blocks',DS+'LP_Set.hxx')])
prop('C07','Bit set operations match set semantics and counts',
 'For a bit set over any index interval, inserting, testing, batch setting of an index range, resizing, merging with another bit set and filtering by one have the effect of the same operations on a plain set of indices, and size is always the number of contained indices. Indices outside a touched range keep their state.',
 ['inputs','histories'],'every interval bounds, index, batch range and operand contents',
 'tests use a handful of fixed ranges on sets starting at 0; ranges not aligned to machine words, sets with different bounds and non-empty receivers are unsampled',
 [DS+'Bit_Set.hxx'],[('Bit_Set::insert/batchSet/resize/merge/filter',DS+'Bit_Set.hxx')])
prop('C08','Concurrent bit set insertion is atomic',
 'When several threads insert indices into one concurrent bit set, every index inserted is contained afterwards, no other index is, each index is reported as new to exactly one inserter, and size equals the number of distinct indices.',
 ['schedules','inputs'],'every interleaving of the atomic steps of two threads, every pair of indices (also sharing a machine word)',
 'the concurrent test inserts random indices in a large set so that words are practically never contended',
 [DS+'Bit_Set.hxx'],[('Concurrent_Bit_Set::insert',DS+'Bit_Set.hxx')])
prop('C09','Parallel ranges visit every element exactly once',
 'However a container range is split for parallel processing, the leaf ranges together enumerate every stored element exactly once and nothing else, for hash sets, maps, multimaps, bit sets and the simplex store, including empty ones, sparse ones and ones with holes between blocks.',
 ['inputs','schedules'],'every pattern of occupied slots and every splitting decision',
 'tests split one dense container with the scheduler-chosen split tree; sparse patterns around a midpoint are not covered',
 [DS+'LP_Set.hxx',DS+'BlockedArray2.hxx',DS+'Bit_Set.hxx'],[('range_type (splitting constructor, set_midpoint, is_divisible)',DS+'LP_Set.hxx'),('iterator advance/half',DS+'BlockedArray2.hxx')])
prop('C10','Blocked arrays keep element values and reject bad indices',
 'In a blocked array every index below the reserved size addresses its own element, a written value is read back until overwritten, also across later reservations, and the checked accessor throws out_of_range for exactly the indices beyond the allocated blocks.',
 ['inputs','histories'],'every index and value, sizes around block boundaries, sequences of writes and reserves',
 'tests write consecutive indices only and never use the checked accessor or a block boundary index out of range',
 [DS+'BlockedArray.hxx'],[('BlockedArray::operator[]/at/reserve',DS+'BlockedArray.hxx'),('Concurrent_BlockedArray',DS+'BlockedArray.hxx')])
prop('C11','Simplex store maps each id to one slot and survives merging',
 'A simplex store built for an id interval gives each id of the interval its own slot and reports out_of_range for ids in no block; after merging stores with disjoint intervals in any order every id still addresses the same content, bounds cover all blocks, lookups through a handle with any previous access history agree with lookups without one, and iteration yields exactly the slots of all blocks in ascending id order.',
 ['inputs','histories'],'every set of disjoint id intervals, merge order and lookup sequence',
 'the test merges exactly two adjacent blocks in ascending order',
 [DS+'BlockedArray2.hxx'],[('BlockedArray2::unsafe_at/merge, handles with block hints',DS+'BlockedArray2.hxx')])
prop('C12','Points are addressable by id, with infinite ids apart',
 'A point container addresses finite ids and infinite (reserved top-of-range) ids in disjoint slots, writing one id never changes another, growing preserves all points, and the number of finite points excludes the infinite ones. Whether an id is finite depends only on it being below the reserved range.',
 ['inputs','histories'],'every id, coordinate value and order of resizes and writes',
 'tests only use small consecutive ids',
 [DS+'VectorAdapter2.hxx','include/Geometry.h'],[('VectorAdapter2::operator[]',DS+'VectorAdapter2.hxx'),('dPoint::isFinite, cINF','include/Geometry.h')])
prop('C13','Integer helper functions are exact over the whole width',
 'For every unsigned machine integer, rounding up to a power of two returns the smallest power of two not below it whenever that is representable, the power-of-two test, integer logarithm and population count return their mathematical values, and the fixed-size sort sorts every array, keeping an accompanying data array paired with its keys.',
 ['inputs'],'every 8/16/32/64-bit value; every array content of the sizes used',
 'there are no tests for them; word-width corner cases are not sampled',
 ['include/utils/Misc.h','include/utils/StaticSort.h'],[('nextPow2,isPow2,log2,popcount','include/utils/Misc.h'),('static_insertion_sort(_with_data)','include/utils/StaticSort.h')])
prop('C14','Simplex identity does not depend on vertex order',
 'The fingerprint of a simplex depends only on its vertex set, equal vertex sets are recognised as equal, and a simplex contains a point id exactly when it is one of its vertices. Two simplices are neighbours exactly when they share exactly D vertices, and whenever they do, the fingerprints of the shared face computed from either side agree; sorting vertices keeps each neighbour paired with its opposite vertex.',
 ['inputs'],'every choice of vertex ids (finite and infinite), every order, dimensions 2 and 3',
 'one test compares a handful of concrete simplices',
 ['include/Geometry.h'],[('dSimplex::genFingerprint/faceFingerprint/equalVertices/isNeighbor/contains/sortVertices','include/Geometry.h')])
prop('C15','Box tests are exact on every coordinate',
 'A box contains a point, box or sphere exactly when it does geometrically (boundaries included), overlap of two boxes is symmetric and holds exactly when they share a point, a sphere is reported to intersect a box exactly when the box has a point within the radius, and subtracting one half of a box cut by an axis-parallel plane yields the other half.',
 ['inputs'],'every finite coordinate for comparisons; every bounded integer coordinate for arithmetic tests; dimensions 2 and 3',
 'only box subtraction is tested, on three examples',
 ['include/Geometry.h'],[('dBox::contains/intersects/operator-','include/Geometry.h')])
prop('C16','Point statistics are the exact bounding box of the points',
 'The statistics of a non-empty set of finite points give, per dimension, exactly the smallest and largest coordinate and the midpoint between them, ignoring infinite points; the result does not depend on how the points are divided among threads and agrees between the sequential and the parallel computation. Points loaded from file get a bounding box that is exactly theirs.',
 ['inputs','schedules'],'every coordinate (in particular all-negative ones), every splitting of the range',
 'the only test draws points uniformly in [0,100], so a wrong initial maximum cannot show',
 ['include/Partitioner.h','src/lib/Partitioner.cpp','include/Geometry.h'],[('getPointStats, getPointStatsSeq, dPointStats','include/Partitioner.h')])
prop('C17','Classic partitioners put every point in exactly one partition',
 'Each classic splitter (d-way, one-dimensional, cycling, longest-extent) assigns every finite input point to exactly one partition, a partition whose box contains it, and adds all infinite points to every partition; the partition boxes tile the bounding box of the points.',
 ['inputs','schedules'],'every bounded set of points (any ids, any coordinates incl. duplicates and negative ones) and recursion level',
 'no test partitions anything; points on a splitting plane or outside the positive quadrant are unsampled',
 ['src/lib/Partitioner.cpp','include/Partitioner.h'],[('dWayPartitioner/OneDimPartitioner/CyclePartitioner/ExtendPartitioner::partition','src/lib/Partitioner.cpp')])
prop('C18','Partition lookup agrees with the partitions',
 'Looking up the partition of a point id returns a partition holding that id, a simplex is reported inside a partition exactly when all its vertices are, and partially inside exactly when at least one finite vertex is in it and at least one is not, with infinite vertices never deciding.',
 ['inputs'],'every assignment of ids to partitions and every simplex over them',
 'no test covers lookups',
 ['include/Partitioner.h','src/lib/Partitioner.cpp'],[('Partitioning::partition, Partition::contains/isPartiallyInside','include/Partitioner.h')])
prop('C19','Grid cells and points agree',
 'A uniform grid assigns every point to exactly one cell, whose box contains the point, neighbouring cells tile space without overlap, the cell box has the grid width, and a cell is reported as touched by a sphere exactly when the sphere reaches into its box.',
 ['inputs'],'every grid width and point within the stated coordinate bounds, both signs, dimensions 2 and 3',
 'the test checks about twenty fixed points on two grids',
 [LB+'Grid.h',LB+'BoxUtils.h'],[('Grid::indexAt/boundsOf/centerOf/intersectsWith',LB+'Grid.h')])
prop('C20','Box helper geometry is exact',
 'The vector from a point to a box is zero exactly inside the box and otherwise leads to the nearest point of the box, the bounding box of a non-empty point sequence is the smallest box containing it, splitting a box at an inner plane yields two boxes that tile it, and vector arithmetic is component-wise.',
 ['inputs'],'every bounded point, box and plane position; dimensions 2 and 3',
 'there are no tests',
 [LB+'BoxUtils.h',LB+'VectorOperations.h'],[('vecToBox, vecToBoxBoundary, makeBoundingBox, splitBox',LB+'BoxUtils.h'),('operator+,-,*, lenSquared',LB+'VectorOperations.h')])
prop('C21','Cell tree answers sphere queries like the plain list of cells',
 'A hierarchy of cells built from any list of cells reports an intersection with a sphere exactly when at least one listed cell intersects it, and visits precisely those cells; building it from the cells in any order, copying or moving it does not change its answers.',
 ['inputs','histories'],'every small list of grid cells and every sphere within the coordinate bounds',
 'there are no tests',
 [DS+'AABBTree.h',LB+'Grid.h'],[('AABBTree / TreeNode::insert/split/intersects',DS+'AABBTree.h')])
prop('C22','Intersection checkers never miss a touched partition',
 'A partition region check (bounding box, grid cells, accurate grid) answers true for every sphere that reaches into the region of the partition it describes, in particular for every sphere strictly containing one of its points, and copying a checker preserves its answers and bounds.',
 ['inputs'],'every bounded point set and sphere',
 'there are no tests; a checker that misses drops simplices from the border only for rare configurations',
 [LB+'BoundsIntersectionChecker.h',LB+'GridIntersectionChecker.h',LB+'AccurateGridIntersectionChecker.h'],[('intersects / contains / bounds / copy',LB+'IntersectionChecker.h')])
prop('C23','Partition makers split points as the assignment says',
 'Given any assignment of finite points to partitions, the point-assigning partition makers return one entry per partition holding exactly the points assigned to it plus every infinite point, with a region description covering all of its points.',
 ['inputs','schedules'],'every assignment of up to a few points with arbitrary coordinates, every split of the parallel loop',
 'there are no tests',
 [LB+'BoundsIntersectionChecker.h',LB+'GridIntersectionChecker.h',LB+'AccurateGridIntersectionChecker.h'],[('BoundsIntersectionPartitionMaker, GridIntersectionPartitionMaker, AccurateGridIntersectionPartitionMaker','see files')])
prop('C24','Partition trees keep their points when reshaped',
 'Collecting a partition tree yields the union of the point ids of all its leaves, flattening keeps exactly the leaves in order, copying yields an equal independent tree, and conversion to a flat partitioning keeps points, bounds and order.',
 ['inputs'],'every tree shape up to the stated size and every placement of ids',
 'there are no tests',
 [LB+'PartitionTree.h'],[('PartitionTree::collect/flatten/copy, toOldPartitioning',LB+'PartitionTree.h')])
prop('C25','Sample graph is a well-formed symmetric weighted graph',
 'The graph built from a sample triangulation is in valid compressed form, has exactly one entry in each direction for each pair of finite sample points sharing a simplex and no loops, and carries equal weights in both directions, which follow the configured weight function scaled to 1..99 (all one if uniform); a sample consists of as many distinct finite points of the input as asked for, or of all of them.',
 ['inputs','schedules'],'every small sample triangulation, id assignment and split of the parallel loops',
 'there are no tests; malformed graphs silently degrade or crash the external graph partitioner',
 [LB+'sample_partitioner/Sampler.h'],[('Sampler::makeGraph / generateIdTranslation / generateSample',LB+'sample_partitioner/Sampler.h')])
prop('C26','Load-balancing partitioners lose and duplicate no point',
 'The load-balancing partitioners (k-way, sample box estimation, box- and center-distance, nearest-sample, hyperplane) put every finite input point in exactly one leaf and every infinite point in all leaves, and the region of every partition, at every level, covers its points.',
 ['inputs','schedules'],'every small point set and every outcome of the external sampling and graph partitioning',
 'there are no tests, and the external graph partitioner is not even available here',
 [LB+'kWaySplitter.h',LB+'OldPartitionerPartitioner.h',LB+'sample_partitioner/'],[('partition() of each partitioner','see files')])
prop('C27','Planar orientation test has the exact sign',
 'The planar orientation predicate returns a value whose sign (or zeroness) is that of the exact determinant of the given floating-point coordinates, so swapping two points flips the sign and cyclic shifts keep it.',
 ['inputs'],'all coordinates within the stated encodings: bounded integers, and bases with ulp-sized perturbations that force the adaptive stages',
 'no test calls it on near-degenerate input; wrong tails or error bounds show only in inputs within a few ulps of collinear',
 ['src/utils/Predicates.cpp'],[('orient2d, orient2dadapt','src/utils/Predicates.cpp')])
prop('C28','Spatial orientation and in-sphere tests have the exact sign',
 'The spatial orientation predicate and the planar and spatial in-sphere predicates return a value whose sign (or zeroness) is that of the exact determinant of the given floating-point coordinates.',
 ['inputs'],'all coordinates within the stated encodings',
 'one test checks two far-away points',
 ['src/utils/Predicates.cpp'],[('orient3d, incircle, insphere and their adaptive stages','src/utils/Predicates.cpp')])
prop('C29','Exact expansion arithmetic loses no bit',
 'The expansion arithmetic underlying the adaptive predicates is error-free: summing two expansions, scaling an expansion and removing zero components preserve the represented value exactly, produce components in increasing magnitude without overlap, and the estimate of an expansion has the sign of its value.',
 ['inputs'],'all expansions within the stated component count and precision',
 'no test reaches the expansion routines',
 ['src/utils/Predicates.cpp'],[('fast_expansion_sum_zeroelim, scale_expansion_zeroelim, estimate','src/utils/Predicates.cpp')])
prop('C30','Simplex point tests agree with exact geometry',
 'For a non-degenerate simplex, whatever the order of its vertices, the in-sphere test holds exactly for points inside or on the circumscribed sphere as the code documents it, the in-simplex test holds exactly for points of the closed simplex, and the nearest vertex returned is at minimal distance.',
 ['inputs'],'every bounded integer coordinate; dimensions 2 and 3; both orientations',
 'tests check under ten hand-picked points',
 ['src/lib/Geometry.cpp','include/Geometry.h'],[('dSimplex::inSphere/orientation/inSimplex/findNearestVertex','src/lib/Geometry.cpp')])
prop('C31','Circumsphere and face distance have their geometric values',
 'The circumsphere of a non-degenerate simplex is equidistant from all its vertices up to rounding, and the squared distance of a point to the plane of a face equals its geometric value up to rounding.',
 ['inputs'],'every bounded integer coordinate; dimensions 2 and 3',
 'no test calls either',
 ['src/lib/Geometry.cpp'],[('dSimplex::circumsphere, sqDistanceToFace','src/lib/Geometry.cpp')])
prop('C32','Point location walk ends at the containing simplex',
 'Locating a point by walking a valid triangulation terminates and returns a simplex containing the point whenever one exists.',
 ['inputs'],'every bounded position of the query point over the stated triangulations',
 'tests query three points in two triangles',
 ['src/lib/Geometry.cpp','include/Geometry.h'],[('dSimplices::findNearestSimplex','include/Geometry.h')])
prop('C33','Self-verification accepts valid and rejects broken triangulations',
 'For points in general position the verifier accepts every triangulation that is consistent and Delaunay (with or without the surrounding infinite points, with or without an explicit point set), and rejects one in which a simplex is non-Delaunay, a neighbour link is missing, one-sided or leads to a missing or non-adjacent simplex, a simplex is stored twice, the hull list lacks an infinite simplex or names a finite one, or a given point lies in no simplex; comparison with a reference reports equality exactly when both hold the same simplices.',
 ['inputs','histories'],'every corruption of the stated kinds at every position of the stated triangulations, every bounded point position',
 'no test runs the verifier; a verifier that never fails makes every experiment look right',
 ['src/lib/Geometry.cpp','include/Geometry.h'],[('dSimplices::verify, crossCheck','src/lib/Geometry.cpp')])
prop('C34','Border extraction keeps everything the merge must redo',
 'Extracting the border of a partial triangulation selects every hull simplex, and every simplex adjacent to a selected one, whose circumscribed sphere reaches into another partition, together with all their vertices and all infinite points, and selects nothing else; the traversal order does not change the result.',
 ['inputs','schedules'],'every small triangulation adjacency, every outcome of the sphere tests and every processing order',
 'no test covers it; a missed simplex corrupts the result only for rare point sets',
 ['src/lib/DCTriangulator.cpp','include/LoadBalancedDCTriangulator.tpp'],[('getEdge','src/lib/DCTriangulator.cpp')])
prop('C35','Neighbour repair after merging links all and only shared faces',
 'After merging partial and border triangulations, the neighbour repair leaves two simplices linked exactly when they share a face, links both directions, and leaves an infinite link only on faces shared by no other simplex.',
 ['inputs','schedules'],'every small set of simplices, damaged neighbour slots and processing order',
 'no test covers it',
 ['src/lib/DCTriangulator.cpp','include/LoadBalancedDCTriangulator.tpp'],[('updateNeighbors, buildWhereUsed','src/lib/DCTriangulator.cpp')])
prop('C36','Merging keeps exactly the simplices of the whole triangulation',
 'Merging drops exactly the border simplices of the partial triangulations and adds exactly those border-triangulation simplices that span partitions or re-create a dropped one, each once, so that the merged triangulation has no duplicate and no missing simplex, and its hull list names the hull simplices.',
 ['inputs','schedules'],'every small combination of partial triangulations, border set and border triangulation',
 'no test covers it',
 ['src/lib/DCTriangulator.cpp','include/LoadBalancedDCTriangulator.tpp'],[('mergeTriangulation','src/lib/DCTriangulator.cpp')])
prop('C37','Experiment records survive printing and parsing',
 'Parsing the printed form of an experiment record yields an equal record for all traits whose names and values do not contain the separators, with default or custom separators; equality ignores exactly the bookkeeping fields and is otherwise trait by trait.',
 ['inputs'],'every trait name and value string within the length bound, number of traits up to the bound',
 'the tests store and load two fixed records',
 ['include/utils/Timings.h','src/utils/Timings.cpp'],[('ExperimentRun::str, parsing constructor, operator==','src/utils/Timings.cpp')])
prop('C38','Experiment counters and measurements add up',
 'A counter equals the sum of its increments, the measurements of a name are those added in order and their average is their integer mean, adding an existing trait leaves it unchanged while updating replaces it, and names never interfere.',
 ['inputs','histories'],'every sequence of operations with arbitrary values up to the bound',
 'no test covers counters or measurements',
 ['include/utils/Timings.h','src/utils/Timings.cpp'],[('addTrait/updateTrait/addMeasurement/incCounter/avgMeasurement','include/utils/Timings.h')])
prop('C39','Number recognition accepts exactly numbers',
 'A string is recognised as an integer exactly when it is an optional sign followed by decimal digits, and as a floating-point number exactly when it is a decimal number with optional sign, fraction and exponent; splitting a string at a delimiter returns its fields in order, optionally without the empty ones.',
 ['inputs'],'every string up to the length bound over the whole character set',
 'the test tries a dozen strings',
 ['include/utils/StringUtils.h','include/utils/Misc.h'],[('is_int, is_float','include/utils/StringUtils.h'),('split','include/utils/Misc.h')])
prop('C40','Point generators fill the requested ids inside the bounds',
 'Every point generator produces exactly the requested number of points, at consecutive ids from one, each within the requested bounds (which are at least two bubble radii wide for the bubble generators), whatever the random source returns.',
 ['inputs'],'every outcome of the random source, bounds and small point counts',
 'only the uniform generator is used by tests, without checking bounds',
 ['include/utils/Generator.h',LB+'PatchBubbleGenerator.h',LB+'MaliciousBubbleGenerator.h',LB+'UnboundBubbleGenerator.h'],[('_gen of each generator','include/utils/Generator.h')])
prop('C41','Simplex ids handed out are unique while in use',
 'The index handlers never hand out an id that is currently in use, always hand out an id below the reported maximum, and reuse released ids before growing, until disabled; the concurrent one under every interleaving.',
 ['histories','schedules'],'every sequence of acquire and release up to the bound, every interleaving of two threads',
 'no test covers it',
 ['include/utils/IndexHandler.h','include/utils/MakeIds.h'],[('IndexHandler, Concurrent_IndexHandler','include/utils/IndexHandler.h')])
prop('C42','Simplex collections filter, merge and iterate consistently',
 'Filtering a triangulation hides exactly the given simplices from iteration, lookup and counts, merging triangulations keeps all simplices and both hull lists, moving a store keeps it, a merged triangulation is marked at least as high as either, and the fingerprint table, simplex comparisons and the list of all point ids are those implied by the stored vertices.',
 ['inputs','histories'],'every small triangulation and filter set',
 'no test covers it',
 ['include/Geometry.h','src/lib/Geometry.cpp',DS+'BlockedArray2.hxx'],[('dSimplices::merge/filter/countDuplicates/genNeighbors','include/Geometry.h')])
prop('C43','Divide and conquer yields the triangulation of the whole',
 'Triangulating by partitioning, solving the parts, extracting and solving the border and merging yields the same set of simplices, with the same neighbour links, as triangulating all points (in general position) at once, for every partitioner and recursion depth and wherever the data lies, given a correct base solver.',
 ['inputs','schedules','configurations'],'every point set in general position',
 'no test runs a triangulation',
 ['src/lib/DCTriangulator.cpp','src/lib/CGALTriangulator.cpp','include/LoadBalancedDCTriangulator.tpp'],[('DCTriangulator::_triangulate','src/lib/DCTriangulator.cpp')])
prop('C44','Parallel base solver is a valid Delaunay triangulation',
 'The base solvers (sequential and parallel) return, for every point set, a valid Delaunay triangulation with unique simplex ids, sorted vertices and mutual neighbours.',
 ['inputs','schedules'],'every point set and interleaving',
 'no test runs it',
 ['src/lib/CGALTriangulator.cpp','include/mods/'],[('CGALTriangulator, Indexed_Triangulation_data_structure_2/3','src/lib/CGALTriangulator.cpp')])
prop('C45','Load-balanced divide and conquer yields the triangulation of the whole',
 'The load-balancing triangulator yields the same set of simplices with the same neighbour links as triangulating all points (in general position) at once, for every partition tree, of any depth and with regions of any kind, whose partitions do not reach into the convex hull of the points of another, whether base cases and borders are divided further or not, given a correct base solver.',
 ['inputs','schedules','configurations'],'every point set in general position, every division of it into partitions',
 'no test runs a triangulation',
 ['include/LoadBalancedDCTriangulator.tpp','include/load_balancing/PartitionTree.h'],[('LoadBalancing::DCTriangulator::recursiveTriangulate','include/LoadBalancedDCTriangulator.tpp')])
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for p in P:
        assert len(p['title'])<=80,(p['id'],len(p['title']))
        f.write(json.dumps(p)+'\n')
print(len(P))
