# Check table: property -> jobs. Each job is one harness run for several parameter lists.
def J(name,h,params,bounds,time=25,tparams=None,ttime=240,**kw):
    d=dict(name=name,h=h,params=params,bounds=bounds,time=time,ttime=ttime,**kw)
    if tparams is not None: d['tparams']=tparams
    return d
CHECKS={}
CHECKS['C01']=dict(jobs=[J('lpset','c01',[[0,3,2],[0,3,4],[1,3,4],[2,3,4],[3,3,4],[4,1,2,4],[4,1,4,2],[5,1,2],[6,1,2],[7,2,4],[0,3,1],[8,1,0],[0,1,1]],
  'all 32-bit non-zero keys, all odd 32-bit hash multipliers; n inserts (n<=3 quick, 4 thorough) into initial capacities 1..8; operations: insert, contains/count (an arbitrary probe key), size, empty, iteration, cell access, rehash, copy, move, equality',
  tparams=[[0,4,2],[0,4,4],[0,3,1],[1,3,2],[1,3,1],[2,4,8],[3,4,8],[4,2,4,8],[4,2,4,4],[4,2,2,8],[5,2,4],[5,2,2],[6,2,2],[7,2,4],[7,3,4],[8,3,0]])])
CHECKS['C02']=dict(jobs=[J('lpmap','c02',time=40,params=[[0,1,1],[0,2,1],[0,2,2],[0,3,4],[1,2,2],[2,1,2,4],[3,1,2]],
  bounds='all 32-bit non-zero keys and values, all odd hash multipliers; n<=3 inserts (updates included) into capacities 1..4; get/contains/count of an arbitrary probe key, size, iteration, rehash, move',
  tparams=[[0,3,1],[0,3,2],[0,3,4],[0,4,8],[1,3,4],[1,3,1],[2,2,4,4],[2,2,4,8],[3,2,2]])])
CHECKS['C03']=dict(jobs=[J('lpmm','c03',[[0,1,1],[0,2,1],[0,2,2],[0,3,4],[1,3,4],[2,1,2,4],[3,1,2]],
  'all 32-bit non-zero keys and values, all odd hash multipliers; n<=3 inserts into capacities 1..4; get (range of an arbitrary probe key), contains/count, size, iteration, rehash, move',
  tparams=[[0,3,1],[0,3,2],[0,3,4],[0,4,8],[1,3,4],[1,3,1],[2,2,4,4],[2,2,4,8],[3,2,2]])])
CHECKS['C04']=dict(jobs=[J('merge','c04',[[0,1,1,0,2,2,0],[0,2,1,0,4,2,1],[1,1,1,1,2,2,0],[1,0,0,1,2,2,0],[2,1,1,1,2,2,0],[3,2,0,1,4,2,0],[4,1,1,0,2,2,0],[5,1,1,1,2,2,1],[6,1,1,0,2,2,0],[7,1,1,1,2,2,0],[8,1,1,1,2,2,0],[8,0,0,1,2,2,0],[11,1,1,1,2,2,0],[12,1,0,0,4,2,0],[13,1,1,0,2,2,1],[14,1,1,1,2,2,0],[15,1,1,0,2,2,1],[16,1,1,0,2,2,0],[17,1,1,1,2,2,1]],
  'all 32-bit non-zero keys/values, all odd hash multipliers (equal or different per table); up to 2+1 keys and 1 filter key, capacities 2..4; sequential set/map/multimap merge with and without filter and polarity, concurrent set/map/multimap unsafe_merge over every two-way split of the parallel loop, unsafe_copy and the conversions',time=45,
  tparams=[[0,2,2,0,4,4,1],[1,2,1,1,4,2,1],[2,2,1,1,4,2,0],[3,2,0,2,4,2,0],[4,2,1,0,4,2,1],[5,2,1,1,4,2,0],[6,2,1,0,4,2,0],[7,2,1,1,4,2,1],[8,2,1,1,4,2,1],[9,1,1,0,2,2,1],[10,1,1,1,2,2,0],[11,2,1,1,4,2,0],[12,2,0,0,4,2,0]],ttime=300),
 J('cmapmerge','c04',[[9,1,1,0,2,2,1],[10,1,1,1,2,2,0]],'concurrent map merge, one key each, as above',time=40)])
CHECKS['C05']=dict(jobs=[J('set2','c05',[[0,4,0,2,1,0],[1,4,0,2,1,0],[0,4,1,1,1,1],[1,4,1,1,1,1]],'concurrent sets: 2 threads, one insertion each (or one inserter and one reader doing two lookups after one earlier insertion), capacity 4, all 32-bit keys, all odd multipliers, at most 2 preemptions, data races checked',race=True,
   tparams=[[0,4,0,3,1,0],[1,8,0,3,1,0],[0,8,0,2,2,0],[1,8,0,2,2,0],[0,4,1,2,1,1],[1,8,2,2,1,1]],ttime=400,tpre=3),
 J('map2','c05',[[2,4,0,2,1,0],[2,4,0,1,1,2],[3,4,0,2,1,0],[2,4,1,1,1,2],[3,4,1,1,1,1]],'concurrent map and multimap, as above; looked-up values must be 0 or inserted ones',race=True,
   tparams=[[2,4,0,3,1,0],[2,8,0,2,2,0],[3,4,0,3,1,0],[3,8,0,2,2,0],[2,4,1,1,1,2],[2,4,0,2,1,2]],ttime=400,tpre=3)])
G=['-DPDT_VERIF_BLOCKSIZE=2']
CHECKS['C06']=dict(jobs=[J('growseq','c06',[[0,0,2,3,2,0],[0,1,2,2,2,0],[0,2,2,2,2,0],[0,0,2,2,3,0]],'growing set/map/multimap: 3 insertions alternating over 2 or 3 handles opened before the first growth, initial capacity 2 (two growths), all 32-bit keys and values, all odd multipliers of the first table (later tables draw theirs from the seeded generator), migration blocks of 2 cells (hook)',defs=G,time=40,
   tparams=[[0,0,2,4,2,0],[0,1,2,4,2,0],[0,2,2,4,2,0],[0,0,4,4,3,0],[0,1,2,3,3,0]],ttime=400),
 J('growmt','c06',[[1,0,4,2,2,1],[1,1,4,2,2,1],[1,2,4,2,2,1],[1,0,4,2,2,5],[1,1,4,2,2,5]],'two threads hitting a full table at once and sharing the migration; concrete distinct keys, at most 1 preemption (2 thorough), data races checked',defs=G,race=True,pre=1,tpre=2,steps=300000,
   tparams=[[1,0,4,2,2,0],[1,1,4,2,2,0],[1,2,4,2,2,1],[1,0,4,2,3,1],[1,1,8,4,2,1],[1,0,8,4,3,1]],ttime=400),
 J('growrace','c06',[[2,0,4,1,2,1],[2,1,4,1,2,1],[2,2,4,1,2,1]],'two threads, one inserting while the other fills and grows the table (known finding: the insertion can land in an already migrated cell)',defs=G,pre=1,tpre=2,steps=300000,race=True)])

CHECKS['C07']=dict(jobs=[J('bitset','c07',[[0,0,32,11,1],[0,40,90,121,1],[0,0,64,3,1],[0,0,64,2565,0],[0,0,64,7,1],[0,33,120,78,1],[0,0,96,78,1],[1,32,50,11,0],[2,40,60,78,1,10,100,8],[3,0,64,87,1,32,96,8],[3,0,64,17,0,32,96,31],[3,0,32,11,1,0,32,1],[4,0,96,7,1,32,64,8],[4,0,64,8,1,32,96,7],[4,32,64,3,1,0,96,1],[5,0,32,7,1,32,64,8,0,64,8],[6,32,64,87,1],[7,0,64,17,0,32,64,2],[7,0,32,11,0,32,64,1]],'word-sized bit sets over [L,U) with L,U up to 120 (aligned and unaligned bounds); up to 4 operations out of insert, erase, batchSet, testAndSet/testAndErase; every in-range key and every 32-bit word content of the first words symbolic; batch bounds symbolic or every word-boundary combination; then membership of every key, size, iteration, rehash/rescale, merge, filter, copy, move',
  tparams=[[0,0,32,11,1],[0,40,90,121,1],[0,0,64,3,1],[0,0,64,2565,0],[0,0,64,7,1],[0,33,120,78,1],[0,0,96,78,1],[1,32,50,11,0],[2,40,60,78,1,10,100,8],[3,0,64,87,1,32,96,8],[3,0,64,17,0,32,96,31],[3,0,32,11,1,0,32,1],[4,0,96,7,1,32,64,8],[4,0,64,8,1,32,96,7],[4,32,64,3,1,0,96,1],[5,0,32,7,1,32,64,8,0,64,8],[6,32,64,87,1],[7,0,64,17,0,32,64,2],[7,0,32,11,0,32,64,1],[0,0,96,787,1],[0,33,120,278,1],[3,0,96,78,1,32,128,87],[4,0,128,78,1,32,96,87],[2,33,120,787,1,10,140,87],[0,0,64,121,1]],time=35)])
CHECKS['C08']=dict(jobs=[J('cbitset','c08',[[0,32,0,2,1,0],[0,32,1,2,1,10]],'concurrent bit set: two threads with one operation each (insert/insert, insert/lookup), every in-range key, all schedules with at most 2 preemptions (3 thorough), data races checked',tparams=[[0,32,0,2,1,0],[0,32,1,2,1,10],[32,96,1,2,2,10],[0,64,0,2,2,0],[0,32,0,3,1,0]],race=True,tpre=3,ttime=400)])
CHECKS['C09']=dict(jobs=[J('ranges','c09',[[0,2,4,1,1,2],[0,3,4,1,1,3],[0,2,8,1,2,0],[0,0,4,1,2,0],[1,2,8,1,1,3],[2,2,4,2,1,2],[3,2,4,1,1,2],[4,2,4,1,1,2],[5,2,4,1,1,2],[6,2,0,1,1,3,10,90,1],[7,2,0,4,1,3,32,96,1],[6,2,0,32,2,0,32,90,1],[6,1,0,1,1,2,0,32],[8,2,0,1,1,2,2,1,0,3],[8,3,0,1,1,3,2,1,1,100],[8,1,0,1,2,0,0,0,0,1],[9,2,0,1,1,2,2,1,0,3,1],[9,3,0,1,1,3,1,1,2,100],[9,3,0,1000,1,2,2,2,1,100],[9,3,0,1,2,0,2,2,1,100,1]],'ranges of every container (sequential, concurrent and growing hash tables, bit sets, blocked arrays, simplex stores): up to 3 symbolic elements; every decision of the scheduler to split or not (up to 3 splits, or splitting to the grain everywhere), grain sizes 1..1000; every element visited exactly once',defs=['-DWITH_GEO'],time=35,
  tparams=[[0,2,4,1,1,2],[0,3,4,1,1,3],[0,2,8,1,2,0],[0,0,4,1,2,0],[1,2,8,1,1,3],[2,2,4,2,1,2],[3,2,4,1,1,2],[4,2,4,1,1,2],[5,2,4,1,1,2],[6,2,0,1,1,3,10,90,1],[7,2,0,4,1,3,32,96,1],[6,2,0,32,2,0,32,90,1],[6,1,0,1,1,2,0,32],[8,2,0,1,1,2,2,1,0,3],[8,3,0,1,1,3,2,1,1,100],[8,1,0,1,2,0,0,0,0,1],[9,2,0,1,1,2,2,1,0,3,1],[9,3,0,1,1,3,1,1,2,100],[9,3,0,1000,1,2,2,2,1,100],[9,3,0,1,2,0,2,2,1,100,1],[0,3,8,1,1,5],[3,3,8,1,1,3],[4,3,8,1,1,3],[5,3,8,1,1,3],[6,3,0,1,1,4,10,120,1],[7,3,0,1,1,4,32,128,1],[8,3,0,1,1,5,2,2,1,100],[9,3,0,1,1,4,2,1,1,100,1]])])
CHECKS['C10']=dict(jobs=[J('blocked','c10',[[0,2,121],[0,1,131],[0,3,2321],[1,2,121],[1,1,131],[3,1,2421]],'blocked arrays: block capacities 1..3, scripts of up to 4 reservations/assignments with symbolic indices and values; every element read back, addresses stable across growth, out-of-range at() rejected',opts=['--opaque-tostring'],time=35,tparams=[[0,2,121],[0,1,131],[0,3,2321],[1,2,121],[1,1,131],[3,1,2421],[2,4,1251],[4,512,151]])])
CHECKS['C11']=dict(jobs=[J('store','c11',[[1,3,1,2,1,0,5],[3,2,2,1,0,0,3],[2,3,1,1,2,0,4,1],[0,2,1,2,0,0,3,1,1],[0,1,3,0,0,1,0,1,1],[2,2,2,1,0,1,3,1]],'simplex store: up to 3 blocks of symbolic sizes and symbolic gaps between them, merges of two stores, handle lookups of every id, filtered and unfiltered iteration, storing and loading',opts=['--opaque-tostring'],time=40,tparams=[[1,3,1,2,1,0,5],[3,2,2,1,0,0,3],[2,3,1,1,2,0,4,1],[0,2,1,2,0,0,3,1,1],[0,1,3,0,0,1,0,1,1],[2,2,2,1,0,1,3,1],[0,3,1,2,1,1,5,0],[0,2,2,1,0,1,5,1]])])
O=['--opaque-tostring']
CHECKS['C12']=dict(jobs=[J('points','c12',[[2,1,0],[2,312,1],[2,4321,1],[2,1715,0],[3,1,0],[3,12,0],[3,4,1],[3,32,0],[2,16,1],[2,171,1],[3,75,1],[2,1731,1]],'point containers in 2 and 3 dimensions: every offset below 2^61 (or none), scripts of up to 4 writes/growths/appends/insertions, every 64-bit id written and probed (finite, infinite and out of range), every bit pattern of the coordinates, growth by up to 3 points',opts=O,time=45,
  tparams=[[2,1,0],[2,312,1],[2,4321,1],[2,1715,0],[2,123,1],[2,2142,1],[3,412,1],[3,123,1],[3,16,1],[3,15,1],[3,1312,0]])])
CHECKS['C13']=dict(jobs=[J('ints','c13',[[k] for k in range(15)],'isPow2, nextPow2, log2, popcount for every 8-, 16-, 32- and 64-bit value; logN/isPowN for bases 2, 4, 8; insertion sorts (with and without data) of every array of 1 to 5 elements',time=60,qtimeout=40)])
CHECKS['C14']=dict(jobs=[J('simplex','c14',[[2,0],[3,0],[2,1],[2,2],[2,3],[3,3],[2,4],[3,4],[3,1,5],[3,1,4],[3,1,1],[3,2,1],[3,2,4]],'triangles and tetrahedra over every 64-bit vertex id (finite and infinite), every vertex order for sorting and fingerprints; pairs of sorted simplices with every way of sharing vertices; simplex ids and neighbour ids unrestricted',time=45,
  tparams=[[2,0],[3,0],[2,1],[2,2],[2,3],[3,3],[2,4],[3,4]]+[[3,s,k] for s in (1,2) for k in range(1,6 if s==1 else 5)],ttime=500)])
CHECKS['C15']=dict(jobs=[J('box','c15',[[2,0,0],[3,0,0],[2,1,100],[3,1,6],[2,2,100],[3,2,60],[2,3,1000],[3,3,1000]],'point and box containment, equality: every finite double below 1e300; sphere tests and subtraction: every integer coordinate in the stated range (|c| <= 6..1000), where the arithmetic is exact; dimensions 2 and 3',time=45,qtimeout=20,
  tparams=[[2,0,0],[3,0,0],[2,1,1000],[3,1,30],[2,2,1000],[3,2,200],[2,3,100000],[3,3,100000]],ttime=400)])
CHECKS['C16']=dict(jobs=[J('stats','c16',[[2,0,2,1,0,0,0],[2,0,3,0,1,0,0],[3,1,2,1,1,0,0],[2,2,2,1,1,1,2],[2,2,3,0,1,1,2],[3,2,2,0,1,2,0],[2,3,3,0,1,1,2],[3,3,2,1,0,1,1],[2,4,3,1,0,0,0],[3,4,2,0,0,0,0]],'2 or 3 points in 2 and 3 dimensions: minima and maxima over every finite double below 1e300, midpoints over every integer coordinate up to 1000; with and without infinite points, sequential by ids and by index, parallel over every splitting and every assignment of chunks to 2 threads; loading from a text file whose lines are held in memory (file stream, string stream and number parsing are stand-ins with the documented behaviour)',time=40,
  tparams=[[2,0,3,1,0,0,0],[2,0,4,0,1,0,0],[3,1,3,1,1,0,0],[2,2,3,1,1,1,3],[2,2,4,0,1,1,3],[3,2,3,0,1,2,0],[2,3,4,0,1,1,3],[3,3,3,1,0,1,2],[2,4,4,1,0,0,0],[3,4,3,0,0,0,0]])])
I0=['--opaque-tostring']
CHECKS['C17']=dict(jobs=[J('partition','c17',[[2,0,2,0,0,0,0,100,1,0,0],[2,0,2,1,0,0,0,100,1,0,1],[2,0,3,0,1,0,0,100,0,0,1],[3,0,2,0,0,0,0,100,1,0,1],[2,1,2,1,0,1,1,100,1,0,1],[2,1,3,0,1,1,2,100,0,1,1],[2,2,2,1,0,1,1,100,1,0,1],[2,2,3,0,1,1,2,100,0,0,1],[3,1,2,1,0,1,1,100,1,1,1],[3,2,2,0,0,2,0,100,1,0,1],[2,3,2,1,1,0,0,100,1,0,1],[2,4,3,0,0,0,0,100,0,0,1],[3,5,2,0,0,0,0,100,1,0,1]],'d-way, cycle, extend and single-dimension partitioners in 2 and 3 dimensions: 2 or 3 points (coincident ones included) with every integer coordinate up to 100, with and without infinite points and the option to leave them out, every splitting of the parallel loop; the cover is checked at an arbitrary integer point of the bounding box',srcs=['REPO/src/lib/Partitioner.cpp'],opts=O,ite=0,time=40,
  tparams=[[D,k,n,i,s,1 if k in(1,2) else 0,2,1000,v,k%2,1] for D in (2,3) for k in (0,1,2,3,4) for n in (2,3) for (i,s,v) in ((1,0,1),(0,1,0))],ttime=300)])
CHECKS['C18']=dict(jobs=[J('lookup','c18',[[2,2,0,8],[2,2,0,2],[3,3,0,4],[2,2,1,4],[1,2,1,8],[1,1,1,2]],'up to 3 partitions and 3 points placed arbitrarily, every non-zero 64-bit point id and probe; simplices with three arbitrary vertex ids',opts=O,time=45,tparams=[[2,2,0,8],[2,2,0,2],[3,3,0,4],[2,2,1,4],[1,2,1,8],[1,1,1,2],[3,2,1,2],[1,3,1,8],[2,3,1,4]],ttime=400)])
FR=['--fxround']
T8=['--tab','8']; T10=['--tab','10']
NEAR='near-degenerate configurations found offline for each stage of the adaptive predicate (pred_cfg.inc); the two most influential coordinates range over aligned windows of 2h ulps around the configuration, in double precision and in an 8-bit-significand number type (same template) where each window covers a far larger part of the input space'
CHECKS['C27']=dict(jobs=[J('orient2d-smt','pred',[[0,4,2],[1,4,2],[2,2,2],[3,2,2],[1000,4,6],[1000,10,2]],'orientation in the plane: '+NEAR+' (h = 2 or 4, rounding encoded exactly in bit-vectors); and all six coordinates over the integers in [-16,16], two over [-1024,1024]',opts=FR,time=70,tparams=[[0,8,2],[1,8,2],[2,4,2],[3,4,2],[1000,10,6],[1000,10,4],[1000,20,6]],ttime=500),
 J('orient2d-tab','pred',[[0,8,2],[1,8,2],[2,8,2],[3,8,2]],'as above with wider windows (h = 8; 16 thorough), terms over few input bits kept as decision tables',opts=T10,time=40,tparams=[[i,16,2] for i in range(4)]+[[i,4,3] for i in range(4)],ttime=300)])
CHECKS['C28']=dict(jobs=[J('near','pred',[[i,4,2] for i in range(4,34)],'orient3d, incircle, insphere: '+NEAR+' (h = 4; 8 and 16 thorough); terms over few input bits are kept as decision tables over all their assignments',opts=T10,time=40,tparams=[[i,8,2] for i in range(4,34)]+[[i,4,3] for i in range(4,34)],ttime=300),
 J('ints','pred',[[1002,10,3],[1002,6,6],[1001,4,2]],'integer coordinates (the remaining ones fixed): orient3d with 3 coordinates in [-1024,1024] or 6 in [-64,64], incircle with 2 in [-16,16]; exact polynomial normal form of the determinants',opts=FR,time=60,tparams=[[1002,10,3],[1002,6,6],[1002,3,9],[1001,4,4],[1001,4,2],[1003,3,3],[1003,2,6]],ttime=500)])
T18=['--tab','18']
CHECKS['C29']=dict(jobs=[J('smt','c29',[[0,2,0,5],[1,2,0,5],[4,3,0,5],[5,2,1,5]],'expansion routines over a number type with a 3-bit significand (round to nearest even, no exponent limit): every nonadjacent expansion (zeros allowed) of 2 or 3 components below 2^5: growing (both variants), compression, expansion sum, estimate; rounding encoded in bit-vectors',opts=FR,time=80,tparams=[[0,2,0,5],[1,2,0,5],[4,3,0,5],[5,2,1,5],[2,2,0,5,2],[3,2,0,5,2],[9,2,1,5]],ttime=600),
 J('tab','c29',[[2,2,0,5,4],[3,2,0,5,4],[6,2,1,5],[7,1,2,5],[7,2,2,3],[8,2,1,5],[8,1,2,5],[9,2,1,5],[9,1,2,5],[9,2,2,3],[9,3,1,3],[10,2,1,5],[11,2,1,5],[11,1,2,5]],'as above for scaling, the zero-eliminating, fast and linear sums (2+1, 1+2, 2+2, 3+1 components); terms kept as decision tables over at most 18 input bits',opts=T18,time=60,tparams=[[2,2,0,6,4],[3,2,0,6,4],[6,2,1,5],[6,2,2,3],[7,2,1,5],[7,2,2,3],[8,2,2,3],[9,2,2,3],[9,3,1,3],[9,1,3,3],[9,2,1,5],[10,2,2,3],[11,2,2,3],[11,2,1,5],[3,3,0,3,3]],ttime=400)])
GS=['REPO/src/lib/Geometry.cpp','REPO/src/utils/Predicates.cpp']
CHECKS['C30']=dict(jobs=[J('tab','c30',[[2,0,1,3,1,6,3,0],[3,0,0,2,1,3,5,0],[2,1,1,0,5,2,3,0],[2,1,3,2,4,2,4,0],[3,1,1,0,4,0,3,0],[3,1,2,1,3,1,3,0],[3,1,0,2,3,1,4,2],[2,2,0,0,4,2,5,0],[2,2,1,1,4,2,5,0],[2,2,3,4,4,2,5,0],[2,2,4,2,5,2,4,-3],[3,2,0,0,4,1,4,0],[3,2,1,1,4,1,4,0],[3,2,3,2,4,1,4,0],[2,3,1,1,4,2,3,0],[3,3,2,1,3,2,3,0]],'triangles and tetrahedra over 5 base positions in several vertex orders, up to 6 vertex coordinates and all coordinates of the query point symbolic (integers of 3 to 5 bits each, at most 18 bits together, also scaled by powers of two): orientation, in-sphere, in-simplex and nearest vertex against exact integer geometry; terms kept as decision tables',opts=T18,srcs=GS,time=80,
   tparams=[[2,0,b,o,1,6,3,0] for b in (0,1) for o in range(6)]+[[3,0,b,o,1,3,5,0] for b in (0,1,2) for o in range(4)]+[[2,1,b,o,4,2,5,0] for b in range(5) for o in (0,3)]+[[3,1,b,b,4,1,4,0] for b in range(4)]+[[2,2,b,b,5,2,4,0] for b in range(5)]+[[3,2,b,b,4,2,3,0] for b in range(4)]+[[2,3,b,b,4,2,4,0] for b in range(3)]+[[3,3,b,b,3,2,3,0] for b in range(3)],ttime=400),
 J('smt','c30',[[2,0,1,0,1,6,4,0],[2,3,1,0,12,0,5,0],[3,3,1,0,6,0,4,0],[2,1,1,0,4,0,0,0],[2,2,1,0,8,0,2,0]],'as above with all six vertex coordinates in [-8,8) (orientation), query points in [-2048,2048)^2 and [-32,32)^3 (nearest vertex), [-128,128)^2 (in-simplex), [-8,8)^2 (in-sphere), encoded as exact polynomials over bit-vectors',opts=FR,srcs=GS,defs=['-DORACLE_DOUBLE'],time=70,tparams=[[2,0,1,0,1,6,4,0],[2,3,1,0,12,0,5,0],[3,3,1,0,6,0,4,0],[2,1,1,0,5,0,0,0],[2,2,1,0,12,0,2,0],[3,2,1,0,6,0,2,0],[3,0,1,0,1,3,8,0]],ttime=500)])
CHECKS['C31']=dict(jobs=[J('tab','c30',[[2,5,1,0,1,4,4,0],[2,5,2,3,1,4,4,3],[2,5,0,1,1,6,3,0],[3,5,1,0,1,3,5,0],[3,5,2,1,1,4,4,0],[3,5,0,3,1,5,3,-2],[2,6,1,0,4,2,4,0],[2,6,3,1,4,2,5,2],[3,6,0,0,4,1,4,0],[3,6,2,1,3,2,3,0],[3,6,1,2,3,3,3,0]],'circumsphere (centre and radius within 1e-9 of the exact rational values) and squared distance to every face (relative error 1e-9): triangles and tetrahedra with up to 6 symbolic vertex coordinates (3 to 5 bits) and a symbolic query point, at most 18 bits together, also scaled by powers of two; double arithmetic with division and square root kept as decision tables',opts=T18,srcs=GS,time=80,
   tparams=[[2,5,b,o,1,6,3,0] for b in range(3) for o in (0,2,4)]+[[3,5,b,b,1,4,4,0] for b in range(4)]+[[3,5,b,b,1,6,3,0] for b in range(4)]+[[2,6,b,b,4,2,5,0] for b in range(5)]+[[3,6,b,b,4,2,3,0] for b in range(4)],ttime=400)])
CHECKS['C32']=dict(jobs=[J('walk','c32',[[2,0,0,3,0,100,0],[2,0,1,5,0,1000,0],[2,3,1,4,2,200,4],[3,0,0,2,0,100,0],[3,2,0,3,1,100,0],[2,1,1,4,3,300,4],[3,0,1,2,0,1000,5],[3,1,1,2,1,1000,4]],'point location in concrete triangulations of 3 to 6 points of the plane and 4 or 5 points of space, with and without the surrounding corner points (up to 30 simplices, several id orders); query point any of the integer points in a window of 2^3..2^5 (2D) or 2^2..2^3 (3D) per axis, every starting simplex (at most 5 of the larger 3D ones)',srcs=GS,opts=O+T10,steps=30000000,time=40,
   tparams=[[2,c,1,5,r,R,0] for c in range(4) for r in (0,2) for R in (50,1000)]+[[3,c,i,3,1,1000,6] for c in range(3) for i in (0,1)],ttime=500)])
ND=['-DNDEBUG']; PR=['REPO/src/utils/Predicates.cpp']
VB='2 to 6 finite points of the plane or 1 to 5 of space, with and without surrounding corner points (up to 32 simplices), several id orders, with and without a point id set'
CHECKS['C33']=dict(jobs=[J('delaunay','c33',[[2,0,1,1,0,0,5],[2,0,1,1,1,0,15],[2,0,2,1,1,0,4],[2,0,2,1,1,3,24],[2,0,1,0,1,3,35],[3,0,1,1,0,0,4],[3,0,0,1,1,2,14]],'self-verification: '+VB+'; one point takes every integer position in a window of 2^4..2^5 per axis around its place (as long as the simplices stay non-degenerate and no five/four points are cospherical), accepted exactly if Delaunay by integer arithmetic',defs=ND,srcs=PR,steps=40000000,opts=O+['--tab','12'],time=40,
   tparams=[[2,0,c,i,1,r,k*10+6] for c in (1,2) for i in (0,1) for r in (0,2) for k in range(4)]+[[3,0,c,1,0,0,k*10+4] for c in (0,1) for k in range(4)],ttime=400),
 J('links','c33',[[2,1,0,1,0,0,0],[2,1,0,0,1,0,0],[3,1,2,1,1,3,0],[2,1,1,1,1,2,0]],'as above with any one link replaced by any 64-bit value: rejected unless the set of links is unchanged',defs=ND,srcs=PR,steps=40000000,opts=O,time=40,tparams=[[2,1,c,i,i,1,0] for c in range(3) for i in (0,1)]+[[3,1,0,1,0,0,0],[3,1,1,0,1,0,0],[3,1,2,1,0,1,0]],ttime=400),
 J('broken','c33',[[2,2,0,1,k%2,1,k] for k in range(10)]+[[2,2,1,0,(k+1)%2,0,k] for k in range(10)]+[[3,2,2,1,1,0,k] for k in (0,1,2,3,4,7,9)]+[[2,2,3,k%2,(k+1)%2,k%3,k] for k in range(10)]+[[2,2,3,0,0,0,k] for k in (7,9)]+[[2,2,2,0,1,1,9]],'as above with a simplex missing or doubled, a hull entry missing or added, an unused or unknown point, any vertex of any simplex replaced by any other point, a simplex cleanly cut out, a link cut on both sides',defs=ND,srcs=PR,steps=40000000,opts=O,time=40,tparams=[[2,2,c,i,k%2,1,k] for c in (0,2,3) for i in (0,1) for k in range(10)]+[[3,2,c,i,0,1,k] for (c,i) in ((0,0),(2,1),(1,0)) for k in range(10)],ttime=400),
 J('cross','c33',[[2,3,0,1,0,0,k] for k in (0,1,2)]+[[2,3,0,0,0,0,k] for k in range(7)]+[[2,3,1,0,0,1,k] for k in (3,5)]+[[3,3,0,0,0,0,k] for k in range(7)],'comparison with a reference of other ids and order: identical, one simplex missing on either side, any vertex replaced by any 64-bit id, one more simplex with such a vertex on either side',defs=ND,srcs=PR,steps=40000000,opts=O,time=40,tparams=[[2,3,c,i,0,1,k] for (c,i) in ((0,1),(1,0),(2,0)) for k in range(7)]+[[3,3,c,0,0,1,k] for c in (0,1) for k in range(7)],ttime=400)])
DS=GS+['REPO/src/lib/Partitioner.cpp','REPO/src/lib/Triangulator.cpp']; BC=['-DPDT_VERIF_BASE_CUTOFF=3']
DB='4 to 8 finite points of the plane or 4, 5 of space in 2 to 4 partitions plus the surrounding infinite points (up to about 50 simplices); one point takes every integer position in a window of 2^3..2^5 (plane) or 2^1..2^3 (space) per axis, in general position; CGAL replaced by a brute-force integer Delaunay solver'
def _d(name,quick,thorough): return J(name,'c34',quick,DB+'; parallel loops in order, over two worker slots, with either order of pieces, or (few configurations) with the next worklist item chosen freely once or twice',defs=BC,srcs=DS,opts=O+T10,steps=100000000,time=45,tparams=thorough,ttime=500)
CHECKS['C34']=dict(jobs=[_d('border',[[2,0,0,0,4,1,0,300],[2,0,4,3,3,1,0,300],[2,0,1,2,4,0,2,300],[2,0,1,1,3,2,1,300],[2,0,2,2,3,2,1,1000],[2,0,2,5,4,1,0,1000],[2,0,3,3,4,1,1,1000],[2,0,3,6,3,0,0,1000],[3,0,0,0,2,0,0,1000],[3,0,0,2,1,2,1,1000],[3,0,1,3,2,1,1,1000]],
  [[2,0,c,m,5,s,p,R] for c in range(5) for (m,p) in ((0,0),(3,0),(3,1),(5,0)) for s in (1,2) for R in (300,)]+[[3,0,c,m,3,s,p,1000] for c in (0,1) for (m,p) in ((0,0),(3,1)) for s in (1,2)])])
CHECKS['C35']=dict(jobs=[_d('links',[[2,1,0,0,4,1,0,300],[2,1,1,2,4,4,0,300],[2,1,1,1,1,2,0,300],[2,1,2,3,4,1,0,1000],[2,1,2,5,4,0,0,1000],[2,1,3,3,3,1,0,1000],[3,1,0,1,2,1,0,1000],[3,1,1,2,1,0,0,1000],[3,1,1,0,1,1,0,2000]],
  [[2,1,c,m,5,s,0,R] for c in range(4) for m in (0,2,5) for s in (1,4) for R in (300,)]+[[2,1,c,m,2,2,0,300] for c in range(4) for m in (1,4)]+[[3,1,c,m,2,s,0,1000] for c in (0,1) for m in (0,1,3) for s in (1,2)])])
CHECKS['C36']=dict(jobs=[_d('simplices',[[2,2,0,3,4,1,0,300],[2,2,1,0,4,4,0,300],[2,2,1,5,3,1,0,300],[2,2,2,1,4,1,0,1000],[2,2,2,6,4,0,0,1000],[2,2,3,4,4,1,0,1000],[3,2,0,0,2,1,0,1000],[3,2,1,1,1,0,0,1000],[3,2,1,3,2,1,0,1000]],
  [[2,2,c,m,5,s,0,R] for c in range(4) for m in (1,3,5) for s in (1,4) for R in (300,)]+[[3,2,c,m,2,s,0,1000] for c in (0,1) for m in (0,1,3) for s in (1,4)])])
CHECKS['C43']=dict(jobs=[_d('whole',[[2,3,0,0,4,1,99,0,2,0],[2,3,1,1,3,0,99,0,4,1],[2,3,2,3,3,1,100,0,4,0],[2,3,3,1,3,1,101,0,4,1],[2,3,3,5,4,0,48,0,2,0],[2,3,2,0,3,1,49,20000,2,1],[2,3,0,4,3,1,99,-7000,2,1],[2,3,0,3,3,3,101,0,2,1],[3,3,0,1,2,1,101,0,4,0],[3,3,1,0,1,0,99,0,2,0],[3,3,1,2,1,1,100,5000,8,0]],
  [[2,3,c,m,4,s,k,o,4,e] for c in range(4) for (m,o) in ((0,0),(3,5000)) for (s,k) in ((1,99),(0,100),(1,101),(4,48)) for e in (0,1)]+[[3,3,c,m,2,1,k,o,8,0] for c in (0,1) for (m,o) in ((0,0),(3,-5000)) for k in (99,100,101)])])
CHECKS['C43']['jobs'][0]['bounds']+='; splitters d-way, cycling, by widest extent and along a fixed axis, recursion depth 1 to 3 with base case cutoff 3 (hook), edge triangulation recursive or not, data around the origin or far away'
CHECKS['C19']=dict(jobs=[J('exact','c19',[[2,0,0,100,2],[3,0,-2,100,3],[2,2,0,10,0],[3,2,1,4,1],[2,2,-1,20,2]],'cell width a power of two (2^-2..2^1), every point with dyadic coordinates up to 100 (1/4 or 1/8 steps) and every cell index up to 204: exact; sphere test for every cell within one of the origin, every dyadic centre and radius up to 4..20',time=60,qtimeout=20,tparams=[[2,0,k,R,3] for k in (-2,0,3) for R in (100,1000)]+[[3,0,k,100,2] for k in (-1,0,2)]+[[2,2,k,100,1] for k in (-2,0,3)]+[[3,2,k,8,1] for k in (-1,0,1)],ttime=300),
 J('any','c19',[[2,1,0,8,0,0],[2,1,0,8,0,1],[3,1,1,5,0,1],[2,1,2,8,0,2],[2,1,3,8,0,3],[3,1,4,5,0,5],[2,1,5,8,0,4],[2,1,7,8,0,6],[2,1,8,8,0,8],[2,1,6,8,0,7]],'cell widths 0.1, 3, 1/3, 0.7, 1e-3, 123.456, 1e6, 6.02e-7, 0.3 with all points k*s for symbolic k of 5 to 8 bits per axis and several scales s (multiples of the width included): up to rounding of the cell borders',opts=T18,time=30,tparams=[[2,1,w,9,0,s] for w in range(9) for s in range(9)]+[[3,1,w,6,0,w] for w in range(9)],ttime=100)])
CHECKS['C20']=dict(jobs=[J('box','c20',[[2,0,1000,0],[3,0,30,0],[2,1,16,1],[3,1,8,1],[2,2,0,2],[3,2,1000,4],[2,2,100000,5],[2,3],[3,3]],'vectors and boxes of 2 and 3 dimensions: arithmetic and bounding boxes of up to 5 points with every integer coordinate in the stated range, distances to boxes with coordinates in steps of one half up to 8 or 16; splitting, and bounding two points, for every finite double below 1e300',time=60,qtimeout=20,tparams=[[2,0,100000,0],[3,0,1000,0],[2,1,64,1],[3,1,32,1],[3,1,8,3],[2,2,0,2],[3,2,0,2],[2,2,0,3],[2,2,100000,7],[3,2,100000,6],[2,3],[3,3]],ttime=400),
 J('length','c20',[[2,4,100],[3,4,20]],'length of vectors with every integer coordinate up to 100 (plane) or 20 (space)',opts=T18,tparams=[[2,4,250],[3,4,31]])])
CHECKS['C21']=dict(jobs=[J('cells','c21',[[2,0,0,3,2,4,-2,0,0,0,2],[2,0,3,5,2,5,0,0,0,1,8],[2,0,0,3,2,4,-2,0,0,0,0],[3,0,4,8,1,4,-2,0,0,2,3],[2,0,5,0,2,3,-1,0,0,0,8],[2,0,0,6,2,7,-3,0,0,0,8],[2,0,1,9,2,7,-3,0,0,0,0],[3,0,1,12,1,5,-3,0,0,1,8],[3,0,6,10,1,3,-3,0,0,1,8],[2,0,2,0,3,3,-1,0,0,0,5]],'trees of 2 to 13 cells on grids of up to 7 cells per axis around the origin, two (plane) or one (space) of the cells anywhere in the grid, cell widths 1, 1/2, 4, 0.1, 3, 1/3, 0.7; each cell stands for a point of it (on its border or inside), the tree is built over the box of the points; copies, moved and assigned trees, and a copy taken half way',opts=['--tab','14'],time=40,
   tparams=[[2,0,k,n,2,7,-3,0,0,n,8] for k in range(7) for n in (4,8,12)]+[[2,0,k,1,3,4,-2,0,0,0,8] for k in range(7)]+[[3,0,k,n,1,5,-3,0,0,n,8] for k in range(7) for n in (6,12)]+[[3,0,0,6,2,3,-1,0,0,0,0]],ttime=200),
 J('sphere','c21',[[2,1,0,4,1,3,-1,4,2,0,3],[2,1,6,4,1,3,0,3,2,1,8],[2,1,3,6,0,4,2,4,2,5,0],[3,1,1,6,0,3,-1,3,2,1,8],[3,1,1,10,1,2,-3,3,2,1,8]],'as above with spheres whose centre and radius are any of 2^3 or 2^4 multiples of a fraction of the cell width each: exactly the cells the sphere reaches',opts=['--tab','14'],time=45,
   tparams=[[2,1,k,n,1,3,-1,4,2,n,8] for k in range(7) for n in (3,6)]+[[2,1,k,9,0,5,-2,4,3,0,0] for k in (0,3,5)]+[[3,1,k,8,0,3,-1,3,2,k,8] for k in range(7)],ttime=300)])
CHECKS['C22']=dict(jobs=[J('sphere','c22',[[2,0,1,6,3,0,0,0,0,1,4,1],[2,0,1,4,2,0,0,0,0,0,4,2],[3,0,1,5,2,0,2,1,0,0,2,1],[2,1,1,4,2,0,0,0,0,0,4,2],[2,1,1,6,3,3,0,0,0,1,4,2],[3,1,1,5,2,1,0,0,0,0,3,1],[2,1,1,4,2,0,2,1,0,2,3,1]],'checkers built by the box and the grid partition makers over 4 to 6 points in 2 or 3 partitions (up to one point anywhere in a window of 2^2..2^3 per axis; points on cell borders included), cell widths 1, 1/2, 0.1; spheres with 2^2..2^4 positions per axis and radii in steps of 1 or 1/2: exactly the spheres that reach the region, copies alike',srcs=GS,opts=O+['--tab','14'],time=60,steps=30000000,
   tparams=[[2,0,1,8,3,0,0,0,0,c,4,d] for c in range(3) for d in (1,3)]+[[3,0,1,6,2,0,0,0,0,c,3,1] for c in range(3)]+[[2,1,1,n,3,w,0,0,0,c,4,2] for c in range(3) for w in range(5) for n in (5,)]+[[3,1,1,5,2,w,0,0,0,c,3,1] for c in range(3) for w in (0,2,3)]+[[2,1,1,3,2,0,3,1,0,c,3,1] for c in range(3)],ttime=400),
 J('accurate','c22',[[2,2,1,6,3,0,0,0,0,1,4,1],[3,2,1,6,2,2,0,0,0,1,4,2],[2,2,1,8,3,4,0,0,0,1,5,2],[2,2,1,8,4,0,3,1,0,2,3,1],[2,2,1,8,4,0,3,1,0,1,3,2],[2,2,1,5,2,0,0,0,0,0,4,1]],'accurate grid checkers over 5 to 8 points in 2 to 4 partitions (one of them anywhere in a window of 2^3 per axis); circumspheres of simplices with one vertex anywhere in a window of 2^3..2^5 positions per axis: every sphere around a point of the partition is reported, spheres around no point are not, copies alike',srcs=GS,opts=O+['--tab','14'],time=60,steps=30000000,
   tparams=[[2,2,1,8,k,w,0,0,0,c,5,d] for k in (2,4) for w in (0,2,3) for c in range(3) for d in (1,2)]+[[3,2,1,8,3,w,0,0,0,c,4,2] for w in (0,4) for c in range(3)]+[[2,2,1,8,3,0,3,1,0,c,3,2] for c in range(3)],ttime=300)])
CHECKS['C23']=dict(jobs=[J('assign','c22',[[2,0,0,3,2,0,3,1,0,0],[2,1,0,4,2,3,3,1,0,1],[2,2,0,3,2,0,3,1,0,2],[3,0,0,4,2,0,2,1,1,0],[2,1,0,3,2,0,3,1,1,0],[3,2,0,3,3,1,1,1,0,1],[2,0,0,6,3,0,0,0,0,1],[3,1,0,5,2,2,0,0,0,2],[2,0,0,1,3,0,3,1,0,0]],'box, grid and accurate grid partition makers over 1 to 6 points and 2 or 3 partitions, every assignment (empty partitions included), one point anywhere in a window of 2^1..2^3 per axis, with the loops over one worker or over two workers in any assignment of chunks',srcs=GS,opts=O+['--tab','14'],time=60,steps=30000000,
   tparams=[[D,m,0,n,k,w,b,1,0,c] for D,b in ((2,3),(3,2)) for m in range(3) for (n,k,w,c) in ((5,2,0,0),(4,3,3,1),(3,4,2,2))]+[[2,m,0,4,2,0,2,1,1,c] for m in range(3) for c in range(3)],ttime=300),
 J('threads','c22',[[2,0,0,3,2,0,0,0,2,0,2],[2,1,0,3,2,0,0,0,2,0,2],[2,2,0,3,3,0,0,0,2,0,4],[3,0,0,4,2,0,0,0,2,1,2]],'as above with the loops over the partitions run by 2 or 3 threads: no data race, under every assignment',race=True,srcs=GS,opts=O,time=60,steps=30000000,tparams=[[2,m,0,5,2,0,0,0,2,c,2] for m in range(3) for c in range(3)]+[[3,m,0,4,3,0,0,0,2,c,4] for m in range(3) for c in range(2)],ttime=200)])
CHECKS['C24']=dict(jobs=[J('tree','c24',[[0,0,2],[1,0,3],[2,1,2],[3,1,2],[6,1,2],[4,0,2],[5,0,0],[8,4,2],[7,4,2],[3,2,2],[7,2,1],[3,3,2],[2,3,2],[5,3,0]],'partition trees of nine shapes (single leaf to three levels, an empty inner node included) with arbitrary ids in up to three leaves: collecting, flattening, copying and assigning (independence of the copy included) and conversion to the flat form',srcs=GS+['REPO/src/lib/Partitioner.cpp'],opts=O,time=60,steps=30000000,
   tparams=[[s,o,2,3] for s in (0,1,2,3,4,6,8) for o in range(5)],ttime=300)])
GR=['-DPDT_VERIF_GRAINSIZE=2']
CHECKS['C25']=dict(jobs=[J('graph','c25',[[2,0,3,2,0,0,0,0],[2,0,4,1,2,1,0,1],[2,0,4,2,2,1,0,2,1],[2,0,4,2,2,1,0,3,1,0,0,1],[2,0,4,2,2,1,0,3,1],[3,0,5,2,2,1,0,1,0,0,1],[2,0,4,2,1,1,0,1,1,0,1,0,50]],'graphs of any one or two simplices over 3 to 5 sample points and two infinite ones (one point anywhere in a window of 4 per axis), parallel and sequential builder, uniform weights and three weight functions of different range',srcs=GS,opts=O+['--tab','14'],time=60,steps=40000000,
   tparams=[[2,0,5,2,2,1,0,e,1] for e in range(4)]+[[3,0,6,2,2,1,0,e,1] for e in (0,2)]+[[2,0,4,3,1,1,0,3,1]],ttime=400),
 J('workers','c25',[[2,0,4,2,0,0,1,1],[2,0,3,2,0,0,1,1,0,0,1]],'as above over all points concrete, the loops cut into single elements (hook) and given to two workers in any assignment',srcs=GS,defs=GR,opts=O+['--tab','14'],time=60,steps=40000000),
 J('threads','c25',[[2,0,2,2,0,0,2,1,0,1,0,0,20],[2,0,3,2,0,0,2,1,0,2,1,0,20]],'as above with the loops run by two threads, at most 2 preemptions: no data race (tables large enough not to grow: growth is C06)',race=True,srcs=GS,defs=GR,opts=O+['--tab','14'],time=60,steps=40000000),
 J('sample','c25',[[2,1,4,2],[3,1,3,5],[2,1,5,3],[2,1,6,1],[2,1,3,0]],'samples of 0 to 5 of 3 to 6 points for 16 evenly spread outcomes of every draw of the random source (every choice reachable)',srcs=GS,opts=O,time=60,steps=40000000,tparams=[[2,1,6,3],[3,1,6,2],[2,1,6,5]],ttime=400),
 J('sampling','c25',[[2,2,4,3,0,0,0,1,0,0,2],[3,2,5,2,0,0,0,0,1,0,3],[2,2,3,3,0,0,0,1,0,0,1]],'a whole sampling with any partition by the graph partitioner (stand-in), 1 to 3 blocks',srcs=GS,opts=O,time=60,steps=40000000)])
SP=GS+['REPO/src/lib/Partitioner.cpp']
CHECKS['C26']=dict(jobs=[J('parts','c26',[[2,0,3,4,2,1,0,0,0],[2,0,5,8,2,1,0,0,1],[3,0,5,8,2,1,0,0,2],[2,2,4,2,2,1,0,3,0,1],[3,2,5,3,1,0,0,3,1,1,1],[2,3,4,2,2,1,0,3,0,1],[3,3,5,3,2,1,0,3,1,2,1],[2,4,4,2,2,1,0,3,0,1,0,0,1],[3,4,4,3,1,1,0,3,0,3,1,0,1],[2,5,5,2,2,1,0,3,0,1,0,0,0,6],[3,5,5,4,2,0,0,2,2,1,0,0,0,10],[2,1,5,2,2,1,0,3,1,1,1,0,0,8],[2,1,4,2,2,1,0,3,0,1,0,0,0,7],[2,7,4,1,2,1,0,3,0,1,0,0,0,3],[3,8,4,1,2,1,0,3,0,1,0,0,0,3],[2,9,4,2,2,0,0,3,0,1,0,0,0,3],[2,17,4,2,2,0,0,3,0,1,0,0,0,3],[2,14,4,2,2,1,0,3,1,1]],'every load-balancing partitioner (k-way, box estimation, box and center distance, nearest sample and its bipartitioning form, adapted classic partitioners, flattening) over 3 to 5 points of three configurations (coincident and collinear points included), one point anywhere in a window of 2^1..2^2 per axis, 2 to 8 parts, any partition of the sample graph (stand-in for KaHIP), bounds and grid regions',srcs=SP,opts=O+['--tab','14'],time=60,steps=60000000,
   tparams=[[D,k,5,4,2,1,0,3,c,s] for D in (2,3) for k in (0,2,3,4) for c in range(3) for s in (1,2)]+[[D,k,5,2,2,1,0,3,c,1,0,0,0,10] for D in (2,3) for k in (1,5) for c in range(3)]+[[D,k,5,2,2,1,0,3,c,1,0,0,0,3] for D in (2,3) for k in (7,8,9,17,19) for c in range(3)],ttime=300),
 J('hyper','c26',[[2,6,4,2,2,1,0,3,0,1],[3,6,5,2,2,1,0,3,1,1,1],[2,6,6,4,2,0,0,2,1,1]],'the hyperplane bipartitioner with any partition of the sample graph and one of six normals at 8 offsets as the fitted plane (stand-in for the singular value decomposition), as above',srcs=SP,opts=O+['--tab','14'],time=60,steps=60000000,tparams=[[D,6,5,2,2,1,0,3,c,s] for D in (2,3) for c in range(3) for s in (1,2)],ttime=300),
 J('workers','c26',[[2,0,5,2,1,0,1,0,1],[2,6,3,2,1,0,1,2,0],[2,4,3,2,1,0,1,2,1]],'the point loops cut into single elements (hook) and given to two workers in any assignment',srcs=SP,defs=GR,opts=O+['--tab','14'],time=60,steps=60000000),
 J('threads','c26',[[2,0,3,2,1,0,2,0,0,0,0,1],[2,4,3,2,1,0,2,2,0,0,0,1],[2,4,3,2,1,0,2,2,0,0,0,1,1]],'the point loops run by two threads, at most 2 preemptions: no data race',race=True,srcs=SP,defs=GR,opts=O+['--tab','14'],time=60,steps=60000000,tparams=[[2,6,3,2,1,0,2,2,0,0,0,1]],ttime=600)])
CHECKS['C05']['jobs'].append(J('create','c05b',[[0,2,1],[1,2,1],[2,2,1],[0,2,2]],'two threads creating and filling a table of their own at once (the hash multipliers come from one shared generator), all 32-bit keys, data races checked',race=True,time=40))
CHECKS['C37']=dict(jobs=[J('parse','c37',[[0,1,2,2],[0,2,1,1],[0,2,1,1,0,1,1],[0,1,1,2,1,3],[0,1,2,2,1,1,1],[0,1,2,2,1,2],[5,0,0,0,0,0],[5,0,0,0,0,1]],'records of 1 or 2 traits (and any bookkeeping field) with every name of up to 2 and value of up to 2 characters, free of the separators, over four pairs of separators: printed, parsed, compared, printed and parsed again',time=40,steps=30000000,tparams=[[0,2,2,1,0,s,1] for s in range(4)]+[[0,1,3,3,1,s] for s in range(4)],ttime=300),
 J('equality','c37',[[1,1,1,1,0,0,1],[1,1,2,1]],'every pair of records of up to one trait with names and values of one or two characters, each with or without one of the bookkeeping fields',time=40,steps=30000000,tparams=[[1,2,1,1],[1,1,1,1,1,0,1],[1,2,1,0,0,0,1]],ttime=400)])
CHECKS['C38']=dict(jobs=[J('traits','c37',[[2,1,2,2],[2,2,1,0]],'every sequence of 1 or 2 additions or replacements of traits (texts of up to 2 characters, numbers up to 150) and lookups',time=60,steps=30000000,tparams=[[2,2,1,1],[2,1,3,3,1]],ttime=400),
 J('sums','c37',[[3,4,2],[3,3,4],[4,4,2],[4,3,3]],'every sequence of 3 or 4 counter increments and measurements over up to 4 names with every 64-bit amount, through the record and through the process-wide accessor',time=40,steps=30000000,tparams=[[3,5,3],[4,5,3]],ttime=300)])
CHECKS['C39']=dict(jobs=[J('numbers','c39',[[0,n] for n in range(0,9)]+[[1,n] for n in range(0,11)],'every string of up to 8 (integers) or 10 (floating point) arbitrary bytes; the regular expressions of the code interpreted by a stand-in for std::regex',time=40,steps=30000000,tparams=[[0,20],[1,14],[1,18]],ttime=300),
 J('split','c39',[[2,3],[2,3,1],[2,5],[2,5,1],[2,0],[2,0,1]],'every string of up to 5 bytes and every delimiter, with and without empty fields',time=40,steps=30000000,tparams=[[2,8],[2,8,1]],ttime=200)])
CHECKS['C40']=dict(jobs=[J('gen','c40',[[2,0,3,6,0,0,99],[3,0,2,4,0,0,99,0,2],[2,1,2,0,4,1,8],[3,1,1,0,4,1,9],[2,2,5,0,2,1,14],[2,2,3,0,3,2,10],[3,2,9,0,2,1,30],[2,3,2,0,4,1,6],[3,3,2,0,3,1,6,0,2],[2,4,3,4,0,0,9],[2,4,4,5,0,0,9,0,2],[3,4,1,6,0,0,9],[2,6,3,0,2,2,10,2],[3,6,3,0,2,1,10,3,1],[2,7,3,4,0,0,10,2],[3,7,2,3,0,0,15,3,1],[2,8,3,0,2,2,12,2],[2,8,4,0,1,2,18,3,1],[2,5,2,5,0,0,8,0,3]],'every generator for 1 to 9 points in four boxes, every outcome of the random source on a grid of 2^2..2^6 values per draw, at most two rejections per point (the spatial sort, CGAL, is replaced by none)',srcs=GS,opts=O+['--tab','14'],time=40,steps=30000000,
   tparams=[[D,k,n,6 if k in (0,4,7) else 0,3,2,24,2,b] for D in (2,3) for k in (0,1,2,3,4,6,7) for n in (1,2,3) for b in (0,1)],ttime=120)])
CHECKS['C41']=dict(jobs=[J('seq','c41',[[0,0,6],[0,1,5],[1,1,5],[1,0,6]],'every sequence of up to 6 acquisitions, releases and disabling, from every first id',time=40,tparams=[[0,0,8],[1,1,7]],ttime=200),
 J('threads','c41',[[2,1,1,121,112],[2,1,2,12121,2121],[2,1,0,112,1211],[2,1,2,11,11]],'two threads acquiring and releasing at once, up to 5 operations each, at most 3 preemptions, data races checked',race=True,time=60,tparams=[[2,1,2,1212112,1121212]],ttime=300)])
CHECKS['C42']=dict(jobs=[J('filter','c42',[[2,0,2,2,1,0,1,0,0,0,1],[2,1,2,2,1,0,1,0,0,0,1],[2,0,2,2,1,0,0,0,0,0,2],[3,0,1,3,0,0,1,0,0,1,1],[2,0,1,2,0,0,0,0,0,0,1,1],[3,0,2,1,1,0,0,0,0,0,1,1]],'stores of 1 to 3 simplices in 1 or 2 blocks with gaps, any of them unused, any vertices, any hull, every filter set (plain and concurrent), twice over; lookups of every 64-bit id, iteration, moving, fingerprints',srcs=GS,opts=O,time=40,steps=30000000,tparams=[[2,0,3,1,2,1,0,0,0,0,1],[3,0,2,2,2,0,1,0,0,0,1],[2,1,2,2,2,0,0,0,0,1,1]],ttime=300),
 J('workers','c42',[[2,0,1,3,0,0,1,2,2,0,1],[2,1,1,3,0,0,1,2,2,0,1]],'the loop over the filter cut into single slots (hook) and given to two workers in any assignment',srcs=GS,defs=GR,opts=O,time=40,steps=30000000),
 J('threads','c42',[[2,0,1,3,0,0,0,3,2,0,1],[2,1,1,2,0,0,0,3,2,0,1]],'the loop over the filter run by two threads, at most 2 preemptions: no data race',race=True,srcs=GS,defs=GR,opts=O,time=40,steps=30000000,tparams=[[2,1,1,3,0,0,0,3,2,0,1]],ttime=200),
 J('merge','c42',[[2,2,2,1,2,0,0,0,0,0,1],[2,2,3,1,1,1,0,0,0,0,1],[3,2,2,2,1,0,1,0,0,0,0]],'two stores of 1 or 2 blocks merged in either order with and without the hull, then filtered',srcs=GS,opts=O,time=40,steps=30000000),
 J('simplex','c42',[[2,3],[3,3],[2,4],[2,4,0,0,0,0,0,0,0,0,1]],'comparisons of simplices over all 64-bit ids and vertices; the list of all ids of a point set',srcs=GS,opts=O,time=60,qtimeout=20,steps=30000000)])
for _p,_op,_q in (('C34',0,[[0,0,3,1,0,300],[4,3,3,0,0,300],[1,1,3,2,1,300],[2,5,3,1,0,1000]]),('C35',1,[[0,0,3,1,0,300],[3,3,2,1,0,1000],[1,1,2,4,0,300]]),('C36',2,[[0,3,3,1,0,300],[2,6,3,0,0,1000]])):
    CHECKS[_p]['jobs'].append(_d('marks',[[2,_op]+x+[0,0,1] for x in _q],[[2,_op]+x+[0,0,1] for x in _q]+[[3,_op,0,0,1,1,0,1000,0,0,1]])); CHECKS[_p]['jobs'][-1]['bounds']+='; every simplex carries any mark up to its triangulation\'s (6) from earlier passes'
LBD=BC+['-DLB','-fno-openmp-simd']; LBB='; the load-balancing triangulator'
def _l(name,quick,thorough,extra=''): j=_d(name,quick,thorough); j['defs']=LBD; j['bounds']+=LBB+extra; return j
CHECKS['C34']['jobs'].append(_l('border-balanced',[[2,0,0,0,3,1,0,300,0,0,1],[2,0,1,1,3,2,1,300],[2,0,4,3,3,0,0,300],[3,0,0,0,2,0,0,1000],[2,0,2,5,3,1,0,1000,0,0,1]],[[2,0,c,m,4,1,p,300,0,0,1] for c in range(5) for (m,p) in ((0,0),(3,1))]+[[3,0,c,0,2,1,0,1000] for c in (0,1)]))
CHECKS['C35']['jobs'].append(_l('links-balanced',[[2,1,0,0,3,1,0,300,0,0,1],[2,1,1,2,3,4,0,300],[2,1,2,3,3,1,0,1000],[3,1,0,1,1,1,0,1000]],[[2,1,c,m,4,1,0,300,0,0,1] for c in range(4) for m in (0,3)]+[[3,1,c,0,2,1,0,1000] for c in (0,1)]))
CHECKS['C36']['jobs'].append(_l('simplices-balanced',[[2,2,0,3,3,1,0,300,0,0,1],[2,2,1,0,3,4,0,300],[2,2,2,6,3,0,0,1000],[3,2,1,1,1,0,0,1000]],[[2,2,c,m,4,1,0,300,0,0,1] for c in range(4) for m in (0,3)]+[[3,2,c,0,2,1,0,1000] for c in (0,1)]))
CHECKS['C45']=dict(jobs=[_l('whole',[[2,3,0,0,3,1,0,0,1,0],[2,3,1,1,3,0,0,0,2,1],[2,3,3,3,2,1,1,0,2,1],[2,3,2,3,2,1,2,0,1,3],[2,3,1,3,3,1,3,0,4,0],[2,3,3,0,2,1,99,5000,2,0],[2,3,1,3,2,1,100,0,2,2],[2,3,4,4,2,3,1,0,1,0],[3,3,0,1,2,1,0,0,1,0],[3,3,1,1,1,1,1,0,1,1],[3,3,1,0,1,0,2,-5000,1,0],[3,3,1,2,1,1,3,0,2,2]],
  [[2,3,c,m,3,s,k,o,2,e] for c in range(1,4) for (m,o) in ((0,0),(3,5000)) for (s,k) in ((1,0),(0,1),(1,2),(4,3),(1,99),(0,101)) for e in (0,1,3)]+[[3,3,c,m,2,1,k,o,1,0] for c in (0,1) for (m,o) in ((0,0),(3,-5000)) for k in (0,1,2,3,99)],'; partition trees one or two levels deep with regions made by each of the three partition makers, the k-way splitter and the recursive splitters, base cases and border triangulation sequential or divided themselves'),
 _l('any-division',[[2,3,0,0,0,0,0,0,1,0,0,1],[2,3,4,0,0,0,1,0,1,0,0,1],[2,3,0,2,2,0,2,0,1,0,0,1],[2,3,1,3,0,1,0,0,2,1,0,1],[3,3,0,0,0,0,1,0,1,0,0,1],[3,3,1,0,0,0,0,0,1,0,0,1]],[[2,3,c,m,b,0,k,0,d,0,0,1] for (c,d) in ((0,1),(4,1),(3,1),(1,2)) for k in range(3) for (m,b) in ((0,0),(3,2))]+[[3,3,c,0,0,0,k,0,1,0,0,1] for c in (0,1) for k in range(3)],'; every division of the points into the partitions in which no point lies within the convex hull of another part'),
 _l('enclosed',[[2,3,0,0,0,0,0,0,1,0,0,2]],[[2,3,0,0,0,0,0,0,1,0,0,2]],'; one division with a partition enclosed by the other (known finding)')])
CHECKS['C45']['jobs'][2]['must_reach']=[]
CHECKS['C26']['jobs'].append(J('accurate','c26',[[2,5,5,4,2,0,0,2,2,1,0,0,2,6],[3,5,5,4,2,1,0,2,2,1,0,0,2,10],[2,4,4,2,2,1,0,3,0,1,0,0,2]],'partitioners with accurate grid regions, one and two levels deep: the regions stay usable',srcs=SP,opts=O+['--tab','14'],time=40,steps=60000000,tparams=[[D,k,5,4,2,1,0,3,c,1,0,0,2,6+2*D-4+2*(D-2)] for D in (2,3) for k in (2,3,4,5) for c in range(3)],ttime=200))
# point ids under which fingerprints of simplices and faces collide
def _c(name,prop,quick,thorough,lb=False):
    f=_l if lb else _d; j=f(name,[p+[0]*(12-len(p))+[64] for p in quick],[p+[0]*(12-len(p))+[64] for p in thorough]); j['bounds']+='; point ids 1, 65, 129, ..: fingerprints of simplices and faces collide wherever the vertex numbers agree in xor'; CHECKS[prop]['jobs'].append(j)
_c('collisions','C35',[[2,1,0,0,3,1,0,300],[2,1,2,5,3,0,0,1000],[2,1,3,3,3,1,0,1000],[3,1,1,2,1,0,0,1000]],[[2,1,c,m,4,s,0,1000] for c in range(5) for m in (0,2,4) for s in (0,1)]+[[3,1,c,m,2,0,0,1000] for c in (0,1) for m in (0,3)])
_c('collisions','C36',[[2,2,0,3,3,1,0,300],[2,2,2,1,3,0,0,1000],[2,2,3,4,3,1,0,1000],[3,2,1,1,1,0,0,1000]],[[2,2,c,m,4,s,0,1000] for c in range(5) for m in (0,2,4) for s in (0,1)]+[[3,2,c,m,2,0,0,1000] for c in (0,1) for m in (0,3)])
_c('collisions','C43',[[2,3,2,3,3,1,100,0,4,0],[2,3,3,1,2,0,99,0,4,1],[3,3,1,2,1,0,100,0,8,0]],[[2,3,c,m,3,1,k,0,4,e] for c in range(5) for m in (0,4) for k in (99,100,101) for e in (0,1)])
_c('collisions','C45',[[2,3,2,3,3,1,0,0,1,0],[2,3,3,1,2,0,3,0,4,1]],[[2,3,c,m,3,1,k,0,2,e] for c in range(4) for m in (0,4) for k in (0,1,2,3) for e in (0,1)],True)
CHECKS['C33']['jobs'].append(J('collisions','c33',[[2,0,1,1,1,1,5,64],[2,1,2,0,1,0,0,64],[2,1,0,1,1,0,0,64],[2,2,2,0,1,1,0,64],[2,2,2,0,1,1,2,64],[2,2,1,0,1,0,7,64],[3,1,1,0,1,0,0,64],[3,2,1,0,1,1,0,64],[2,3,2,0,1,0,2,64],[2,3,2,0,1,0,3,64],[2,3,2,0,1,0,5,64]],'as above with point ids 1, 65, 129, ..: fingerprints of simplices and faces collide wherever the vertex numbers agree in xor',defs=ND,srcs=PR,steps=40000000,opts=O+['--tab','12'],time=40,tparams=[[2,2,2,0,1,1,k,64] for k in range(9)]+[[3,2,1,0,1,0,k,64] for k in range(9)],ttime=400))
CHECKS['C06']['jobs'].append(J('stale','c06',[[3,0,2,2,0,0],[3,1,2,2,0,0],[3,2,2,2,0,0]],'growing set/map/multimap: a handle not used since the table grew through another one, with any operation first',defs=["-DPDT_VERIF_BLOCKSIZE=2"],time=60,tparams=[[3,k,2,3,0,0] for k in range(3)],ttime=400))
