"""What each check covers, in words: used for MANIFEST.json, the evidence files and the table in DESIGN.md."""
GRID="cases are (suite, index) pairs decoded to a grid: full alphabets on tiny shapes, fully enumerated interiors behind an enumerated border, base surfaces with every choice of up to 2 (thorough 3) changed cells; "
REAL="Real code from the working tree, executed on every case of the stated finite spaces; "
T={
"C01":dict(technique="explicit enumeration of all bounded input terrains, real routines against a least-fixpoint minimax model",
 rule=GRID+"every filling routine is run on each; plus twelve terrains of 70,000 to 270,000 cells in four orientations whose counts pass 2^16 (columns, pits, path lengths, areas); non-trivial: the reference surface contains a depression",
 note=REAL+"oracle: Bellman-style least fixpoint of the minimax drain level, written independently. All element types and five value maps (small, fractional, near the type's limits) are crossed with the families.",
 assumptions=["elevations outside the listed alphabets behave like alphabet values with the same order relations"]),
"C02":dict(technique="explicit enumeration of all bounded input terrains, real routine against an order model",
 rule=GRID+"alphabets contain runs of adjacent representable numbers; plus twelve terrains of 70,000 to 270,000 cells in four orientations whose counts pass 2^16 (columns, pits, path lengths, areas); non-trivial: the routine changed a cell",
 note=REAL+"oracle: strict descent to the edge or NoData from every cell, untouched edge and NoData cells, never below the filled surface (minimax model), minimal number of representable steps.",
 assumptions=["elevations outside the alphabets behave alike"]),
"C03":dict(technique="explicit enumeration of all bounded input terrains, real routines against reachability and minimax models",
 rule=GRID+"non-trivial: more than one direction is used; plus twelve terrains of 70,000 to 270,000 cells in four orientations whose counts pass 2^16 (columns, pits, path lengths, areas)",
 note=REAL+"oracle: follows every direction chain to its end, checks acyclicity, the highest cell passed against the minimax level, and watershed labels against connectivity and outlet.",
 assumptions=["elevations outside the alphabets behave alike"]),
"C04":dict(technique="explicit enumeration of all bounded input terrains, real routine against a reachability model",
 rule=GRID+"both complete breaching routines and their front end are run on each; limited breaching is run with every mode x epsilon x filling x length limit x depth limit, on terrains against the limits and on all corridor profiles (one possible route) against the exact result; plus twelve terrains of 70,000 to 270,000 cells in four orientations whose counts pass 2^16 (columns, pits, path lengths, areas); non-trivial: the routine changed the terrain",
 note=REAL+"oracle: non-increasing path to the edge or NoData from every cell, carving only (apart from pit lifting).",
 assumptions=["elevations outside the alphabets behave alike"]),
"C05":dict(technique="explicit enumeration of all bounded terrains and ocean masks, real routine against an independently built merge tree",
 rule="grids as in the terrain families, crossed with all ocean masks on tiny shapes and border/corner/single-cell oceans otherwise; plus twelve terrains of 70,000 to 270,000 cells in four orientations whose counts pass 2^16 (columns, pits, path lengths, areas); non-trivial: more than one depression or one with volume",
 note=REAL+"oracle: a threshold-sweep merge tree giving pits, spill elevations, cell counts, volumes and parents; ties are judged by what any valid choice must satisfy.",
 assumptions=["elevations outside the alphabets behave alike; volumes compared up to rounding of sums"]),
"C06":dict(technique="explicit enumeration of all bounded terrains and water placements, real routine against conservation and equilibrium models",
 rule="terrain families crossed with ocean placements and water patterns (uniform, single parcels, infiltration, huge), run once and repeatedly; plus twelve terrains of 70,000 to 270,000 cells in four orientations whose counts pass 2^16 (columns, pits, path lengths, areas); non-trivial: water stands somewhere at the end",
 note=REAL+"oracle: total balance including infiltration and ocean, one level per lake, no lower neighbour able to receive, capacity and flow-direction of overflow by the merge tree.",
 assumptions=["volumes compared up to rounding of sums"]),
"C07":dict(technique="explicit enumeration of all bounded neighbourhoods, real flow metrics against the published formulas",
 rule="all rings of 8 neighbours over alphabets of 3 to 5 values (NoData included), all facets with 7 heights, value maps and scales from 1e-14 to 1e18, plus the terrain families; random methods run under every answer of an explorer-owned random source; non-trivial: always (each case holds an interior cell)",
 note=REAL+"oracle: formulas evaluated in long double with tolerances for single precision; the random engine is replaced so that every choice is enumerated.",
 assumptions=["shares compared to single precision"]),
"C08":dict(technique="explicit enumeration of all bounded flow networks and weights, real routine against the balance equation",
 rule="all single-direction networks (8 receivers, none, NoData) on up to 6 cells, all 5-choice networks on 3x3, all split patterns on four interior cells, metrics on terrain families; plus twelve terrains of 70,000 to 270,000 cells in four orientations whose counts pass 2^16 (columns, pits, path lengths, areas); non-trivial: every network",
 note=REAL+"oracle: balance equation solved upstream, cell by cell; mass conservation at the terminals.",
 assumptions=["sums compared up to double rounding"]),
"C09":dict(technique="explicit enumeration of all bounded direction rasters and terrains, real routines against network models",
 rule="all direction rasters on up to 6 cells, restricted codes on 3x3, all pairs of line ends on 6x7 for each direction, D-infinity angles in 18 classes and 4000 steps of the circle; plus twelve terrains of 70,000 to 270,000 cells in four orientations whose counts pass 2^16 (columns, pits, path lengths, areas); non-trivial: counted by the harness where the network is not empty",
 note=REAL+"oracle: own traversal; D-infinity facets by formula; cells on or below cycles are judged only for termination.",
 assumptions=["angles compared to single precision"]),
"C10":dict(technique="explicit enumeration of all bounded flat shapes, real routines against a reachability model",
 rule="terrain families and all two-level interiors up to 7x5 (thorough 6x6) with enumerated outlets; plus twelve terrains of 70,000 to 270,000 cells in four orientations whose counts pass 2^16 (columns, pits, path lengths, areas); non-trivial: a drainable flat exists",
 note=REAL+"oracle: classification of cells by breadth-first search; directions followed to the outlet; altered DEM compared cell by cell for order, confinement and descent.",
 assumptions=["elevations outside the alphabets behave alike; value maps with gaps smaller than the increments are excluded as the documentation does"]),
"C11":dict(technique="explicit enumeration of all bounded neighbourhoods, real attribute routines against the published formulas",
 rule="all 3x3 neighbourhoods over 4 (thorough 5) values under four cell sizes and z-scales, the terrain families, all masks for perimeter and bucket filling; plus twelve terrains of 70,000 to 270,000 cells in four orientations whose counts pass 2^16 (columns, pits, path lengths, areas); non-trivial: data and NoData cells are both present or a gradient exists",
 note=REAL+"oracle: formulas in long double; undetermined results (vanishing gradient up to rounding) are not judged.",
 assumptions=["attributes compared to single precision"]),
"C12":dict(technique="explicit-state exploration of all operation histories up to a depth, real rasters in lock-step with a plain model",
 rule="every sequence of raster operations of length 1 to 3 (4 from one start; thorough deeper) from five starting rasters, for several element types, under AddressSanitizer and UBSan; after each step every observer is compared; non-trivial: histories longer than one operation",
 note=REAL+"oracle: a std::vector-backed model of the raster.",
 assumptions=["rasters of up to a few cells stand for larger ones except for the index-overflow suite, which uses huge dimensions without storage"]),
"C13":dict(technique="explicit-state exploration of all ownership histories up to a depth, with every allocation observed",
 rule="every sequence of construction, copy, move, assignment, swap and resize over a pool of two vectors or rasters, some wrapping caller memory, up to 4 (rasters 3) steps, thorough one more; under AddressSanitizer with operator new[]/delete[] watched; non-trivial: more than one operation",
 note=REAL+"oracle: an ownership model (who holds which block, how often it was freed).",
 assumptions=[]),
"C14":dict(technique="explicit enumeration of round trips and explicit-state exploration of save/load/process histories",
 rule="all combinations of shape, value pattern, NoData, geotransform, projection, metadata, compression and loader for each element type; all windows; all histories up to depth 4 (thorough 5) of save, load, alter, process; non-trivial: more than one cell or more than one save",
 note=REAL+"oracle: an in-memory record of what was saved; files live in GDAL's memory file system or a scratch directory.",
 assumptions=["the installed GDAL 3.8.4 is correct"]),
"C15":dict(level="fault_enumeration",technique="enumeration of every fault point: truncations, header corruptions and out-of-space points",
 rule="every truncation length of small native files and of small GeoTIFFs (compressed and not) through every loader (whole, deferred, part of the raster, with expected size), every single-byte change of the header region, loading as another element type, and every number of bytes after which the device is full during a save; non-trivial: the file was really damaged",
 note=REAL+"oracle: an independent parse of the file decides whether the bytes still describe a raster; a loader must refuse or give exactly that raster.",
 assumptions=["write failures are injected at the level of write(2) through RLIMIT_FSIZE; device errors of other kinds are not modelled"]),
"C16":dict(technique="explicit enumeration of all short layout texts and all small layout grids, real reader/writer against an independent parser",
 rule="all texts of up to 8 (thorough 10) characters over alphabets of 4 and 5 characters, all present/absent/name patterns of grids up to 4x4 written and read back under six path situations; non-trivial: more than one field",
 note=REAL+"oracle: an independent parser of the layout format.",
 assumptions=["longer names behave like short ones"]),
"C17":dict(technique="explicit-state exploration of all tiled-raster operation histories under every small cache size, in lock-step with one plain array and an LRU list",
 rule="every sequence of reads, writes and whole-raster operations up to depth 3 (thorough 4) over several tilings, absent-tile patterns, orientations and cache capacities; LRU alone to depth 6 (7); under AddressSanitizer and UBSan; non-trivial: more than one operation",
 note=REAL+"oracle: a plain array plus a list-based LRU model.",
 assumptions=["tiles of at most a few cells"]),
"C18":dict(technique="stateless exploration of message deliveries of the real MPI program on a controlled scheduler",
 rule="tilings x retention modes x orientations x absent tiles x rank counts x base surfaces with all single changed cells; for the schedule suites every matching of messages (wildcard receives) up to the preemption bound is explored; non-trivial: the filled DEM differs from the input",
 note=REAL+"program mains run as fibers on a replacement MPI layer which owns message timing; deadlock is reported when no fiber can run. Oracle: the serial minimax filling of the mosaic.",
 assumptions=["the replacement MPI implements the standard's matching rules (checked in C23 as well)","sequential execution between communication calls"]),
"C19":dict(technique="stateless exploration of message deliveries of the real MPI program on a controlled scheduler",
 rule="as C18 over direction rasters: all rasters on 2x2 cells split into single-cell tiles, base networks with every single changed cell, DEM-derived networks, absent tiles, one-file mode with every tile size; non-trivial: some cell has more than two upstream cells",
 note=REAL+"oracle: upstream counts by topological traversal of the mosaic.",
 assumptions=["as C18; direction rasters without cycles"]),
"C20":dict(technique="stateless model checking of the real OpenMP code: all interleavings up to a preemption bound, controlled by an instrumented runtime",
 rule="each multi-threaded routine on small terrains with 2 and 3 threads; scheduling points are the conflicting memory accesses (learnt from execution, atomics included), critical sections and work sharing; depth-first with bounds on preemptions and on the number of parallel regions which depart from the first schedule; non-trivial: more than one interleaving was executed",
 note=REAL+"-fsanitize=thread instrumentation is linked against our own runtime, so libgomp and libtsan are absent; interleavings are sequentially consistent (weak memory is not modelled). Oracle: the one-thread result.",
 assumptions=["sequential consistency","bounds on preemptions and departing regions as in the suite names (p, r)"]),
"C21":dict(technique="explicit-state exploration of all seed/draw/save/restore histories and of interleavings of drawing threads",
 rule="all histories up to the depth bound over several seeds and thread counts; all pairs of seeds and thread numbers for distinctness; range limits; interleavings of 2 and 3 drawing threads; non-trivial: always",
 note=REAL+"oracle: the recorded stream of a fresh run; ranges by definition.",
 assumptions=["distinctness of streams is judged on the first twelve draws"]),
"C22":dict(technique="explicit-state exploration of all operation sequences up to a depth, in lock-step with plain models",
 rule="all push/pop sequences over alphabets with ties, NaN and infinities for three queues; all radix-heap sequences incl. swap, clear and move; all union/find/merge sequences on 3 to 6 elements; a run of 2^31 insertions for counter overflow; non-trivial: ties occurred, an element was popped or sets were merged",
 note=REAL+"oracle: sorted lists and a partition table.",
 assumptions=["radix heap keys are pushed monotonically as its contract demands"]),
"C23":dict(technique="stateless exploration of every message matching of small send/receive programs on a controlled scheduler",
 rule="programs of one to three senders with up to three messages each, over blocking and non-blocking sends, tags, sizes and wildcard or directed receives; every arrival order is executed; non-trivial: several executions were needed",
 note=REAL+"communication.hpp is compiled against the replacement MPI layer, which enumerates matchings and checks buffers and types. Oracle: what was sent.",
 assumptions=["the replacement MPI's matching rules are those of the standard"]),
"C24":dict(technique="explicit enumeration of inputs, options and program chains, each program's real main() executed and judged by its documented purpose",
 rule=GRID+"crossed with element types, orientations, NoData values and each program's options; unusable options and inputs must end in failure; chains of up to 3 (thorough 4) programs; the three layout tools on every presence pattern of small layouts; non-trivial: the program succeeded or an effect was due",
 note=REAL+"every app is compiled as a shared object and its main() is called in-process, exit() intercepted. Oracle: the library routine it names (itself judged by C01-C11) or an own model (loop check, comparison, histogram, TauDEM mapping, expansion).",
 assumptions=["GDAL's in-memory file system stands for real files"]),
"C28":dict(technique="explicit-state exploration of all operation histories under a virtual clock and thread team, in lock-step with a plain model",
 rule="all histories up to depth 7 (thorough 8) of two interleaved timers and up to depth 5 (6) of a progress bar over six totals, plus whole runs over totals 0..699 (1499) unit by unit and in strides and 15 totals up to 2^32-1, for teams of 1 to 4 threads; built with OpenMP, without, and with progress disabled; all sequences of up to 3 (4) log messages over ten kinds and six payloads, and every message logged inside another, with logging on and off; non-trivial: a timer was stopped, a bar shown or several messages logged",
 note=REAL+"clock_gettime, omp_get_thread_num and omp_get_num_threads are replaced by the explorer, std::cerr is captured and parsed. Oracle: integer arithmetic on the virtual time and 128-bit percentages.",
 assumptions=["the code reads time through clock_gettime, as std::chrono does; a bar may lag by 2 percent plus half a percent per thread, since it is refreshed every half percent of the work"]),
"C25":dict(technique="explicit-state exploration of operation sequences and enumeration of layouts, types and attributes on the real Python package, in lock-step with numpy shadows and C++ references",
 rule="every operation x element type x nine memory layouts x georeferencing x no-data value x in-place option, all sequences of 3 (thorough 4) operations out of 17, all small interiors, construction, refusals, file round trips, depression hierarchy and the console programs; non-trivial: the operation changed something",
 note=REAL+"the extension module is built from the tree and imported with the package from the tree. Oracle: a separate library calling the C++ routines on plain copies, numpy arrays for aliasing.",
 assumptions=["no-data values representable in the element type","numpy 1.26, pybind11 2.11 and GDAL 3.8.4 as installed"]),
"C26":dict(technique="explicit enumeration of sizes, seeds, coordinates and histories of calls, executed on the real code against an independent noise function",
 rule="all sizes 1..26 (thorough 1..64) x 60 (200) seeds and 8 extreme ones x 3 previous contents; 8 larger sizes; all pairs of 70 (200) seeds; all histories of 3 (4) out of 27 calls on two rasters; the noise function on 23 coordinates in each dimension x tables; non-trivial: more than one cell or a call was made",
 note=REAL+"Oracle: improved Perlin noise written from its definition as a sum over the eight cell corners.",
 assumptions=["the permutation of a seed is that of std::shuffle with std::default_random_engine of the installed library"]),
"C27":dict(technique="explicit enumeration of small rasters, output conditions and pairs of routines, executed on the real code under address and undefined-behaviour checking with its assertions armed",
 rule="every routine x all grids of at most 6 cells over 3 or 4 values and 3x3 over pairs of values (thorough: three) with NoData, walled 4x3, 4x4 and 5x5 interiors, all single deviations of 8 bases in three larger shapes, each run three times with fresh memory filled with 0, 0xff, 1 and output rasters empty, 2x5 of sevens and full-size of sevens; all ordered pairs of routines on three pairs of rasters; non-trivial: more than one cell and some routine returned cells",
 note=REAL+"Oracle: AddressSanitizer, UBSan, the library's own index assertions, and equality of the three runs.",
 assumptions=["shift checking is off: radix_heap.hpp computes an unused shift by -1 for an empty bucket","an access outside one raster that lands inside another live allocation is seen only through an assertion or a changed result"]),
}
