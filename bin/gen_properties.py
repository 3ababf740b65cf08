#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line)."""
import json, os
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook="none"):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m} for n,m in state]
    if observe: a["observe_at"]=[observe]
    a["hook_needed"]=hook
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

I="include/richdem/"
prop("C01","Depression filling yields the exact minimal drained surface, in every variant",
 "Every depression-filling routine (original, improved, Zhou, Wei, generic front end; D8 and D4; every element type) replaces each cell by the lowest level at which it can drain to the grid's edge, i.e. the minimum over paths to an edge cell of the highest cell on the path, NoData ranking below all data (the Wei variant lets water leave at any NoData cell). No cell is lowered, edge cells and already draining cells are untouched, filling twice changes nothing, and the depression test and pit mask agree with that surface. The size-limited fill raises exactly the depressions of at most the given number of cells.",
 ["inputs"],"for all elevation grids: any shape including one-cell-wide grids, any elevations including ties, any NoData layout, any element type and either topology",
 "The tests compare a handful of fixed DEMs and seeded random grids at one type; wrong results need particular arrangements of ties, nested depressions, NoData or thin grids.",
 [I+"depressions/Barnes2014.hpp",I+"depressions/Zhou2016.hpp",I+"depressions/Wei2018.hpp",I+"depressions/depressions.hpp",I+"common/grid_cell.hpp"],
 [("Priority-Flood (original/improved/max_dep/pit_mask/HasDepressions)",I+"depressions/Barnes2014.hpp"),("one-pass trace queues",I+"depressions/Zhou2016.hpp, Wei2018.hpp")],
 observe="the DEM handed back by each routine")
prop("C02","Epsilon filling leaves every cell a strictly downhill way out",
 "After epsilon filling of a floating-point DEM every data cell that is not on the grid's edge has a strictly lower neighbour or a NoData neighbour, so following lower neighbours always leaves the DEM. No cell is lowered, edge and NoData cells are unchanged, no cell ends below the ordinarily filled surface, and a raised cell lies no more representable steps above that surface than the DEM has cells. Integer DEMs are refused rather than silently left undrained.",
 ["inputs"],"for all float and double grids up to the bounds: ties, flats, nested depressions, NoData layouts, both topologies",
 "Unit tests check two DEMs; whether a cell keeps a strictly lower neighbour depends on queue order, ties and neighbouring increments over all layouts.",
 [I+"depressions/Barnes2014.hpp",I+"depressions/depressions.hpp"],
 [("PriorityFloodEpsilon_Barnes2014",I+"depressions/Barnes2014.hpp")],observe="the DEM handed back")
prop("C03","Flood-derived directions and watersheds lead every cell out by its lowest way",
 "The depression-crossing flow directions give every data cell exactly one direction whose chain reaches the grid's edge (or NoData) without cycles, never passing above the lowest level at which that cell can drain. Watershed labels partition the data cells so that cells sharing a label are connected and drain through one common outlet, and the optional alteration leaves the DEM equal to the filled one; without it the DEM is untouched.",
 ["inputs"],"for all elevation grids up to the bounds, any ties and NoData layouts",
 "Nothing in the test-suite follows the directions or checks the labels on arbitrary grids.",
 [I+"depressions/Barnes2014.hpp"],
 [("PriorityFloodFlowdirs_Barnes2014",I+"depressions/Barnes2014.hpp"),("PriorityFloodWatersheds_Barnes2014",I+"depressions/Barnes2014.hpp")],observe="flow-direction and label rasters")
prop("C04","Breaching drains every depression by carving only",
 "Complete breaching leaves no depression: from every data cell a path of non-increasing elevation reaches the grid's edge or a NoData cell. Apart from raising a pit to its lowest neighbour it only lowers cells, it lowers none below the pit level being drained, and it leaves NoData cells and DEMs without pits or flats unchanged. Breaching limited by length and depth carves no path that is longer or deeper than permitted: selective breaching breaches a pit only if its whole path is within the limits, constrained breaching drills as long and as deep as permitted, and with filling everything still undrained is filled to its spill level, so that every cell drains.",
 ["inputs"],"for all grids up to the bounds, several element types, both topologies, any NoData layout",
 "The tests breach a handful of DEMs; early termination and back-link errors show only on particular layouts of pits.",
 [I+"depressions/Lindsay2016.hpp"],[("CompleteBreaching_Lindsay2016, Lindsay2016",I+"depressions/Lindsay2016.hpp")],observe="the DEM handed back")
prop("C05","The depression hierarchy describes the terrain's real depressions",
 "Every land cell is assigned to the ocean or to one depression whose spill point, pit, cell count and volume are those of the actual terrain; two depressions are merged exactly at the lowest elevation that joins them, parents contain their children, and each depression overflows to the one across its outlet. Every cell's recorded flow direction chain ends at its own depression's pit or at the ocean. A terrain with no ocean is refused.",
 ["inputs"],"for all small terrains (heights, ties, ocean placement), both topologies",
 "The tests use a few fixed seeds and hand-made DEMs; wrong outlets, volumes or links need specific saddle and tie patterns.",
 [I+"depressions/depression_hierarchy.hpp",I+"common/disjoint_dense_int_set.hpp",I+"common/radix_heap.hpp"],
 [("GetDepressionHierarchy / CalculateMarginalVolumes / CalculateTotalVolumes",I+"depressions/depression_hierarchy.hpp")],observe="hierarchy vector, label and flow-direction rasters")
prop("C06","Fill-Spill-Merge conserves water and leaves physically possible lakes",
 "Water placed on a terrain is either standing in depressions or in the ocean at the end: none is created or lost. Every lake has a level surface inside one depression, no dry or drier neighbour below that surface could still receive it, and no depression holds more than its capacity; depressions overflow before water passes to the neighbours and parents their hierarchy names. The result equals water filling each depression in spill order, and running on an already settled landscape changes nothing.",
 ["inputs"],"for all small terrains and all distributions of water amounts over cells in the alphabet",
 "The existing randomised test samples fixed seeds at one water amount and asserts only part of this.",
 [I+"depressions/fill_spill_merge.hpp",I+"depressions/depression_hierarchy.hpp"],
 [("MoveWaterIntoPits / MoveWaterInDepHier / FindDepressionsToFill / FillDepressions",I+"depressions/fill_spill_merge.hpp")],observe="water-table-depth raster and hierarchy water volumes")
prop("C07","Flow metrics send all of a cell's flow downhill in the published shares",
 "For every flow-metric routine, each interior data cell with a strictly lower neighbour gives non-negative shares that sum to one, only to strictly lower data neighbours, and cells without one, edge cells and NoData cells are marked as having no flow or no data. The shares are those of the method: all to the steepest or chosen receiver for single-receiver methods (D8, D4, Rho8, Rho4), slope-power weights for Freeman, Holmgren and Quinn, and the facet-angle split between two adjacent neighbours for D-infinity.",
 ["inputs","configurations"],"for all 3x3 neighbourhoods over the alphabet (which determine every interior cell), larger grids up to the bounds, every method, exponent and element type",
 "The flow-metric tests compare almost nothing; a share sent to the wrong neighbour is visible only when the share vector is compared with the method's formula on all neighbourhood shapes.",
 [I+"flowmet/Tarboton1997.hpp",I+"flowmet/Freeman1991.hpp",I+"flowmet/Holmgren1994.hpp",I+"flowmet/Quinn1991.hpp",I+"flowmet/OCallaghan1984.hpp",I+"flowmet/Fairfield1991.hpp",I+"common/Array3D.hpp"],
 [("FM_* routines",I+"flowmet/")],observe="the proportions raster")
prop("C08","Flow accumulation is each cell's own flow plus all flow from upstream",
 "Accumulation over any flow proportions gives each data cell its own weight plus the proportioned accumulation of every cell that flows into it, so the flow leaving through terminal cells equals the total placed on the DEM; NoData cells get the NoData accumulation value. This holds for unit and user-supplied weights, for every flow metric, and independently of the order in which cells are processed.",
 ["inputs"],"for all small grids with every flow metric, every weighting in the alphabet, and all acyclic single-receiver direction fields up to the bounds",
 "The tests compare one D8 result; a lost or doubled contribution needs a particular convergence pattern.",
 [I+"methods/flow_accumulation_generic.hpp",I+"methods/flow_accumulation.hpp",I+"common/Array3D.hpp"],
 [("FlowAccumulation",I+"methods/flow_accumulation_generic.hpp")],observe="accumulation raster")
prop("C09","D8 and D-infinity direction and area routines are exact on every terrain",
 "The single-direction routine points each data cell at the lowest of its strictly lower neighbours (a cardinal one before an equally low diagonal one; NoData ranking lowest, edge cells pointing off the grid) and the D-infinity routine returns the steepest facet's angle; upslope area from such directions counts every cell exactly once in each cell downstream of it. Upslope-cell selection marks exactly the cells whose flow passes through the chosen cells.",
 ["inputs"],"for all small terrains and all acyclic direction rasters up to the bounds",
 "Existing tests compare one or two reference files.",
 [I+"flowmet/d8_flowdirs.hpp",I+"flowmet/dinf_flowdirs.hpp",I+"methods/d8_methods.hpp",I+"methods/dinf_methods.hpp"],
 [("d8_flow_directions, d8_flow_accum, d8_upslope_cells",I+"flowmet/d8_flowdirs.hpp, "+I+"methods/d8_methods.hpp"),("dinf_flow_directions, dinf_upslope_area",I+"flowmet/dinf_flowdirs.hpp, "+I+"methods/dinf_methods.hpp")],observe="direction and area rasters")
prop("C10","Flat resolution drains every drainable flat and leaves all else alone",
 "After flat resolution every cell of a flat that has an outlet drains: following the resolved directions, or the strictly lower neighbours of the altered DEM, leaves the flat through one of its outlets without cycles. Cells outside flats keep their directions and elevations, no order between original elevations that differ by more than the increments applied is inverted, and flats without an outlet are left unresolved and unchanged. Altering is refused for integer DEMs.",
 ["inputs"],"for all small grids with flats of every shape, with high edges, low edges, NoData and multiple outlets",
 "The tests resolve fixed DEMs; flats are combinatorial shapes and an undrained cell depends on the shape.",
 [I+"flats/Barnes2014.hpp",I+"flats/flat_resolution.hpp",I+"flats/flats.hpp",I+"flats/find_flats.hpp"],
 [("GetFlatMask / ResolveFlatsEpsilon / ResolveFlats",I+"flats/Barnes2014.hpp"),("barnes_flat_resolution_d8",I+"flats/flat_resolution.hpp")],observe="flow-direction raster and altered DEM")
prop("C11","Terrain attributes equal their published formulas for every neighbourhood",
 "Slope (rise/run, percent, degrees, radians), aspect, total, planform and profile curvature, the wetness and stream-power indices, surface area and perimeter equal their published formulas for every cell, with the cell size, z-scale and the treatment of edge and NoData neighbours as documented; NoData cells give NoData.",
 ["inputs","configurations"],"for all 3x3 neighbourhoods over the alphabet, positions on edge or interior, cell sizes and z-scales",
 "Tests compare few DEMs and values; sign, direction and unit mistakes hide on symmetric data.",
 [I+"methods/terrain_attributes.hpp",I+"misc/misc_methods.hpp"],
 [("TA_*",I+"methods/terrain_attributes.hpp"),("dem_surface_area, Perimeter, BucketFill",I+"misc/misc_methods.hpp")],observe="attribute rasters")
prop("C12","Raster operations keep every value at its place",
 "Any sequence of raster operations (construction, copy, move, resize, expand, flip, transpose, row/column access, reading and writing cells, scaling, counting, comparison, NoData changes) leaves the raster with exactly the dimensions, values, NoData value and georeferencing that a plain two-dimensional array subjected to the same operations has. Flipping twice and transposing twice are identities, and every index conversion is the inverse of its counterpart.",
 ["histories","inputs"],"for all operation sequences up to the depth bound from all small shapes including non-square and one-cell-wide ones",
 "Tests call single operations on single shapes; aliasing, stale state and non-square mistakes need sequences and shapes.",
 [I+"common/Array2D.hpp",I+"common/ManagedVector.hpp",I+"common/Array3D.hpp",I+"common/iterators.hpp"],
 [("Array2D operations",I+"common/Array2D.hpp")],observe="public accessors of the raster")
prop("C13","Wrapped external memory is written through, never freed, never outlived",
 "A raster built over caller-supplied memory reads and writes that memory in place and never frees or reallocates it; copies of it own their storage and are independent; moving hands the storage over; anything allocated by the library is freed exactly once. This holds over any history of construction, copy, move, assignment, swap and resize between owning and wrapping rasters.",
 ["histories"],"for all histories of ownership operations up to the depth bound over several owning and wrapping objects",
 "The tests exercise a few single transfers; double frees and leaks need particular histories.",
 [I+"common/ManagedVector.hpp",I+"common/Array2D.hpp"],[("ownership flag",I+"common/ManagedVector.hpp")],state=[("owned flag","whether destruction frees the storage")],observe="values, allocation and free events")
prop("C14","A raster saved and loaded again is the same raster, history included",
 "Saving a raster through GDAL and loading it again gives the same dimensions, values, NoData value, cell georeferencing, projection and metadata for every element type GDAL supports here; saving it in the native cache and loading it again keeps dimensions, values, NoData value, view offsets, georeferencing and projection for every element type. Every save through GDAL appends exactly one history entry, naming the operation, after those already there. Loading a sub-window gives exactly that part of the file, and saving that part at its offsets places it where it lay in the parent.",
 ["inputs","histories"],"for all small shapes, element types, value patterns, metadata sets, sub-windows and save-load-process histories up to the bound",
 "The tests round-trip one or two rasters and never check metadata or history.",
 [I+"common/Array2D.hpp",I+"common/gdal.hpp","src/gdal.cpp",I+"common/loaders.hpp"],
 [("saveGDAL/loadGDAL/saveToCache/loadNative/ProcessMetadata",I+"common/Array2D.hpp")],observe="the loaded raster")
prop("C15","A damaged saved raster is refused, never silently read as data",
 "Loading a native cache file or a GeoTIFF that was truncated at any byte, or a native cache file whose header cannot describe its content, fails with an error and never yields a raster with other values, reads outside its buffers or runs away. A save that fails reports it.",
 ["crash_points","fault_sequences"],"for every truncation point of every saved file in the bounded set, every loader, and write failures",
 "No test truncates a file.",
 [I+"common/Array2D.hpp"],[("saveToCache / loadNative / loadGDAL",I+"common/Array2D.hpp")],observe="load outcome")
prop("C16","Layout files describe exactly the tile grid they were written from",
 "Reading a layout file gives the tile name for every row and column as written, blank entries denoting absent tiles, and paths resolved relative to the layout file; a row one short of the widest is taken to end in a blank, and a file whose rows differ further, or an empty one, is refused. Writing tiles and reading the file back gives the same grid for every pattern of rows, columns and gaps.",
 ["inputs","histories"],"for all layouts up to the bounds: rows, columns, blanks, trailing separators, line ends, directory and file names; all write sequences",
 "One or two layouts appear in tests.",
 [I+"common/Layoutfile.hpp"],[("LayoutfileReader / LayoutfileWriter",I+"common/Layoutfile.hpp")],observe="tile names and coordinates")
prop("C17","A tiled raster behaves like one big raster whatever the cache does",
 "For any sequence of reads, writes and whole-raster operations, a tiled raster whose tiles are loaded and evicted on demand returns the value last written at each coordinate, absent tiles read as NoData, edge and bounds tests follow the whole raster, and changes to a writable tiled raster are never lost by eviction. The eviction order is least-recently-used.",
 ["histories","configurations"],"for all access sequences up to the depth bound over small tile grids with absent tiles and cache sizes from one up",
 "No test covers eviction histories.",
 [I+"tiled/A2Array2D.hpp",I+"tiled/lru.hpp"],[("tile cache",I+"tiled/A2Array2D.hpp"),("LRU",I+"tiled/lru.hpp")],observe="cell values through the tiled interface")
prop("C18","Parallel tiled depression filling equals serial filling of the whole DEM",
 "For every tiling, retention mode, tile orientation, pattern of absent tiles, number of workers and message timing, the parallel Priority-Flood finishes without deadlock and its mosaicked output equals the serially filled DEM.",
 ["schedules","configurations","inputs"],"for all small DEMs and tilings up to the bounds with every message-matching order, eager or rendezvous sends",
 "The MPI tests run a few DEMs under whatever schedule happens.",
 ["programs/parallel_priority_flood/main.cpp","programs/parallel_priority_flood/Zhou2016pf.hpp","programs/parallel_priority_flood/Barnes2014pf.hpp",I+"common/communication.hpp"],
 [("Producer/Consumer",  "programs/parallel_priority_flood/main.cpp"),("CommSend/CommRecv",I+"common/communication.hpp")],observe="output tiles")
prop("C19","Parallel tiled flow accumulation equals serial accumulation",
 "For every D8 direction raster, tiling, retention mode, tile orientation, pattern of absent tiles, number of workers and message timing, the parallel D8 accumulation finishes without deadlock and each cell of its output equals the number of cells upstream of it, itself included.",
 ["schedules","configurations","inputs"],"for all small direction rasters and tilings up to the bounds with every message-matching order",
 "The MPI tests run a few rasters under whatever schedule happens.",
 ["programs/parallel_d8_accum/main.cpp","programs/parallel_d8_accum/perimeters.hpp",I+"common/communication.hpp"],
 [("Producer/Consumer","programs/parallel_d8_accum/main.cpp")],observe="output tiles")
prop("C20","Results do not depend on the number or timing of threads",
 "Every multi-threaded routine gives the same result as with one thread, for every number of threads and every interleaving of them; only the names of arbitrary labels and the rounding of sums whose order is free may differ.",
 ["schedules","configurations","inputs"],"for all small inputs, thread counts and interleavings up to the preemption bound",
 "The test-suite runs with one thread.",
 [I+"methods/d8_methods.hpp",I+"methods/dinf_methods.hpp",I+"methods/flow_accumulation_generic.hpp",I+"flowmet/",I+"flats/Barnes2014.hpp",I+"depressions/depression_hierarchy.hpp",I+"methods/terrain_attributes.hpp"],
 [("OpenMP parallel loops","all algorithm headers")],observe="output rasters")
prop("C21","Random streams are reproducible from their seed and saved state",
 "Seeding with the same number gives every thread the same sequence again, different seeds and different threads give different sequences, and restoring a saved state continues exactly where it was saved; drawn integers and reals lie in the requested closed or half-open range.",
 ["histories","configurations"],"for all sequences of seed, draw, save and restore operations up to the depth bound, over several thread counts",
 "Tests look at single calls with one thread.",
 ["src/random.cpp",I+"common/random.hpp"],[("per-thread engines","src/random.cpp")],observe="drawn numbers")
prop("C22","Priority queues and disjoint sets obey their ordering contract",
 "For every sequence of operations, the elevation queues return cells by ascending elevation with ties in the documented insertion order and NaN first, the radix heap returns a minimum of what it holds, and the disjoint-set structure answers the same-set question exactly as the unions performed so far imply, keeping the prescribed representative.",
 ["histories"],"for all operation sequences up to the depth bound over small value alphabets",
 "Unit tests exercise single sequences.",
 [I+"common/grid_cell.hpp",I+"common/radix_heap.hpp",I+"common/disjoint_dense_int_set.hpp"],
 [("GridCellZ(k)_pq",I+"common/grid_cell.hpp"),("radix heap",I+"common/radix_heap.hpp"),("DisjointDenseIntSet",I+"common/disjoint_dense_int_set.hpp")],observe="popped elements, set answers")
prop("C23","Messages between processes arrive whole, typed and unmixed",
 "Whatever is sent between ranks is received with exactly the sent content and tag, from any or a chosen source, in the sent order per sender and tag, whatever the timing and however many ranks send at once; byte counters equal what was transferred.",
 ["schedules","histories"],"for all small send/receive programs and all message-matching orders",
 "Tests cannot choose the arrival order.",
 [I+"common/communication.hpp"],[("CommSend/CommRecv/CommISend/CommBroadcast",I+"common/communication.hpp")],observe="received values")
prop("C24","Command-line programs do what their usage text says, or fail",
 "For every raster of any cell type and orientation, each command-line program writes or prints exactly what its usage promises: the raster programs give the result of the routine they name, applied with the given options, and keep georeferencing, projection and NoData and extend the processing history by the command; converting directions keeps every compass direction; the loop check reports exactly the cells lying on cycles; comparing, counting, displaying and inspecting show the real differences, counts and values; the layout tools report the real size, tile counts, missing and repeated tiles and picture of any layout and cut out its largest complete square. What cannot be done (unknown options, invalid codes, cells outside the raster) ends with a failure status and no output.",
 ["inputs","configurations","histories"],"for all rasters up to the bounds, all cell types, orientations, options and short chains of programs",
 "There are no tests of the programs.",
 ["apps/",I+"misc/conversion.hpp"],
 [("mains of the programs","apps/"),("layout tools","apps/rd_layout_find_square.py"),("type dispatch","apps/router.hpp"),("convert_arc_flowdirs_to_richdem_d8",I+"misc/conversion.hpp")],observe="output files, printed text, exit status")
prop("C25","The Python interface runs the same algorithms without touching its inputs",
 "Every Python-level operation returns what the C++ routine gives for the same array, leaves its input unchanged unless asked to work in place, in which case the caller's own array is changed, and carries no-data value, georeferencing, projection and the extended processing history to the result; slices and views keep their metadata.",
 ["histories","configurations","inputs"],"for all short sequences of operations over small arrays, element types and in-place options",
 "The Python tests cover a few calls.",
 ["wrappers/pyrichdem/richdem/__init__.py","wrappers/pyrichdem/src/pywrapper.hpp"],
 [("rdarray and operation wrappers","wrappers/pyrichdem/richdem/__init__.py")],observe="arrays, attributes and metadata")
prop("C26","Generated terrain depends on nothing but its size and seed",
 "The terrain generator fills a square raster with improved Perlin noise of ten lattice cells per side: every value lies between 0 and 1 and is the noise function's at that place, the same size and seed always give the same terrain whatever was generated, drawn or stored before, different seeds give different terrain, and NoData value, georeferencing and metadata stay. The noise function has its published values for every coordinate, negative ones and those beyond its period included. A raster that is not square is refused unchanged.",
 ["inputs","histories"],"for all sizes and seeds in the ranges explored, all short histories of calls, and all coordinates of the alphabet",
 "Tests use the generator only as a source of some terrain.",
 ["src/terrain_generation/terrain_generation.cpp","src/terrain_generation/PerlinNoise.cpp",I+"terrain_generation.hpp"],
 [("generate_perlin_terrain","src/terrain_generation/terrain_generation.cpp"),("PerlinNoise","src/terrain_generation/PerlinNoise.cpp")],observe="the raster handed back")
prop("C27","Analysis routines stay inside their rasters and depend on their inputs alone",
 "Depression filling, breaching, watershed, depression-hierarchy, flow-direction, flow-metric, accumulation, upslope, flat-resolution and terrain-attribute routines read and write only cells of the rasters they were given, on every raster shape down to a single cell, with NoData anywhere. Their results are decided by their inputs alone: an output raster may arrive empty, in another size, or full of an earlier run's values, memory may hold anything, and whatever other routine ran before makes no difference.",
 ["inputs","histories"],"for all small grids of every shape with NoData, all routines, output rasters in three conditions, all ordered pairs of routines",
 "An access one cell outside mostly goes unnoticed, and tests hand every routine fresh outputs.",
 [I+"depressions",I+"flats",I+"flowmet",I+"methods",I+"misc/misc_methods.hpp"],
 [("PriorityFlood_Barnes2014",I+"depressions/Barnes2014.hpp"),("PriorityFlood_Wei2018",I+"depressions/Wei2018.hpp"),("PriorityFlood_Zhou2016",I+"depressions/Zhou2016.hpp"),("GetDepressionHierarchy",I+"depressions/depression_hierarchy.hpp"),("FlowAccumulation",I+"methods/flow_accumulation_generic.hpp"),("d8_flow_accum",I+"methods/d8_methods.hpp"),("GetFlatMask",I+"flats/flat_resolution.hpp"),("TerrainProcessor",I+"methods/terrain_attributes.hpp")],observe="memory accesses and the results")
prop("C28","Timers, progress bars and log messages report what really happened",
 "A timer gives exactly the time that passed between its starts and stops, summed over all of them, and the time since the last start while it runs; reset forgets everything; starting a running timer, stopping or asking a lap of a stopped one, and asking the total of a running one are refused without effect. A progress bar counts the work it is told of, whatever the total (up to the largest 32-bit number) and the number of threads; only the first thread of a team reports. Every bar it shows has the width of fifty marks and the true percentage of the work done, at most 100, with the remaining time extrapolated from the time taken; it never shows one percentage twice in a row and never lags behind by more than a few percent. Stopping it gives the time it ran. Without OpenMP the single thread reports; with progress disabled nothing is shown. Every message logged appears once, whole, under its kind's mark and in the order of completion; with logging off nothing appears, and either way what is logged is evaluated once.",
 ["histories","configurations"],"for all operation histories up to the depth bound on two timers and a bar under a virtual clock, and all runs over the totals, strides and team sizes explored",
 "Tests never look at the display and cannot fix the clock.",
 [I+"common/timer.hpp",I+"common/ProgressBar.hpp",I+"common/logger.hpp","src/richdem.cpp"],
 [("Timer",I+"common/timer.hpp"),("ProgressBar::update",I+"common/ProgressBar.hpp"),("StreamLogger",I+"common/logger.hpp")],observe="returned times, exceptions and the text shown")
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P))
