#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "LBC schedules of a DAG keep every dependence under any worker timing",
  "For every acyclic dependence graph given as a lower-triangular sparse matrix and every choice of coarsening parameters, the coarsened level schedule that load-balanced level coarsening returns contains every vertex exactly once. Running its levels in order, with the partitions of one level executed by any number of workers in any assignment, order and interleaving, never reads a vertex before it is final and gives exactly the serial result.",
  ["schedules", "inputs", "configurations"],
  "all lower-triangular DAGs (any shape, n>=1) x coarsening parameters x node costs x worker counts, partition-to-worker assignments and interleavings",
  "The tests use one hand-made matrix and one generated one, compare one solve on one thread (OpenMP is off in the build), and so never run two partitions of a level concurrently.",
  ["src/lbc_csc.cpp", "src/lbc_csc_dag.cpp", "src/lbc_utils.cpp", "utils/sparse_inspector.cpp"],
  [("cut into levels, connected components per level range, worst-fit packing", "src/lbc_csc_dag.cpp get_coarse_Level_set_DAG_CSC03"),
   ("same with component merging while traversing", "src/lbc_csc.cpp get_coarse_levelSet_DAG_CSC"),
   ("level cut choice", "src/lbc_utils.cpp height_partitioning*"), ("packing", "src/lbc_utils.cpp worst_fit_bin_pack")],
  ["returned level/partition/node arrays", "solution vector after executing them"])

p("C02", "Tree-based LBC schedules keep every dependence under any worker timing",
  "For every elimination tree or forest, and for every matrix whose schedule is built through its elimination tree, the coarsened schedule contains every vertex exactly once and never runs a vertex concurrently with or before one it depends on. This holds for every choice of coarsening parameters, node costs, worker count, assignment and interleaving.",
  ["schedules", "inputs", "configurations"],
  "all forests and all sparse symmetric patterns with a chordal or non-chordal factor x coarsening parameters x worker interleavings",
  "The tests reach the tree path with two matrices and single-threaded execution; level cuts at tree roots, forests and chains are not reached.",
  ["src/lbc_tree.cpp", "src/lbc_csc.cpp", "src/lbc_utils.cpp", "utils/sparse_inspector.cpp"],
  [("subtree cut and packing", "src/lbc_tree.cpp get_coarse_levelSet_tree"), ("etree construction and wrapper", "src/lbc_csc.cpp get_coarse_levelSet_DAG_CSC_tree"),
   ("tree levels", "utils/sparse_inspector.cpp build_level_set_tree*")],
  ["returned level/partition/node arrays", "solution vector"])

p("C03", "Parallel LBC partitioning is correct for every team size and interleaving",
  "When the partition construction itself runs on several threads, the schedule it returns is a valid schedule of the whole graph (every vertex once, every dependence kept) for every number of threads requested or actually obtained and every interleaving of those threads. The schedule is the one the sequential construction with the same parameters would accept: same levels in the same cuts, and inside each level vertices joined by dependences are in one partition.",
  ["schedules", "inputs", "configurations", "fault_sequences"],
  "all DAGs x coarsening parameters x requested team size x team actually delivered x interleavings and stalls of the threads",
  "The shipped build has OpenMP switched off, so no test runs this code on more than one thread; one CI run would show one interleaving.",
  ["src/lbc_csc_dag.cpp"],
  [("level ranges handed out dynamically, per-range component search, ordered collection", "src/lbc_csc_dag.cpp make_l_partitions_parallel / process_l_partition"),
   ("shared-memory component labelling", "src/lbc_csc_dag.cpp parallel_cc")],
  ["returned level/partition/node arrays for one seed"])

p("C04", "HDagg schedules keep every dependence under any builder or worker timing",
  "For every acyclic dependence graph, core count, cost vector and option (bin packing, ordering), the merged-wavefront schedule that hybrid aggregation returns contains every vertex exactly once and, executed by any number of workers in any assignment and interleaving, gives exactly the serial result. This holds for every team size and interleaving of the threads that build the schedule.",
  ["schedules", "inputs", "configurations", "fault_sequences"],
  "all DAGs x cores x costs x options x builder interleavings x executor interleavings",
  "No registered test runs hybrid aggregation at all (its demo aborts), let alone on several threads.",
  ["src/hdagg/hdagg.cpp", "include/aggregation/hdagg.h"],
  [("merge search", "src/hdagg/hdagg.cpp HDAGG / GLC_V2"), ("component cost under merge", "src/hdagg/hdagg.cpp computeCC"),
   ("schedule assembly", "src/hdagg/hdagg.cpp computeSchedule"), ("level-only variant", "src/hdagg/hdagg.cpp build_coarsened_level_parallel")],
  ["returned level/partition/node vectors", "solution vector"])

p("C05", "Wavefront level sets are exact, and cyclic graphs are reported",
  "For every acyclic graph, from a single vertex or a pure chain to a graph with no edges, each level-set builder places every vertex in exactly one wavefront, and vertices of one wavefront can run concurrently in any interleaving without one depending on another; the number of wavefronts is the longest path. A cyclic graph is reported as such, in a bounded number of steps, and never yields a schedule.",
  ["schedules", "inputs"],
  "all DAGs and all cyclic digraphs over n>=1 vertices x executor interleavings",
  "The tests see two matrices; the extreme shapes (n levels, one level, one vertex) and cycles are never built, and wavefronts are executed by one thread.",
  ["utils/sparse_inspector.cpp", "src/hdagg/hdagg.cpp", "include/aggregation/sparse_inspector.h"],
  [("in-degree peeling", "utils/sparse_inspector.cpp build_levelSet_CSC (both)"), ("queue version", "utils/sparse_inspector.cpp buildLevelSet_CSC_Queue"),
   ("HDagg version with node levels", "src/hdagg/hdagg.cpp build_levelSet_CSC"), ("wrapper", "computingLevelSet_CSC")],
  ["level pointer and level set arrays, return value"])

p("C06", "Sparsification preserves reachability for every thread interleaving",
  "Dropping redundant edges from a dependence graph, with or without clique simplification, never changes which vertices are reachable from which. The result is an acyclic graph over the same vertices, a subset of the original edges plus edges that the original reachability already implies, for every team size and interleaving of the threads that do the pruning; of children stored in order, no edge is kept that two other kept edges bridge.",
  ["schedules", "inputs", "configurations"],
  "all DAGs with ordered children x clique simplification on/off x team sizes x interleavings",
  "Not exercised by any registered test; the shared-index handling only goes wrong between particular threads on particular vertex ranges.",
  ["src/hdagg/hdagg.cpp"],
  [("per-thread bins with prefix sums, clique marking", "src/hdagg/hdagg.cpp partialSparsification")],
  ["returned pruned graph"])

p("C07", "Grouping partitions the vertices and the grouped graph stays a faithful DAG",
  "Every vertex-grouping method puts each vertex in exactly one group, and the graph between groups is acyclic and has exactly the dependences of its members. Scheduling the groups and then unpacking them, in any team size and interleaving, gives a schedule of the original vertices that keeps every dependence.",
  ["schedules", "inputs", "configurations"],
  "all DAGs x grouping methods (tree, tree-BFS, chain, consecutive-row, consecutive-column) x team sizes x interleavings x ordering options",
  "Tests run one grouping on two matrices serially; the pipeline composition (sparsify, group, schedule, unpack) is never run by a registered test.",
  ["src/hdagg/hdagg.cpp", "src/group.cpp", "src/group_utils.cpp"],
  [("tree / BFS / chain grouping", "src/hdagg/hdagg.cpp treeBasedGrouping, treeBasedGroupingBFS, chainGrouping"), ("group graph", "src/hdagg/hdagg.cpp buildGroupDAG"),
   ("unpacking and ordering", "src/hdagg/hdagg.cpp ungroupingScheduleAndApplyOrdering"), ("consecutive-row grouping", "src/group.cpp inspection_*"), ("group dependence graph", "src/group_utils.cpp fs_csr_inspector_dep, fs_ic0csc_inspector_group")],
  ["group arrays, group graph, unpacked schedule, solution vector"])

p("C08", "Parallel connected components are exact and finish under every interleaving",
  "Labelling the connected components of a level range in parallel gives two vertices the same label exactly when a path of dependences inside the range joins them, for every team size and every interleaving of reads and writes to the shared labels. It finishes in a bounded number of steps under every fair schedule, including with slow or stalled threads.",
  ["schedules", "inputs", "configurations"],
  "all DAGs x level ranges x team sizes x interleavings at single-access granularity, stalls",
  "Lost updates and stale labels need two threads to collide on one label in a window of a few instructions; the tests are single threaded.",
  ["src/hdagg/hdagg.cpp", "src/lbc_csc_dag.cpp"],
  [("hooking and shortcutting with a change flag", "src/hdagg/hdagg.cpp parallel_cc, computeCC"), ("same with cost accumulation", "src/lbc_csc_dag.cpp parallel_cc")],
  ["component label array, component count, component costs"])

p("C09", "Parallel triangular-solve kernels give the serial answer under any interleaving",
  "Each parallel solve kernel, given a valid schedule, produces bit for bit the serial forward-substitution result for every team size, loop hand-out order and interleaving, and no two threads touch one solution entry without synchronisation when one of them writes it.",
  ["schedules", "inputs", "configurations"],
  "all lower-triangular systems x valid schedules (wavefront, coarsened, grouped) x team sizes x interleavings x stalled threads",
  "The kernels' parallel regions are compiled out in the tested build; a missing barrier passes every single-threaded test.",
  ["example/sptrsv_src/sptrsv.cpp", "example/sptrsv_src/executor.cpp"],
  [("work-shared loop per level with its implicit barrier", "example/sptrsv_src/sptrsv.cpp"), ("grouped kernel", "example/sptrsv_src/executor.cpp fs_csr_executor_sgroup")],
  ["solution vector; happens-before order of accesses to it"])

p("C10", "Work costs and load statistics do not depend on how threads interleave",
  "Per-vertex and per-group costs equal the number of nonzeros each vertex touches and their total is conserved, whatever the team size and interleaving. The per-level load-imbalance statistic equals the largest difference between the work of the threads for the hand-out that actually happened, and is zero when one thread runs.",
  ["schedules", "inputs", "configurations"],
  "all matrices x kernels x groupings x team sizes x interleavings",
  "No registered test calls these on a matrix with a checked answer; per-thread slots are only addressed wrongly for particular team shapes.",
  ["src/hdagg/hdagg.cpp", "example/sptrsv_src/executor.cpp"],
  [("cost model", "src/hdagg/hdagg.cpp costComputation"), ("per-thread cost slots", "example/sptrsv_src/executor.cpp *_stat")],
  ["cost vector; per-level statistic array"])

p("C11", "A damaged or unreadable matrix file is never read as a wrong matrix",
  "Loading a matrix file either returns exactly the matrix its bytes describe (entries in any order, empty columns included) or reports failure by an error return, an exception or a non-zero exit; entries that are missing or lie outside the matrix are refused, and the readers of a whole file also refuse left-over data. This holds for every truncation, read error, zero-filled or garbled region, failed allocation and short read, at any offset. A load, good or bad, terminates, touches no memory outside its buffers and leaves no file open.",
  ["fault_sequences", "inputs", "crash_points"],
  "all matrix files x (open failures, short reads, I/O errors, torn tails, zero-filled blocks, lost, repeated, garbled or over-long lines) at every offset",
  "The tests read one intact file from a working disk.",
  ["utils/sparse_io.cpp", "utils/external/mmio.cpp"],
  [("C stdio reader", "utils/sparse_io.cpp read_mtx"), ("banner and size line", "utils/external/mmio.cpp mm_read_banner, mm_read_mtx_crd_size"), ("triplet reader", "utils/external/mmio.cpp mm_read_unsymmetric_sparse, mm_read_mtx_crd_data"), ("stream readers", "utils/sparse_io.cpp read_mtx_csc_real, read_header, compress_triplets_to_csc, read_mtx_array_real, load_mtx_array_real")],
  ["returned matrix / error, open handles, heap accesses"])

p("C12", "A matrix written to disk reads back the same, or the damage is detected",
  "A matrix (or a vector of numbers) that is written out on a working disk and read back has the same dimensions, pattern and (to the printed precision) values. If the target cannot be opened, the disk fills up, an I/O error occurs or the process crashes during the write, then the file writers report every failure they live to see, and whatever remains on disk is the previous file, is refused by the readers, or is the complete matrix (up to a cut inside the digits of the very last value, which the format cannot show). Success is never reported as failure, and no file is left open.",
  ["crash_points", "fault_sequences", "inputs"],
  "all matrices x writers x write faults (open failure, full disk, I/O error, short write) and crashes at every byte, with lost or torn unflushed blocks",
  "No test writes a file.",
  ["utils/sparse_io.cpp", "utils/external/mmio.cpp", "include/aggregation/sparse_io.h", "utils/sparse_utilities.cpp"],
  [("file writers", "utils/sparse_io.cpp CSC_to_mtx, BCSC_to_mtx; utils/external/mmio.cpp mm_write_mtx_crd; utils/sparse_utilities.cpp save_vector"), ("header with entry count", "utils/external/mmio.cpp mm_write_banner, mm_write_mtx_crd_size"), ("printers", "utils/sparse_io.cpp print_csc; include/aggregation/sparse_io.h print_csc_templated, print_dense"), ("readers", "utils/sparse_io.cpp read_mtx, read_mtx_csc_real, read_mtx_array_real")],
  ["durable bytes after crash, matrix read back"])

p("C13", "Inspections by concurrent callers are independent",
  "Several application threads may inspect graphs and build schedules at the same time, sharing read-only inputs, and each gets exactly the schedule it would get alone. The library keeps no hidden shared state: no caller's interleaving, failure or timing changes what another one gets.",
  ["schedules", "histories", "inputs"],
  "2-4 concurrent callers x inspectors x shared or private inputs x interleavings",
  "The tests call one inspector at a time from one thread.",
  ["src/lbc_csc.cpp", "src/lbc_csc_dag.cpp", "src/lbc_tree.cpp", "src/hdagg/hdagg.cpp", "src/group.cpp"],
  [("all working state is local to the call", "src/lbc_*.cpp, src/hdagg/hdagg.cpp")],
  ["each caller's returned schedule; conflicting accesses to non-local state"])

p("C14", "Running out of memory during an inspection never yields a wrong schedule",
  "If any allocation made during an inspection fails, the call ends with an out-of-memory error or the process stops; it never returns a wrong or partial schedule, corrupts memory, or modifies its inputs. Repeating the call once memory is available gives exactly the result of an undisturbed call.",
  ["fault_sequences", "crash_points", "inputs"],
  "all inspectors x inputs x every allocation index failing once or from then on",
  "No test makes an allocation fail.",
  ["src/lbc_csc.cpp", "src/lbc_csc_dag.cpp", "src/lbc_tree.cpp", "src/hdagg/hdagg.cpp", "src/group.cpp", "utils/sparse_inspector.cpp"],
  [("allocation before use, outputs assigned at the end", "src/lbc_*.cpp, src/hdagg/hdagg.cpp, include/aggregation/group.h")],
  ["outcome of the call, inputs, retry result"])

p("C15", "Inspection is reproducible and leaves its inputs untouched",
  "The sequential inspectors are functions of their arguments: heap contents, addresses, the clock (including jumps) and earlier calls never change the schedule returned. No inspector or executor modifies the matrix, cost or schedule arrays it is given as input, so the same structure can be inspected and executed again.",
  ["inputs", "histories", "fault_sequences", "schedules"],
  "all inspectors x inputs x heap garbage patterns x clock behaviours x call histories",
  "The tests run each inspector once in one process image; dependence on uninitialised memory or on time is invisible there.",
  ["src/lbc_csc.cpp", "src/lbc_csc_dag.cpp", "src/lbc_tree.cpp", "src/lbc_blocked.cpp", "src/hdagg/hdagg.cpp", "src/group.cpp", "utils/sparse_inspector.cpp", "include/aggregation/def.h"],
  [("value-initialised working arrays", "src/lbc_*.cpp"), ("time is only measured, never used", "include/aggregation/def.h timing_measurement")],
  ["returned arrays across runs; writes to input arrays"])

p("C16", "Schedule post-processing keeps the work and the order",
  "Turning a schedule into a task graph gives one task per partition, holding that partition's vertices, and a task edge exactly where a dependence crosses partitions, so running tasks as soon as their predecessors are done gives the serial result in every interleaving. Tiling a schedule in two dimensions, or converting a grouped schedule to supernodes, neither loses nor duplicates an iteration and keeps every dependence.",
  ["schedules", "inputs", "configurations"],
  "all DAGs x valid schedules x tile sizes x team sizes x point-to-point execution interleavings",
  "No registered test calls these; a missing edge shows only when two tasks run in the wrong order.",
  ["src/hdagg/hdagg.cpp"],
  [("task graph", "src/hdagg/hdagg.cpp getFinalScheduleDAG, buildGroupDAG"), ("2D tiling", "src/hdagg/hdagg.cpp twoDReordering"), ("supernode conversion", "src/hdagg/hdagg.cpp convertCNScheduleToSuperNode")],
  ["task graph, tile list, converted schedule, solution vector"])

p("C17", "Inspectors and executors never touch memory outside their buffers",
  "For every valid input, parameter choice, team size and interleaving, no inspector, grouping, sparsification, schedule or executor routine reads or writes outside the arrays it was given or allocated, or uses an array after releasing it.",
  ["inputs", "schedules", "configurations"],
  "all public inspectors and executors x valid inputs incl. extreme shapes (n=1, chain, star, no edges, complete) x parameters x interleavings",
  "The tests do not run under a checker, and the boundary shapes that overrun a buffer by one are not among the two matrices used.",
  ["src/lbc_csc.cpp", "src/lbc_csc_dag.cpp", "src/lbc_tree.cpp", "src/lbc_blocked.cpp", "src/lbc_utils.cpp", "src/hdagg/hdagg.cpp", "src/group.cpp", "src/group_utils.cpp", "utils/sparse_inspector.cpp", "example/sptrsv_src/sptrsv.cpp", "example/sptrsv_src/executor.cpp"],
  [("array sizing from n, nnz, level and part counts", "all inspectors")],
  ["every heap access of the simulated run"])

p("C18", "Every inspection and execution finishes under slow, stalled or missing workers",
  "Every inspector and executor finishes within a bounded number of steps, without deadlock or livelock, for every team size actually delivered (including fewer threads than asked for, and one) and every fair interleaving in which workers may be slow or stalled for arbitrarily long but finite times. Once stalls stop, the call returns within a bound that depends only on the input size.",
  ["schedules", "fault_sequences", "configurations", "inputs"],
  "all parallel inspectors and executors x team deliveries x stalls x interleavings",
  "Tests have one thread and no stalls; a lost wake-up or a barrier some thread never reaches cannot show.",
  ["src/hdagg/hdagg.cpp", "src/lbc_csc_dag.cpp", "example/sptrsv_src/sptrsv.cpp", "example/sptrsv_src/executor.cpp"],
  [("barriers and single regions all threads reach", "src/hdagg/hdagg.cpp computeCC, partialSparsification"), ("work-shared loops", "example/sptrsv_src/*.cpp")],
  ["step count, blocked threads"])

p("C19", "Blocked (supernodal) LBC schedules keep every dependence under any worker timing",
  "For every block-structured lower-triangular matrix and parameter choice, the coarsened schedule built on the blocks contains every block exactly once and, executed by any number of workers in any assignment and interleaving, never reads a block's unknowns before they are final.",
  ["schedules", "inputs", "configurations"],
  "all supernode partitions of lower-triangular matrices x coarsening parameters x worker interleavings",
  "Not exercised by any registered test.",
  ["src/lbc_blocked.cpp", "utils/sparse_inspector.cpp", "src/lbc_utils.cpp"],
  [("component search over blocks with clash aliasing", "src/lbc_blocked.cpp getCoarseLevelSet_DAG_BCSC02"), ("block wavefronts", "utils/sparse_inspector.cpp build_levelSet_BCSC")],
  ["returned level/partition/block arrays"])

p("C20", "Conversions and graph utilities are exact, whatever ran before or beside them",
  "Converting between column and row storage, transposing, permuting symmetrically, expanding or halving a symmetric matrix, packing into blocks and unpacking, renumbering, merging (also through a middle matrix, over supernodes) and coarsening graphs, tree measures, partitioning by weight and comparing matrices and vectors each return exactly what the operation denotes, for every matrix (rectangular ones, empty columns and any column order included). The answer does not depend on what the heap holds, on earlier calls or on other threads calling the same routine. When memory runs out the call fails or gives the exact answer; it never writes outside its arrays.",
  ["inputs", "histories", "schedules", "fault_sequences"],
  "all sparse matrices, trees, permutations and partitions in the formats accepted x heap contents x call histories x concurrent callers x failing allocation",
  "The two registered cases use square sorted matrices through a few of these routines, from one thread, on a fresh heap, with memory to spare.",
  ["utils/sparse_utilities.cpp", "utils/utils.cpp", "utils/test_utils.cpp", "utils/BCSCMatrix.cpp", "include/aggregation/test_utils.h", "include/aggregation/utils.h", "utils/sparse_io.cpp", "utils/sparse_inspector.cpp"],
  [("storage conversion, transposition, halves and full matrices, merging, trees", "utils/sparse_utilities.cpp"), ("partitions, safe sizes", "utils/utils.cpp"), ("block format", "utils/BCSCMatrix.cpp"), ("dense and one-based forms, three-matrix graphs", "utils/sparse_io.cpp, utils/sparse_inspector.cpp merge_graphs, sup2node_gen"), ("comparisons, right-hand sides, random matrices", "utils/test_utils.cpp")],
  ["returned matrices and arrays", "every heap access"])
p("C21", "Elimination trees, counts and symbolic factors are those of the Cholesky factor",
  "For every symmetric pattern the elimination tree (and for an unsymmetric one the column tree), post-orders, row patterns, row and column counts, levels, first descendants and the symbolic factor are exactly those of the Cholesky factor, HDagg's own tree and row patterns (computed from the rows, in any order) included. The complete symbolic analysis returns permutations with their inverses and the factor pattern of the matrix so permuted. This holds for every heap content and call history and with concurrent callers. When an allocation fails, or the ordering library runs out of memory, the call stops or still gives a correct analysis.",
  ["inputs", "histories", "schedules", "fault_sequences"],
  "all symmetric patterns x post-order weights x heap contents x histories x concurrent callers x failing allocation or ordering",
  "No registered test calls these; a wrong count shows only for particular tree shapes, and dependence on heap contents or failing memory not at all.",
  ["utils/etree.cpp", "utils/sparse_inspector.cpp", "utils/lfactor_creation.cpp", "src/hdagg/hdagg.cpp"],
  [("tree and row patterns of a row-wise matrix", "src/hdagg/hdagg.cpp computeParents, buildETree, computeNoneZeroPatternOfRowK"), ("elimination tree, post-order, row reach", "utils/etree.cpp, utils/sparse_inspector.cpp compute_etree, ereach"), ("row and column counts", "utils/lfactor_creation.cpp row_col_counts_symmetric"), ("symbolic factor", "utils/lfactor_creation.cpp build_symbolic_simplicial_lfactor")],
  ["returned trees, permutations, counts, factor pattern"])
p("C22", "Orderings and partitions are valid, and trouble inside them is reported",
  "Every fill-reducing ordering returned (minimum degree or nested dissection) is a permutation of the vertices, and every graph partitioning assigns each vertex one of the requested parts, columns coarsened together staying together. Minimum degree reports its input as proper, jumbled or invalid correctly, never reads outside an invalid one, and its size estimate bounds the true factor; on small sparse matrices the factor is about as small as exact minimum degree makes it. The graph handed to METIS is the undirected graph of the matrix (or of its coarsening), and the ordering or parts returned are METIS's answer to it. Running out of memory, in the ordering or inside METIS, is reported by the returned status (a partitioning that failed gives no partition at all), and no memory is kept. The matrices a demo makes from one input (its lower triangle and the full matrix, reordered when an ordering is asked for) are the input's own, permuted by that ordering.",
  ["inputs", "histories", "schedules", "fault_sequences"],
  "all patterns incl. jumbled, repeated and invalid ones x control settings x part counts x heap contents x histories x concurrent callers x failing allocation and failing METIS",
  "The tests order one or two proper matrices and look only at the solve that follows.",
  ["utils/external/amd_1.c", "utils/external/amd_2.c", "utils/external/amd_aat.c", "utils/external/amd_order.c", "utils/external/amd_preprocess.c", "utils/external/amd_valid.c", "utils/metis_interface.cpp", "utils/FusionDemo.cpp"],
  [("minimum degree", "utils/external/amd_*.c"), ("METIS interface", "utils/metis_interface.cpp"), ("matrices of a demo", "utils/FusionDemo.cpp generate_matrices_from_mtx")],
  ["returned orderings, parts, status codes", "the graph handed to METIS", "live heap blocks"])
p("C23", "Every call gives back the memory it took, apart from what it hands over",
  "Every inspector, executor, grouping, conversion, ordering, reader and writer releases all memory it allocates except the results it returns, and releasing those results (deleting the arrays or objects returned) releases everything. So repeating a call any number of times, on valid input or on a damaged, truncated or unreadable file that the call refuses, under any team size and interleaving, does not make the process grow. (Calls in which an allocation itself failed are excepted.)",
  ["histories", "inputs", "fault_sequences", "schedules"],
  "all public routines x inputs x parameters x interleavings, repeated calls; readers and writers under every disk fault",
  "The tests run each routine once and never look at what is left allocated.",
  ["src/lbc_csc.cpp", "src/lbc_csc_dag.cpp", "src/lbc_tree.cpp", "src/lbc_blocked.cpp", "src/hdagg/hdagg.cpp", "src/group.cpp", "utils/sparse_inspector.cpp", "utils/sparse_utilities.cpp", "utils/lfactor_creation.cpp", "utils/metis_interface.cpp", "utils/sparse_io.cpp", "utils/external/mmio.cpp", "include/aggregation/def.h"],
  [("release of work arrays on every return path; owning destructors", "all routines; CSC, CSR, BCSC and Dense in include/aggregation/def.h, LFactorSymbolicInfo in lfactor_creation.h")],
  ["blocks allocated by the code under test and still allocated after the call"])
p("C24", "Reported times are time that passed; a demo's verdict is about its own result",
  "A measured time is the time that really passed between its start and its end, also when the wall clock is set or jumps in between and when the timer is used again. The median of a set of measurements is its middle element. Evaluating a demonstration prepares it once, runs the kernel as often as asked, each time from a fresh start vector, and reports the median time and the analysis time; its last solution is kept, and is reported as wrong exactly when it differs from the reference, not-a-number included. Several demonstrations evaluated at once do not disturb each other.",
  ["histories", "fault_sequences", "schedules", "configurations"],
  "all sequences of timer calls x clock settings and jumps x demo repetitions x wrong results at any position x concurrent demos x failing allocations",
  "Tests cannot set the clock, and a demo prints its times without anything checking them.",
  ["include/aggregation/def.h", "utils/utils.cpp", "utils/FusionDemo.cpp", "include/aggregation/FusionDemo.h"],
  [("timer", "include/aggregation/def.h timing_measurement"), ("median", "utils/utils.cpp time_median"), ("evaluation and verdict", "utils/FusionDemo.cpp evaluate, testing")],
  ["elapsed times against simulated time", "calls of the demo's phases", "verdict"])
p("C25", "A result table keeps every finished row under crashes, full disks and restarts",
  "A result table written over several runs has its header once, at the top, followed by the finished rows in the order they were finished, each on a line of its own with its fields under their columns. Rows of earlier runs survive a restart; an interruption or a full disk at any byte damages at most the row being written, and no later row is joined to a damaged one. Forcing a new table starts it afresh. The demos' own common header and common values, printed for a demo with any of its matrices missing, have one value under each name. Several tables do not disturb each other.",
  ["crash_points", "fault_sequences", "histories"],
  "all sequences of openings, rows, restarts and forced creations x crash points, disk-full and I/O error positions, open failures",
  "No test writes a table; interruptions and full disks cannot be arranged in a unit test.",
  ["include/aggregation/csv_utils.h", "utils/FusionDemo.cpp"],
  [("creation, reopening and rows", "include/aggregation/csv_utils.h CSVManager"), ("common columns of the demos", "utils/FusionDemo.cpp print_common_header, print_common")],
  ["bytes on the simulated disk"])
p("C26", "Schedules share the work out evenly",
  "Every level of a schedule has at most as many partitions as were asked for, and its work (the given vertex costs, of any size) is shared out evenly. LBC (all variants, packing enabled): in no level is the heaviest partition heavier than it gets by handing the level's connected components out heaviest first, each to the lightest partition, so that two partitions differ by one component at most; a level that has enough components and a wide enough last wavefront gets all partitions asked for; costs of other levels or earlier calls play no part. HDagg (bin packing enabled): no partition exceeds the average share of the cores by more than one component, nor are the last ones left without their share; wavefronts are merged only while the partitions are even, and chains of equal work, equally many for each core, become a single level. This holds for every team size and interleaving of the parallel versions.",
  ["inputs", "schedules", "histories", "configurations"],
  "all DAGs, blocked matrices and forests x cost vectors (zero, tiny, beyond an int, skewed) x partition counts, cut parameters and core counts x team sizes and interleavings",
  "The tests check one schedule's validity; a valid schedule with all work in one partition passes them.",
  ["src/lbc_utils.cpp", "src/lbc_csc.cpp", "src/lbc_csc_dag.cpp", "src/lbc_tree.cpp", "src/lbc_blocked.cpp", "src/hdagg/hdagg.cpp"],
  [("bin packing and level cuts", "src/lbc_utils.cpp worst_fit_bin_pack, find_min, height_partitioning_DAG_trng"), ("component costs", "src/lbc_csc.cpp, src/lbc_csc_dag.cpp parallel_cc and process_l_partition, src/lbc_blocked.cpp, src/lbc_tree.cpp"), ("chunks of components and the merge test", "src/hdagg/hdagg.cpp HDAGG, GLC_V2, computeSchedule")],
  ["work of every partition of every level of the schedules returned"])

p("C27", "From a matrix file to the serial solution, across faults and restarts",
  "A program like the demos reads a symmetric matrix from a file (entries in any order), optionally reorders it with METIS, may keep the reordered matrix in a file and take it from there after a restart, brings it to row form and solves with any of the inspector and executor pairs (serial, level sets, LBC over trees and DAGs, parallel LBC, HDagg with and without tree grouping, grouped wavefronts and LBC). Every step keeps the matrix: the reordered one is the given one under a valid permutation, the row form holds the same entries. Every demo run ends with the solution of the serial substitution, up to the rounding of differently ordered sums, leaves matrix and files as they were, and after the program has released its objects nothing is still taken. When an allocation, a read, a write or an open fails, or power is lost, the program stops or reports it; it never takes a damaged checkpoint for the matrix, and the next fault-free run succeeds, in the same process too. Several such programs in one process do not disturb each other.",
  ["inputs", "schedules", "fault_sequences", "histories", "configurations"],
  "all symmetric matrices x orders of the file x orderings x pairs of inspector and executor x team sizes and interleavings x fault and crash points x restarts x concurrent users",
  "The demos run fault-free on a few matrices without OpenMP; damage at one stage that a later stage hides or amplifies, a restart from a cut checkpoint and a second user are never tried.",
  ["utils/FusionDemo.cpp", "utils/sparse_io.cpp", "utils/sparse_utilities.cpp", "utils/metis_interface.cpp", "src/lbc_csc_dag.cpp", "src/hdagg/hdagg.cpp", "src/group.cpp"],
  [("reading and writing", "utils/sparse_io.cpp read_mtx, include/aggregation/mmio.h mm_write_mtx_crd"), ("reordering", "utils/metis_interface.cpp metis_perm_general, utils/sparse_utilities.cpp make_full, make_half, transpose_symmetric, csc_to_csr"), ("inspect and run", "utils/FusionDemo.cpp evaluate, the inspectors of src/, example/sptrsv_src executors")],
  ["the matrix at every stage, the solution vector of every run, the files and live memory at the end"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
