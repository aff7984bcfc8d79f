NA = []
T = "The unit tests run a handful of hand-made graphs on 1, 2 and 4 processes, each under whatever one interleaving the machine produces"

prop("A01", "A communication phase delivers every message exactly once, intact",
 "In every phase, each item a process packs for a peer is unpacked by exactly that peer, exactly once, in the order it was packed, with the right sender, and receiving ends on every process once everything sent in that phase has arrived. Nothing leaks into a neighbouring phase, whatever the relative speed of processes, message delay or arrival order. When ordered delivery is enabled, messages are handed out in ascending sender order.",
 ["schedules", "inputs", "fault_sequences"], "any number of processes, any sequence of phases of any kind, any message sizes incl. empty and to oneself, any scheduling and message delays, allocation failure at any point (then the job stops instead of continuing wrongly)",
 T + "; no test controls delivery order, delays an acknowledgement or overlaps consecutive phases",
 ["pcu/pcu.c", "pcu/pcu_msg.c", "pcu/pcu_aa.c", "pcu/pcu_order.c", "pcu/pcu_mpi.c", "pcu/pcu_pmpi.c", "pcu/pcu_buffer.c", "pcu/pcu_coll.c"],
 [m("phase state machine: synchronous sends, then a barrier entered when own sends are done", "pcu/pcu_msg.c"), m("binary tree of per-peer buffers", "pcu/pcu_aa.c"), m("optional sender ordering", "pcu/pcu_order.c")],
 ["what each process unpacks, and from whom"],
 "Sizes up to 9 kB, up to 8 ranks and 9 phases; allocation failure must fail-stop.",
 [dict(name="phase state", meaning="pack, send and receive stages", where="pcu/pcu_msg.h")])

prop("A02", "Collectives return the exact reduction of all contributions on every rank",
 "Every sum, minimum, maximum, logical and prefix reduction returns, on every process, the value obtained from exactly one contribution per process. No process leaves a barrier before every process has entered it. Collectives mixed with communication phases do not disturb each other.",
 ["schedules", "inputs", "histories"], "any process count, any sequence of collectives and phases, any element count and type, any scheduling and delays",
 T + "; reductions over other process counts than 1, 2 and 4, and late or early processes, are never exercised",
 ["pcu/pcu.c", "pcu/pcu_coll.c"],
 [m("reduce/broadcast and scan patterns over point-to-point messages", "pcu/pcu_coll.c"), m("typed wrappers", "pcu/pcu.c")],
 ["results of the reductions, entry and exit order of barriers"],
 "Integer-valued doubles make sums exact; up to 8 ranks and 14 collectives per run.")

prop("A03", "Work inside a group of processes stays inside that group",
 "After switching the library to a sub-communicator, process numbers, counts, phases and reductions refer to that group only, and groups can proceed independently without receiving each other's messages or waiting for each other. Switching back restores the full set of processes. Initialising the library starts the messaging layer when its user has not, and finalising it stops the layer exactly in that case, session after session.",
 ["schedules", "histories"], "any nesting of splits and returns, any message pattern per group, any scheduling and delays",
 T + "; switching communicators while other groups lag behind is not tested at all",
 ["pcu/pcu.c", "pcu/pcu_pmpi.c", "support/engpar_support.cpp"],
 [m("communicator switch with private duplicates for user and collective traffic", "pcu/pcu_pmpi.c"), m("library-level initialisation, finalisation and communicator switch", "support/engpar_support.cpp")],
 ["process numbers, delivered messages and reduction results inside each group"],
 "Up to 8 ranks and 10 operations.")

prop("B01", "A constructed distributed graph is exactly the graph that was described",
 "After construction, every vertex is local on exactly the process that declared it, every edge is present exactly on the processes that own one of its vertices (for traditional graphs: its source) with the right end points, weight and multiplicity, and each process has ghost copies of precisely the off-process vertices its edges touch, with the right owner and weight. All global counts, adjacency queries, residence and cut queries agree with the described graph, on every process. Constructing again over an existing graph replaces it completely.",
 ["inputs", "schedules", "configurations"], "any graph of either kind with several edge types, any placement including empty processes, any ids, weights and coordinates, every construction interface, any presentation order per process, any scheduling",
 T + "; sparse or large ids, empty processes, several edge types on traditional graphs and mixed construction interfaces are not covered",
 ["agi/agiConstruct.cpp", "agi/agiEdge.cpp", "agi/agiVertex.cpp", "agi/agiIterate.cpp", "agi/agiValid.cpp"],
 [m("edge exchange that counts each hyperedge once", "agi/agiConstruct.cpp"), m("ghost construction and ghost weights", "agi/agiConstruct.cpp")],
 ["every query of the public graph interface on every process"],
 "Graphs up to 40 vertices (90 thorough), no self loops in traditional graphs.")

prop("B02", "Migration moves exactly the planned vertices and conserves the graph",
 "After a migration, every vertex in the plan is on its planned destination, every other vertex is where it was, and the distributed graph is otherwise unchanged: vertices, edges, pins, weights, coordinates and multiplicities are conserved, ghosts and their owners match the new placement and the global counts are the same. This holds again after every further migration.",
 ["inputs", "schedules", "histories"], "any graph, any sequence of plans (scatter, gather, emptying a process, swaps, plans that name the present owner), any scheduling and delays",
 T + "; the migration test moves a few boundary vertices once, repartitioning is tested only with the identity",
 ["agi/agiMigrate.cpp", "agi/agiMigration.cpp", "agi/agiConstruct.cpp"],
 [m("affected vertex and edge closure, edge and vertex messages, rebuild", "agi/agiMigrate.cpp")],
 ["every query of the public graph interface on every process after each migration"],
 "Graphs up to 40 vertices (80 thorough), up to 6 migrations.")

prop("B03", "The partition map tells each original owner where its vertices are now",
 "After any history of migrations, asking for the partition gives, on each process, exactly the vertices that process owned originally (or at the last reset), each with the process that holds it now. Together the answers cover every vertex exactly once.",
 ["histories", "schedules"], "any history of migrations, resets, reconstructions and queries, any scheduling",
 T + "; the partition map after more than one migration or after a reset is not tested",
 ["agi/agiMigrate.cpp", "agi/ngraph.h", "agi/agiConstruct.cpp"],
 [m("original owners travel with the vertices; query phase back to them", "agi/agiMigrate.cpp")],
 ["the partition map on each process"],
 "Up to 9 operations per history.")

prop("B04", "Ghost data equals what the owner computed, tags keep their values",
 "A ghost tag holds, for every ghost vertex on every process, exactly the value the owning process computed for that vertex, for all value types. Tags on vertices and edges return the value last set, independent of other tags that exist at the same time. This stays true for tags created after any history of migrations.",
 ["schedules", "histories", "inputs"], "any graph and placement, any history of migrations and tag creation, any scheduling",
 T + "; a ghost tag after a migration, or when several processes ask for the same vertex at once, is not tested",
 ["agi/agiTag.cpp", "agi/agiInfo.h"],
 [m("request phase to owners, reply phase with values", "agi/agiTag.cpp")],
 ["tag values read on each process"],
 "Up to 6 operations per history.")

prop("B05", "Editing a graph in place changes what was asked for and nothing else",
 "Removing an edge type, giving all edges of a type a new weight, or replacing vertex weights or coordinates changes exactly that on every process; all other vertices, edges, weights, ghosts and counts stay as they were, the removed type reads as empty, and the edited graph can be migrated, tagged, saved, loaded and balanced like any other.",
 ["histories", "inputs", "schedules"], "any graph of either kind, any sequence of edits interleaved with migrations, tags, saves and loads, any scheduling",
 T + "; edits are followed by neither a migration nor a second edit in any test",
 ["agi/agiConstruct.cpp", "agi/agiEdge.cpp", "agi/agiVertex.cpp", "agi/agiMigrate.cpp"],
 [m("removal of one edge type's tables", "agi/agiConstruct.cpp"), m("weight and coordinate setters", "agi/agiEdge.cpp")],
 ["every query of the public graph interface on every process after each edit"],
 "Ghost copies of removed edges and ghost weights after new vertex weights may lag until the next migration; graphs up to 30 vertices (60 thorough).")

prop("B06", "Second adjacencies list exactly the neighbours two steps away",
 "For every edge type, the vertex-edge-vertex adjacency of a vertex lists exactly the vertices it reaches through one edge of that type, and the edge-vertex-edge adjacency of an edge lists exactly the edges of that type that share one of the process's vertices with it: each once and without the entity itself when compressed, with multiplicity otherwise. Adjacencies of several types exist side by side and are right again after every migration once derived anew.",
 ["inputs", "histories", "schedules"], "any graph of either kind with several edge types, any order of derivation, compressed or not, any history of migrations and removals of edge types",
 T + "; only edge type 0 of freshly built graphs is tested",
 ["agi/agiConstruct.cpp", "agi/agiIterate.cpp", "agi/agiVertex.cpp", "agi/agiEdge.cpp"],
 [m("derivation of the two adjacencies", "agi/agiConstruct.cpp"), m("iterators that encode entry and edge type in a pointer", "agi/agiIterate.cpp")],
 ["entries of both adjacencies for every local vertex and edge"],
 "Graphs up to 30 vertices (60 thorough), up to 4 edge types.")

prop("E01", "A graph loaded from files is the graph that was saved",
 "Saving and loading with the same number of processes reproduces the graph exactly: vertices, ids, weights, coordinates, edges of every type, end points, ghosts and owners, on every process. Saving does not alter the graph, saving again under a prefix replaces what was there, several prefixes do not disturb each other, and a loaded graph can be migrated like any other. It also holds when loading in a later job that has nothing but the files.",
 ["inputs", "histories", "schedules"], "any graph with ids below 2^32, any placement, any history of saves, loads and migrations, any prefix with or without directories, any stdio buffering and short writes",
 "No test saves or loads this format at all within the stable suite",
 ["agi/agiIO.cpp", "pcu/pcu_io.c"],
 [m("one self-describing binary file per process", "agi/agiIO.cpp"), m("byte-order independent stdio wrapper", "pcu/pcu_io.c")],
 ["every query of the public graph interface after loading"],
 "Ids below 2^32 (the documented format); graphs up to 26 vertices.")

prop("E02", "Faults and crashes during save or load never yield a wrong graph",
 "If saving reports success, the files load as exactly the saved graph. If writing, closing, opening or reading fails, or the job is killed at any moment, then the operation fails visibly, or a later load either fails visibly or returns exactly the saved graph; it never returns a partial or altered one.",
 ["fault_sequences", "crash_points", "schedules"], "any single kind of I/O fault at any operation, full disk at any byte, job kill at any step while saving under a fresh prefix, any graph",
 "Tests never inject an I/O fault or stop a job in the middle of a save",
 ["agi/agiIO.cpp", "pcu/pcu_io.c", "pcu/reel/reel.c"],
 [m("every short read or write stops the job", "pcu/pcu_io.c")],
 ["whether save and load report failure, and every query of a loaded graph"],
 "A killed job loses its stdio buffers but not data already handed to the operating system; machine crashes (unsynced data) are outside the claim.")

prop("E03", "The VTK files picture exactly the distributed graph",
 "Writing VTK files yields, for each process, a well-formed file whose points are exactly its vertices (and, for hypergraphs, its edges at the centre of all their vertices, wherever those are), whose lines are exactly its pins or directed edges, and whose part numbers and tag values belong to the right points; the parallel file names every piece once.",
 ["inputs", "histories", "schedules"], "any graph with coordinates, any history of migrations and edits, any tag, any scheduling, any stdio buffering",
 "No test of the stable suite looks at the VTK files",
 ["agi/agiVTK.cpp"],
 [m("request and reply phases for the coordinates of ghosts", "agi/agiVTK.cpp")],
 ["points, cells and point data of every file"],
 "Coordinates are compared to the six digits written; type 0 edges are drawn, as the code documents by its use.")

prop("F01", "A binary edge list is read into exactly the graph it lists",
 "Reading a binary edge list on any number of processes gives the directed graph in the file with every vertex from zero to the largest id placed once: as the partition file says, or in contiguous blocks without one. An unreadable graph file or a partition file that does not place every vertex is refused rather than turned into a different graph. The result can be migrated like any other graph.",
 ["inputs", "configurations", "fault_sequences", "schedules"], "any edge list without self loops (isolated and sink vertices, duplicates), any process count, any partition file, open and read faults",
 "No test of the stable suite reads this format",
 ["interfaces/binGraph.cpp"],
 [m("block-wise read, edge exchange, local numbering, ghosts", "interfaces/binGraph.cpp")],
 ["every query of the public graph interface after reading"],
 "Up to 40 vertices (80 thorough).")

prop("F02", "The graph made of a mesh is the mesh's adjacency",
 "Making a graph of a distributed finite element mesh gives one vertex of weight one, at the element's centre, per element and one hyperedge per entity of each chosen dimension, connecting exactly the elements adjacent to it on whichever process they are, numbered globally as the mesh numbers them; with finite elements of a given order, one edge per holder of degrees of freedom, weighted by their number. Counts, ghosts and owners are right on every process; the result can be migrated like any other graph; dimensions that make no sense are refused; nothing is left on the mesh afterwards.",
 ["inputs", "configurations", "schedules"], "any mesh of triangles, quadrilaterals, tetrahedra or hexahedra, any distribution, ownership and local order, any choice of dimensions or order up to four, any process count and scheduling",
 "The mesh interface is not even compiled where PUMI is missing, and its tests use a few meshes",
 ["interfaces/apfGraph.cpp", "interfaces/dofGraph.cpp"],
 [m("two exchanges: pin counts, then pins with ghosts made on arrival", "interfaces/apfGraph.cpp"), m("the same over several dimensions at once", "interfaces/dofGraph.cpp")],
 ["every query of the public graph interface after making the graph and after migrating it, log.txt"],
 "PUMI itself is a stand-in written from its documented interface (sim/apf, sim/rank/wl_mesh.cpp); meshes up to 48 elements.")

prop("C01", "Balancing keeps the graph intact and moves nothing needlessly",
 "Balancing returns, for every input, with the same distributed graph: every vertex, edge, pin, weight, coordinate and multiplicity is still there exactly once, ghosts and their owners match the new placement, and the partition map leads from every original owner to every vertex. Nothing moves when every criterion already holds, and a serial run changes nothing. It ends on its own within its iteration limits.",
 ["inputs", "schedules", "histories", "configurations"], "any graph of either kind, any list of criteria, tolerances, step sizes, selection options, cut-growth limits, verbosity, any scheduling and delays, repeated balances with migrations in between",
 T + "; the balance tests use a few meshes, one criterion list and look only at the absence of errors",
 ["partition/Diffusive/src/engpar_balancer.cpp", "partition/Diffusive/src/engpar_selector.cpp", "partition/Diffusive/src/engpar_queue.cpp", "agi/agiMigrate.cpp"],
 [m("iteration: sides, weights, targets, selection, plan trimming, migration", "partition/Diffusive/src"), m("distance queue of boundary vertices", "partition/Diffusive/src/engpar_queue.cpp")],
 ["every query of the public graph interface on every process before and after each balance"],
 "Graphs up to 48 vertices (100 thorough), up to 3 balances.")

prop("C02", "Balancing a lower priority never breaks a satisfied higher one",
 "Criteria are balanced in the order they were given. When an earlier criterion is within its tolerance at the start, balancing the later ones never raises its heaviest part beyond that tolerance, however the parts' simultaneous plans combine.",
 ["inputs", "schedules", "histories"], "any graph of either kind with vertex and hyperedge criteria in any order, any tolerances and step sizes, any scheduling",
 T + "; no test inspects the imbalance of an earlier criterion after later ones were balanced",
 ["partition/Diffusive/src/engpar_selector.cpp", "partition/Diffusive/src/engpar_balancer.cpp", "partition/Diffusive/src/engpar_targets.cpp"],
 [m("plan trimming against capacity of the receiving parts", "partition/Diffusive/src/engpar_selector.cpp"), m("remembered tolerance of completed criteria", "partition/Diffusive/src/engpar_balancer.cpp")],
 ["weights of every part recomputed from the graph before and after each balance"],
 "Vertex weights and hyperedge weights, ghosts not counted; edge criteria of traditional graphs carry no such guarantee in the design.")

prop("C03", "Weight diffusion conserves weight, and its plan explains every change",
 "Diffusing vertex weights conserves the total weight, changes nothing else about the graph, moves nothing when the imbalance is within the tolerance or in a serial run, and leaves no weight negative. The weight plan lists only positive transfers out of vertices the process owns, and applying the listed transfers to the initial weights gives the final weights; no pair of vertices is listed in both directions. One step sends weight only to lighter parts and within the step size. Where each process has one heavy vertex next to its neighbours', the tolerance is reached. Ghost copies show the new weights.",
 ["inputs", "schedules", "histories"], "any graph of either kind, any weights, tolerance, step and iteration limit, repeated runs with migrations in between, any scheduling",
 T + "; the weight-balance test uses one ring with one vertex per process",
 ["partition/Diffusive/src/engpar_weightBalancer.cpp", "partition/Diffusive/src/engpar_weightSelector.cpp", "agi/agiMigrate.cpp"],
 [m("weight selection along the edges between parts", "partition/Diffusive/src/engpar_weightSelector.cpp"), m("weight messages, ghost refresh", "agi/agiMigrate.cpp")],
 ["vertex and ghost weights on every process, the weight plan"],
 "Graphs up to 30 vertices (60 thorough).")

prop("C04", "Balancing a strip-partitioned mesh reaches the tolerance asked for",
 "On a structured mesh partitioned into column strips of unequal width, balancing with two parts never makes the imbalance of what it balances worse and brings it to the requested tolerance within one tenth, be it the number of vertices, their weight, the number or weight of edges, or that of edges while vertices with more room come first; likewise the number of vertices of three parts on traditional graphs. With more parts it never gets worse by more than the few elements that move at once.",
 ["inputs", "schedules", "configurations"], "any strip widths and mesh heights, both graph kinds, both queue algorithms, any scheduling",
 T + "; no test asserts that balancing improves anything",
 ["partition/Diffusive/src/engpar_balancer.cpp", "partition/Diffusive/src/engpar_selector.cpp", "partition/Diffusive/src/engpar_sides.cpp", "partition/Diffusive/src/engpar_targets.cpp", "partition/Diffusive/src/engpar_queue.cpp"],
 [m("weights flow from heavy to light neighbours in proportion to the difference", "partition/Diffusive/src/engpar_targets.cpp")],
 ["part weights recomputed from the graph"],
 "2-5 ranks, strips 2-6 wide and 3-6 high; the thresholds hold with margin on this family and are not claimed for arbitrary graphs.")

prop("C05", "One step of balancing follows its rule: from heavy to light, and not too much",
 "One step of diffusion sends weight only from a part to lighter parts it shares side entities with, never more to all of them than the step size times the weight differences in proportion to the shared sides, plus one selected group of vertices. A cut-growth limit that forbids any new cut leaves vertices without connection to the receiver where they are. A part that is the heaviest in a criterion already balanced receives nothing.",
 ["inputs", "schedules", "configurations"], "any graph of either kind, any criterion and list of completed ones, any step size, side criterion and cut-growth limit, any scheduling",
 T + "; no test looks at a single step, only at the absence of errors after whole runs",
 ["partition/Diffusive/src/engpar_targets.h", "partition/Diffusive/src/engpar_selector.cpp", "partition/Diffusive/src/engpar_sides.h", "partition/Diffusive/src/engpar_balancer.cpp"],
 [m("targets from sides and weight differences", "partition/Diffusive/src/engpar_targets.h"), m("cavity selection up to the target", "partition/Diffusive/src/engpar_selector.cpp")],
 ["placement before and after one step, part weights and sides recomputed from the graph"],
 "Per receiver the amount is not claimed: a vertex already planned may be redirected to another receiver.")

prop("D01", "Splitting onto more processes carries over exactly the same graph",
 "Splitting a graph from a small group of processes onto a larger one gives, on the larger group, exactly the same graph: all vertices, edges, pins, weights, coordinates, ghosts and owners. Local splitting sends each vertex only to the targets named for its process. The partitioner is given the true graph, and every vertex goes to the part it decided. Afterwards the partition map leads from the starting processes to every vertex, and every other operation works on the larger group. A graph that ParMETIS or Zoltan cannot partition is refused, not silently changed.",
 ["inputs", "schedules", "configurations", "histories"], "any graph with integer weights, any group sizes, numbering and split factors, global and local ParMETIS and Zoltan, either interface, operations afterwards, any scheduling",
 "No test of the stable suite splits a graph at all",
 ["partition/Multilevel/engpar_split.cpp", "partition/Multilevel/engpar_parmetis.cpp", "partition/Multilevel/engpar_zoltan.cpp", "agi/agiMigrate.cpp", "agi/agiVertex.cpp"],
 [m("partition on the small communicator, switch, migrate on the large one", "partition/Multilevel/engpar_split.cpp")],
 ["every query of the public graph interface on every process of the larger group", "what ParMETIS and Zoltan are given and what they answer, taken between EnGPar and the real partitioner"],
 "1-4 starting ranks, up to 8 in total; integer weights and symmetric adjacency as ParMETIS requires.")

prop("D02", "A split is balanced and uses the connectivity of the graph",
 "Splitting a structured mesh gives parts within the tolerance asked for, up to the granularity of single elements, and cuts only a small share of the edges, on every starting process and for each partitioner, as opposed to a split that ignores which vertices are connected.",
 ["inputs", "configurations", "schedules"], "any strip-distributed structured mesh with enough elements per part, any group sizes and numbering, each partitioner, either interface, any scheduling",
 "No test of the stable suite splits a graph at all",
 ["partition/Multilevel/engpar_parmetis.cpp", "partition/Multilevel/engpar_zoltan.cpp", "partition/Multilevel/engpar_split.cpp"],
 [m("distributed CSR handed to ParMETIS, ghost renumbering", "partition/Multilevel/engpar_parmetis.cpp"), m("hypergraph callbacks for Zoltan", "partition/Multilevel/engpar_zoltan.cpp")],
 ["part weights and cut edges recomputed from the graph"],
 "Limits: tolerance plus one heaviest element plus 0.03, and 45% of the edge weight cut; calibrated on thousands of runs (observed maxima 0.011 over the tolerance and 32%); tolerances of at least 1.1.")

prop("G01", "Every number in the partition report and metrics is the true one",
 "The partition report and the weight and imbalance queries state, for every dimension, the true maximum, minimum, average, imbalance and total over the processes of: vertex weight with and without ghosts, edge weight of each type, cut edge weight of each type, neighbouring parts, disconnected components and empty parts. The graph's own statistics give its true numbers of vertices, edges and pins, and balancing announces the true imbalances, number of steps and number of vertices sent.",
 ["inputs", "schedules", "histories"], "any graph of either kind with up to four edge types, any placement including empty processes, any report name, after any history of migrations, any scheduling",
 T + "; tests call the report without reading it",
 ["partition/engpar.cpp", "partition/Metrics/engpar_metrics.cpp", "partition/Diffusive/src/engpar_sides.h", "support/engpar_message.cpp"],
 [m("per-process values reduced to the first process", "partition/engpar.cpp"), m("weights per dimension", "partition/Metrics/engpar_metrics.cpp")],
 ["the printed report, statistics and progress messages, values returned on every process"],
 "Three decimals as printed; cut values of asymmetric traditional graphs count edges at their source, component counts are checked on symmetric graphs.")

prop("G02", "The C interface does exactly what the C++ interface does",
 "Building, ghosting, balancing, splitting, saving, loading, reporting and querying a graph through the C interface has the same outcome as through the C++ interface, for every argument: priorities, tolerances, step size, cut-growth limit, ghost counting, edge type, split factor and targets all reach the library, and no array given by the caller is overrun.",
 ["inputs", "configurations", "schedules"], "any program over the C interface on any graph with any arguments, any scheduling",
 "The C interface appears in one test with one set of arguments",
 ["interfaces/cengpar.cpp", "interfaces/cengpar.h"],
 [m("thin wrappers over opaque pointers", "interfaces/cengpar.cpp")],
 ["every query of the public graph interface; placement after the same program in both interfaces"],
 "The Fortran module is not compiled here.")

prop("G03", "Messages, the error flag and migration timers say what happened",
 "A status, warning or error message comes out exactly once, whole and with its prefix, a status message of a level only when the verbosity set at that moment reaches it, errors on the error stream at once. Asking whether an error was hit says exactly whether this process reported one since the test was started. A timer holds exactly the time and number of calls recorded under its name in that object, its maxima and averages are those over all processes, and a migration records itself once under each of its four names, the parts adding up to no more than the total.",
 ["inputs", "histories", "schedules", "configurations"], "any sequence of messages, verbosity changes, timer calls and migrations on any number of processes, any scheduling and clock rates; formats up to 900 characters",
 "No test looks at what is printed or at a timer's value",
 ["support/engpar_message.cpp", "support/engpar_support.cpp", "agi/agiMigrationTimers.cpp", "agi/agiMigrate.cpp"],
 [m("prefix put in front of the caller's format", "support/engpar_message.cpp"), m("parallel arrays of times and counts behind a name index", "agi/agiMigrationTimers.cpp")],
 ["the bytes printed on each stream, values returned by the timers on every process"],
 "Formats longer than 900 characters (documented as dangerous at 1024) and redirection to debug files are not exercised.")

prop("H01", "The same program gives the same result whatever the timing and logging",
 "Running the same program on the same input gives the same vertices and weights on every process after every operation, whatever the relative speed of processes, message delays and arrival order, clocks, verbosity and logging. Opening the log never stops or alters the job; the log shows every call with its parameters, at the nesting depth it was made.",
 ["schedules", "configurations", "histories"], "any program of construction, migration, balancing, weight diffusion, splitting and reports on any graph; any two schedules; any verbosity; log open or closed in either",
 T + "; no test runs the same thing twice under controlled different timing, or opens the log",
 ["pcu/pcu_order.c", "pcu/pcu.c", "partition/Diffusive/src/engpar_balancer.cpp", "partition/Diffusive/src/engpar_selector.cpp", "agi/agiMigrate.cpp", "support/engpar_log.cpp", "support/engpar_message.cpp"],
 [m("messages handed out in sender order by default", "pcu/pcu_order.c"), m("log with nesting depth on the first process", "support/engpar_log.cpp")],
 ["vertices and weights of every process after every operation in two runs, the log file"],
 "With message ordering on, its default.")

prop("H02", "A job gives back everything it took",
 "Once a graph, its inputs, balancers, tags, plans and iterators have been destroyed and the library finalized, no memory, communicator, open file or pending request obtained on their behalf is left, whatever was done with them before. No operation reads or writes memory outside what it allocated or was given, or uses it after release.",
 ["inputs", "histories", "schedules", "fault_sequences"], "any program over the public interfaces that destroys what it creates, on any graph and process count, any scheduling",
 T + "; tests never look at what is left, and an out-of-bounds access that happens to hit mapped memory passes them",
 ["agi/agiConstruct.cpp", "agi/agiEdge.cpp", "agi/agiIterate.cpp", "agi/agiMigrate.cpp", "agi/agiVertex.cpp", "agi/agiTag.cpp", "partition/engpar.cpp", "partition/Diffusive/src/engpar_balancer.cpp", "partition/Multilevel/engpar_split.cpp", "pcu/pcu_buffer.c", "pcu/pcu_pmpi.c", "interfaces/cengpar.cpp"],
 [m("ownership of graph arrays and tags", "agi/agiConstruct.cpp"), m("inputs and balancers own their Sides, Targets and plans", "partition/Diffusive/src/engpar_balancer.cpp"), m("duplicated communicators freed on switch and finalize", "pcu/pcu_pmpi.c")],
 ["allocated blocks, communicators, open files and posted receives at the end of the job; any access outside a live block"],
 "Every block of EnGPar's and the partitioners' code ends at an inaccessible page; blocks of the C library itself are not followed.")

prop("E04", "Portable files and debug files hold exactly what was written",
 "A file written through the portable file functions holds the values in big-endian order and nothing else, and reading the same sequence back, by any process, yields the same unsigneds, doubles, strings and bytes, bit for bit; the caller's arrays stay untouched. A file that could not be opened, written, closed or read in full stops the job. Each process's debug file holds, as soon as a print returns, exactly what that process printed so far.",
 ["inputs", "fault_sequences", "schedules"], "any sequence of typed writes and reads on any number of processes, any values and lengths, any buffering, short write or single fault, any scheduling",
 "No unit test calls these functions except through whole graph files, and none injects an I/O fault",
 ["pcu/pcu_io.c", "pcu/pcu.c", "pcu/pcu_buffer.c", "pcu/pcu_byteorder.h"],
 [m("byte-swapped copies written, swapped in place when read", "pcu/pcu_io.c"), m("opens in groups of processes", "pcu/pcu_io.c"), m("debug file per process, flushed on every print", "pcu/pcu.c")],
 ["bytes of the files on the simulated disk, values read back"],
 "Blocks up to 1500 elements; no bzip2 in this build.")
