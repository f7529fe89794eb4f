PROPS = []


def prop(**kw):
    PROPS.append(kw)


prop(id='P01', title='Edge weights, degrees and cut values keep their full 64-bit value',
     statement='Every value computed from edge weights - weighted degrees, sums, connectivities, gains, flows, bounds and cut values - is carried in '
               'integers as wide as the weight type (64 bits) from the moment it is read until it is reported. No conversion, accumulation, container '
               'element, function parameter or result on its way holds it in a narrower integer, and no placeholder for an unknown weight is smaller than a weight can be.',
     over=['inputs'], qtext='for all graphs and weights whose sums fit the weight type',
     why='The tests only use graphs whose weights and degrees fit in 32 bits; a narrowing shows only on weights near or beyond 2^31.',
     files=['lib/common/definitions.h', 'lib/data_structure/mutable_graph.h', 'lib/data_structure/graph_access.h', 'lib/io/graph_io.h'],
     mech=[('EdgeWeight/FlowType', 'lib/common/definitions.h')],
     observe=['reported cut values', 'integer conversions in the type-checked program'],
     technique='interprocedural type-width taint analysis over the Clang AST',
     note='Flow-insensitive taint over all functions of all application and library translation units (sequential and parallel); trusts the Clang front end; floating point excluded.')

prop(id='P13', title='Solver threads share queues, bounds and solutions under a sound lock discipline',
     statement='Whenever the multi-threaded multiterminal solver runs, state that several of its threads access and at least one changes (problem queues, the '
               'handed-over spare problem, bounds, best solution, idle and finish flags, random generators) is atomic or always accessed under one common lock. Every lock '
               'taken is released exactly once on every path, including early returns, and locks are acquired in one global order. What is overwritten under a lock '
               'is decided on from state examined while holding that lock.',
     over=['schedules'], qtext='for all interleavings of any number of worker threads',
     why='The tests run one or two threads on tiny graphs and sample a single schedule; lost problems, torn bounds and deadlocks need specific interleavings.',
     files=['lib/algorithms/multicut/branch_multicut.h', 'lib/algorithms/multicut/problem_management.h',
            'lib/algorithms/multicut/problem_queues/per_thread_problem_queue.h', 'lib/common/mpi_communication.h', 'lib/tools/random_functions.h'],
     mech=[('pop_mutex/send_problem_mutex', 'lib/algorithms/multicut/problem_queues/per_thread_problem_queue.h'),
           ('q_mutex/bestsol_mutex', 'lib/algorithms/multicut/problem_management.h'), ('mpi_mutex', 'lib/algorithms/multicut/branch_multicut.h')],
     observe=['lost or duplicated problems, data races, deadlocks'],
     technique='path-sensitive interprocedural lock-state and lockset analysis over the Clang AST',
     note='All paths from main and from every std::thread entry; locks and fields are identified by access path; problems handed over through a queue are owned by the puller; '
          'data behind those pointers, OpenMP regions (separate property) and MPI internals are outside.')

prop(id='P18', title='Runs are reproducible: all randomness comes from the configured seed',
     statement='Every random generator is started from the configured seed (or a constant, a repetition counter or a thread number) before its first draw, and setting the '
               'seed restarts the generators. Every program with a seed option hands the parsed value to the generators after parsing and before anything is drawn. '
               'Clock time, process state and operating system entropy influence logged timings and configured time limits only, never a result.',
     over=['inputs', 'configurations'], qtext='for all seeds, configurations and inputs',
     why='The tests fix no seed and compare no two runs; an ignored seed or an entropy source leaves every single result plausible.',
     files=['lib/tools/random_functions.h', 'lib/common/configuration.h', 'app/mincut.cpp', 'app/decremental_gnp.cpp'],
     mech=[('random_functions::setSeed', 'lib/tools/random_functions.h'), ('configuration::seed', 'lib/common/configuration.h')],
     observe=['two runs with one seed', 'runs with different seeds'],
     technique='interprocedural taint and must-precede dataflow over the call graph of every program entry',
     note='Sequential determinism only: the order of thread interleavings is not seed-controlled and is outside; third-party generators are matched by type.')

prop(id='P14', title='Subproblems and graphs arrive at another process as they were sent',
     statement='Encoder and decoder of a graph and of a subproblem agree value by value: each value is read at the position it was written and goes back into the member it came '
               'from, each sequence is read with the count written for it, edge targets, vertex markers and the end mark cannot be confused, and no member the receiver uses is left out. '
               'Every message is sent and received under the same tag with one element type that fits the buffer, its length is the size of the buffer, and the buffer of a send that is not waited for outlives it.',
     over=['inputs', 'schedules'], qtext='for all graphs, subproblems and numbers of processes',
     why='The tests run one process and never encode a subproblem; a transposed or missing value only shows as a wrong result of a distributed run.',
     files=['lib/data_structure/mutable_graph.h', 'lib/algorithms/multicut/mpi_communication.h', 'lib/algorithms/multicut/branch_multicut.h'],
     mech=[('serialize/deserialize', 'lib/data_structure/mutable_graph.h'), ('sendProblem/recvProblem', 'lib/algorithms/multicut/mpi_communication.h')],
     observe=['the decoded graph or problem', 'MPI calls'],
     technique='layout extraction and structural comparison of encoder/decoder pairs; call-site analysis of all MPI calls',
     note='Layout level: order, provenance, counts, marker ranges and buffer capacity; that the encoded object itself satisfies its invariants is taken from other properties.')

prop(id='P24', title='Variables and object members hold a value before they are read',
     statement='On every path through every function, a numeric, boolean or pointer variable is assigned before it is read, including paths through loops that never run, '
               'branches not taken and exception handlers. An object - solver, graph, flow network, subproblem - has each such member assigned by its constructor, by a default '
               'or by an earlier call before any of its operations reads that member; state left by an earlier use is never needed for a first one.',
     over=['inputs', 'histories'], qtext='for all inputs and orders of calls present in the programs and library',
     why='A missing initialisation often reads zero in a small test process and only misbehaves on reused stack or heap memory.',
     files=['lib/algorithms/flow/push_relabel.h', 'lib/data_structure/graph_access.h', 'lib/algorithms/multicut/multicut_problem.h'],
     mech=[('push_relabel::solve_max_flow_min_cut', 'lib/algorithms/flow/push_relabel.h'), ('graph_access::start_construction', 'lib/data_structure/graph_access.h')],
     observe=['reads of indeterminate values'],
     technique='interprocedural definite-assignment dataflow with member summaries of constructors and methods',
     note='Scalars and scalar members of objects held in variables; elements of containers and objects reached through foreign pointers are outside.')

prop(id='P02', title='Local reduction tests merge vertices only on proof that no wanted cut is lost',
     statement='When a local test (heavy edge, edge against weighted degree, triangle, shared neighbours) merges two vertices, the path to the merge establishes, from weights and degrees '
               'of the graph it was given, that no cut below the bound - for callers that need every minimum cut, no minimum cut at all - separates them, apart from a single vertex whose degree is known. '
               'Tests that only reach half of a degree are not reused for a vertex already merged, and marks of one vertex are never taken for marks of another. '
               'Callers that need every minimum cut use the strict tests with a bound that excludes minimum cuts.',
     over=['inputs', 'schedules'], qtext='for all weighted graphs and bounds',
     why='A slightly too weak test merges the sides of a minimum cut only for particular weights around equality; sampled graphs almost never hit them.',
     files=['lib/coarsening/contraction_tests.h', 'lib/parallel/coarsening/contraction_tests.h', 'lib/algorithms/global_mincut/cactus/all_cut_local_red.h'],
     mech=[('prTests12/prTests34', 'lib/coarsening/contraction_tests.h'), ('prTests12/prTests34', 'lib/parallel/coarsening/contraction_tests.h'),
           ('allCutsPrTests12/34', 'lib/algorithms/global_mincut/cactus/all_cut_local_red.h')],
     observe=['minimum cut values and sets of minimum cuts'],
     technique='abstract interpretation with path conditions; linear entailment of merge evidence at every union site',
     note='All paths of every local test in each configuration its callers use, loops by havoc and induction on one iteration; arithmetic on unbounded integers; the undirected graph and its degrees are taken to be consistent (other properties).')

prop(id='P03', title='The max-adjacency scan merges only vertices whose attachment reaches the bound',
     statement='A scan that contracts while taking vertices from a priority queue merges only the vertex just taken with a vertex not yet scanned, when the attachment recorded for that vertex plus '
               'the weight of the connecting edge reaches the bound. The attachment starts at zero, grows by each edge to a scanned vertex once, belongs to one scan and one thread, and every growth is passed to the '
               'queue (cut off only at the bound) so that vertices leave it in order of attachment. Callers that need every minimum cut hand over a bound above the minimum cut, others at least the best cut known.',
     over=['inputs', 'schedules'], qtext='for all weighted graphs, bounds, start vertices and numbers of threads',
     why='A scan that is slightly out of order still returns a right cut on nearly every graph; wrong merges need particular weights and start vertices.',
     files=['lib/algorithms/global_mincut/noi_minimum_cut.h', 'lib/parallel/algorithm/exact_parallel_minimum_cut.h'],
     mech=[('modified_capforest', 'lib/algorithms/global_mincut/noi_minimum_cut.h'), ('parallel_modified_capforest', 'lib/parallel/algorithm/exact_parallel_minimum_cut.h')],
     observe=['minimum cut values'],
     technique='abstract interpretation with path conditions; inductive invariants of the scan checked at every write, queue operation and merge',
     note='All paths of every scan in every instantiation, sequential and parallel, and all call sites of the scans; that the queue returns a vertex of greatest key is a property of its own.')

prop(id='P10', title='Union-find joins exactly the sets it is asked to, under every interleaving',
     statement='In both union-find structures a parent entry is only ever set to an ancestor of the element, or links the root of one of the two given elements to the different root of the other; '
               'the search returns an element that is its own parent, a merge is reported exactly when a link was made, and the number of sets falls by one per link and never otherwise. '
               'In the structure used by several threads every such change is an atomic exchange against the value the decision was based on, roots are linked in one fixed order of the elements so that no cycle arises, '
               'a failed link is retried, and two elements are reported apart only if the root compared was still a root.',
     over=['inputs', 'schedules', 'histories'], qtext='for all sequences of operations and all interleavings of threads',
     why='A lost link or a cycle needs two threads to interleave between reading a root and linking it; the tests join a few elements in one thread.',
     files=['lib/data_structure/union_find.h', 'lib/parallel/data_structure/union_find.h'],
     mech=[('Union/Find', 'lib/data_structure/union_find.h'), ('Union/Find/SameSet', 'lib/parallel/data_structure/union_find.h')],
     observe=['which vertices are contracted', 'number of sets'],
     technique='symbolic execution of every method; obligations on each write to the parent array, lock-free discipline for the concurrent structure',
     note='All paths of all methods of both structures. The argument that these local obligations imply the set semantics under interleaving is by hand (parents grow along a fixed order).')

prop(id='P12', title='Threads of a parallel section never race on shared data',
     statement='Within every parallel section two threads never touch the same datum in the same barrier interval with one of them writing, unless both accesses are in the same kind of critical section, '
               'atomic, or belong to a single thread by their subscript (its loop iteration, its thread number, a slot it claimed atomically). Byte-sized flags that are only ever set to one value are exempt, packed bit vectors are not; '
               'containers are never resized or reallocated while others use them. Arrays with one entry per thread are sized by the number of threads of that section.',
     over=['schedules', 'inputs'], qtext='for all interleavings and numbers of threads',
     why='A race shows up only under particular interleavings on large inputs; the tests run small graphs, mostly with one thread.',
     files=['lib/parallel/coarsening/contract_graph.h', 'lib/parallel/coarsening/contraction_tests.h', 'lib/parallel/coarsening/label_propagation.h',
            'lib/parallel/coarsening/sparsify.h', 'lib/parallel/algorithm/exact_parallel_minimum_cut.h', 'lib/algorithms/global_mincut/minimum_cut_helpers.h'],
     mech=[('contractGraphSparse', 'lib/parallel/coarsening/contract_graph.h'), ('prTests12/prTests34', 'lib/parallel/coarsening/contraction_tests.h'),
           ('parallel_modified_capforest', 'lib/parallel/algorithm/exact_parallel_minimum_cut.h')],
     observe=['results of the parallel programs', 'crashes'],
     technique='interprocedural access and effect analysis of OpenMP regions: ownership of subscripts, barrier intervals, protection sets',
     note='All parallel regions in all instantiations, with the calls made in them. A single-word element read while the thread that owns it rewrites it (labels in label propagation) is tolerated by design.')

prop(id='P23', title='References and ranges are not used after the data they point into has moved',
     statement='A reference, pointer or iterator into a container is never used after an operation that may reallocate, remove or replace the elements it points to; neither does a range-based loop take another step after such an operation, '
               'nor an index range over the vertices or edges of a graph after the graph lost vertices or edges of that range. Objects held by a raw owning pointer are freed exactly once on every way out, are not shared by '
               'member-wise copies, are not overwritten without being freed, and are freed through a virtual destructor where the static type is a base class.',
     over=['inputs', 'histories'], qtext='for all inputs and histories of operations',
     why='A dangling reference usually reads the old memory unharmed; whether a buffer moves depends on its capacity at that moment, which tests do not vary.',
     files=['lib/data_structure/mutable_graph.h', 'lib/data_structure/graph_access.h', 'lib/algorithms/global_mincut/noi_minimum_cut.h', 'lib/algorithms/global_mincut/cactus/heavy_edges.h',
            'lib/algorithms/multicut/graph_contraction.h'],
     mech=[('mutable_graph::contractEdgeSparseTarget', 'lib/data_structure/mutable_graph.h'), ('heavy_edges::contractCycleEdges', 'lib/algorithms/global_mincut/cactus/heavy_edges.h'),
           ('noi_minimum_cut::modified_capforest', 'lib/algorithms/global_mincut/noi_minimum_cut.h')],
     observe=['memory errors', 'vertices or edges skipped or visited after removal', 'leaked memory'],
     technique='flow analysis of references and ranges against interprocedural container effects; ownership typestate of raw pointers',
     note='All functions. Two differently named objects are taken to be different objects; an index range over the edges of one vertex is compared with the edges of the same vertex expression.')

prop(id='P19', title='Push-relabel conserves flow and keeps labels, activity and results consistent',
     statement='Every push moves one amount, bounded by the residual capacity and the excess of the vertex, downhill, adding it to the edge and the other end and taking it from the reverse edge and this end; the number of vertices per label follows every change of a label, '
               'labels are lowered to no less than the least residual neighbour plus one, and every vertex that gains excess or a new label is queued exactly once while it has excess. '
               'Each run starts from fresh records sized for its graph and from zero flow under a number no earlier run on the graph had; the value returned is the excess of the sinks (or the limit when it was reached), and the source set is what cannot reach a sink in the residual graph, found by an unabridged search.',
     over=['inputs', 'histories'], qtext='for all graphs, terminals, limits and sequences of runs on one graph',
     why='A wrong label count, a vertex missed by the queue or flow of an earlier run changes the flow value only for some graphs and some orders of pushes; tests run few instances and hardly ever two runs on one graph.',
     files=['lib/algorithms/flow/push_relabel.h', 'lib/data_structure/mutable_graph.h', 'lib/algorithms/global_mincut/dynamic/dynamic_mincut.h', 'lib/algorithms/global_mincut/cactus/recursive_cactus.h'],
     mech=[('push_relabel::push', 'lib/algorithms/flow/push_relabel.h'), ('push_relabel::relabel', 'lib/algorithms/flow/push_relabel.h'), ('push_relabel::solve_max_flow_min_cut', 'lib/algorithms/flow/push_relabel.h'),
           ('mutable_graph::getEdgeFlow', 'lib/data_structure/mutable_graph.h')],
     observe=['flow value', 'source set', 'minimum cut maintained under deletions'],
     technique='abstract interpretation over linear terms of the flow records; syntactic freshness of run numbers',
     note='Each instantiation of the flow class (limited or not, flow kept in the graph or privately). That the main loop ends and the heuristics keep labels valid distances globally is not decided.')

prop(id='P07', title='Mutable graph operations keep its redundant representation consistent',
     statement='In the graph that supports deletions and contractions, every adjacency entry and its reverse entry point at each other and carry one weight, the weighted degree of a vertex is the sum of the weights in its list, the number of edges is the number of entries, '
               'and vertex v lies in the vertex set of exactly the vertex its position names. Inserting, deleting, re-weighting and contracting keep this: an entry moved within a list is announced to its reverse entry, edges of a removed vertex are handed over, added up or removed at both ends, '
               'and the last vertex that takes over a free number brings all its per-vertex records along and is renumbered in the lists of its neighbours. No operation reads the list of a vertex that was just dropped, and code outside that fills vertex sets sets the positions to match.',
     over=['inputs', 'histories'], qtext='for all graphs and sequences of operations',
     why='A stale reverse place or record corrupts a different edge, several operations later; which one depends on the order of entries and on which vertex happens to be last.',
     files=['lib/data_structure/mutable_graph.h', 'lib/algorithms/global_mincut/cactus/heavy_edges.h', 'lib/algorithms/global_mincut/cactus/recursive_cactus.h', 'lib/algorithms/global_mincut/cactus/graph_modification.h'],
     mech=[('mutable_graph::contractVertexSet', 'lib/data_structure/mutable_graph.h'), ('mutable_graph::contractEdge', 'lib/data_structure/mutable_graph.h'), ('mutable_graph::deleteVertex', 'lib/data_structure/mutable_graph.h'),
           ('mutable_graph::mergeEdgeSparse', 'lib/data_structure/mutable_graph.h')],
     observe=['graph after a sequence of operations', 'cut weights', 'memory errors'],
     technique='symbolic path-by-path balance of adjacency entries, weights, degrees and per-vertex records',
     note='Every path of every structural operation and of one iteration of each of its loops. Assumes a consistent graph before the operation, no self loops and no parallel edges, distinct vertices unless a test says otherwise.')

prop(id='P11', title='Addressable priority queues stay well-formed and give out a largest element',
     statement='After every operation of the bucket queues and heaps, the place recorded for a vertex (bucket and position, or heap slot, element slot and index) is exactly where it is stored, a removed vertex is recorded as absent, the size counts the stored elements, and the elements taken from the front of a first-in-first-out bucket are counted by its offset. '
               'The largest-bucket index names a non-empty bucket with only empty ones above it (or the lowest), every heap slot whose key changed is sifted in the direction its key can have moved, sifting exchanges an element with its parent or larger child until heap order holds, and deleteMax returns an element of the largest bucket or the root. '
               'A scan makes its bucket queue for at least the largest key it hands over.',
     over=['inputs', 'histories'], qtext='for all sequences of queue operations',
     why='A stale place or an unsifted slot shows only after several operations on one bucket or heap, and then only as a wrong scan order: cuts are missed on some inputs.',
     files=['lib/data_structure/priority_queues/fifo_node_bucket_pq.h', 'lib/data_structure/priority_queues/node_bucket_pq.h', 'lib/data_structure/priority_queues/bucket_pq.h', 'lib/data_structure/priority_queues/maxNodeHeap.h',
            'lib/data_structure/priority_queues/vecMaxNodeHeap.h', 'lib/algorithms/global_mincut/noi_minimum_cut.h', 'lib/parallel/algorithm/exact_parallel_minimum_cut.h'],
     mech=[('fifo_node_bucket_pq::deleteNode', 'lib/data_structure/priority_queues/fifo_node_bucket_pq.h'), ('node_bucket_pq::deleteNode', 'lib/data_structure/priority_queues/node_bucket_pq.h'),
           ('vecMaxNodeHeap::deleteNode', 'lib/data_structure/priority_queues/vecMaxNodeHeap.h'), ('maxNodeHeap::siftDown', 'lib/data_structure/priority_queues/maxNodeHeap.h'), ('noi_minimum_cut::selectPq', 'lib/algorithms/global_mincut/noi_minimum_cut.h')],
     observe=['queue contents after a sequence of operations', 'order of deletions', 'memory errors'],
     technique='symbolic execution of each operation from every shape of a well-formed queue; inductive representation invariant',
     note='Every path of every operation of all five queue classes, from every position of the affected element. Assumes that vertices are inserted once and re-keyed only while present, and that keys fit the span (checked for the scans).')

prop(id='P04', title='The returned cut value is the best one seen and the saved cut belongs to it',
     statement='Every algorithm that contracts its graph level by level compares each contracted graph with the best value before the next contraction, returns the smallest value seen, hands on that value, and never contracts into the graph it was given. '
               'The flags saved for the input vertices are replaced exactly when the best value falls, and mark the vertices whose partition indices, followed through every level, lead to the side that was found; a vertex that changes its block takes its partition index along. '
               'Edges recorded as certain for the cactus weigh as much as the best value, are dropped when it falls, and are put back at the level at which they were contracted.',
     over=['inputs'], qtext='for all graphs, level counts and rounds in which the value falls',
     why='A wrong value or side appears only when a smaller cut turns up at a deep level, after other levels; tests on small graphs contract once and never compare the saved side with the value.',
     files=['lib/algorithms/global_mincut/minimum_cut_helpers.h', 'lib/algorithms/global_mincut/viecut.h', 'lib/algorithms/global_mincut/noi_minimum_cut.h', 'lib/algorithms/global_mincut/cactus/cactus_mincut.h',
            'lib/parallel/algorithm/parallel_cactus.h', 'lib/parallel/algorithm/exact_parallel_minimum_cut.h', 'lib/coarsening/contract_graph.h', 'lib/parallel/coarsening/contract_graph.h'],
     mech=[('viecut::perform_minimum_cut', 'lib/algorithms/global_mincut/viecut.h'), ('cactus_mincut::findAllMincuts', 'lib/algorithms/global_mincut/cactus/cactus_mincut.h'),
           ('minimum_cut_helpers::updateCut', 'lib/algorithms/global_mincut/minimum_cut_helpers.h'), ('minimum_cut_helpers::setVertexLocations', 'lib/algorithms/global_mincut/minimum_cut_helpers.h'),
           ('contraction::findTrivialCuts', 'lib/coarsening/contract_graph.h')],
     observe=['returned value', 'weight of the saved cut', 'cactus vertices of input vertices'],
     technique='typestate analysis of the graph hierarchy over all paths; symbolic execution of the helpers',
     note='Every path of every perform_minimum_cut and findAllMincuts, both variants, and the helpers. Assumes that contraction preserves cuts and that a nested run marks the cut it returns.')

prop(id='P09', title='Contraction and copying count every edge between two blocks exactly once',
     statement='Contraction, block extraction and graph conversion put every vertex into the block of its set, and for every edge between two different blocks its weight is added exactly once to what is recorded for that pair: edges inside a block are left out, edges stored at both ends count for one of them where the new graph stores both, different pairs never share a record, and a record is overwritten only when it does not belong to the pair yet. '
               'Every record becomes one edge between these blocks with exactly that weight (sums kept apart by threads are handed on), no vertex, block or edge is passed over, and copied edges keep their ends and weights, parallel ones added up once.',
     over=['inputs', 'schedules'], qtext='for all graphs and partitions into blocks',
     why='A lost or doubled edge needs a particular shape (two blocks with a common neighbour, two very large blocks, moved vertices), and then shifts cut values silently in every algorithm that contracts.',
     files=['lib/coarsening/contract_graph.h', 'lib/parallel/coarsening/contract_graph.h', 'lib/algorithms/global_mincut/minimum_cut_helpers.h', 'lib/tools/graph_extractor.h', 'lib/data_structure/mutable_graph.h', 'lib/data_structure/graph_access.h',
            'lib/algorithms/misc/core_decomposition.h'],
     mech=[('contraction::contractGraphSparse', 'lib/coarsening/contract_graph.h'), ('contraction::contractGraphSparse', 'lib/parallel/coarsening/contract_graph.h'), ('contraction::contractGraphFullMesh', 'lib/parallel/coarsening/contract_graph.h'),
           ('contraction::fromUnionFind', 'lib/coarsening/contract_graph.h'), ('minimum_cut_helpers::remap_cluster', 'lib/algorithms/global_mincut/minimum_cut_helpers.h'), ('mutable_graph::from_graph_access', 'lib/data_structure/mutable_graph.h')],
     observe=['edges of the contracted graph', 'cut values', 'weights of copied graphs'],
     technique='symbolic execution of every path through the loops that read edges and make edges; evaluation of pair keys for all small block numbers',
     note='Every contraction, extraction and conversion routine that is used. Keys of pairs are evaluated for block numbers up to five. contractEdge, findTrivialCuts and in-place contraction (contractVertexSet) are other properties or unused; hash table assumed.')

prop(id='P15', title='Graph files give the graph they describe, and written graphs read back',
     statement='Reading a METIS file gives one vertex per line that is no comment and exactly the edges listed, to the numbered neighbour with the listed weight when the header announces weights and with weight one otherwise, self-loops excepted; a file whose number of vertices is not the announced one is refused. '
               'Edge lists give one edge per line with its ends, signed weight and time, in the order of time, and a vertex count that covers all ends; vector files give one element per line; a file that cannot be opened is never read as an empty one. '
               'The writers give a header with the numbers of vertices and edges, one line per vertex with every neighbour counted from one (and its weight exactly if announced), so that reading gives the same graph, and one line per vertex for a cut.',
     over=['inputs'], qtext='for all graphs and graph files',
     why='Every program starts from a file and compares against files; a lost self-loop weight, comment or isolated vertex shifts all later vertices and silently changes the answer, on inputs the sample graphs do not contain.',
     files=['lib/io/graph_io.h'],
     mech=[('graph_io::readGraphWeighted', 'lib/io/graph_io.h'), ('graph_io::readTemporalGraph', 'lib/io/graph_io.h'), ('graph_io::writeGraphWeighted', 'lib/io/graph_io.h'), ('graph_io::fast_atoi', 'lib/io/graph_io.h')],
     observe=['graph read from a file', 'file written for a graph', 'endless loop'],
     technique='symbolic execution of every reader over symbolic lines and of every writer over a symbolic graph; token grammar per loop',
     note='Every path of every reader and writer of graph_io, per line, number, vertex and edge. Assumes numbers in a line are separated by one character and the stream library keeps its contract.')

# ---------------------------------------------------------------- not applicable
NA = [
    ('P90', 'Exact algorithms return the value of a minimum cut',
     'Every exact algorithm returns the weight of a global minimum cut of its input graph, and the inexact ones never return less.',
     'Whether a returned number equals the minimum over exponentially many bipartitions is a theorem about the whole run (random seeds, heaps, contraction rounds); no '
     'dataflow or type argument over the source decides it. Necessary structural parts are claimed separately.',
     ['inputs', 'configurations'], ['lib/algorithms/global_mincut']),
    ('P91', 'The cactus represents every minimum cut and nothing else',
     'The cactus produced by the all-minimum-cuts algorithms contains exactly the minimum cuts of the input.',
     'Equality of two sets of cuts quantifies over all bipartitions of runtime data; static analysis cannot bound it.',
     ['inputs'], ['lib/algorithms/global_mincut/cactus']),
    ('P92', 'The flow routine computes a maximum flow',
     'For every pair of disjoint terminal sets the flow routine returns the value of a maximum flow and a minimum cut side.',
     'Optimality needs a potential argument over runtime distances and excesses; the statically decidable bookkeeping parts are claimed separately.',
     ['inputs'], ['lib/algorithms/flow/push_relabel.h']),
    ('P93', 'Every algorithm terminates',
     'Every algorithm of the library terminates on every input graph.',
     'Termination depends on progress measures over runtime graph sizes and randomised contraction results.',
     ['inputs', 'schedules'], ['lib/algorithms']),
    ('P94', 'Dynamic updates give the same value as recomputation',
     'After every sequence of insertions and deletions the dynamic algorithm reports the minimum cut of the current graph.',
     'Equality with a recomputation over all histories is a property of values (the cactus before and after), not of program structure.',
     ['histories'], ['lib/algorithms/global_mincut/dynamic']),
    ('P95', 'The multiterminal solver returns an optimal separation',
     'The branch-and-reduce solver returns a minimum-weight multiterminal cut whenever it runs to completion.',
     'Optimality of branch and reduce is an inductive argument over the search tree at run time.',
     ['inputs', 'schedules'], ['lib/algorithms/multicut']),
    ('P96', 'Approximation guarantee of the 2+eps algorithm',
     'The approximation algorithm returns a value at most (2+eps) times the minimum cut.',
     'A numeric bound over runtime degrees and cut values; not derivable from structure.',
     ['inputs'], ['lib/algorithms/global_mincut/matula_approx.h']),
]
for i, t, s, r, over, files in NA:
    prop(id=i, title=t, statement=s, over=over, qtext='for all inputs', why='The tests sample a handful of small graphs.', files=files,
         mech=[(files[0].split('/')[-1], files[0])], na=r)
