# One entry per property: id, title, statement, over, text, why, files, mechanism [(name, where)], and for claimed ones technique/level_note.
I = "include/nwgraph/"
TECH = "explicit enumeration of all inputs/operation sequences up to a bound on the real code, compared with a reference model"
NOTE = "Exhaustive within the bounds listed in DESIGN.md plus fixed size-sweep families across word/chunk boundaries; parallel regions run with leaves in 4 fixed orders. Trusts the reference model, g++/ASan, the stand-in task back end and the small-scope hypothesis."
TESTS = "The unit tests run a handful of fixed graphs (mostly karate-like files) and often only print or self-compare; "
PROPS = []
def P(id, title, statement, text, why, files, mech, over=("inputs",), tech=TECH, note=NOTE, na=None):
    PROPS.append(dict(id=id, title=title, statement=statement, text=text, why=why, files=[f if f.startswith("bench/") else I + f for f in files], mech=mech, over=list(over), tech=tech, note=note, na=na))

P("C01", "An edge list is a faithful sequence of the records given to it",
  "After any sequence of insertions (push_back, initializer list, bulk move-in of columns, resize, copy, swap) an edge list holds exactly the records given, in order, each with its own attribute values. Its size, vertex counts, iteration, comparison, degree computation and swap-to-triangular results all agree with that sequence.",
  "every sequence of records over a small vertex set, every attribute arity 0-2, directed and undirected, with and without a declared vertex count",
  TESTS + "no test enumerates record sequences, empty lists, or loops and duplicates.",
  ["edge_list.hpp", "containers/soa.hpp", "graph_base.hpp"], [("index_edge_list push_back / close_for_push_back", I + "edge_list.hpp"), ("struct_of_arrays columns", I + "containers/soa.hpp")], over=("inputs", "histories"))
P("C02", "A compressed graph has exactly the edges of the list it is built from",
  "Building a compressed graph from an edge list gives exactly num_vertices() rows; row v lists, with the right attribute values and multiplicity, exactly the records incident to v (both endpoints for undirected lists, one for directed ones, with index 0 or 1 selecting out- or in-edges). Degrees, row sizes, num_edges and random access agree with the rows, and construction never changes the edge list.",
  "every edge sequence up to the bound, both directednesses, both index sides, attribute arity 0-2, every constructor, declared vertex count below, at and above the largest id",
  TESTS + "rows are checked only by aggregate counts on a few files.",
  ["adjacency.hpp", "containers/compressed.hpp", "build.hpp"], [("indexed_struct_of_arrays prefix sum, push_at, row iterators", I + "containers/compressed.hpp"), ("fill / fill_directed / fill_undirected", I + "build.hpp")])
P("C03", "Bipartite graphs keep the two vertex sides separate and complete",
  "A bipartite edge list and the adjacencies built from it keep the two vertex partitions apart: side 0 and side 1 each have their own count, index-0 rows list side-1 neighbors and index-1 rows list side-0 neighbors, and the two adjacencies are exact transposes. No record is lost, duplicated or attributed to the wrong side, whatever the side sizes.",
  "every bipartite edge sequence over small sides of different sizes, each index side, weighted and unweighted, with declared and deduced side sizes",
  TESTS + "bipartite tests use one file whose sides are printed, not compared.",
  ["edge_list.hpp", "adjacency.hpp", "build.hpp"], [("bi_edge_list / biadjacency", I + "edge_list.hpp"), ("fill_biadjacency", I + "build.hpp")])
P("C04", "Every graph container built from the same edges presents the same graph",
  "The vector-of-vectors, vector-of-lists, vector-of-forward-lists, plain nested standard containers and compressed representations filled from the same edge list present the same neighbor multiset with the same attributes in every row, through range iteration and through the graph customization points (num_vertices, degree, target). The result does not depend on the container chosen.",
  "every edge sequence up to the bound, both directednesses, both index sides, each container and builder",
  TESTS + "containers are compared with nothing but themselves on one file.",
  ["vovos.hpp", "volos.hpp", "vofos.hpp", "build.hpp", "graph_concepts.hpp"], [("push_back_fill / push_at", I + "build.hpp"), ("graph customization points", I + "graph_concepts.hpp")])
P("C05", "Edge-list clean-up transforms keep exactly the edges they promise",
  "Removing self loops drops the self loops and nothing else; sorting (lexicographic, stable, by either side) permutes whole records into sorted order; making unique leaves one record per distinct endpoint pair; filtering to a triangle or symmetrising keeps, drops or mirrors exactly the records described. Attributes always travel with their record.",
  "every edge sequence up to the bound for each transform and for compositions of transforms, in every leaf order of the parallel algorithms used",
  TESTS + "transforms are exercised on pre-sorted inputs with a few records.",
  ["build.hpp", "edge_list.hpp", "adaptors/splittable_range_adaptor.hpp"], [("lexical_sort_by / uniq / remove_self_loops / filter / fill", I + "build.hpp")])
P("C06", "Relabelling by degree is a bijective renaming that orders the degrees",
  "Relabelling a graph by degree renames every vertex through a permutation that sorts degrees in the requested direction; the relabelled graph is isomorphic to the original under that permutation, with edge attributes carried along. For bipartite lists only the requested side is renamed.",
  "every edge sequence up to the bound, ascending and descending, each side, on edge lists and bipartite lists",
  TESTS + "relabelling is tested by checking that triangle counts still match on one graph.",
  ["build.hpp", "edge_list.hpp", "util/proxysort.hpp"], [("relabel / relabel_by_degree / perm_by_degree", I + "build.hpp")])
P("C07", "In-place reorganisation of a compressed graph preserves the graph",
  "Sorting the neighbor lists of a compressed graph, permuting its rows by degree, triangularising it, or renaming its targets leaves a structure describing the same graph up to the documented reordering: rows move as whole units, each neighbor keeps its attributes, nothing is lost or duplicated. Applying such operations in any order gives the composition of their meanings.",
  "every edge sequence up to the bound and every sequence of reorganising operations up to the depth bound",
  TESTS + "the operations are called once on a sorted graph and the result not compared row by row.",
  ["containers/compressed.hpp", "adjacency.hpp", "build.hpp"], [("sort_to_be_indexed / permute_by_degree / triangularize / relabel_to_be_indexed", I + "containers/compressed.hpp")], over=("inputs", "histories"))
P("C14", "Breadth-first ranges visit each reachable vertex once, in level order",
  "A breadth-first traversal range yields each vertex reachable from the seed exactly once in non-decreasing distance, an edge traversal yields exactly one tree edge per reached vertex whose source was reached one level earlier, and filtered traversals do the same within the filtered subgraph. An exhausted or empty range compares equal to its end.",
  "every small digraph and undirected graph and every seed, plus families across sizes",
  TESTS + "ranges are printed on one graph from one seed.",
  ["adaptors/bfs_range.hpp", "adaptors/bfs_edge_range.hpp", "adaptors/filtered_bfs_range.hpp"], [("topdown_bfs_range / bfs_edge_range / filtered_bfs_range", I + "adaptors/bfs_range.hpp")])
P("C15", "Depth-first and DAG ranges follow legal depth-first and precedence orders",
  "A depth-first edge range reaches exactly the vertices reachable from the seed, each once, through edges forming a legal depth-first tree. A DAG range over a precedence structure yields every vertex exactly once after all its predecessors.",
  "every small digraph and seed (depth-first), every small DAG (precedence order), plus families",
  TESTS + "depth-first ranges are not instantiated by any passing test on more than one graph.",
  ["adaptors/dfs_range.hpp", "adaptors/dag_range.hpp"], [("dfs_edge_range", I + "adaptors/dfs_range.hpp"), ("dag_range", I + "adaptors/dag_range.hpp")])
P("C16", "Every BFS returns a valid breadth-first parent tree",
  "Each breadth-first search (top-down, bottom-up and direction-optimizing, with any thresholds, bin counts and execution order) labels exactly the vertices reachable from the root with a parent that is an in-neighbor one level closer to the root; unreachable vertices stay marked as such. The bundled verifier accepts exactly the valid trees.",
  "every small graph, every root, several thresholds, four leaf orders, every perturbed parent vector for the verifier, plus families across word and chunk sizes",
  TESTS + "BFS is verified on one graph with one thread schedule; verifier never fed a wrong tree.",
  ["algorithms/bfs.hpp", "experimental/algorithms/bfs.hpp", "util/AtomicBitVector.hpp"], [("bfs direction switching, bottom-up step", I + "algorithms/bfs.hpp")])
P("C17", "Shortest-path algorithms return exact distances",
  "Dijkstra and every delta-stepping implementation return, for every vertex, the length of a shortest path from the source for non-negative weights, and the maximal value for unreachable vertices. The result does not depend on delta, distance type or the order in which parallel work is executed.",
  "every small weighted graph, source and delta, several distance types, four leaf orders, plus weighted families across sizes",
  TESTS + "distances are compared between implementations on one file from one source.",
  ["algorithms/delta_stepping.hpp", "algorithms/dijkstra.hpp", "experimental/algorithms/delta_stepping.hpp"], [("relax / bins", I + "algorithms/delta_stepping.hpp"), ("dijkstra", I + "algorithms/dijkstra.hpp")])
P("C18", "Connected-component labels coincide exactly within components",
  "Every connected-components algorithm gives two vertices the same label if and only if they are connected, ignoring edge direction where a transpose is supplied, for any number of sampling rounds and any execution order. The bundled verifier accepts exactly the correct labelings.",
  "every small graph, every neighbor-round setting, four leaf orders, every labeling for the verifier, plus shuffled families across sizes",
  TESTS + "component counts are compared on one or two files.",
  ["algorithms/connected_components.hpp", "experimental/algorithms/connected_components.hpp"], [("afforest link/compress/sampling", I + "algorithms/connected_components.hpp")])
P("C19", "Betweenness scores equal the path-counting definition",
  "Betweenness centrality equals the sum over the chosen sources of shortest-path dependency fractions, counting parallel edges as distinct paths, for the sequential, parallel-exact and source-sampled algorithms and any score and path-count types; normalisation divides by the largest score and leaves all-zero scores at zero. So do the experimental variants on simple graphs. The bundled verifier accepts exactly the right scores.",
  "every small graph, several source subsets, thread/bin counts and leaf orders, plus families",
  TESTS + "scores are compared on one graph with floating tolerances and one type combination.",
  ["algorithms/betweenness_centrality.hpp", "experimental/algorithms/betweenness_centrality.hpp"], [("forward counting and backward accumulation", I + "algorithms/betweenness_centrality.hpp")])
P("C08", "Serialisation followed by deserialisation is the identity",
  "Writing an edge list, a compressed graph or a column container to a binary stream or file and reading it back, into a fresh or an already used object, yields an object with the same counts, records, row boundaries and attributes, and leaves the source unchanged. Reading back touches only the object it is given, and the object stays usable afterwards.",
  "every edge sequence up to the bound, every index type width and attribute arity, fresh and used targets, streams holding several objects",
  TESTS + "a round trip is done once on one graph and only sizes are compared.",
  ["edge_list.hpp", "adjacency.hpp", "containers/soa.hpp", "containers/aos.hpp", "containers/compressed.hpp"], [("serialize / deserialize", I + "containers/compressed.hpp"), ("column serialisation", I + "containers/soa.hpp")], over=("inputs", "histories"))
P("C09", "Matrix Market input is read exactly",
  "Reading a well-formed Matrix Market file yields one record per entry with 0-based ids and exactly the values in the file, in file order; pattern entries get value 1, the stored half of a symmetric matrix is mirrored (off the diagonal) for directed lists, and the declared dimensions become the vertex count. Comments, spacing, line lengths, a missing final newline and page alignment of the file do not matter, and a memory-mapped file read in any partition into blocks yields the same entries as reading it whole.",
  "every entry sequence over small matrices x field kind x symmetry x layout style, every partition into blocks, file lengths around page boundaries",
  TESTS + "a few checked-in files are read and only their sizes compared.",
  ["io/mmio.hpp", "io/MatrixMarketFile.hpp"], [("read_mm / mm_fill / read_mm_vector", I + "io/mmio.hpp"), ("MatrixMarketFile, edges()", I + "io/MatrixMarketFile.hpp")])
P("C10", "Matrix Market output describes the graph and reads back as the same graph",
  "Writing an edge list or an adjacency (of either index, plain or weighted, unipartite or bipartite) as Matrix Market produces a file whose banner, dimensions and entry count are right and whose entries are exactly the edges with 1-based ids and the chosen attribute, with enough digits for floating values. Reading it back yields the original edges and values; symmetric output stores each undirected edge once.",
  "every edge sequence up to the bound x directedness x index side x attribute choice x symmetry",
  TESTS + "writing is not tested by reading back values.",
  ["io/mmio.hpp"], [("write_mm / adj_list_mm_header", I + "io/mmio.hpp")])
P("C11", "Column containers behave like one vector of tuples",
  "struct_of_arrays, array_of_structs and zipped views behave like a single sequence of tuples under every sequence of operations: push_back, resize, clear, swap, copy, move, assignment, element access, iterator arithmetic and comparison, equality, and sorting through their iterators. All columns always have the same length and a record's fields never part from each other.",
  "every operation history up to the depth bound, every key sequence up to the bound for sorting, in several leaf orders",
  TESTS + "single calls on fixed vectors are tested; histories, unequal lengths and iterator algebra are not.",
  ["containers/soa.hpp", "containers/aos.hpp", "containers/zip.hpp"], [("soa_iterator", I + "containers/soa.hpp"), ("zipped", I + "containers/zip.hpp")], over=("histories", "inputs"))
P("C12", "Range adaptors present exactly the graph they wrap",
  "Edge ranges (with any selection and order of attributes and any starting row), plain ranges, neighbor ranges, degree ranges, vertex ranges, counting iterators, predecessor paths and worklists present exactly the vertices, edges, rows, path or queued items of what they wrap, in order, for const and non-const graphs; writing through an edge range changes the edge's attribute. Random walks follow edges of the graph and are reproducible from their seed.",
  "every edge sequence up to the bound x starting row x attribute selection x container, every worklist history up to the depth bound, every predecessor map",
  TESTS + "adaptors are iterated on one graph, with prints.",
  ["adaptors/edge_range.hpp", "adaptors/plain_range.hpp", "adaptors/neighbor_range.hpp", "adaptors/vertex_range.hpp", "adaptors/random_range.hpp", "adaptors/reverse.hpp", "adaptors/worklist.hpp"], [("edge_range_iterator", I + "adaptors/edge_range.hpp"), ("plain / neighbor iterators", I + "adaptors/plain_range.hpp")], over=("inputs", "histories"))
P("C13", "Splitting a range partitions it",
  "Whenever a splittable range (index, cyclic, neighbor, cyclic neighbor, vertex, edge, plain and bit-vector ranges) is split, any number of times and in any order, the pieces together yield exactly the elements of the whole, each once. Splitting while divisible terminates, and a piece's reported size is the number of elements it yields.",
  "every split history up to the depth bound for every length and cut-off, plus recursive splitting to the leaves, over index ranges, graph ranges and bit vectors",
  TESTS + "no test splits a range by itself; a wrong split is only visible through a parallel algorithm on a large enough input.",
  ["adaptors/splittable_range_adaptor.hpp", "adaptors/cyclic_range_adaptor.hpp", "adaptors/cyclic_neighbor_range.hpp", "adaptors/neighbor_range.hpp", "adaptors/plain_range.hpp", "adaptors/edge_range.hpp", "adaptors/vertex_range.hpp", "util/AtomicBitVector.hpp"], [("split constructors", I + "adaptors/splittable_range_adaptor.hpp"), ("non_zero_range", I + "util/AtomicBitVector.hpp")], over=("histories", "inputs"))
P("C20", "Triangle counts and set intersections are exact",
  "Every triangle counting algorithm, sequential or parallel, cyclic or blocked, with any thread count or stride, returns the exact number of triangles of a simple graph given as sorted triangular rows, in upper or lower form. The set-intersection size they rest on equals the size of the sorted multiset intersection for every pair of sorted lists, in each overload and execution policy.",
  "every simple graph up to the bound, thread counts and strides around the row count, four leaf orders, every pair of sorted lists up to the bound, families across sizes",
  TESTS + "one file with a known count is used.",
  ["algorithms/triangle_count.hpp", "experimental/algorithms/triangle_count.hpp", "util/intersection_size.hpp"], [("triangle_count / triangle_count_async", I + "algorithms/triangle_count.hpp"), ("intersection_size", I + "util/intersection_size.hpp")])
P("C21", "PageRank converges to the PageRank vector of the graph",
  "Every PageRank implementation, run to a tight threshold on in-edges and out-degrees, returns the fixed point of score = (1-d)/N + d * sum(score(u)/outdegree(u)) over in-neighbors u, counting parallel edges, whatever the damping factor, score type or execution order. It stops at the iteration limit or as soon as the change falls below the threshold, and an iteration limit of k gives the k-th power iterate for the variants that update all scores at once.",
  "every edge sequence up to the bound, several damping factors, score types and thresholds, four leaf orders, families across sizes",
  TESTS + "no expected scores are checked.",
  ["algorithms/page_rank.hpp", "experimental/algorithms/page_rank.hpp"], [("page_rank", I + "algorithms/page_rank.hpp")])
P("C22", "Independent sets are maximal and independent, colorings are proper",
  "On every simple undirected graph (symmetric adjacency), the sequential and the DAG-based algorithm return a set of vertices in which no two are adjacent and to which no vertex can be added, whatever the output vector held before. The Jones-Plassmann coloring gives adjacent vertices different colors and uses no more than largest degree + 2 colors.",
  "every simple graph up to the bound, several containers, several initial values of the output, families across sizes",
  TESTS + "one bipartite graph with hard-coded expected vectors is used.",
  ["algorithms/maximal_independent_set.hpp", "algorithms/dag_based_mis.hpp", "algorithms/jones_plassmann_coloring.hpp"], [("maximal_independent_set", I + "algorithms/maximal_independent_set.hpp"), ("dag_based_mis", I + "algorithms/dag_based_mis.hpp")])
P("C23", "Spanning forests are acyclic, spanning and of optimal weight",
  "Kruskal's algorithm returns input edges that form a spanning forest of least total weight (or greatest, with the reversed comparison), for any edge order, ties, loops, parallel edges and isolated vertices, and keeps the records of its input; Prim's algorithm returns the predecessors of a minimum spanning tree of the source's component and marks every other vertex as unreached. The disjoint-set forest merges and finds exactly the sets of the union operations performed so far.",
  "every weighted edge sequence up to the bound, every weight assignment and order on 4 vertices, every history of union and find operations, families across sizes",
  TESTS + "one file's total weight is compared.",
  ["algorithms/kruskal.hpp", "algorithms/prim.hpp", "util/disjoint_set.hpp"], [("kruskal", I + "algorithms/kruskal.hpp"), ("disjoint_find / disjoint_union_find", I + "util/disjoint_set.hpp")], over=("inputs", "histories"))
P("C25", "Sparse matrix products are exact over any semiring",
  "spMatspMat(A, B) and spMatspMatT(A, transpose of B) return, in row-major order and once each, exactly the entries (i, j) for which some inner index k has entries in both operands, with the value reduce over k of map(A(i,k), B(k,j)), for any map and reduce operation, rectangular operands and any mix of containers, and leave the operands unchanged. The element-wise intersection they rest on maps exactly the common indices.",
  "every pair of small matrices (values, stored zeros, rectangular shapes), several semirings, containers and scalar types, families across sizes",
  TESTS + "one dense 3x3 product over plus-times is compared.",
  ["algorithms/spMatspMat.hpp"], [("spMatspMat / spMatspMatT", I + "algorithms/spMatspMat.hpp")])
P("C26", "Jaccard similarity writes the exact coefficient of every edge",
  "On a simple undirected graph with sorted rows, jaccard_similarity stores in each edge u-v (u < v) the size of the intersection of the two neighborhoods divided by the size of their union, touches nothing else, and returns the number of edges.",
  "every simple graph up to the bound, several index and attribute types, families across sizes",
  TESTS + "there is no test, only an example that prints nothing.",
  ["algorithms/jaccard.hpp", "util/intersection_size.hpp"], [("jaccard_similarity", I + "algorithms/jaccard.hpp")])

P("C24", "Back-edge ranges pair every edge with its reverse",
  "A back-edge range over a directed graph shows, row by row, the graph's own edges followed by one extra entry, with zero attributes, for each incoming edge whose reverse is missing. The back edge of u->v is the graph's own edge v->u, by reference, whenever it exists (a loop is its own), and otherwise an extra edge to u; that holds for extra entries too, whether pairs are set up at construction or looked up on demand, and the graph itself is changed only by writing through an edge.",
  "every edge sequence over 3 vertices and every small digraph, with loops and parallel edges, several attribute types, every first query of the on-demand mode, families across sizes",
  TESTS + "one six-vertex graph is used and only the targets are looked at.",
  ["adaptors/back_edge_range.hpp"], [("back_edge_range constructor, get_back_edge", I + "adaptors/back_edge_range.hpp")], over=("inputs", "histories"))
P("C33", "Parallel loops and reductions process every element exactly once",
  "parallel_for, parallel_reduce and their sequential forms hand each element of any splittable range (index, cyclic, neighbor, vertex, edge, plain, row and bit-vector ranges) to the operator exactly once, tuples unpacked into its arguments, whatever the length, cut-off and execution order. A reduction with an associative, commutative operation and its neutral element returns exactly the combination of the mapped values, and the sequential form folds in range order.",
  "every length up to the bound and cut-off, every small graph, every range type, several reductions, four leaf orders, families across sizes",
  TESTS + "loops are only reached through whole algorithms.",
  ["util/parallel_for.hpp", "adaptors/splittable_range_adaptor.hpp", "adaptors/cyclic_range_adaptor.hpp", "adaptors/cyclic_neighbor_range.hpp", "adaptors/neighbor_range.hpp", "adaptors/plain_range.hpp", "adaptors/edge_range.hpp", "adaptors/vertex_range.hpp", "util/AtomicBitVector.hpp"],
  [("parallel_for / parallel_reduce / parallel_for_sequential", I + "util/parallel_for.hpp")])
P("C34", "Index sorts, selections, blocks and counters compute what they say",
  "Sorting by proxy returns a permutation of the indices that orders the keys by the given comparison; permutation iterators read and write the permuted elements; selecting from a tuple copies the chosen elements in the chosen order and leaves a variable unchanged. Blocks of a count are consecutive, cover it and differ by at most one; logarithms and powers of two are exact for every argument; counting iterators, histograms and priority queues count and order exactly.",
  "every key sequence up to the bound, every permutation, every count and number of blocks up to the bound, every power of two and its neighbors",
  TESTS + "the proxy sort is tested on two arrays, the others not at all.",
  ["util/proxysort.hpp", "util/permutation_iterator.hpp", "util/util.hpp", "util/make_priority_queue.hpp"], [("proxysort", I + "util/proxysort.hpp"), ("select, block, log2, ceil_log2, counters, histogram", I + "util/util.hpp")])

P("C35", "The k-core keeps exactly the vertices with k neighbors inside it",
  "For any undirected graph and any k, the k-core computation reports the number of vertices of the largest vertex set in which every vertex has at least k neighbors (with multiplicity) inside the set, and lists as removed exactly the edges with an end outside that set, each once. Every graph container gives the same answer.",
  "every small undirected graph, edge sequences with loops and parallel edges, every k from below zero past the largest degree, five containers, plus families across sizes",
  "The only test of the k-core is disabled; a peeling that stops early or visits only one component passes on many graphs. ",
  ["algorithms/k_core.hpp", "adaptors/edge_range.hpp"], [("k_core", I + "algorithms/k_core.hpp")])
P("C36", "Printing a container shows exactly its records, on the stream given",
  "Printing an edge list, a compressed graph (its rows or its edges) or an array of structs writes every record once, in order, with all the values the format has room for, each on its own line, after the message if one is given; statistics lines show the vertex counts and the number of records. Everything goes to the stream given (standard output when none is) and nothing to any other, and the container is left as it was.",
  "every edge sequence up to the bound, unipartite and bipartite, directed and undirected, arity 0-2, with and without declared vertex counts, both index sides, plus families across sizes",
  "No test looks at the text printed. ",
  ["edge_list.hpp", "containers/compressed.hpp", "containers/aos.hpp"], [("stream_edges, stream_stats", I + "edge_list.hpp"), ("stream, stream_indices, stream_stats", I + "containers/compressed.hpp"), ("array_of_structs::stream", I + "containers/aos.hpp")])
P("C29", "The benchmark drivers run and report what they are asked to, correctly",
  "Each driver (bfs, bc, cc, pr, sssp, tc, sources, process_edge_list), given valid input files and options, exits normally, runs every requested algorithm version for every requested source, trial and thread count, and reports each run once, in the table and in the log, under the right version, threads, file and source. Loading keeps the file's edges; random sources are reproducible vertices with at least one edge, listed ones those of the file; degrees, component counts, ranks and triangle counts printed are exact; built-in verifiers accept correct results and reject wrong ones.",
  "every small graph in text or binary form, every algorithm version, source mode, ordering and storage format of the drivers, several thread counts and leaf orders; random-source helpers with every seed tried; timing tables for every sequence of samples",
  "The drivers are never run by the tests, and their helpers have no test. ",
  ["bench/" + f for f in ("common.hpp", "Log.hpp", "bfs.cpp", "bc.cpp", "cc.cpp", "pr.cpp", "sssp.cpp", "tc.cpp", "SourceVerifier.cpp", "ProcessEdgelist.cpp")] + ["algorithms/bfs.hpp", "algorithms/betweenness_centrality.hpp", "experimental/algorithms/connected_components.hpp", "io/mmio.hpp"],
  [("load_graph, build_adjacency, build_degrees, build_random_sources, Times", "bench/common.hpp"), ("log", "bench/Log.hpp"), ("SSSPVerifier", "bench/sssp.cpp"), ("clean, TCVerifier", "bench/tc.cpp")])

SCHEDTECH = "stateless model checking of the real code: every interleaving of the tasks up to a preemption bound under a controlled scheduler, for every small input"
SCHEDNOTE = "Exhaustive over schedules up to the preemption bound (DESIGN.md) with sleep-set pruning, for every input in the bounded space. Sequential consistency only; the task back end is a stand-in for TBB/PSTL. Also reports invalid memory accesses, deadlock, livelock and tasks that outlive their region."
P("C27", "Under every interleaving parallel algorithms end with a permitted result",
  "Whatever the interleaving of their tasks, the parallel graph algorithms (breadth-first search, delta-stepping, connected components, betweenness, triangle counts, PageRank) terminate, touch only live memory, never deadlock and return a result permitted by their definition: a valid parent tree, exact distances, exact components, exact scores and counts.",
  "every small graph, every interleaving of three concurrent tasks per parallel region up to a preemption bound",
  "Tests observe one interleaving per run and cannot choose it; a lost update needs a preemption between two specific instructions. ",
  ["algorithms/bfs.hpp", "algorithms/delta_stepping.hpp", "algorithms/connected_components.hpp", "algorithms/betweenness_centrality.hpp", "algorithms/triangle_count.hpp", "algorithms/page_rank.hpp", "util/atomic.hpp"],
  [("bfs atomic claims", I + "algorithms/bfs.hpp"), ("relax", I + "algorithms/delta_stepping.hpp"), ("link / compress", I + "algorithms/connected_components.hpp"), ("successor bits, atomic path counts", I + "algorithms/betweenness_centrality.hpp")],
  over=("schedules", "inputs"), tech=SCHEDTECH, note=SCHEDNOTE)
P("C28", "Parallel construction and loops give the same result in every interleaving",
  "Building compressed graphs, counting degrees, permuting and relabelling by degree, and running parallel_for and parallel_reduce over any splittable range give the sequential result (up to the documented freedom of order among equal degrees) under every interleaving of their tasks: no edge, increment or element is lost, duplicated or visited twice.",
  "every small edge sequence and range, every interleaving of two and three concurrent tasks up to a preemption bound",
  "Tests observe one interleaving per run and only compare totals on large graphs. ",
  ["edge_list.hpp", "adjacency.hpp", "build.hpp", "containers/compressed.hpp", "util/parallel_for.hpp", "adaptors/splittable_range_adaptor.hpp", "adaptors/cyclic_range_adaptor.hpp", "adaptors/edge_range.hpp"],
  [("degrees (atomic counters)", I + "build.hpp"), ("permute_by_degree / relabel_to_be_indexed", I + "containers/compressed.hpp"), ("parallel_for / parallel_reduce", I + "util/parallel_for.hpp")],
  over=("schedules", "inputs"), tech=SCHEDTECH, note=SCHEDNOTE)
P("C32", "Bitmaps and atomic helpers are exact sequentially and linearizable concurrently",
  "An atomic bit vector holds exactly the set of bits set since the last clear, iterates over exactly those bits in order, reports the previous value of each bit it sets, and its non-zero ranges cover each set bit once however they are split. Under concurrent use, bitmap operations, the atomic load, store, compare-and-swap, fetch-add and fetch-or helpers (on plain and std::atomic variables, integer and floating point) and the shared counting iterators behave as if each operation happened at one instant.",
  "every operation history up to the bound on word-boundary sizes, every content of small bitmaps, every split sequence; every small concurrent program of these operations under every interleaving up to the preemption bound",
  "No test races two of these operations; word boundaries are hit by luck. ",
  ["util/AtomicBitVector.hpp", "util/atomic.hpp", "util/util_par.hpp", "util/util.hpp"],
  [("AtomicBitVector set / atomic_set / non_zeros", I + "util/AtomicBitVector.hpp"), ("cas / fetch_add / fetch_or", I + "util/atomic.hpp"), ("counting output iterators", I + "util/util_par.hpp")],
  over=("histories", "schedules", "inputs"), tech="explicit enumeration of operation histories plus stateless model checking of every interleaving of small concurrent programs, outcomes compared with the set the sequential model allows", note=SCHEDNOTE)
for _p in PROPS:
    if _p["id"] in ("C16", "C17", "C18", "C19", "C20", "C21"):
        _p["tech"] = TECH + "; plus stateless model checking of every interleaving (preemption-bounded) of the parallel versions on small inputs"
        _p["note"] = NOTE + " " + SCHEDNOTE; _p["over"] = ["inputs", "schedules"]
