#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a generator only so the text stays readable)."""
import json, os
I = "include/graph/"
P = []
def p(id, title, statement, qt, why, files, mech, inputs=None, histories=None, configurations=None):
    q = {"over": [k for k, v in (("inputs", inputs), ("histories", histories), ("configurations", configurations)) if v], "text": qt}
    P.append({"id": id, "title": title, "statement": statement, "quantifier": q, "why_tests_cant": why,
              "anchors": {"files": [I + f for f in files], "mechanism": [{"name": n, "where": I + w} for n, w in mech]}})
IN = dict(inputs=1)
IC = dict(inputs=1, configurations=1)
HI = dict(inputs=1, histories=1)
why_g = "The tests load a few dozen hand-written graphs; the claim is about every graph, including parallel edges, self-loops, isolated and trailing vertices, and every value carried."

# ---- containers
p("C01", "compressed_graph holds exactly the edge list it was given",
  "For every edge list sorted by source id, a compressed_graph built or loaded from it has max(id)+1 vertices (or the vertex count given; none when there are no edges and no count), vertex u's edges are exactly the input edges with source u in input order with their targets and values, and num_edges equals the number of input edges. An edge list not sorted by source is rejected with graph_error instead of being stored wrongly. This holds for construction from initializer lists, ranges with projections, load_edges, with or without edge values, and for small id types.",
  "all edge lists (any sources, targets, values, any length incl. 0; sorted and unsorted) over vertex ids within the bound", why_g,
  ["container/compressed_graph.hpp"], [("compressed_graph_base::load_edges", "container/compressed_graph.hpp"), ("csr row_index_/col_index_", "container/compressed_graph.hpp")], **IN)
p("C02", "compressed_graph vertex values, partitions and edge ids are consistent",
  "Vertex values loaded into a compressed_graph are read back at the vertex they were given for, and loading vertices and edges together never changes which edges belong to which vertex. With partition start ids given, partitions are disjoint, contiguous and cover every vertex, partition_id(u) names the partition whose vertex range contains u, and num_vertices(g,pid) is the size of that range. Edge ids are unique and find the edge they were taken from.",
  "all edge lists, vertex value lists and partition start lists within the bound", "Off-by-one errors at partition and row boundaries only show for particular sizes and start ids.",
  ["container/compressed_graph.hpp"], [("load_vertices, terminate_partitions, partition_id, edge_ids", "container/compressed_graph.hpp")], **IN)
p("C03", "dynamic_graph with sequence edge containers stores every edge once",
  "After load_edges/load_vertices or construction, a dynamic_graph with vector, deque, list or forward_list edges has, for every vertex u, exactly the given edges with source u (targets and values), in input order (reverse order for forward_list), and num_edges is the number of edges given. Indexed vertex containers have at least max(id)+1 vertices; repeated loads append; ids beyond an explicit vertex count, or vertex values for ids that do not exist, are rejected with the documented exception.",
  "all edge lists, vertex lists and load histories within the bound, for each vertex/edge container combination checked", why_g,
  ["container/dynamic_graph.hpp"], [("dynamic_graph_base::load_edges / load_vertices / edge_inserter", "container/dynamic_graph.hpp")], inputs=1, histories=1, configurations=1)
p("C04", "Keyed edge and vertex containers deduplicate by key and lose nothing else",
  "A dynamic_graph whose edges are set/unordered_set/map/unordered_map holds, per source vertex, one edge for each distinct target given, with the value of the first edge given for it (sorted by target for set/map). With map/unordered_map vertices the vertex set is exactly the set of ids mentioned by the loads, each found by find_vertex under its own id.",
  "all edge lists with arbitrary duplicates and orderings within the bound, for each keyed combination checked", "Which duplicates collide and in what order depends on the input; tests use one or two duplicate patterns per container.",
  ["container/dynamic_graph.hpp", "container/traits/vos_graph_traits.hpp", "container/traits/mov_graph_traits.hpp"], [("emplace_edge / edge_count_", "container/dynamic_graph.hpp")], inputs=1, configurations=1)
p("C05", "Incoming edges of a bidirectional graph are its outgoing edges reversed",
  "In a bidirectional dynamic_graph the in-edges of v are exactly the edges whose target is v: the same multiset of (source,target,value) as the out-edges, so in_degree sums to out_degree sums, and an edge's value seen through either list is the one given. It holds after any sequence of loads, and after copy, move and clear.",
  "all edge lists and load/copy/move/clear histories within the bound", "Two lists must stay mirror images under every order of insertion; tests check a few fixed graphs.",
  ["container/dynamic_graph.hpp"], [("in_edges_ maintenance in load_edges", "container/dynamic_graph.hpp")], inputs=1, histories=1)
p("C06", "undirected_adjacency_list stays consistent under any mutation history",
  "After any sequence of create_vertex, create_edge (parallel edges and self-loops included), erase_edge, clear_edges and clear, every undirected edge appears exactly once in the list of each endpoint (a self-loop once in its vertex's list) with the same value and in creation order, the lists agree forwards and backwards, num_edges is the number of live edges, erase returns the following edge, iteration over the whole graph's edges reaches each of them, and edges not touched by an operation are still there. No operation touches freed memory, and destruction frees every edge.",
  "all operation sequences (operations and operands) within the bound", "The doubly linked lists have many boundary cases (head, tail, only edge, parallel edges); only a history can reach combinations of them.",
  ["container/undirected_adjacency_list.hpp", "container/detail/undirected_adjacency_list_impl.hpp"], [("ual_vertex_edge_list::link_back/link_front/unlink", "container/detail/undirected_adjacency_list_impl.hpp")], **HI)
p("C07", "Copy, move, assign and swap of undirected_adjacency_list preserve the graph",
  "Copying an undirected_adjacency_list gives an independent graph with the same vertices, values and edges (each vertex's edges as a set); moving or swapping transfers them; assignment replaces the old content completely; the source of a copy is unchanged; a graph constructed from ranges or initializer lists holds exactly the vertices, edges and values given. Every edge object is freed exactly once.",
  "all graphs within the bound, created in any edge order, and all such operations", "The copy re-links every edge; whether an edge is kept depends on the endpoint order and position.",
  ["container/undirected_adjacency_list.hpp", "container/detail/undirected_adjacency_list_impl.hpp"], [("base_undirected_adjacency_list copy constructor, swap, clear", "container/detail/undirected_adjacency_list_impl.hpp")], **HI)
p("C08", "Copy, move, clear and reload of directed containers keep the graph intact",
  "Copying or moving a dynamic_graph or compressed_graph yields a graph equal to the original in vertices, edges, values and counts, later changes to one do not show in the other, and after clear() the graph is empty and can be loaded again with the same result as a fresh one. A moved-from graph can be cleared, reloaded, assigned to and destroyed.",
  "all graphs and copy/move/clear/reload histories within the bound", "Needs arbitrary content before each operation; tests copy one fixed graph.",
  ["container/dynamic_graph.hpp", "container/compressed_graph.hpp"], [("copy/move/clear/swap", "container/dynamic_graph.hpp"), ("clear", "container/compressed_graph.hpp")], **HI)
# ---- interface
p("A01", "Graph query functions agree with each other for every graph type",
  "For every supported graph type and graph: find_vertex returns the vertex with that id, vertices lists num_vertices distinct ids, degree(u) is the number of edges iterated from u, num_edges(g) is the number of edges given (for containers that keep parallel edges), has_edges is num_edges>0, find_vertex_edge(u,v) finds an edge with that target exactly when one exists, and contains_edge agrees. The forms taking ids and the forms taking descriptors give the same answers.",
  "all graphs within the bound, all vertex pairs, for the graph types checked (library containers, vector<vector<int>>, vector<vector<pair>>, map-based)", "Each CPO has several dispatch branches per graph type; tests exercise each with one graph.",
  ["adj_list/detail/graph_cpo.hpp"], [("vertices/find_vertex/out_edges/degree/find_out_edge/contains_out_edge/num_edges/has_edges", "adj_list/detail/graph_cpo.hpp")], **IC)
p("A02", "Incoming-edge query functions agree with outgoing ones",
  "For every graph supporting in-edges: in_degree(v) is the number of in_edges iterated, the source and target ids, and the source and target vertices, of each in-edge name an existing out-edge and v itself, find_in_edge(v,u)/contains_in_edge(v,u) succeed exactly when find_vertex_edge(u,v) does, and id and descriptor forms agree.",
  "all graphs and vertex pairs within the bound", "The in-edge CPOs mirror the out-edge ones with source and target swapped; a mix-up is invisible on symmetric test graphs.",
  ["adj_list/detail/graph_cpo.hpp"], [("in_edges/in_degree/find_in_edge/contains_in_edge", "adj_list/detail/graph_cpo.hpp")], **IC)
p("A03", "Descriptors are faithful, ordered, hashable handles",
  "Vertex and edge descriptors obtained by iteration, by find and by copy are equal exactly when they name the same vertex or edge, equal descriptors hash equally, ordering (where the descriptor is ordered) follows position, and pre/post increment visit each element once. Dereferencing through a descriptor reaches the vertex or edge with the same id that iteration reports.",
  "all graphs within the bound and all pairs of descriptors from it", "Equality and ordering are claims about pairs across all vertices' edge lists.",
  ["adj_list/vertex_descriptor.hpp", "adj_list/edge_descriptor.hpp", "adj_list/vertex_descriptor_view.hpp", "adj_list/edge_descriptor_view.hpp"], [("vertex_descriptor, edge_descriptor and their views", "adj_list/edge_descriptor.hpp")], **IC)
p("A04", "Writes through value functions are seen and touch nothing else",
  "A value written through vertex_value, edge_value or graph_value is what every later read of that element returns, by any route (iteration, find, const access), and no other element's value and no structure changes.",
  "all graphs within the bound, any element written, any 64-bit value", "Aliasing between elements appears only for some positions; values are universally quantified.",
  ["adj_list/detail/graph_cpo.hpp", "container/compressed_graph.hpp", "container/dynamic_graph.hpp", "container/undirected_adjacency_list.hpp"], [("vertex_value/edge_value/graph_value", "adj_list/detail/graph_cpo.hpp")], **HI)
p("A05", "Customized graph types are served by their own functions",
  "When a user's graph type provides its own member function, or else a free function found by ADL, for a graph query (vertices, find_vertex, edges, in_edges, target, source, the id and value functions, counts, degrees, find and contains forms, partitions) the query calls exactly that function, members first, with exactly the vertex, edge, id or partition given, in that order, and returns its result.",
  "all customizable queries, argument combinations of a small graph and results of the customized function", "The customization branches are separate code for every query; tests cover a few argument values each.",
  ["adj_list/detail/graph_cpo.hpp", "detail/edge_cpo.hpp"], [("graph query CPOs: member and ADL strategies", "adj_list/detail/graph_cpo.hpp"), ("source_id/target_id/edge_value CPOs", "detail/edge_cpo.hpp")], **IC)
p("E01", "Edge lists expose the ids and values of every supported element form",
  "For each supported edge element (pair, tuple, edge_data, edge_list::edge_descriptor) source_id, target_id and edge_value return exactly the stored source, target and value, and edge_list::edge_descriptor comparison is equality/lexicographic order on (source, target, value).",
  "all source, target and value triples (full range) and pairs of them", "Comparison claims range over all pairs of triples.",
  ["edge_list/edge_list.hpp", "edge_list/edge_list_descriptor.hpp", "detail/edge_cpo.hpp"], [("source_id/target_id/edge_value CPOs", "detail/edge_cpo.hpp")], **IN)
# ---- views
p("V01", "vertexlist yields every vertex once in order",
  "vertexlist(g), its value-function form, its sub-range forms and the basic_ variants yield exactly the vertices of g (or of the sub-range), once each, in vertex order, with the right id, descriptor and function value; size() equals the number yielded and a second pass yields the same.",
  "all graphs within the bound and all sub-ranges", why_g, ["views/vertexlist.hpp"], [("vertexlist_view::iterator", "views/vertexlist.hpp")], **IC)
p("V02", "incidence and in_incidence yield exactly the edges of a vertex",
  "incidence(g,u) yields each out-edge of u once in edge order with its target id, edge and function value; in_incidence(g,u) yields each in-edge of u once with its source id (over an undirected graph: the other end's id); all variants (basic_, value function, id or descriptor seed) agree and size() is the number yielded.",
  "all graphs and seed vertices within the bound", why_g, ["views/incidence.hpp"], [("incidence_view", "views/incidence.hpp")], **IC)
p("V03", "neighbors and in_neighbors yield exactly the adjacent vertices",
  "neighbors(g,u) yields, for each out-edge of u in order, the target id and the vertex with that id (function value computed on that vertex); in_neighbors(g,u) does so for sources of in-edges (over an undirected graph: the other end); the variants agree and size() is the number yielded.",
  "all graphs and seed vertices within the bound", why_g, ["views/neighbors.hpp"], [("neighbors_view", "views/neighbors.hpp")], **IC)
p("V04", "edgelist yields every edge of the graph once",
  "edgelist(g) and its variants yield, for every vertex in order, each of its edges once with source id, target id, edge and function value, skipping vertices without edges wherever they are; size(), where the view has it, equals the number yielded; edgelist over an edge list yields each element with its ids and value.",
  "all graphs (any placement of empty vertices) and edge lists within the bound", "Skipping runs of empty vertices at the start, middle and end needs all degree patterns.",
  ["views/edgelist.hpp"], [("edgelist_view::advance_to_valid_edge", "views/edgelist.hpp")], **IC)
p("V05", "BFS views visit the reachable vertices in breadth-first order",
  "vertices_bfs and edges_bfs visit every vertex reachable from the seed exactly once, in non-decreasing distance order, each discovered by an edge from an already visited vertex one level closer; depth() reports the deepest level discovered so far and num_visited() the number discovered, the seed not counted; cancel(cancel_all) ends the traversal and cancel(cancel_branch) skips only what is reached solely through the cancelled vertices. With in_edge_accessor the same holds on reversed edges.",
  "all graphs, seeds and cancel points within the bound", "Order and level claims are about every graph shape; cancellation at every point.",
  ["views/bfs.hpp", "views/search_base.hpp", "views/edge_accessor.hpp"], [("vertices_bfs_view/edges_bfs_view iterators", "views/bfs.hpp")], **IC)
p("V06", "DFS views visit the reachable vertices in depth-first order",
  "vertices_dfs and edges_dfs visit every vertex reachable from the seed exactly once, in an order produced by a depth-first search that explores edges in stored order, with depth() the number of vertices on the current path and num_visited() the number discovered, the seed not counted; cancel_all ends the traversal and cancel_branch skips the subtree of the current vertex only. With in_edge_accessor the same holds on reversed edges.",
  "all graphs, seeds and cancel points within the bound", "The pre-order is determined by the whole graph; tests check a few trees and cycles.",
  ["views/dfs.hpp", "views/search_base.hpp"], [("vertices_dfs_view/edges_dfs_view iterators", "views/dfs.hpp")], **IC)
p("V07", "Topological views order every vertex before its successors",
  "On an acyclic graph vertices_topological_sort yields every vertex once with each edge's source before its target, and edges_topological_sort yields every edge once grouped in that order (in_edge_accessor: the reversed order); on a cyclic graph the plain forms still yield every vertex once. The _safe forms return the view exactly when the graph is acyclic and otherwise report a vertex lying on a cycle.",
  "all directed graphs within the bound, cyclic and acyclic", "Cycle detection and order must be right on every digraph.",
  ["views/topological_sort.hpp"], [("topo_state / topological views", "views/topological_sort.hpp")], **IC)
p("V08", "transpose view is the graph with its edges reversed",
  "transpose_view of a bidirectional graph (with random access edge containers; others are a documented limitation) has the same vertices, its edges from v are exactly the edges into v with source and target exchanged, degrees, num_edges and find/contains agree with that, and algorithms run on it give the result for the reversed graph.",
  "all bidirectional graphs within the bound", "A swap error is invisible on symmetric graphs.", ["views/transpose.hpp"], [("transpose_view CPO overloads", "views/transpose.hpp")], **IN)
p("V09", "Pipe adaptors and view copies yield the same sequence as direct calls",
  "For every view, g | adaptor(args) yields the same sequence as calling the view directly, and a copied or moved view, including one with a value function, yields the same sequence as the original, even after the original is destroyed.",
  "all graphs and seeds within the bound, for each view", "Views hold pointers; only running a moved view on arbitrary graphs shows what they point at.",
  ["views/adaptors.hpp", "views/vertexlist.hpp", "views/dfs.hpp", "views/bfs.hpp"], [("adaptor closures", "views/adaptors.hpp")], **IC)
# ---- algorithms
p("P01", "Dijkstra computes exact shortest distances",
  "For every graph with non-negative weights, every source or source set, dijkstra_shortest_paths/_distances sets distances[v] to the minimum total weight over all paths from a source to v, 0 at the sources, and leaves it infinite exactly when v is unreachable.",
  "all weighted graphs within the bound, all non-negative weights up to 2^40, all sources", "Weight ties and orderings that make the queue order matter are combinatorial.",
  ["algorithm/dijkstra_shortest_paths.hpp"], [("dijkstra_shortest_paths relax / queue", "algorithm/dijkstra_shortest_paths.hpp")], **IC)
p("P02", "Dijkstra's predecessors, events and errors are as documented",
  "predecessors form shortest-path trees: pred[v] has an edge to v with dist[pred]+w = dist[v], sources and unreachable vertices are their own predecessors. Visitor events are complete: each reachable vertex other than the sources is discovered once (a source once per occurrence), every discovered vertex is examined, and again whenever its distance has dropped since, every examine has its finish, examine distances never decrease, and each out-edge of an examined vertex is examined and is either relaxed or not relaxed. Invalid sources, undersized arrays and negative weights on reached edges throw std::out_of_range.",
  "all weighted graphs, sources and weights (incl. negative ones) within the bound", "Predecessor consistency must survive every sequence of relaxations.",
  ["algorithm/dijkstra_shortest_paths.hpp", "algorithm/traversal_common.hpp"], [("relax_target, visitor calls", "algorithm/dijkstra_shortest_paths.hpp")], **IC)
p("P03", "Bellman-Ford computes exact shortest distances with negative weights",
  "For every graph without a negative cycle reachable from the sources, bellman_ford_shortest_paths/_distances returns no cycle and sets distances to the exact shortest path weights (0 or less at the sources) with infinity exactly at unreachable vertices; predecessors form shortest-path trees, sources at distance 0 and unreachable vertices being their own predecessors. The guarantees hold for other distance types and for user-supplied compare/combine that keep the order (e.g. a path's heaviest edge), and std::out_of_range is thrown exactly when a result range is too small or a source is not a vertex.",
  "all weighted graphs within the bound, all weights in [-2^40,2^40], all sources", "Unreachable parts, edge order and negative weights interact.",
  ["algorithm/bellman_ford_shortest_paths.hpp"], [("bellman_ford_shortest_paths relax", "algorithm/bellman_ford_shortest_paths.hpp")], **IC)
p("P04", "Bellman-Ford detects exactly the reachable negative cycles",
  "bellman_ford returns a vertex if and only if a negative cycle is reachable from the sources, and find_negative_cycle applied to the result of a predecessor-tracking form terminates and outputs the vertices of a genuine cycle of the predecessor graph with negative weight. on_edge_not_minimized fires if and only if a cycle is reported.",
  "all weighted graphs within the bound with any negative cycles, reachable or not", "Whether the reported vertex lies on the cycle depends on edge order and weights.",
  ["algorithm/bellman_ford_shortest_paths.hpp"], [("cycle check pass, find_negative_cycle", "algorithm/bellman_ford_shortest_paths.hpp")], **IN)
p("P05", "breadth_first_search reports the traversal exactly",
  "breadth_first_search discovers, examines and finishes every vertex reachable from the sources exactly once (and no other), in non-decreasing distance from the sources, and examines every out-edge of each examined vertex exactly once, between that vertex's examine and finish events; every source is initialized once.",
  "all graphs and (distinct) source sets within the bound", why_g, ["algorithm/breadth_first_search.hpp"], [("breadth_first_search", "algorithm/breadth_first_search.hpp")], **IC)
p("P06", "depth_first_search classifies every edge correctly",
  "depth_first_search discovers and finishes every reachable vertex once with properly nested intervals, and classifies every examined out-edge exactly once: tree iff its target was undiscovered, back iff the target is an open ancestor, forward/cross iff it is finished; finish_edge follows for each edge.",
  "all graphs and sources within the bound", "Edge classification depends on complete interval structure.", ["algorithm/depth_first_search.hpp"], [("depth_first_search", "algorithm/depth_first_search.hpp")], **IC)
p("P07", "topological_sort orders DAGs and rejects cycles",
  "topological_sort(g) returns true exactly when g has no directed cycle (self-loops included) and then outputs every vertex once with each edge's source before its target; the source forms do the same for exactly the vertices reachable from the sources, returning false exactly when a cycle is reachable.",
  "all directed graphs and source sets within the bound", "Cycle/no-cycle boundary on every digraph.", ["algorithm/topological_sort.hpp"], [("topological_sort_dfs_visit", "algorithm/topological_sort.hpp")], **IC)
p("P08", "connected_components labels exactly the connected components",
  "On every undirected graph (both directions stored, or undirected_adjacency_list) connected_components gives two vertices the same label exactly when they are connected, labels are 0..k-1, and k is returned.",
  "all undirected graphs within the bound", why_g, ["algorithm/connected_components.hpp"], [("connected_components", "algorithm/connected_components.hpp")], **IC)
p("P09", "kosaraju labels exactly the strongly connected components",
  "On every directed graph kosaraju (both overloads) gives two vertices the same label exactly when each is reachable from the other, and every vertex gets a label.",
  "all directed graphs within the bound", "A wrong finish order mislabels only graphs with particular edge orders.", ["algorithm/connected_components.hpp"], [("kosaraju", "algorithm/connected_components.hpp")], **IC)
p("P10", "afforest labels exactly the connected components",
  "On every undirected graph, for every neighbor_rounds and every random sampling outcome, afforest (both overloads; the one taking the transpose also for a directed graph, ignoring directions) leaves labels equal exactly for connected vertices, also after compress(), and on an empty graph it does nothing.",
  "all undirected graphs, round counts and sampling outcomes within the bound", "The sampled component and skipping rule depend on random choices.", ["algorithm/connected_components.hpp"], [("afforest, link, compress, sample_frequent_element", "algorithm/connected_components.hpp")], **IC)
p("P11", "biconnected_components returns exactly the biconnected components",
  "On every undirected graph the output is exactly the set of vertex sets of maximal biconnected subgraphs: every non-loop edge lies in exactly one component, bridges are 2-vertex components, a vertex without non-loop edges is a single-vertex component; self-loops and parallel edges are handled as documented.",
  "all undirected (multi)graphs within the bound", "Low-link bookkeeping errors need particular cycle structures.", ["algorithm/biconnected_components.hpp"], [("hopcroft_tarjan stack", "algorithm/biconnected_components.hpp")], **IC)
p("P12", "articulation_points outputs exactly the cut vertices",
  "On every undirected graph articulation_points outputs each vertex whose removal increases the number of connected components exactly once, and nothing else.",
  "all undirected (multi)graphs within the bound", "Root rule, parallel edges and low-link updates only show on particular graphs.", ["algorithm/articulation_points.hpp"], [("articulation_points", "algorithm/articulation_points.hpp")], **IC)
p("P13", "kruskal produces a minimum spanning forest",
  "kruskal and inplace_kruskal append to the output an acyclic subset of the input edges connecting everything the input connects, of minimum total weight (maximum with a reversed comparator), and return that weight and the number of components among vertices 0..max id (0 and 0 for an empty input); kruskal leaves its input unchanged, inplace_kruskal permutes it. This holds for every edge list.",
  "all weighted edge lists (incl. empty, single edge, self-loops, parallel edges, negative weights) within the bound", "Minimality ranges over all weights and all alternative trees.", ["algorithm/mst.hpp"], [("kruskal, inplace_kruskal, disjoint_find/union", "algorithm/mst.hpp")], **IN)
p("P14", "prim produces a minimum spanning tree of the seed's component",
  "For every undirected weighted graph prim fills predecessor and weight so that the edges (pred[v],v) form a spanning tree of the seed's component, weight[v] is the weight of such an edge, the total is minimal and is what prim returns; vertices of other components keep their initial state and an invalid seed throws std::out_of_range.",
  "all undirected weighted graphs within the bound, all weights, all seeds", "Minimality ranges over all weights.", ["algorithm/mst.hpp"], [("prim", "algorithm/mst.hpp")], **IC)
p("P15", "maximal_independent_set is independent and maximal",
  "For every undirected graph and seed the output contains no two adjacent vertices and no vertex with a self-loop, every other loop-free vertex has a neighbour in it, the seed is included unless it has a self-loop, no vertex is repeated, and the return value is its size.",
  "all undirected graphs and seeds within the bound", why_g, ["algorithm/mis.hpp"], [("maximal_independent_set", "algorithm/mis.hpp")], **IC)
p("P16", "triangle_count counts each triangle once",
  "On every undirected graph with sorted adjacency lists (self-loops allowed) triangle_count returns the number of 3-vertex cliques.",
  "all undirected simple graphs with self-loops within the bound", why_g, ["algorithm/tc.hpp"], [("triangle_count merge", "algorithm/tc.hpp")], **IC)
p("P17", "jaccard_coefficient reports |N(u)&N(v)|/|N(u)|N(v)| for every edge",
  "jaccard_coefficient calls the callback exactly once for every stored non-loop directed edge with its endpoints, that edge and the ratio of common to total neighbours of its endpoints (self-loops excluded from neighbour sets).",
  "all graphs within the bound", why_g, ["algorithm/jaccard.hpp"], [("jaccard_coefficient", "algorithm/jaccard.hpp")], **IC)
p("P18", "label_propagation only ever adopts a majority label",
  "For every graph, initial labelling and random outcome each label written is a most frequent label among the vertex's (labelled) neighbours at that time; when it stops before the iteration limit every vertex with labelled neighbours holds a most frequent neighbour label; labels never appear that were not there initially; the empty label never spreads; at most max_iters sweeps are made.",
  "all graphs, labellings, iteration limits and random outcomes within the bound", "Randomised order and tie-breaks: every outcome must satisfy it.", ["algorithm/label_propagation.hpp"], [("label_propagation", "algorithm/label_propagation.hpp")], **IC)
p("S01", "Algorithms and views leave the graph unchanged",
  "Running any algorithm or iterating any view on a graph leaves its vertices, edges, their order and all values as they were, and leaks no memory.",
  "all graphs within the bound, each algorithm and view", "Needs full before/after comparison on arbitrary graphs.", ["algorithm/dijkstra_shortest_paths.hpp", "algorithm/connected_components.hpp", "algorithm/mst.hpp", "views/bfs.hpp", "views/dfs.hpp"], [("all algorithms", "algorithms.hpp")], **IC)
p("S02", "Algorithms give the same answer on every container",
  "An algorithm whose result is determined by the graph (distances, reachability, component partition, biconnected components, cut vertices, triangle count, total weight of prim's tree, DAG or not) gives the same result whichever index container holds the graph: compressed_graph, each dynamic_graph combination (set-like edge containers where there are no parallel edges), undirected_adjacency_list or standard containers.",
  "all graphs within the bound, every container checked", "Differential over all graphs; tests fix the graph per container.", ["algorithm/dijkstra_shortest_paths.hpp", "algorithm/breadth_first_search.hpp", "container/dynamic_graph.hpp", "container/compressed_graph.hpp"], [("CPO dispatch per container", "adj_list/detail/graph_cpo.hpp")], **IC)
for x in P: assert len(x["title"]) <= 80, x["title"]
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
