#!/usr/bin/env python3
"""Writes known_findings.jsonl: repaired defects (fixed) and recorded ones (open)."""
import json, subprocess
log = {l.split(' ', 1)[1]: l.split(' ', 1)[0] for l in subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s'], capture_output=True, text=True).stdout.splitlines()}
def h(prefix):
    m = [v for k, v in log.items() if k.startswith('fix: ' + prefix)]
    assert len(m) == 1, (prefix, m)
    return m[0]
F = [
 ('C01', "compressed_graph load_edges keeps the requested", "load_edges with a vertex count above the largest id dropped the extra vertices; load_edges after load_vertices was refused/garbled"),
 ('C02', "compressed_graph load_vertices adds", "load_vertices without edges left row_index_ empty: the loaded vertices were not vertices of the graph"),
 ('C02', "compressed_graph's last partition ends", "the last partition's end was the number of edges/ids given rather than the vertex count"),
 ('P13', "kruskal finds the maximum vertex id", "kruskal took the vertex count from comparisons made during the sort: single edge lists gave out-of-bounds access"),
 ('P14', "prim extracts the best edge", "prim's heap order was reversed and it rewrote vertices already in the tree: the result was not a minimum spanning tree"),
 ('P03', "bellman_ford doesn't relax edges out of unreached", "edges out of unreached vertices were relaxed (infinity + negative weight), giving finite distances to unreachable vertices and overflow"),
 ('P04', "bellman_ford returns a vertex on the negative cycle", "the returned vertex need not be on a cycle of the predecessor graph: find_negative_cycle looped forever or ran off"),
 ('P09', "kosaraju computes finish times", "kosaraju used BFS order instead of DFS finish times and merged different strong components"),
 ('P10', "afforest on an empty graph", "afforest on an empty graph sampled from an empty range (division by zero/out-of-bounds)"),
 ('P11', "biconnected_components reports a vertex", "a vertex whose only edges are self-loops was in no component"),
 ('C07', "undirected_adjacency_list copies edges", "copying an undirected_adjacency_list lost edges created with source id above target id"),
 ('C06', "undirected_adjacency_list erase_edge", "graph-level erase_edge left the edge in a vertex list (use after free); graph-level edges() did not compile"),
 ('C06', "undirected_adjacency_list links a self-loop", "a self-loop was linked twice through the same hook: iteration never ended or erase corrupted the list"),
 ('C07', "moving an undirected_adjacency_list", "move assignment leaked the replaced edges; a moved-from graph still claimed its edges (double free)"),
 ('A01', "compressed_graph's edges and num_edges friends", "edges(g,uid) and num_edges(g,uid) did not compile on compressed_graph (the descriptor friends were chosen for ids), so neither did connected_components, afforest and others"),
 ('P15', "maximal_independent_set never contains", "a vertex with a self-loop other than the seed was put into the set although such vertices are documented as excluded"),
 ('P12', "compressed_graph's target_id and edge_value friends", "articulation_points did not compile on compressed_graph: target_id(g, element of a view) chose the descriptor friend"),
 ('C01', "compressed_graph's edge_value doesn't truncate", "edge_value(g,uv) cast the edge id to the vertex id type: with small id types a wrong edge's value was returned"),
 ('C02', "compressed_graph reports the number of vertices", "num_vertices(g,pid) returned the partition's first id / wrong difference instead of the partition's size"),
 ('C02', "compressed_graph's last partition includes", "vertices added by load_vertices after the partitions were set were in no partition"),
 ('C02', "compressed_graph loads vertex values", "load_vertices from a forward range without size() did not size the value vector: out-of-bounds write"),
 ('A02', "source of an in-edge is its source", "source(g,uv) of an in-edge returned the vertex that owns the in-edge (its target) instead of its source"),
 ('V02', "the neighbour over an undirected graph", "in_incidence, in_neighbors and searches over incoming edges of an undirected_adjacency_list yielded the vertex itself as its neighbour"),
 ('V04', "edgelist_view::size() is the number", "size() of an edgelist was num_edges(g), half of what an undirected graph yields and more than a set-like edge container yields"),
 ('V05', "edges_bfs skips every cancelled branch", "cancel_branch on a second edge of edges_bfs before the first edge's target was dequeued forgot the first: its branch was explored"),
 ('C05', "source_id of an in-edge finds", "source_id of an in-edge returned the owning vertex's id for bidirectional graphs with map vertices and random access in-edge containers"),
 ('V08', "num_edges of a transposed vertex", "num_edges(tv,v) counted the underlying out-edges instead of the reversed edges"),
]
OPEN = json.load(open('tools/open_findings.json')) if __import__('os').path.exists('tools/open_findings.json') else []
with open('known_findings.jsonl', 'w') as o:
    for p, c, w in F:
        c = h(c)
        o.write(json.dumps({"property": p, "status": "fixed", "commit": c, "what": w, "line": "fixed: property=%s %s %s" % (p, c, w)}) + "\n")
    for k in OPEN: o.write(json.dumps(dict(k, status="open")) + "\n")
