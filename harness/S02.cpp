// @run quick NV=3 NE=3 GT=vov GROUP=0
// @run quick NV=3 NE=2 GT=vol GROUP=0
// @run quick NV=3 NE=2 GT=vofl GROUP=0
// @run quick NV=3 NE=3 GT=dod GROUP=0
// @run quick NV=3 NE=3 GT=vos GROUP=0
// @run quick NV=3 NE=3 GT=vous GROUP=0
// @run quick NV=3 NE=3 GT=vom GROUP=0
// @run quick NV=3 NE=3 GT=vv GROUP=0
// @run quick NV=3 NE=3 GT=vi GROUP=0
// @run quick NV=3 NE=3 GT=bvov GROUP=0
// @run quick NV=4 NE=4 GT=vov GROUP=1
// @run quick NV=4 NE=4 GT=ual GROUP=1
// @run quick NV=4 NE=4 GT=vofl GROUP=1
// @run quick NV=4 NE=4 GT=dos GROUP=1
// @run quick NV=4 NE=3 GT=vous GROUP=1
// @run quick NV=4 NE=3 GT=bdov GROUP=1
// @run quick NV=6 NE=0 FAM=1 GT=vol GROUP=0
// @run quick NV=5 NE=0 FAM=1 GT=ual GROUP=1
// @run thorough NV=3 NE=4 GT=vol GROUP=0
// @run thorough NV=4 NE=4 GT=dov GROUP=0
// @run thorough NV=4 NE=4 GT=vom GROUP=0
// @run thorough NV=4 NE=5 GT=ual GROUP=1
// @run thorough NV=4 NE=5 GT=dol GROUP=1
// @run thorough NV=5 NE=5 GT=vov GROUP=1
// @run thorough NV=7 NE=0 FAM=1 GT=vom GROUP=1
// @run thorough NV=6 NE=0 FAM=1 GT=ual GROUP=1
// @bounds the container GT against compressed_graph holding the same edges: GROUP=0 every directed graph of at most NE edges over NV vertices (parallel edges unless the container is set-like, self-loops), every source: dijkstra and bellman_ford distances (symbolic weights), vertices reached by breadth- and depth-first search, whether topological_sort finds an order; GROUP=1 every undirected graph of at most NE edges: component partitions of connected_components and afforest, number and sizes of biconnected components, cut vertices, triangles (sorted adjacency), total weight of prim's tree. FAM: larger base shapes
// @covers ran
#include "algos.hpp"
using namespace graph;
using G = GRAPH<int64_t>;
using R = G_csr<int64_t>;
static auto unit = [](const auto& g, const auto& uv) -> int64_t { if constexpr (has_edge_values<G>()) return weight(g, uv); else return 1; };
extern "C" void harness_main() {
  constexpr bool keyed = order_kind<G>() >= 2;
  R r; G g;
#if GROUP == 0
  Digraph d(true);
  if (keyed) for (size_t i = 0; i < d.m; ++i) for (size_t j = 0; j < i; ++j) if (d.e[i].s == d.e[j].s) sym_assume(d.e[i].t != d.e[j].t);
  fill<R, int64_t>(r, NV, d.e, d.m); fill<G, int64_t>(g, NV, d.e, d.m);
  int k = (int)pick_u("algorithm", 0, NDIRECTED - 1);
#else
  Ugraph u(true, true, !keyed);
  static Edge a[2 * Ugraph::CAP], b[2 * Ugraph::CAP];
  int k = (int)pick_u("algorithm", CC, NDETERMINED - 1);
  if (k == TRI || k == PRIM) for (size_t i = 0; i < u.m; ++i) sym_assume(u.a[i] != u.b[i]);
  size_t ka = u.arcs<R>(a), kb = u.arcs<G>(b);
  if (k == TRI) { // documented precondition: adjacency in ascending order, no parallel edges
    if (is_ual<G> || order_kind<G>() == 1 || order_kind<G>() == 3) return;
    auto sort = [](Edge* e, size_t n) { for (size_t i = 1; i < n; ++i) for (size_t j = i; j > 0 && (e[j].s < e[j - 1].s || (e[j].s == e[j - 1].s && e[j].t < e[j - 1].t)); --j) std::swap(e[j], e[j - 1]); };
    sort(a, ka); sort(b, kb);
    for (size_t i = 1; i < ka; ++i) sym_assume(a[i].s != a[i - 1].s || a[i].t != a[i - 1].t);
  }
  fill<R, int64_t>(r, NV, a, ka); fill<G, int64_t>(g, NV, b, kb);
#endif
  Id s = (Id)pick_u("source", 0, NV - 1);
  Out x, y;
  algo(r, k, s, unit, x); algo(g, k, s, unit, y);
  same_out(x, y, "the same result on both containers"); sym_cover("ran");
}
