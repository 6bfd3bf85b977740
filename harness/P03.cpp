// @run quick NV=3 NE=3 GT=vov MODE=0
// @run quick NV=3 NE=3 GT=csr MODE=1
// @run quick NV=3 NE=3 GT=vol MODE=2
// @run quick NV=3 NE=4 GT=vofl MODE=0 PICKW
// @run quick NV=5 NE=0 FAM=1 FW=2 GT=dov MODE=0
// @run quick NV=2 NE=2 GT=vov MODE=0 WLO=-0x1555555555555555ll WHI=0x1555555555555555ll
// @run quick NV=3 NE=4 GT=csr MODE=3
// @run quick NV=3 NE=3 GT=dol MODE=4
// @run quick NV=2 NE=2 GT=vov MODE=5
// @run quick NV=3 NE=2 GT=csr MODE=1 DT=int32_t WLO=-0x0fffffff WHI=0x0fffffff
// @run quick NV=2 NE=2 GT=vov MODE=0 DT=double PICKW
// @run quick NV=3 NE=3 GT=vov MODE=0 IDT=int32_t
// @run quick NV=3 NE=3 GT=csr MODE=1 IDT=uint8_t
// @run quick NV=3 NE=3 GT=dol MODE=4 IDT=int64_t
// @run quick NV=18 NE=0 NMAX=18 FAM=0 FW=1 GT=vov MODE=0
// @run thorough NV=3 NE=4 GT=vov MODE=0
// @run thorough NV=4 NE=3 GT=csr MODE=1
// @run thorough NV=3 NE=4 GT=vv MODE=2
// @run thorough NV=6 NE=0 FAM=2 FW=2 GT=vov MODE=0
// @bounds NV vertices, at most NE directed edges (self-loops, parallel edges, any adjacency order), weights symbolic in [-2^40,2^40] (PICKW: in {-1,0,1}; WLO, WHI: in [WLO,WHI]); FAM: larger base shapes plus FAM arbitrary edges; MODE 0 one source with visitor, 1 two sources, 2 the two distances-only forms, 3 default weights (1 each), all four forms, 4 a path weighing as much as its heaviest edge (combine is the maximum), all four forms, 5 argument errors; DT: the type of the distances
// @assume predecessors and distances initialised by init_shortest_paths as documented
// @covers exact unreachable
#ifndef WLO
#define WLO (-(1ll << 40))
#endif
#include "bf.hpp"
// Certificate: tight paths from a source show that no distance is too small, and no edge being improvable that none is too large
// (and that there is no reachable negative cycle).
#if MODE == 5
extern "C" void harness_main() { // arguments that don't fit the graph
  Digraph d(true);
  G g; fill(g, d.n, d.e, d.m);
  auto wf = [](const auto& g, const auto& uv) { return edge_value(g, uv); };
  size_t nd = pick_u("distances size", NV - 1, NV + 1), np = pick_u("predecessor size", NV - 1, NV + 1);
  Id s = (Id)pick_u("source", 0, NV + 1), t = (Id)pick_u("source2", 0, NV);
  int form = (int)pick_u("form", 0, 3);
  std::vector<int64_t> dist(nd); std::vector<Id> pred(np), srcs{t, s};
  init_shortest_paths(dist, pred);
  bool threw = false;
  try {
    if (form == 0) (void)bellman_ford_shortest_paths(g, s, dist, pred, wf);
    else if (form == 1) (void)bellman_ford_shortest_paths(g, srcs, dist, pred, wf);
    else if (form == 2) (void)bellman_ford_shortest_distances(g, s, dist, wf);
    else (void)bellman_ford_shortest_distances(g, srcs, dist, wf);
  } catch (const std::out_of_range&) { threw = true; }
  CHECK(threw == (nd < NV || (form < 2 && np < NV) || s >= NV || (form % 2 == 1 && t >= NV)), "out_of_range is thrown exactly when a range is too small or a source isn't a vertex");
  sym_cover("exact"); sym_cover("unreachable");
}
#else
extern "C" void harness_main() {
  BF x;
  if (x.result) { CHECK(x.negative(), "no cycle is reported when no negative cycle is reachable"); return; }
  bool att[NV];
  for (Id v = 0; v < NV; ++v) {
    CHECK((x.dist[v] != INF) == x.reach(v), "the distance is infinite exactly when the vertex is unreachable");
    att[v] = (v == x.s0 || v == x.s1) && x.dist[v] == 0;
    if (v == x.s0 || v == x.s1) CHECK(x.dist[v] <= 0, "a source has distance 0 or less");
    sym_observe("d", x.dist[v] == INF ? -1 : (int64_t)x.dist[v]);
    if (x.dist[v] == INF) sym_cover("unreachable"); else sym_cover("exact");
  }
  for (size_t i = 0; i < x.d.m; ++i) if (x.reach(x.d.e[i].s)) CHECK(x.dist[x.d.e[i].t] <= along(x.dist[x.d.e[i].s], x.d.e[i].w), "no distance can be improved by an edge");
  for (int k = 0; k < NV; ++k)
    for (size_t i = 0; i < x.d.m; ++i) if (x.reach(x.d.e[i].s)) att[x.d.e[i].t] |= att[x.d.e[i].s] & (along(x.dist[x.d.e[i].s], x.d.e[i].w) == x.dist[x.d.e[i].t]);
  for (Id v = 0; v < NV; ++v) {
    if (!x.reach(v)) continue;
    CHECK(att[v], "every finite distance is the weight of a path from a source");
  }
  if (x.paths)
  for (Id v = 0; v < NV; ++v) {
    if (!x.reach(v)) { CHECK(x.pred[v] == v, "unreachable vertices are their own predecessors"); continue; }
    Id p = x.pred[v];
    if (p == v) { CHECK((v == x.s0 || v == x.s1) && x.dist[v] == 0, "a reached vertex that is its own predecessor is a source at distance 0"); continue; }
    bool ok = false;
    for (size_t i = 0; i < x.d.m; ++i) if (x.d.e[i].s == p && x.d.e[i].t == v) ok |= along(x.dist[p], x.d.e[i].w) == x.dist[v];
    CHECK(ok, "the predecessor has an edge to the vertex that gives its distance");
    Id y = v; for (int k = 0; k < NV && y != x.pred[y]; ++k) y = x.pred[y];
    CHECK(y == x.s0 || y == x.s1, "following predecessors leads to a source");
  }
#if MODE == 0
  CHECK(x.log.notmin == 0, "on_edge_not_minimized does not fire without a cycle");
#endif
}
#endif
