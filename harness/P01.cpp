// @run quick NV=4 NE=4 GT=vov MODE=0
// @run quick NV=3 NE=4 GT=csr MODE=1
// @run quick NV=3 NE=3 GT=vofl MODE=2
// @run quick NV=4 NE=5 GT=csr MODE=0
// @run quick NV=5 NE=0 FAM=1 FW=5 GT=vov MODE=0
// @run quick NV=3 NE=2 GT=csr MODE=0 WHI=0x2aaaaaaaaaaaaaaall
// @run quick NV=2 NE=3 GT=vov MODE=1 WHI=0x3fffffffffffffffll
// @run quick NV=3 NE=4 GT=vov MODE=3
// @run quick NV=3 NE=3 GT=vol MODE=4
// @run quick NV=3 NE=3 GT=vov MODE=0 DT=uint32_t WHI=0x0fffffff
// @run quick NV=3 NE=3 GT=csr MODE=1 DT=int32_t WHI=0x0fffffff
// @run quick NV=3 NE=2 GT=vov MODE=2 DT=uint64_t WHI=0x3fffffffffffffffll
// @run quick NV=3 NE=3 GT=dol MODE=0 DT=double PICKW
// @run quick NV=3 NE=3 GT=vov MODE=0 IDT=int32_t
// @run quick NV=3 NE=3 GT=csr MODE=0 IDT=uint16_t
// @run quick NV=3 NE=3 GT=vol MODE=0 IDT=uint8_t
// @run quick NV=16 NE=0 NMAX=16 FAM=0 FW=1 GT=vov MODE=0
// @run thorough NV=5 NE=0 FAM=1 FW=6 GT=vov MODE=1
// @run thorough NV=5 NE=0 FAM=2 FW=3 GT=vol MODE=0
// @run thorough NV=4 NE=4 GT=csr MODE=1
// @run thorough NV=4 NE=4 GT=vv MODE=2
// @run thorough NV=3 NE=5 GT=vol MODE=0
// @bounds NV vertices, at most NE directed edges (self-loops, parallel edges allowed; adjacency order arbitrary), weights symbolic in [0,2^40] (WHI: in [0,WHI], so that distances come close to the largest one); MODE 0 one source (symbolic id), 1 two sources, 2 distances-only entry point, 3 default weights (1 each), all four forms, 4 a path weighing as much as its heaviest edge (combine is the maximum), all four forms; DT: the type of the distances (PICKW: weights 0, 1 and 2 only). FAM: larger base shapes plus FAM arbitrary edges, FW symbolic weights
// @covers relaxed unreachable tie_free
#ifndef DT
#define DT int64_t
#endif
#include "gen.hpp"
#include <graph/algorithm/dijkstra_shortest_paths.hpp>
using namespace graph;
template <class T> static T plus_(T a, T b) { if constexpr (std::is_integral_v<T>) return (T)((std::make_unsigned_t<T>)a + (std::make_unsigned_t<T>)b); else return a + b; }
extern "C" void harness_main() {
  Digraph d(true);
#ifdef PICKW
  for (size_t i = 0; i < d.m; ++i) { sym_assume(d.e[i].w <= 2); d.e[i].w = (int64_t)sym_pick((uint64_t)d.e[i].w); }
#endif
  GRAPH<int64_t> g; fill(g, d.n, d.e, d.m);
  std::vector<DT> dist(NV); std::vector<Id> pred(NV);
  auto wf = [](const auto& g, const auto& uv) { return (DT)edge_value(g, uv); };
  Id s0 = (Id)pick_u("source", 0, NV - 1), s1 = s0;
#if MODE == 0
  init_shortest_paths(dist, pred);
  dijkstra_shortest_paths(g, s0, dist, pred, wf);
#elif MODE == 1
  s1 = (Id)pick_u("source2", 0, NV - 1);
  std::vector<Id> src{s0, s1};
  init_shortest_paths(dist, pred);
  dijkstra_shortest_paths(g, src, dist, pred, wf);
#elif MODE == 2
  init_shortest_paths(dist);
  dijkstra_shortest_distances(g, s0, dist, wf);
#else // 3: every edge weighs 1 (the default); 4: the weight of a path is that of its heaviest edge
  int form = (int)pick_u("form", 0, 3);
  if (form & 1) s1 = (Id)pick_u("source2", 0, NV - 1);
  std::vector<Id> src{s0, s1};
  init_shortest_paths(dist, pred);
#if MODE == 3
  for (size_t i = 0; i < d.m; ++i) d.e[i].w = 1;
  if (form == 0) dijkstra_shortest_paths(g, s0, dist, pred);
  if (form == 1) dijkstra_shortest_paths(g, src, dist, pred);
  if (form == 2) dijkstra_shortest_distances(g, s0, dist);
  if (form == 3) dijkstra_shortest_distances(g, src, dist);
#else
  auto heavier = [](DT a, DT b) { return a < b ? b : a; };
  if (form == 0) dijkstra_shortest_paths(g, s0, dist, pred, wf, empty_visitor(), std::less<DT>(), heavier);
  if (form == 1) dijkstra_shortest_paths(g, src, dist, pred, wf, empty_visitor(), std::less<DT>(), heavier);
  if (form == 2) dijkstra_shortest_distances(g, s0, dist, wf, empty_visitor(), std::less<DT>(), heavier);
  if (form == 3) dijkstra_shortest_distances(g, src, dist, wf, empty_visitor(), std::less<DT>(), heavier);
#endif
#endif
  const DT INF = std::numeric_limits<DT>::max();
  DT x[NV];
  for (Id i = 0; i < NV; i++) x[i] = (i == s0 || i == s1) ? 0 : INF;
  for (int k = 0; k < NV - 1; k++)
    for (size_t i = 0; i < d.m; i++) {
      DT f = x[d.e[i].s], w = (DT)d.e[i].w;
#if MODE == 4
      DT c = f == INF ? INF : f < w ? w : f;
#else
      DT c = f == INF ? INF : plus_(f, w);
#endif
      x[d.e[i].t] = c < x[d.e[i].t] ? c : x[d.e[i].t];
    }
  for (Id i = 0; i < NV; i++) {
    CHECK(dist[i] == x[i], "distance is the shortest path weight");
    sym_observe("d", dist[i] == INF ? -1 : (int64_t)dist[i]);
    if (dist[i] == INF) sym_cover("unreachable");
    else if (i != s0 && i != s1) sym_cover("relaxed");
  }
  sym_cover("tie_free");
}
