// @run quick NV=3 NE=3 GT=vov MODE=0
// @run quick NV=3 NE=3 GT=csr MODE=1
// @run quick NV=3 NE=3 GT=vofl MODE=2
// @run quick NV=3 NE=4 GT=vov MODE=1 PICKW
// @run quick NV=5 NE=0 FAM=1 FW=2 GT=dov MODE=0
// @run quick NV=2 NE=2 GT=vov MODE=0 WLO=-0x1555555555555555ll WHI=0x1555555555555555ll
// @run quick NV=3 NE=3 GT=vov MODE=0 IDT=int32_t
// @run quick NV=3 NE=3 GT=csr MODE=1 IDT=uint8_t
// @run thorough NV=3 NE=4 GT=vov MODE=0
// @run thorough NV=4 NE=4 GT=vov MODE=0 PICKW
// @run thorough NV=4 NE=3 GT=csr MODE=1
// @run thorough NV=3 NE=4 GT=vv MODE=2
// @run thorough NV=6 NE=0 FAM=2 FW=2 GT=vov MODE=0
// @bounds NV vertices, at most NE directed edges (self-loops, parallel edges, any adjacency order), weights symbolic in [-2^40,2^40] (PICKW: in {-1,0,1}; WLO, WHI: in [WLO,WHI]); FAM: larger base shapes plus FAM arbitrary edges; MODE 0 one source with visitor, 1 two sources, 2 the two distances-only forms (no cycle extraction); both outcomes of cycle detection, argument errors
// @covers cycle nocycle
#ifndef WLO
#define WLO (-(1ll << 40))
#endif
#include "bf.hpp"
struct Out { // output iterator that can't be written more often than there are vertices
  using iterator_category = std::output_iterator_tag; using difference_type = std::ptrdiff_t; using value_type = void; using pointer = void; using reference = void;
  Id* a; size_t* n;
  Out& operator*() { return *this; }
  Out& operator=(Id v) { CHECK(*n < NV, "the reported cycle has at most |V| vertices"); a[(*n)++] = v; return *this; }
  Out& operator++() { return *this; }
  Out& operator++(int) { return *this; }
};
extern "C" void harness_main() {
  BF x;
#if MODE == 0
  CHECK(x.log.notmin == (x.result ? 1 : 0), "on_edge_not_minimized fires exactly when a cycle is reported");
#endif
  if (!x.result) { // no edge can be improved: the distances are a potential that makes every reachable cycle non-negative
    for (Id v = 0; v < NV; ++v) if (x.reach(v)) CHECK(x.dist[v] != INF, "every reachable vertex was reached");
    for (size_t i = 0; i < x.d.m; ++i) if (x.reach(x.d.e[i].s)) CHECK(x.dist[x.d.e[i].t] <= x.dist[x.d.e[i].s] + x.d.e[i].w, "without a reported cycle no reachable cycle is negative");
    sym_cover("nocycle");
  } else {
    CHECK(x.negative(), "a vertex is returned only if a negative cycle is reachable");
    CHECK(x.reach(*x.result), "the returned vertex is reachable");
    sym_cover("cycle");
  }
#if MODE != 2
  Id cyc[NV]; size_t k = 0;
  find_negative_cycle(x.g, x.pred, x.result, Out{cyc, &k});
  CHECK((k > 0) == x.result.has_value(), "vertices are output exactly when there is a cycle");
  if (x.result) {
    CHECK(cyc[0] == *x.result, "the cycle starts at the returned vertex");
    int64_t sum = 0; Mask seen = 0;
    for (size_t i = 0; i < k; ++i) {
      CHECK(!((seen >> cyc[i]) & 1), "no vertex is repeated"); seen |= Mask(1) << cyc[i];
      Id to = cyc[i], from = cyc[(i + 1) % k]; // predecessor order
      int64_t w = 0; bool any = false;
      for (size_t j = 0; j < x.d.m; ++j) if (x.d.e[j].s == from && x.d.e[j].t == to) { w = any ? (x.d.e[j].w < w ? x.d.e[j].w : w) : x.d.e[j].w; any = true; }
      CHECK(any, "consecutive vertices of the cycle are joined by an edge");
      sum += w;
    }
    CHECK(sum < 0, "the cycle has negative weight");
  }
#endif
}
