// @run quick NV=3 NE=4 GT=vov MODE=0 LAZY
// @run quick NV=4 NE=5 GT=vov MODE=0 LAZY
// @run quick NV=4 NE=6 GT=vov MODE=0 LAZY
// @run quick NV=4 NE=4 GT=vov MODE=0
// @run quick NV=3 NE=5 GT=csr MODE=0
// @run quick NV=4 NE=3 GT=vol MODE=1
// @run quick NV=3 NE=4 GT=dofl MODE=2
// @run quick NV=4 NE=4 GT=vi MODE=1
// @run quick NV=3 NE=4 GT=vous MODE=2
// @run quick NV=7 NE=0 FAM=1 GT=vov MODE=0
// @run quick NV=6 NE=0 FAM=1 GT=csr MODE=2
// @run quick NV=3 NE=3 GT=vov MODE=0 LAZY IDT=int32_t
// @run quick NV=3 NE=3 GT=csr MODE=0 IDT=uint8_t
// @run quick NV=3 NE=3 GT=dofl MODE=2 IDT=int64_t
// @run quick NV=20 NE=0 NMAX=20 FAM=0 GT=vov MODE=0
// @run quick NV=14 NE=0 NMAX=14 FAM=1 GT=vol MODE=0
// @run thorough NV=4 NE=6 GT=vov MODE=0
// @run thorough NV=5 NE=5 GT=csr MODE=1
// @run thorough NV=4 NE=5 GT=vofl MODE=2
// @run thorough NV=8 NE=0 FAM=2 GT=dov MODE=0
// @bounds NV vertices, at most NE directed edges (self-loops and parallel edges, any adjacency order); FAM: larger base shapes plus FAM arbitrary edges; MODE 0 all vertices, 1 one source, 2 two sources (any order, may be equal)
// @assume source ids are valid vertex ids
// @covers dag cyclic
#include "oracle.hpp"
#include <graph/algorithm/topological_sort.hpp>
using namespace graph;
extern "C" void harness_main() {
  Digraph d(true);
  GRAPH<int64_t> g; fill(g, d.n, d.e, d.m);
  std::vector<Id> out;
  bool r; Mask from = 0;
#if MODE == 0
  from = (Mask(1) << NV) - 1;
  r = topological_sort(g, std::back_inserter(out));
#else
  std::vector<Id> s;
  for (int i = 0; i < MODE; ++i) { s.push_back((Id)pick_u("source", 0, NV - 1)); from |= Mask(1) << s[i]; }
#if MODE == 1
  r = topological_sort(g, s[0], std::back_inserter(out));
#else
  r = topological_sort(g, s, std::back_inserter(out));
#endif
#endif
  Rel a = rel_of(d.e, d.m, d.n), c = closure(a, false);
  Mask in = ball(a, from, NV); bool cyc = false;
  for (Id u = 0; u < NV; ++u) cyc |= ((in >> u) & 1) && c.has(u, u);
  CHECK(r == !cyc, "true is returned exactly when no cycle is reachable");
  if (!r) { CHECK(out.empty(), "nothing is output when there is a cycle"); sym_cover("cyclic"); return; }
  sym_cover("dag");
  size_t pos[NV] = {}; Mask seen = 0;
  for (size_t i = 0; i < out.size(); ++i) {
    CHECK(out[i] < NV && !((seen >> out[i]) & 1), "no vertex is output twice"); seen |= Mask(1) << out[i]; pos[out[i]] = i; sym_observe("o", out[i]);
  }
  CHECK(seen == in, "exactly the reachable vertices are output");
  for (size_t i = 0; i < d.m; ++i) if ((in >> d.e[i].s) & 1) CHECK(pos[d.e[i].s] < pos[d.e[i].t], "each edge's source comes before its target");
}
