// @run quick NV=4 NE=6 GT=vov LAZY
// @run quick NV=4 NE=4 GT=csr
// @run quick NV=4 NE=4 GT=ual
// @run quick NV=4 NE=4 GT=vi
// @run quick NV=4 NE=4 GT=dous
// @run quick NV=7 NE=0 FAM=2 GT=vofl
// @run quick NV=3 NE=3 GT=vov LAZY IDT=int32_t
// @run quick NV=3 NE=3 GT=csr IDT=uint8_t
// @run quick NV=3 NE=3 GT=ual IDT=int64_t
// @run quick NV=12 NE=0 NMAX=12 FAM=1 GT=vov
// @run thorough NV=5 NE=8 GT=vov LAZY
// @run thorough NV=6 NE=6 GT=csr
// @run thorough NV=5 NE=6 GT=ual
// @run thorough NV=8 NE=0 FAM=3 GT=vol
// @bounds NV vertices; LAZY: at most NE arcs, symmetric, any adjacency order, symbolic targets; otherwise at most NE undirected edges (self-loops, parallel edges) in canonical order; every seed; FAM: larger base shapes plus FAM edges
// @covers in out loop
#include "oracle.hpp"
#include <graph/algorithm/mis.hpp>
using namespace graph;
using G = GRAPH<int64_t>;
extern "C" void harness_main() {
  Und<G> u(true, true);
  G g; fill(g, u.n, u.e, u.m);
  Id seed = (Id)pick_u("seed", 0, NV - 1);
  std::vector<Id> out;
  size_t k = seed == 0 && pick_u("default seed", 0, 1) ? maximal_independent_set(g, std::back_inserter(out)) : maximal_independent_set(g, std::back_inserter(out), seed);
  CHECK(k == out.size(), "the size of the set is returned");
  Mask s = 0;
  for (Id v : out) { CHECK(v < NV && !(s >> v & 1), "no vertex is output twice"); s |= Mask(1) << v; sym_observe("v", v); }
  for (Id v = 0; v < NV; ++v) {
    uint64_t loop = u.rel.r[v] >> v & 1;
    if (s >> v & 1) { CHECK((u.rel.r[v] & s) == 0, "no two vertices of the set are adjacent and none has a self-loop"); sym_cover("in"); }
    else { CHECK(loop | ((u.rel.r[v] & s) != 0), "a vertex outside the set has a neighbour in it or a self-loop"); sym_cover("out"); if (loop) sym_cover("loop"); }
  }
  CHECK((s >> seed & 1) | (u.rel.r[seed] >> seed & 1), "the seed is in the set unless it has a self-loop");
}
