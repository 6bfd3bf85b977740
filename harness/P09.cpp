// @run quick NV=4 NE=4 GT=vov MODE=0 LAZY
// @run quick NV=3 NE=5 GT=csr MODE=0
// @run quick NV=3 NE=4 GT=bvov MODE=1
// @run quick NV=4 NE=4 GT=bvol MODE=1
// @run quick NV=4 NE=4 GT=vofl MODE=0
// @run quick NV=6 NE=0 FAM=2 GT=vov MODE=0
// @run quick NV=6 NE=0 FAM=2 GT=bdov MODE=1
// @run quick NV=3 NE=3 GT=vov MODE=0 LAZY IDT=int32_t
// @run quick NV=3 NE=3 GT=csr MODE=0 IDT=uint8_t
// @run quick NV=3 NE=3 GT=bvov MODE=1 IDT=int64_t
// @run quick NV=3 NE=3 GT=bvom MODE=1
// @run quick NV=20 NE=0 NMAX=20 FAM=0 GT=vov MODE=0
// @run quick NV=14 NE=0 NMAX=14 FAM=1 GT=csr MODE=0
// @run quick NV=14 NE=0 NMAX=14 FAM=1 GT=bvov MODE=1
// @run thorough NV=4 NE=6 GT=vov MODE=0 LAZY
// @run thorough NV=4 NE=5 GT=csr MODE=0
// @run thorough NV=4 NE=6 GT=bvov MODE=1
// @run thorough NV=8 NE=0 FAM=2 GT=vov MODE=0
// @run thorough NV=7 NE=0 FAM=2 GT=bvov MODE=1
// @bounds NV vertices, at most NE directed edges (self-loops and parallel edges, any adjacency order; LAZY: targets symbolic); FAM: larger base shapes plus FAM arbitrary edges; MODE 0 graph and transpose, 1 bidirectional graph
// @covers joined apart
#include "oracle.hpp"
#include <graph/algorithm/connected_components.hpp>
using namespace graph;
extern "C" void harness_main() {
  Digraph d(true);
  std::vector<uint32_t> comp(NV, 77);
#if MODE == 0
  using G = GRAPH<int64_t>;
  G g; fill(g, d.n, d.e, d.m);
  Edge r[sizeof(d.e) / sizeof(Edge)]; size_t k = 0;
  for (Id v = 0; v < NV; ++v) for (size_t i = 0; i < d.m; ++i) if (d.e[i].t == v) r[k++] = {v, d.e[i].s, d.e[i].w};
  G gt; fill(gt, d.n, r, k);
  kosaraju(g, gt, comp);
#else
  GRAPH<int64_t> g; fill(g, d.n, d.e, d.m);
  kosaraju(g, comp);
#endif
  Rel c = closure(rel_of(d.e, d.m, d.n), true);
  for (Id i = 0; i < NV; ++i) {
    CHECK(comp[i] < NV, "every vertex gets a label");
    for (Id j = 0; j < i; ++j) {
      CHECK((comp[i] == comp[j]) == (c.has(i, j) && c.has(j, i)), "two vertices have the same label exactly when each is reachable from the other");
      if (comp[i] == comp[j]) sym_cover("joined"); else sym_cover("apart");
    }
    sym_observe("c", comp[i]);
  }
}
