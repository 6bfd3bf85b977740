// @run quick NV=4 NE=6 GT=vov LAZY
// @run quick NV=3 NE=6 GT=csr LAZY
// @run quick NV=4 NE=4 GT=ual
// @run quick NV=4 NE=3 GT=vol CANON=0
// @run quick NV=4 NE=4 GT=dos
// @run quick NV=4 NE=4 GT=vi
// @run quick NV=8 NE=0 FAM=1 GT=vofl
// @run quick NV=3 NE=3 GT=vov LAZY IDT=int32_t
// @run quick NV=3 NE=3 GT=csr LAZY IDT=uint8_t
// @run quick NV=3 NE=3 GT=ual IDT=int64_t
// @run thorough NV=4 NE=8 GT=vov LAZY
// @run thorough NV=5 NE=6 GT=csr LAZY
// @run thorough NV=5 NE=5 GT=ual
// @run thorough NV=8 NE=0 FAM=2 GT=ual
// @bounds NV vertices; LAZY: at most NE arcs, symmetric, any adjacency order, symbolic targets; otherwise at most NE undirected edges (self-loops, parallel edges) in canonical (CANON=0: every) insertion order; FAM: larger base shapes plus FAM edges
// @covers joined apart
#include "oracle.hpp"
#include <graph/algorithm/connected_components.hpp>
using namespace graph;
using G = GRAPH<int64_t>;
extern "C" void harness_main() {
  Und<G> u(true, true);
  G g; fill(g, u.n, u.e, u.m);
  std::vector<uint32_t> comp(NV, 77);
  size_t k = connected_components(g, comp);
  Rel c = closure(u.rel, true);
  Mask labels = 0;
  for (Id i = 0; i < NV; ++i) {
    CHECK(comp[i] < k, "labels are below the returned count"); labels |= Mask(1) << comp[i];
    for (Id j = 0; j < i; ++j) {
      CHECK((comp[i] == comp[j]) == c.has(i, j), "two vertices have the same label exactly when they are connected");
      if (comp[i] == comp[j]) sym_cover("joined"); else sym_cover("apart");
    }
    sym_observe("c", comp[i]);
  }
  CHECK(labels == (Mask(1) << k) - 1, "the labels are 0..k-1 and k is returned");
}
