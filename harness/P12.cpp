// @run quick NV=4 NE=6 GT=vov LAZY
// @run quick NV=4 NE=4 GT=vov CANON=0
// @run quick NV=4 NE=5 GT=csr
// @run quick NV=5 NE=5 GT=ual
// @run quick NV=4 NE=4 GT=vi
// @run quick NV=4 NE=4 GT=dofl
// @run quick NV=7 NE=0 FAM=2 GT=vol
// @run quick NV=26 NE=0 FAM=0 NMAX=26 GT=vov
// @run quick NV=3 NE=3 GT=csr IDT=uint8_t
// @run quick NV=3 NE=3 GT=ual IDT=int64_t
// @run quick NV=12 NE=0 NMAX=12 FAM=1 GT=csr
// @run thorough NV=4 NE=8 GT=vov LAZY
// @run thorough NV=5 NE=6 GT=csr LAZY
// @run thorough NV=5 NE=7 GT=vov
// @run thorough NV=4 NE=5 GT=vol CANON=0
// @run thorough NV=8 NE=0 FAM=3 GT=vov
// @bounds NV vertices; LAZY: at most NE arcs, symmetric, any adjacency order, symbolic targets; otherwise at most NE undirected edges (self-loops, parallel edges) in canonical (CANON=0: every) insertion order; FAM: larger base shapes plus FAM edges
// @covers cut nocut
#include "oracle.hpp"
#include <graph/algorithm/articulation_points.hpp>
using namespace graph;
using G = GRAPH<int64_t>;
extern "C" void harness_main() {
  Und<G> u(true, true);
  G g; fill(g, u.n, u.e, u.m);
  std::vector<Id> out;
  articulation_points(g, std::back_inserter(out));
  Mask got = 0;
  for (Id v : out) { CHECK(v < NV && !(got >> v & 1), "no vertex is output twice"); got |= Mask(1) << v; sym_observe("cut", v); }
  for (Id v = 0; v < NV; ++v) {
    Rel r = u.rel;
    r.r[v] = 0; for (Id i = 0; i < NV; ++i) r.r[i] &= ~(Mask(1) << v);
    Rel c = closure(r, true);
    uint64_t cut = 0; // two neighbours of v that only v connects
    for (Id a = 0; a < NV; ++a) for (Id b = 0; b < a; ++b) if (a != v && b != v) cut |= u.rel.r[v] >> a & u.rel.r[v] >> b & 1 & ~(c.r[a] >> b);
    CHECK((got >> v & 1) == cut, "a vertex is output exactly when removing it disconnects its component");
    if (got >> v & 1) sym_cover("cut"); else sym_cover("nocut");
  }
}
