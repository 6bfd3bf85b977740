// @run quick NV=4 NE=8 GT=vov LAZY
// @run quick NV=4 NE=8 GT=csr LAZY
// @run quick NV=5 NE=6 GT=dov
// @run quick NV=4 NE=6 GT=vos
// @run quick NV=4 NE=6 GT=vom
// @run quick NV=4 NE=6 GT=vi
// @run quick NV=6 NE=0 FAM=2 GT=vol
// @run quick NV=3 NE=3 GT=dov IDT=int64_t
// @run quick NV=18 NE=0 NMAX=18 FAM=0 GT=vov
// @run quick NV=12 NE=0 NMAX=12 FAM=1 GT=csr
// @run thorough NV=6 NE=0 FAM=3 GT=vol
// @run thorough NV=4 NE=12 GT=vov LAZY
// @run thorough NV=5 NE=12 GT=csr LAZY
// @run thorough NV=5 NE=10 GT=vov
// @run thorough NV=6 NE=8 GT=vos
// @run thorough NV=8 NE=0 FAM=4 GT=dov
// @bounds NV vertices; LAZY: at most NE arcs, symmetric, symbolic targets; otherwise at most NE undirected edges; self-loops allowed, no parallel edges, adjacency in ascending order; FAM: larger base shapes plus FAM edges
// @covers triangle none
#include "oracle.hpp"
#include <graph/algorithm/tc.hpp>
using namespace graph;
using G = GRAPH<int64_t>;
extern "C" void harness_main() {
  Und<G> u(true, false);
#ifdef LAZY
  for (size_t i = 1; i < u.m; ++i) if (u.e[i].s == u.e[i - 1].s) sym_assume(u.e[i - 1].t < u.e[i].t);
#else
  { Edge t[sizeof(u.e) / sizeof(Edge)]; size_t k = 0;
    for (Id a = 0; a < NV; ++a) for (Id b = 0; b < NV; ++b) for (size_t i = 0; i < u.m; ++i) if (u.e[i].s == a && u.e[i].t == b) t[k++] = u.e[i];
    for (size_t i = 0; i < k; ++i) u.e[i] = t[i]; }
#endif
  G g; fill(g, u.n, u.e, u.m);
  size_t got = triangle_count(g), want = 0;
  for (Id a = 0; a < NV; ++a) for (Id b = 0; b < a; ++b) for (Id c = 0; c < b; ++c) want += u.rel.r[a] >> b & u.rel.r[a] >> c & u.rel.r[b] >> c & 1;
  CHECK(got == want, "the number of triangles");
  if (got) sym_cover("triangle"); else sym_cover("none");
  sym_observe("n", got);
}
