// @run quick NV=3 NE=6 GT=vov LAZY
// @run quick NV=4 NE=5 GT=vov LAZY
// @run thorough NV=4 NE=6 GT=vov LAZY
// @run quick NV=4 NE=4 GT=vov CANON=0
// @run quick NV=4 NE=5 GT=csr
// @run quick NV=5 NE=5 GT=ual
// @run quick NV=4 NE=4 GT=vi
// @run quick NV=4 NE=4 GT=dofl
// @run quick NV=7 NE=0 FAM=2 GT=vol
// @run quick NV=26 NE=0 FAM=0 NMAX=26 GT=vov
// @run quick NV=3 NE=3 GT=vov LAZY IDT=int32_t
// @run quick NV=3 NE=3 GT=csr IDT=uint8_t
// @run quick NV=3 NE=3 GT=ual IDT=int64_t
// @run quick NV=12 NE=0 NMAX=12 FAM=1 GT=csr
// @run thorough NV=4 NE=8 GT=vov LAZY
// @run thorough NV=5 NE=6 GT=csr LAZY
// @run thorough NV=5 NE=7 GT=vov
// @run thorough NV=4 NE=5 GT=vol CANON=0
// @run thorough NV=8 NE=0 FAM=3 GT=vov
// @bounds NV vertices; LAZY: at most NE arcs, symmetric, any adjacency order, symbolic targets; otherwise at most NE undirected edges (self-loops, parallel edges) in canonical (CANON=0: every) insertion order; FAM: larger base shapes plus FAM edges
// @covers bridge
#include "oracle.hpp"
#include <graph/algorithm/biconnected_components.hpp>
using namespace graph;
using G = GRAPH<int64_t>;
extern "C" void harness_main() {
  Und<G> u(true, true);
  G g; fill(g, u.n, u.e, u.m);
  std::vector<std::vector<Id>> comp;
  biconnected_components(g, comp);
  for (Id i = 0; i < NV; ++i) u.rel.r[i] &= ~(Mask(1) << i);
  std::vector<Mask> s;
  size_t total = 0;
  for (auto& c : comp) {
    Mask m = 0;
    CHECK(!c.empty(), "no component is empty");
    for (Id v : c) { CHECK(v < NV && !((m >> v) & 1), "a component lists each of its vertices once"); m |= Mask(1) << v; sym_observe("c", v); }
    s.push_back(m); total += c.size() - 1;
  }
  // u.rel restricted to set q, from its lowest vertex
  auto connected = [&](Mask q) { Mask x = q & (0 - q); for (size_t k = 1; k < NV; ++k) { Mask y = x; for (size_t i = 0; i < NV; ++i) y |= (Mask(0) - ((x >> i) & 1)) & u.rel.r[i]; x = y & q; } return x == q; };
  size_t single = 0;
  for (size_t k = 0; k < s.size(); ++k) {
    if (popc(s[k]) == 1) {
      Mask m = s[k]; ++single; sym_cover("single");
      for (Id v = 0; v < NV; ++v) if (m >> v & 1) CHECK(u.rel.r[v] == 0, "a single-vertex component has no edges to other vertices");
    } else {
      if (popc(s[k]) == 2) sym_cover("bridge"); else sym_cover("block");
      CHECK(connected(s[k]), "a component is connected");
      if (popc(s[k]) > 2) for (Id v = 0; v < NV; ++v) if (s[k] >> v & 1) CHECK(connected(s[k] & ~(Mask(1) << v)), "removing any vertex leaves a component connected");
    }
  }
  for (Id a = 0; a < NV; ++a) {
    unsigned one = 0;
    for (size_t k = 0; k < s.size(); ++k) one += (s[k] >> a & 1) && popc(s[k]) == 1;
    CHECK((u.rel.r[a] == 0) == (one == 1) && one <= 1, "a vertex without edges to others is exactly one single-vertex component");
    for (Id b = 0; b < a; ++b) {
      unsigned c = 0;
      for (size_t k = 0; k < s.size(); ++k) c += (s[k] >> a & 1) && (s[k] >> b & 1);
      CHECK(!u.rel.has(a, b) | (c == 1), "every edge lies in exactly one component");
    }
  }
  // the components are maximal: sum(|B|-1) == n - number of connected components
  Rel c = closure(u.rel, true);
  size_t cc = 0;
  for (Id a = 0; a < NV; ++a) { uint64_t first = 1; for (Id b = 0; b < a; ++b) first &= 1 ^ ((c.r[a] >> b) & 1); cc += first; }
  CHECK(total + cc == NV, "components are maximal");
}
