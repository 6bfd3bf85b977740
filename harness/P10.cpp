// @run quick NV=4 NE=4 GT=vov MODE=0 LAZY
// @run quick NV=4 NE=4 GT=vov MODE=1 LAZY
// @run quick NV=4 NE=3 GT=vol MODE=0
// @run thorough NV=4 NE=4 GT=vol MODE=0
// @run quick NV=4 NE=3 GT=csr MODE=1
// @run quick NV=4 NE=3 GT=ual MODE=0
// @run quick NV=5 NE=0 FAM=1 GT=vov MODE=0
// @run thorough NV=6 NE=0 FAM=1 GT=vov MODE=0
// @run quick NV=3 NE=2 GT=vov MODE=2
// @run quick NV=4 NE=3 GT=vov MODE=3
// @run quick NV=4 NE=3 GT=csr MODE=3
// @run quick NV=5 NE=0 FAM=1 GT=vov MODE=3
// @run quick NV=3 NE=3 GT=vov MODE=0 LAZY IDT=int32_t
// @run quick NV=3 NE=3 GT=csr MODE=1 IDT=uint8_t
// @run quick NV=3 NE=3 GT=ual MODE=0 IDT=int64_t
// @run quick NV=20 NE=0 NMAX=20 FAM=0 GT=vov MODE=0
// @run quick NV=14 NE=0 NMAX=14 FAM=0 GT=vov MODE=3
// @run thorough NV=4 NE=6 GT=vov MODE=0 LAZY
// @run thorough NV=5 NE=6 GT=vov MODE=1 LAZY
// @run thorough NV=5 NE=5 GT=ual MODE=0
// @run thorough NV=8 NE=0 FAM=2 GT=vov MODE=0
// @run thorough NV=4 NE=3 GT=vov MODE=2
// @run thorough NV=4 NE=5 GT=vov MODE=3
// @run thorough NV=7 NE=0 FAM=1 GT=vol MODE=3
// @bounds NV vertices; LAZY: at most NE arcs, symmetric, any adjacency order, symbolic targets; otherwise at most NE undirected edges; FAM: larger base shapes; neighbor_rounds 0..3; MODE 0 one graph, 1 graph and transpose, 2 both with the real random engine, 3 a directed graph and its transpose
// @assume sampling finds the component of an arbitrary vertex (MODE 0, 1, 3): std::mt19937 is replaced by an engine that makes every sample hit one arbitrary vertex, so every possible result of the sampling step occurs
// @covers joined apart
#include <random>
#include "oracle.hpp"
#if MODE != 2
namespace std {
struct any_vertex_engine {
  using result_type = uint32_t;
  uint32_t x = 0;
  any_vertex_engine() { uint64_t v = pick_u("sampled vertex", 0, NV - 1); x = (uint32_t)((v << 32) / NV + (1u << 24)); }
  explicit any_vertex_engine(uint32_t) : any_vertex_engine() {}
  static constexpr uint32_t min() { return 0; }
  static constexpr uint32_t max() { return 0xffffffffu; }
  uint32_t operator()() { return x; }
};
}
#define mt19937 any_vertex_engine
#endif
#include <graph/algorithm/connected_components.hpp>
using namespace graph;
using G = GRAPH<int64_t>;
extern "C" void harness_main() {
#if MODE == 3
  struct { size_t n = NV, m = 0; Edge e[Ugraph::CAP + 1]; Rel rel; } u;
  Digraph d(true);
  Edge t[Ugraph::CAP + 1]; size_t tm = 0;
  u.m = d.m;
  for (size_t i = 0; i < d.m; ++i) u.e[i] = d.e[i];
  for (Id v = 0; v < NV; ++v) for (size_t i = 0; i < d.m; ++i) if (d.e[i].t == v) t[tm++] = {v, d.e[i].s, d.e[i].w};
  u.rel = rel_of(d.e, d.m, NV);
  for (size_t i = 0; i < d.m; ++i) u.rel.r[d.e[i].t] |= Mask(1) << d.e[i].s;
#else
  Und<G> u(true, true);
#endif
  G g; fill(g, u.n, u.e, u.m);
  std::vector<Id> comp(NV, 77);
  size_t rounds = pick_u("neighbor_rounds", 0, 3);
#if MODE == 0
  afforest(g, comp, rounds);
#elif MODE == 1
  G gt; fill(gt, u.n, u.e, u.m);
  afforest(g, gt, comp, rounds);
#elif MODE == 3
  G gt; fill(gt, NV, t, tm);
  afforest(g, gt, comp, rounds);
#else
  G gt; fill(gt, u.n, u.e, u.m);
  if (pick_u("form", 0, 1)) afforest(g, gt, comp, rounds); else afforest(g, comp, rounds);
  G none; std::vector<Id> nc; afforest(none, nc, rounds); afforest(none, none, nc, rounds); CHECK(nc.empty(), "an empty graph is left alone");
#endif
  Rel c = closure(u.rel, true);
  auto test = [&] {
    for (Id i = 0; i < NV; ++i) {
      CHECK(comp[i] < NV, "labels are vertex ids");
      for (Id j = 0; j < i; ++j) {
        CHECK((comp[i] == comp[j]) == c.has(i, j), "two vertices have the same label exactly when they are connected");
        if (comp[i] == comp[j]) sym_cover("joined"); else sym_cover("apart");
      }
    }
  };
  test();
  std::vector<Id> before = comp;
  compress(comp);
  CHECK(comp == before, "compress leaves the final labels alone");
  for (Id i = 0; i < NV; ++i) sym_observe("c", comp[i]);
}
