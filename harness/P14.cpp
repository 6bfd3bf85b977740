// @run quick NV=3 NE=6 GT=vov MODE=0 LAZY
// @run quick NV=3 NE=3 GT=csr MODE=1
// @run quick NV=4 NE=3 GT=ual MODE=0
// @run quick NV=3 NE=3 GT=vofl MODE=1
// @run quick NV=3 NE=3 GT=vol MODE=2
// @run quick NV=5 NE=0 FAM=1 GT=vov MODE=0
// @run quick NV=5 NE=0 FAM=1 GT=dov MODE=1
// @run quick NV=2 NE=2 GT=vov MODE=0 WLO=-0x7fffffffffffffffll WHI=0x7ffffffffffffffell
// @run quick NV=3 NE=2 GT=csr MODE=1 WLO=-0x3fffffffffffffffll WHI=0x3fffffffffffffffll
// @run quick NV=3 NE=3 GT=vov MODE=0 LAZY IDT=int32_t
// @run quick NV=3 NE=3 GT=csr MODE=1 IDT=uint8_t
// @run quick NV=3 NE=3 GT=ual MODE=0 IDT=int64_t
// @run quick NV=12 NE=0 NMAX=12 FAM=0 FW=0 GT=vov MODE=0
// @run thorough NV=4 NE=6 GT=vov MODE=0 LAZY
// @run thorough NV=4 NE=4 GT=csr MODE=1
// @run thorough NV=4 NE=4 GT=ual MODE=0
// @run thorough NV=6 NE=0 FAM=2 FW=3 GT=vov MODE=0
// @bounds NV vertices; LAZY: at most NE arcs, symmetric, any adjacency order, symbolic targets; otherwise at most NE undirected edges (self-loops, parallel edges); all 64-bit weights in [-2^40,2^40] (WLO, WHI: in [WLO,WHI]) symbolic; every seed; FAM: larger base shapes, FW symbolic weights; MODE 0 default form, 1 reversed comparator, 2 custom weight function
// @covers spanned split badseed short
#ifndef WLO
#define WLO (-(1ll << 40))
#endif
#include "oracle.hpp"
#include <graph/algorithm/mst.hpp>
#include <functional>
using namespace graph;
using G = GRAPH<int64_t>;
static inline uint64_t worse(int64_t a, int64_t b) { return MODE == 1 ? a < b : b < a; }
extern "C" void harness_main() {
  Und<G> u(true, true, true);
  G g; fill(g, u.n, u.e, u.m);
  Id seed = (Id)pick_u("seed", 0, NV);
  size_t np = NV, nw = NV;
  if (seed == 0) { np -= pick_u("short pred", 0, 1); nw -= pick_u("short weight", 0, 1); }
  std::vector<Id> pred(np, 77);
  std::vector<int64_t> weight(nw, 88);
  bool threw = false;
  int64_t sum = 0;
  try {
#if MODE == 0
    sum = prim(g, pred, weight, seed);
#elif MODE == 1
    sum = prim(g, pred, weight, std::greater<>{}, std::numeric_limits<int64_t>::lowest(), [](const auto& g, const auto& uv) { return edge_value(g, uv); }, seed);
#else
    sum = prim(g, pred, weight, std::less<>{}, std::numeric_limits<int64_t>::max(), [](const auto& g, const auto& uv) { return 7 - edge_value(g, uv); }, seed);
    for (size_t i = 0; i < u.m; ++i) u.e[i].w = 7 - u.e[i].w;
#endif
  } catch (const std::out_of_range&) { threw = true; }
  bool bad = seed >= NV || np < NV || nw < NV;
  CHECK(threw == bad, "an invalid seed or an undersized array, and nothing else, throws out_of_range");
  if (bad) { sym_cover(seed >= NV ? "badseed" : "short"); for (auto p : pred) CHECK(p == 77, "nothing is written before throwing"); return; }
  Rel c = closure(u.rel, true);
  CHECK(pred[seed] == seed, "the seed is its own predecessor");
  // loop-free parent structure
  Rel tree; tree.n = NV;
  int64_t total = 0;
  for (Id v = 0; v < NV; ++v) {
    if (v == seed) continue;
    if (pred[v] == 77) { CHECK(!c.has(seed, v), "every vertex of the seed's component is reached"); CHECK(weight[v] == 88, "an unreached vertex keeps its state"); sym_cover("split"); continue; }
    sym_cover("spanned");
    CHECK(c.has(seed, v), "only vertices of the seed's component are reached");
    CHECK(pred[v] < NV && pred[v] != v, "the predecessor is another vertex");
    unsigned ok = 0;
    for (size_t i = 0; i < u.m; ++i) ok |= (((u.e[i].s == pred[v]) & (u.e[i].t == v)) | (is_ual<G> & (u.e[i].t == pred[v]) & (u.e[i].s == v))) & (u.e[i].w == weight[v]);
    CHECK(ok, "weight[v] is the weight of an edge from pred[v] to v");
    total += weight[v];
    Id x = v; size_t k = 0; while (x != seed && k <= NV && x < NV) { x = pred[x]; ++k; }
    CHECK(x == seed && k < NV, "following predecessors leads to the seed");
  }
  // vertices below v in the tree
  for (Id v = 0; v < NV; ++v) {
    if (v == seed || pred[v] == 77) continue;
    Mask below = 0;
    for (Id y = 0; y < NV; ++y) { Id x = y; for (size_t k = 0; k < NV && x != seed && x < NV; ++k) { if (x == v) below |= Mask(1) << y; x = pred[x]; } }
    for (size_t i = 0; i < u.m; ++i) CHECK(!((below >> u.e[i].s ^ below >> u.e[i].t) & 1) | !worse(weight[v], u.e[i].w), "no tree edge can be replaced by a better one");
  }
  CHECK(sum == total, "the total weight is returned");
  for (Id v = 0; v < NV; ++v) { sym_observe("p", pred[v]); if (v != seed) sym_observe("w", weight[v]); }
}
