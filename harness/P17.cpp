// @run quick NV=3 NE=3 GT=vov MODE=1 LAZY
// @run quick NV=4 NE=4 GT=vov MODE=0
// @run quick NV=3 NE=4 GT=csr MODE=1
// @run quick NV=3 NE=4 GT=vofl MODE=0
// @run quick NV=3 NE=4 GT=dos MODE=1
// @run quick NV=6 NE=0 FAM=2 GT=vol MODE=0
// @run quick NV=3 NE=3 GT=vov MODE=1 LAZY IDT=int32_t
// @run quick NV=3 NE=3 GT=csr MODE=1 IDT=uint8_t
// @run quick NV=3 NE=3 GT=dos MODE=1 IDT=int64_t
// @run quick NV=14 NE=0 NMAX=14 FAM=1 GT=vov MODE=0
// @run thorough NV=4 NE=4 GT=vov MODE=1 LAZY
// @run thorough NV=4 NE=6 GT=csr MODE=0
// @run thorough NV=5 NE=5 GT=vol MODE=1
// @run thorough NV=8 NE=0 FAM=2 GT=dov MODE=0
// @bounds NV vertices, at most NE directed edges (self-loops, parallel edges, any adjacency order; LAZY: symbolic targets); FAM: larger base shapes plus FAM edges; MODE 0 double result, 1 a user-defined ratio type
// @covers edge loop common
#include "oracle.hpp"
#include <graph/algorithm/jaccard.hpp>
using namespace graph;
using G = GRAPH<int64_t>;
#if MODE == 1
struct Ratio { uint64_t num = 0, den = 1; Ratio() = default; explicit Ratio(uint64_t n) : num(n) {} friend Ratio operator/(Ratio a, Ratio b) { Ratio r; r.num = a.num; r.den = b.num; return r; } };
#endif
extern "C" void harness_main() {
  Digraph d(true);
  G g; fill(g, d.n, d.e, d.m);
  struct Call { Id u, v; size_t k; Id t; int64_t w; uint64_t num, den; };
  std::vector<Call> calls;
  auto note = [&](Id u, Id v, auto& uv, auto val) {
    Call c{u, v, 0, graph::adj_list::target_id(g, uv), graph::adj_list::edge_value(g, uv), 0, 1};
    for (auto&& x : graph::adj_list::edges(g, u)) { if (x == uv) break; ++c.k; } // position of the edge in u's list
#if MODE == 1
    c.num = val.num; c.den = val.den;
#else
    c.den = 720720; c.num = (uint64_t)(val * 720720 + 0.5);
#endif
    calls.push_back(c);
  };
#if MODE == 1
  auto cb = [&](Id u, Id v, graph::adj_list::edge_t<G>& uv, Ratio r) { note(u, v, uv, r); };
  jaccard_coefficient<G&, decltype(cb), Ratio>(g, cb);
#else
  auto cb = [&](Id u, Id v, graph::adj_list::edge_t<G>& uv, double r) { note(u, v, uv, r); };
  jaccard_coefficient(g, cb);
#endif
  d.settle();
  Rel r = rel_of(d.e, d.m, d.n);
  for (Id v = 0; v < NV; ++v) r.r[v] &= ~(Mask(1) << v);
  size_t want = 0;
  for (Id u = 0; u < NV; ++u) {
    Id out[sizeof(d.e) / sizeof(Edge)]; size_t k;
    adjacency(g, u, out, k, d.e, d.m);
    for (size_t i = 0; i < k; ++i) {
      unsigned c = 0;
      Id v = out[i];
      if (v == u) sym_cover("loop"); else ++want;
      for (auto& x : calls) if (x.u == u && x.k == i) {
        ++c;
        CHECK(x.v == v && x.t == v, "the callback gets the target of the edge and the edge itself");
        uint64_t common = popc(r.r[u] & r.r[v]), all = popc(r.r[u] | r.r[v]);
        if (all == 0) all = 1;
        if (common) sym_cover("common");
        CHECK(x.num * all == common * x.den, "the coefficient is |N(u)&N(v)|/|N(u)|N(v)|");
      }
      CHECK(c == (v != u), "the callback is called once for every edge that isn't a self-loop");
    }
  }
  CHECK(calls.size() == want, "there are no other calls");
  if (want) sym_cover("edge");
  for (auto& x : calls) { sym_observe("u", x.u); sym_observe("v", x.v); sym_observe("num", x.num); }
}
