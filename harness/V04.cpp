// @run quick NV=3 NE=3 GT=vov
// @run quick NV=3 NE=2 GT=vofl
// @run quick NV=3 NE=2 GT=mol
// @run quick NV=3 NE=2 GT=uov
// @run quick NV=3 NE=2 GT=dos
// @run quick NV=3 NE=3 GT=csr
// @run quick NV=3 NE=3 GT=ual
// @run quick NV=3 NE=2 GT=vi
// @run quick NV=3 NE=2 GT=mv
// @run quick NV=7 NE=0 FAM=1 GT=csr
// @run quick NV=5 NE=2 GT=dofl
// @run quick NV=3 NE=2 GT=vous
// @run quick NV=7 NE=0 FAM=1 GT=vol
// @run quick NV=3 NE=2 GT=bvov
// @run quick NV=2 NE=2 GT=vod
// @run quick NV=2 NE=2 GT=dol
// @run quick NV=2 NE=2 GT=vous
// @run quick NV=2 NE=2 GT=vom
// @run quick NV=2 NE=2 GT=mos
// @run quick NV=2 NE=2 GT=uofl
// @run quick NV=2 NE=2 GT=lp
// @run quick NV=2 NE=2 GT=vt
// @run quick NV=2 NE=2 GT=ml
// @run quick NV=2 NE=2 GT=vm
// @run quick NV=3 NE=3 GT=vov IDT=int32_t
// @run quick NV=3 NE=3 GT=csr IDT=uint8_t
// @run quick NV=3 NE=2 GT=mol IDT=int64_t
// @run quick NV=2 NE=2 GT=bmom
// @run quick NV=20 NE=0 NMAX=20 FAM=0 GT=vov
// @run quick NV=14 NE=0 NMAX=14 FAM=0 GT=csr
// @run thorough NV=14 NE=0 NMAX=14 FAM=0 GT=vov
// @run thorough NV=4 NE=3 GT=vov
// @run thorough NV=4 NE=3 GT=vom
// @run thorough NV=4 NE=3 GT=csr
// @run thorough NV=4 NE=3 GT=ual
// @run thorough NV=3 NE=4 GT=vv
// @run thorough NV=3 NE=3 GT=mov
// @run thorough NV=3 NE=3 GT=uous
// @bounds every graph of at most NE edges over NV vertices (parallel edges and self-loops included) held in the container GT, or a larger base shape (FAM); and the graph without vertices; value functions reading the edge's ids and value plus a symbolic offset; graph and const graph; size() where the view has one
// @covers out
#include "views.hpp"
using namespace graph;
using G = GRAPH<int64_t>;
namespace W = graph::views;
template <class T> static void look(T& g, const Edge* e, size_t m) {
  static Rows R; rows(g, e, m, R, false);
  static Row r[16 * NV]; size_t k = 0;
  using ED = A::edge_t<T>;
  ED d[16 * NV + 1] = {};
  for (size_t i = 0; i < R.n; ++i) for (size_t j = 0; j < R.k[R.ids[i]]; ++j) { CHECK(k < 16 * NV, "harness capacity"); r[k++] = R.r[R.ids[i]][j]; }
  size_t c = 0; for (auto u : A::vertices(g)) for (auto uv : A::edges(g, u)) d[c++] = uv;
  int64_t off = sym_i64("offset", -(1ll << 40), 1ll << 40);
  auto f = [off](const auto& gg, const auto& uv) { return (int64_t)A::source_id(gg, uv) * 4096 + (int64_t)A::target_id(gg, uv) * 64 + weight(gg, uv) + off; };
  auto val = [&](size_t i) { return (int64_t)r[i].s * 4096 + (int64_t)r[i].t * 64 + r[i].w + off; };
  auto ids = [&](size_t i, auto&& x) { return (Id)x.source_id == r[i].s && (Id)x.target_id == r[i].t; };
  yields(W::edgelist(g), k, [&](size_t i, auto&& x) { CHECK(ids(i, x) && x.edge == d[i], "edgelist"); });
  yields(W::edgelist(g, f), k, [&](size_t i, auto&& x) { CHECK(ids(i, x) && x.edge == d[i] && x.value == val(i), "edgelist with a function"); });
  yields(W::basic_edgelist(g), k, [&](size_t i, auto&& x) { CHECK(ids(i, x), "basic_edgelist"); });
  yields(W::basic_edgelist(g, f), k, [&](size_t i, auto&& x) { CHECK(ids(i, x) && x.value == val(i), "basic_edgelist with a function"); });
  sym_cover("out");
}
extern "C" void harness_main() {
#if defined(FAM)
  Digraph d(true); Edge e[96] = {}; size_t m = d.m; for (size_t i = 0; i < m; ++i) e[i] = d.e[i];
#else
  Edge e[NE + 1] = {}; size_t m = any_edges(e, NE, NV - 1, true);
  if (is_csr<G>) for (size_t i = 1; i < m; ++i) sym_assume(e[i - 1].s <= e[i].s);
#endif
  G g; size_t n = m == 0 && pick_u("no vertices", 0, 1) ? 0 : NV;
  if (n == 0) { yields(W::edgelist(g), 0, [](size_t, auto&&) {}); yields(W::basic_edgelist(g), 0, [](size_t, auto&&) {}); return; }
  fill<G, int64_t>(g, NV, e, m);
  if (pick_u("const", 0, 1)) look(std::as_const(g), e, m); else look(g, e, m);
}
