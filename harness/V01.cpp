// @run quick NV=3 NE=2 GT=vov
// @run quick NV=3 NE=2 GT=mol
// @run quick NV=3 NE=2 GT=uov
// @run quick NV=3 NE=2 GT=dos
// @run quick NV=3 NE=2 GT=csr
// @run quick NV=3 NE=2 GT=ual
// @run quick NV=3 NE=2 GT=vi
// @run quick NV=3 NE=2 GT=mv
// @run quick NV=1 NE=1 GT=vofl
// @run quick NV=9 NE=1 GT=vol
// @run quick NV=2 NE=2 GT=vod
// @run quick NV=2 NE=2 GT=dol
// @run quick NV=2 NE=2 GT=vous
// @run quick NV=2 NE=2 GT=vom
// @run quick NV=2 NE=2 GT=mos
// @run quick NV=2 NE=2 GT=uofl
// @run quick NV=2 NE=2 GT=lp
// @run quick NV=2 NE=2 GT=vt
// @run quick NV=2 NE=2 GT=ml
// @run quick NV=2 NE=2 GT=vm
// @run quick NV=3 NE=2 GT=vov IDT=int32_t
// @run quick NV=3 NE=2 GT=csr IDT=uint8_t
// @run quick NV=3 NE=2 GT=mol IDT=int64_t
// @run quick NV=30 NE=0 NMAX=30 FAM=0 GT=vov
// @run thorough NV=5 NE=2 GT=vov
// @run thorough NV=5 NE=2 GT=csr
// @run thorough NV=5 NE=2 GT=ual
// @run thorough NV=5 NE=2 GT=dod
// @run thorough NV=4 NE=3 GT=mous
// @run thorough NV=4 NE=3 GT=vv
// @run thorough NV=4 NE=3 GT=uol
// @run thorough NV=30 NE=0 GT=vov
// @run thorough NV=30 NE=0 GT=csr
// @bounds every graph of at most NE edges over NV vertices held in the container GT, and the empty graph; every sub-range of vertices [i, j]; value functions reading the vertex's id, or its degree, plus a symbolic offset; graph and const graph
// @covers subrange
// @covers whole
#include "views.hpp"
using namespace graph;
using G = GRAPH<int64_t>;
namespace W = graph::views;
template <class T> static void look(T& g, const Edge* e, size_t m, size_t n) {
  static Rows R; if (n) rows(g, e, m, R, false); else R = Rows();
  using VD = A::vertex_t<T>;
  VD vd[NV + 1]; size_t k = 0; for (auto u : A::vertices(g)) vd[k++] = u;
  CHECK(k == n, "every vertex");
  int64_t off = sym_i64("offset", -(1ll << 40), 1ll << 40);
  size_t calls = 0;
  auto f = [off, &calls](const auto& gg, const auto& u) { ++calls; return (int64_t)A::vertex_id(gg, u) + off; };
  auto h = [off](const auto& gg, auto u) { return off - (int64_t)A::degree(gg, u); };
  auto id = [&](size_t i) { return R.ids[i]; };
  yields(W::vertexlist(g), n, [&](size_t i, auto&& x) { CHECK(x.id == id(i) && x.vertex == vd[i], "vertexlist"); });
  yields(W::basic_vertexlist(g), n, [&](size_t i, auto&& x) { CHECK(x.id == id(i), "basic_vertexlist"); });
  yields(W::vertexlist(g, f), n, [&](size_t i, auto&& x) { CHECK(x.id == id(i) && x.vertex == vd[i] && x.value == (int64_t)id(i) + off, "vertexlist with a function"); });
  yields(W::basic_vertexlist(g, f), n, [&](size_t i, auto&& x) { CHECK(x.id == id(i) && x.value == (int64_t)id(i) + off, "basic_vertexlist with a function"); });
  yields(W::vertexlist(g, h), n, [&](size_t i, auto&& x) { CHECK(x.value == off - (int64_t)R.k[id(i)], "vertexlist with a function"); });
  CHECK(n == 0 || calls >= 2 * n, "the function is called");
  sym_cover("whole");
  size_t i0 = pick_u("first", 0, n), i1 = pick_u("last", i0, n), c = i1 - i0;
  auto vs = A::vertices(g);
  auto b = vs.begin(), z = vs.begin(); for (size_t i = 0; i < i0; ++i) ++b; for (size_t i = 0; i < i1; ++i) ++z;
  std::ranges::subrange<decltype(b), decltype(z), std::ranges::subrange_kind::sized> sub(b, z, c);
  yields(W::vertexlist(g, sub), c, [&](size_t i, auto&& x) { CHECK(x.id == id(i0 + i) && x.vertex == vd[i0 + i], "vertexlist of a range"); });
  yields(W::vertexlist(g, sub, f), c, [&](size_t i, auto&& x) { CHECK(x.id == id(i0 + i) && x.vertex == vd[i0 + i] && x.value == (int64_t)id(i0 + i) + off, "vertexlist of a range with a function"); });
  yields(W::basic_vertexlist(g, sub), c, [&](size_t i, auto&& x) { CHECK(x.id == id(i0 + i), "basic_vertexlist of a range"); });
  yields(W::basic_vertexlist(g, sub, f), c, [&](size_t i, auto&& x) { CHECK(x.id == id(i0 + i) && x.value == (int64_t)id(i0 + i) + off, "basic_vertexlist of a range with a function"); });
  if constexpr (A::index_adjacency_list<T>) {
    VD first = *b, last = *z;
    yields(W::vertexlist(g, first, last), c, [&](size_t i, auto&& x) { CHECK(x.id == id(i0 + i) && x.vertex == vd[i0 + i], "vertexlist between vertices"); });
    yields(W::vertexlist(g, first, last, f), c, [&](size_t i, auto&& x) { CHECK(x.id == id(i0 + i) && x.vertex == vd[i0 + i] && x.value == (int64_t)id(i0 + i) + off, "vertexlist between vertices with a function"); });
    using VI = A::vertex_id_t<T>;
    yields(W::basic_vertexlist(g, (VI)i0, (VI)i1), c, [&](size_t i, auto&& x) { CHECK(x.id == id(i0 + i), "basic_vertexlist between ids"); });
    yields(W::basic_vertexlist(g, (VI)i0, (VI)i1, f), c, [&](size_t i, auto&& x) { CHECK(x.id == id(i0 + i) && x.value == (int64_t)id(i0 + i) + off, "basic_vertexlist between ids with a function"); });
  }
  sym_cover("subrange");
}
extern "C" void harness_main() {
  Edge e[NE + 1] = {}; size_t m = any_edges(e, NE, NV - 1, true);
  if (is_csr<G>) for (size_t i = 1; i < m; ++i) sym_assume(e[i - 1].s <= e[i].s);
  size_t n = m == 0 && pick_u("no vertices", 0, 1) ? 0 : NV;
  G g; if (n) fill<G, int64_t>(g, n, e, m);
  if (pick_u("const", 0, 1)) look(std::as_const(g), e, m, n); else look(g, e, m, n);
}
