// @run quick NV=3 NE=3 GT=vov
// @run quick NV=3 NE=2 GT=vofl
// @run quick NV=3 NE=2 GT=mol
// @run quick NV=3 NE=2 GT=uov
// @run quick NV=3 NE=2 GT=dos
// @run quick NV=3 NE=3 GT=csr
// @run quick NV=3 NE=3 GT=ual
// @run quick NV=3 NE=2 GT=vi
// @run quick NV=3 NE=2 GT=mv
// @run quick NV=3 NE=2 GT=bvov
// @run quick NV=3 NE=2 GT=bvofl
// @run quick NV=3 NE=2 GT=bdod
// @run quick NV=2 NE=2 GT=bmov
// @run quick NV=2 NE=2 GT=bvous
// @run quick NV=7 NE=0 FAM=1 GT=bvol
// @run quick NV=7 NE=0 FAM=1 GT=csr
// @run quick NV=2 NE=2 GT=vod
// @run quick NV=2 NE=2 GT=dol
// @run quick NV=2 NE=2 GT=vous
// @run quick NV=2 NE=2 GT=vom
// @run quick NV=2 NE=2 GT=mos
// @run quick NV=2 NE=2 GT=uofl
// @run quick NV=2 NE=2 GT=lp
// @run quick NV=2 NE=2 GT=vt
// @run quick NV=2 NE=2 GT=ml
// @run quick NV=2 NE=2 GT=vm
// @run quick NV=3 NE=3 GT=vov IDT=int32_t
// @run quick NV=3 NE=3 GT=csr IDT=uint8_t
// @run quick NV=3 NE=2 GT=mol IDT=int64_t
// @run quick NV=3 NE=2 GT=bvom
// @run quick NV=2 NE=2 GT=bmom
// @run quick NV=20 NE=0 NMAX=20 FAM=0 GT=vov
// @run quick NV=14 NE=0 NMAX=14 FAM=0 GT=csr
// @run thorough NV=4 NE=3 GT=vov
// @run thorough NV=4 NE=3 GT=vom
// @run thorough NV=4 NE=3 GT=csr
// @run thorough NV=4 NE=3 GT=ual
// @run thorough NV=3 NE=4 GT=vv
// @run thorough NV=3 NE=3 GT=mov
// @run thorough NV=3 NE=3 GT=uous
// @run thorough NV=4 NE=3 GT=bvol
// @run thorough NV=4 NE=3 GT=bdov
// @run thorough NV=3 NE=3 GT=bmol
// @run thorough NV=3 NE=3 GT=bvos
// @run thorough NV=14 NE=0 NMAX=14 FAM=0 GT=bvov
// @bounds every graph of at most NE edges over NV vertices (parallel edges and self-loops included) held in the container GT, or a larger base shape (FAM); every vertex as the seed, by id and by descriptor; value functions reading the edge's ids and value plus a symbolic offset; graph and const graph; in-edge forms where the container is bidirectional
// @covers out
#include "views.hpp"
using namespace graph;
using G = GRAPH<int64_t>;
namespace W = graph::views;
template <class T> static void look(T& g, const Edge* e, size_t m) {
  using H = std::remove_const_t<T>;
  static Rows R, In; rows(g, e, m, R, false);
  int64_t off = sym_i64("offset", -(1ll << 40), 1ll << 40);
  auto f = [off](const auto& gg, const auto& uv) { return (int64_t)A::target_id(gg, uv) * 64 + weight(gg, uv) + off; };
  auto fi = [off](const auto& gg, const auto& uv) { return (int64_t)A::source_id(gg, uv) * 64 + weight(gg, uv) + off; };
  for (auto u : A::vertices(g)) {
    auto id = A::vertex_id(g, u);
    const Row* r = R.r[id]; size_t k = R.k[id];
    auto want = [&](size_t i) { return (int64_t)r[i].t * 64 + r[i].w + off; };
    auto es = A::edges(g, u);
    auto at = [&](size_t i) { auto it = es.begin(); while (i--) ++it; return *it; };
    auto full = [&](auto&& v) { yields(v, k, [&](size_t i, auto&& x) { CHECK((Id)x.target_id == r[i].t && x.edge == at(i), "incidence"); }); };
    auto fullf = [&](auto&& v) { yields(v, k, [&](size_t i, auto&& x) { CHECK((Id)x.target_id == r[i].t && x.edge == at(i) && x.value == want(i), "incidence with a function"); }); };
    auto basic = [&](auto&& v) { yields(v, k, [&](size_t i, auto&& x) { CHECK((Id)x.target_id == r[i].t, "basic_incidence"); }); };
    auto basicf = [&](auto&& v) { yields(v, k, [&](size_t i, auto&& x) { CHECK((Id)x.target_id == r[i].t && x.value == want(i), "basic_incidence with a function"); }); };
    full(W::incidence(g, u)); full(W::out_incidence(g, u)); fullf(W::incidence(g, u, f)); fullf(W::out_incidence(g, u, f));
    basic(W::basic_incidence(g, id)); basic(W::basic_out_incidence(g, id)); basicf(W::basic_incidence(g, id, f)); basicf(W::basic_out_incidence(g, id, f));
    if constexpr (A::index_adjacency_list<T>) { full(W::incidence(g, id)); full(W::out_incidence(g, id)); fullf(W::incidence(g, id, f)); fullf(W::out_incidence(g, id, f)); }
    sym_cover("out");
  }
  if constexpr (A::bidirectional_adjacency_list<T>) {
    rows(g, e, m, In, true);
    for (auto u : A::vertices(g)) {
      auto id = A::vertex_id(g, u);
      const Row* r = In.r[id]; size_t k = In.k[id];
      auto want = [&](size_t i) { return (is_ual<H> ? (int64_t)id : (int64_t)r[i].s) * 64 + r[i].w + off; }; // an undirected edge is seen from the vertex iterated
      auto es = A::in_edges(g, u);
      auto at = [&](size_t i) { auto it = es.begin(); while (i--) ++it; return *it; };
      auto full = [&](auto&& v) { yields(v, k, [&](size_t i, auto&& x) { CHECK((Id)x.target_id == r[i].s && x.edge == at(i), "in_incidence"); }); };
      auto fullf = [&](auto&& v) { yields(v, k, [&](size_t i, auto&& x) { CHECK((Id)x.target_id == r[i].s && x.edge == at(i) && x.value == want(i), "in_incidence with a function"); }); };
      auto basic = [&](auto&& v) { yields(v, k, [&](size_t i, auto&& x) { CHECK((Id)x.target_id == r[i].s, "basic_in_incidence"); }); };
      auto basicf = [&](auto&& v) { yields(v, k, [&](size_t i, auto&& x) { CHECK((Id)x.target_id == r[i].s && x.value == want(i), "basic_in_incidence with a function"); }); };
      full(W::in_incidence(g, u)); fullf(W::in_incidence(g, u, fi));
      if constexpr (A::index_bidirectional_adjacency_list<T>) { full(W::in_incidence(g, id)); fullf(W::in_incidence(g, id, fi)); basic(W::basic_in_incidence(g, id)); basicf(W::basic_in_incidence(g, id, fi)); }
    }
  }
}
extern "C" void harness_main() {
#if defined(FAM)
  Digraph d(true); Edge e[96] = {}; size_t m = d.m; for (size_t i = 0; i < m; ++i) e[i] = d.e[i];
#else
  Edge e[NE + 1] = {}; size_t m = any_edges(e, NE, NV - 1, true);
  if (is_csr<G>) for (size_t i = 1; i < m; ++i) sym_assume(e[i - 1].s <= e[i].s);
#endif
  G g; fill<G, int64_t>(g, NV, e, m);
  if (pick_u("const", 0, 1)) look(std::as_const(g), e, m); else look(g, e, m);
}
