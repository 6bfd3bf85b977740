// @run quick NV=3 NE=3 GT=vov
// @run quick NV=3 NE=2 GT=vofl
// @run quick NV=3 NE=2 GT=mol
// @run quick NV=3 NE=2 GT=uov
// @run quick NV=3 NE=2 GT=dos
// @run quick NV=3 NE=3 GT=csr
// @run quick NV=3 NE=3 GT=ual
// @run quick NV=3 NE=2 GT=vi
// @run quick NV=3 NE=2 GT=mv
// @run quick NV=3 NE=2 GT=bvov
// @run quick NV=3 NE=2 GT=bvofl
// @run quick NV=3 NE=2 GT=bdod
// @run quick NV=2 NE=2 GT=bmov
// @run quick NV=2 NE=2 GT=bvous
// @run quick NV=7 NE=0 FAM=1 GT=bvol
// @run quick NV=7 NE=0 FAM=1 GT=csr
// @run quick NV=2 NE=2 GT=vod
// @run quick NV=2 NE=2 GT=dol
// @run quick NV=2 NE=2 GT=vous
// @run quick NV=2 NE=2 GT=vom
// @run quick NV=2 NE=2 GT=mos
// @run quick NV=2 NE=2 GT=uofl
// @run quick NV=2 NE=2 GT=lp
// @run quick NV=2 NE=2 GT=vt
// @run quick NV=2 NE=2 GT=ml
// @run quick NV=2 NE=2 GT=vm
// @run quick NV=3 NE=3 GT=vov IDT=int32_t
// @run quick NV=3 NE=3 GT=csr IDT=uint8_t
// @run quick NV=3 NE=2 GT=mol IDT=int64_t
// @run quick NV=3 NE=2 GT=bvom
// @run quick NV=2 NE=2 GT=bmom
// @run quick NV=20 NE=0 NMAX=20 FAM=0 GT=vov
// @run quick NV=14 NE=0 NMAX=14 FAM=0 GT=csr
// @run thorough NV=4 NE=3 GT=vov
// @run thorough NV=4 NE=3 GT=vom
// @run thorough NV=4 NE=3 GT=csr
// @run thorough NV=4 NE=3 GT=ual
// @run thorough NV=3 NE=4 GT=vv
// @run thorough NV=3 NE=3 GT=mov
// @run thorough NV=3 NE=3 GT=uous
// @run thorough NV=4 NE=3 GT=bvol
// @run thorough NV=4 NE=3 GT=bdov
// @run thorough NV=3 NE=3 GT=bmol
// @run thorough NV=3 NE=3 GT=bvos
// @run thorough NV=14 NE=0 NMAX=14 FAM=0 GT=bvov
// @bounds every graph of at most NE edges over NV vertices (parallel edges and self-loops included) held in the container GT, or a larger base shape (FAM); every vertex as the seed, by id and by descriptor; value functions reading the vertex's id and degree plus a symbolic offset; graph and const graph; in-edge forms where the container is bidirectional
// @covers out
#include "views.hpp"
using namespace graph;
using G = GRAPH<int64_t>;
namespace W = graph::views;
template <class T> static void look(T& g, const Edge* e, size_t m) {
  static Rows R, In; rows(g, e, m, R, false);
  int64_t off = sym_i64("offset", -(1ll << 40), 1ll << 40);
  auto f = [off](const auto& gg, const auto& v) { return (int64_t)A::vertex_id(gg, v) * 64 + (int64_t)A::degree(gg, v) + off; };
  auto want = [&](Id v) { return (int64_t)v * 64 + (int64_t)R.k[v] + off; };
  auto find = [&](Id v) { return *A::find_vertex(g, v); };
  for (auto u : A::vertices(g)) {
    auto id = A::vertex_id(g, u);
    const Row* r = R.r[id]; size_t k = R.k[id];
    auto full = [&](auto&& v) { yields(v, k, [&](size_t i, auto&& x) { CHECK((Id)x.target_id == r[i].t && x.target == find(r[i].t), "neighbors"); }); };
    auto fullf = [&](auto&& v) { yields(v, k, [&](size_t i, auto&& x) { CHECK((Id)x.target_id == r[i].t && x.target == find(r[i].t) && x.value == want(r[i].t), "neighbors with a function"); }); };
    auto basic = [&](auto&& v) { yields(v, k, [&](size_t i, auto&& x) { CHECK((Id)x.target_id == r[i].t, "basic_neighbors"); }); };
    auto basicf = [&](auto&& v) { yields(v, k, [&](size_t i, auto&& x) { CHECK((Id)x.target_id == r[i].t && x.value == want(r[i].t), "basic_neighbors with a function"); }); };
    full(W::neighbors(g, u)); full(W::out_neighbors(g, u)); fullf(W::neighbors(g, u, f)); fullf(W::out_neighbors(g, u, f));
    basic(W::basic_neighbors(g, id)); basic(W::basic_out_neighbors(g, id)); basicf(W::basic_neighbors(g, id, f)); basicf(W::basic_out_neighbors(g, id, f));
    if constexpr (A::index_adjacency_list<T>) { full(W::neighbors(g, id)); full(W::out_neighbors(g, id)); fullf(W::neighbors(g, id, f)); fullf(W::out_neighbors(g, id, f)); }
    sym_cover("out");
  }
  if constexpr (A::bidirectional_adjacency_list<T>) {
    rows(g, e, m, In, true);
    for (auto u : A::vertices(g)) {
      auto id = A::vertex_id(g, u);
      const Row* r = In.r[id]; size_t k = In.k[id];
      auto full = [&](auto&& v) { yields(v, k, [&](size_t i, auto&& x) { CHECK((Id)x.target_id == r[i].s && x.target == find(r[i].s), "in_neighbors"); }); };
      auto fullf = [&](auto&& v) { yields(v, k, [&](size_t i, auto&& x) { CHECK((Id)x.target_id == r[i].s && x.target == find(r[i].s) && x.value == want(r[i].s), "in_neighbors with a function"); }); };
      auto basic = [&](auto&& v) { yields(v, k, [&](size_t i, auto&& x) { CHECK((Id)x.target_id == r[i].s, "basic_in_neighbors"); }); };
      auto basicf = [&](auto&& v) { yields(v, k, [&](size_t i, auto&& x) { CHECK((Id)x.target_id == r[i].s && x.value == want(r[i].s), "basic_in_neighbors with a function"); }); };
      full(W::in_neighbors(g, u)); fullf(W::in_neighbors(g, u, f));
      if constexpr (A::index_bidirectional_adjacency_list<T>) { full(W::in_neighbors(g, id)); fullf(W::in_neighbors(g, id, f)); basic(W::basic_in_neighbors(g, id)); basicf(W::basic_in_neighbors(g, id, f)); }
    }
  }
}
extern "C" void harness_main() {
#if defined(FAM)
  Digraph d(true); Edge e[96] = {}; size_t m = d.m; for (size_t i = 0; i < m; ++i) e[i] = d.e[i];
#else
  Edge e[NE + 1] = {}; size_t m = any_edges(e, NE, NV - 1, true);
  if (is_csr<G>) for (size_t i = 1; i < m; ++i) sym_assume(e[i - 1].s <= e[i].s);
#endif
  G g; fill<G, int64_t>(g, NV, e, m);
  if (pick_u("const", 0, 1)) look(std::as_const(g), e, m); else look(g, e, m);
}
