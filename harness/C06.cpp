// @run quick NV=3 NE=2 STEPS=2
// @run quick NV=3 NE=3 STEPS=1
// @run quick NV=3 NE=4 STEPS=1 ERASE
// @run quick NV=2 NE=2 STEPS=2 WHI=100 EVT=int8_t
// @run quick NV=1 NE=3 STEPS=3
// @run quick NV=2 NE=2 STEPS=1 EVT=Mv
// @run thorough NV=3 NE=3 STEPS=2
// @run thorough NV=2 NE=2 STEPS=3
// @run thorough NV=4 NE=2 STEPS=2
// @run thorough NV=4 NE=4 STEPS=1 ERASE
// @run thorough NV=2 NE=4 STEPS=2 ERASE
// @run thorough NV=2 NE=5 STEPS=2 ERASE
// @bounds NV vertices, every sequence of at most NE create_edge calls (self-loops and parallel edges included), then STEPS further operations, each any of: create_vertex, create_edge by id / by iterator (value moved or copied), value write, erase at any position of any vertex's list, erase of any subrange of it, erase through the graph's edge iterator, clear_edges of any vertex, clear (ERASE: only the erasing ones); values are symbolic
// @covers erased
#include "gen.hpp"
using namespace graph;
#ifndef EVT
#define EVT int64_t
#endif
#ifdef ERASE
#define FIRST 5
#else
#define FIRST 0
#endif
using G = G_ual<EVT, int64_t>;
#include "ual.hpp"
static void make(G& g, Ref& r, Id a, Id b, int how) {
  int64_t w = sym_i64("w", WLO, WHI);
  auto ia = g.begin() + a, ib = g.begin() + b;
  typename G::vertex_edge_iterator it;
  if constexpr (EVV) {
    const int64_t cw = w;
    if (how == 0) it = g.create_edge(a, b, std::move(w)); else if (how == 1) it = g.create_edge(ia, ib, std::move(w));
    else if (how == 2) it = g.create_edge(a, b, cw); else if (how == 3) it = g.create_edge(ia, ib, cw);
    else if (how == 4) it = g.create_edge(a, b); else it = g.create_edge(ia, ib);
    w = how < 4 ? cw : 0;
  } else { it = how % 2 ? g.create_edge(ia, ib) : g.create_edge(a, b); w = 0; }
  r.add(a, b, w);
  CHECK(is_edge(*it, r.e[r.m - 1]) && it.source_id() == a, "the iterator of a created edge");
}
extern "C" void harness_main() {
  Ref r;
  {
    G g;
    for (size_t i = 0; i < NV; ++i) { int64_t v = sym_i64("vv", 0, WHI); if (i & 1) { const int64_t c = v; g.create_vertex(c); } else g.create_vertex(int64_t(v)); r.val[r.n++] = v; }
    size_t m = pick_u("m", 0, NE);
    for (size_t i = 0; i < m; ++i) { Id a = (Id)pick_u("a", 0, NV - 1), b = (Id)pick_u("b", 0, NV - 1); make(g, r, a, b, 0); }
    both(g, r);
    for (int s = 0; s < STEPS; ++s) {
      size_t op = pick_u("operation", FIRST, 9);
      if (op == 0) { int64_t v = sym_i64("vv", 0, WHI); auto it = pick_u("value", 0, 1) ? g.create_vertex(int64_t(v)) : (v = 0, g.create_vertex()); r.val[r.n++] = v; CHECK(it == g.begin() + (r.n - 1), "the iterator of a created vertex"); }
      else if (op == 1 || op == 2) {
        sym_assume(r.n > 0);
        Id a = (Id)pick_u("a", 0, r.n - 1), b = (Id)pick_u("b", 0, r.n - 1);
        make(g, r, a, b, (int)pick_u("how", op == 1 ? 1 : 3, EVV ? (op == 1 ? 2 : 5) : (op == 1 ? 1 : 4)));
      }
      else if (op == 3 || op == 4) { // writes
        sym_assume(r.n > 0);
        Id u = (Id)pick_u("u", 0, r.n - 1);
        int64_t v = sym_i64("new value", 0, WHI);
        if (op == 3) { adj_list::vertex_value(g, *adj_list::find_vertex(g, u)) = v; r.val[u] = v; }
        else {
          size_t l[16], k = r.list(u, l); sym_assume(k > 0);
          size_t i = pick_u("position", 0, k - 1), j = 0;
          if constexpr (EVV) for (auto&& uv : adj_list::edges(g, u)) if (j++ == i) { adj_list::edge_value(g, uv) = v; r.e[l[i]].w = v; }
        }
      }
      else if (op == 5 || op == 6 || op == 8) {
        sym_assume(r.n > 0);
        Id u = (Id)pick_u("u", 0, r.n - 1);
        size_t l[16], k = r.list(u, l);
        auto& V = g.vertices()[u];
        if (op == 8) { V.clear_edges(g); for (size_t i = k; i-- > 0;) r.del(l[i]); if (k) sym_cover("erased"); }
        else {
          size_t i = pick_u("from", 0, op == 5 ? (k ? k - 1 : 0) : k), j = op == 5 ? i + 1 : pick_u("to", i, k);
          sym_assume(op == 6 || k > 0);
          auto f = V.edges_begin(g, u); for (size_t x = 0; x < i; ++x) ++f;
          auto t = f; for (size_t x = i; x < j; ++x) ++t;
          auto ret = op == 5 ? V.erase_edge(g, f) : V.erase_edge(g, f, t);
          if (j == k) CHECK(ret == V.edges_end(g, u), "the erased edge was last");
          else CHECK(ret != V.edges_end(g, u) && is_edge(*ret, r.e[l[j]]), "erase returns the edge after");
          for (size_t x = j; x-- > i;) r.del(l[x]);
          sym_cover("erased");
        }
      }
      else if (op == 7) {
        size_t arcs = 0; Live flat[32]; size_t idx[32];
        for (Id u = 0; u < r.n; ++u) { size_t l[16], k = r.list(u, l); for (size_t i = 0; i < k; ++i) { idx[arcs] = l[i]; flat[arcs++] = r.e[l[i]]; } }
        sym_assume(arcs > 0);
        size_t i = pick_u("position", 0, arcs - 1);
        auto it = g.edges().begin(); for (size_t x = 0; x < i; ++x) ++it;
        size_t nx = i + 1; while (nx < arcs && idx[nx] == idx[i]) ++nx;
        auto ret = g.erase_edge(it);
        if (nx == arcs) CHECK(ret == g.edges().end(), "the erased edge was the last one");
        else CHECK(ret != g.edges().end() && is_edge(*ret, flat[nx]), "erase returns an edge that follows");
        r.del(idx[i]);
        sym_cover("erased");
      }
      else { g.clear(); r = Ref(); }
      both(g, r);
    }
  }
  CHECK(sym_live() == 0, "all memory is released");
}
