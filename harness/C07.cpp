// @run quick NV=3 NE=2 MODE=0
// @run quick NV=2 NE=4 MODE=0
// @run quick NV=2 NE=3 MODE=0 GVT=int64_t
// @run quick NV=3 NE=3 MODE=1
// @run quick NV=3 NE=3 MODE=1 GVT=int64_t
// @run quick NV=2 NE=2 MODE=0 EVT=Mv
// @run quick NV=2 NE=2 MODE=1 EVT=Mv
// @run thorough NV=3 NE=3 MODE=0
// @run thorough NV=3 NE=3 MODE=0 GVT=int64_t
// @run thorough NV=3 NE=4 MODE=0
// @run thorough NV=4 NE=3 MODE=0
// @run thorough NV=2 NE=5 MODE=0
// @run thorough NV=4 NE=3 MODE=1
// @run thorough NV=4 NE=3 MODE=1 GVT=int64_t
// @bounds MODE 0: every graph of NV vertices made by at most NE create_edge calls and at most one erase, then any of copy construction, copy assignment, self-assignment, move construction, move assignment, member swap, std::swap onto/with a graph that already has edges, then one further mutation of either graph, then one more assignment; MODE 1: construction (graph value given) from every sorted range of at most NE edges with and without vertices, and from initializer lists. Order within a copied vertex's list is not part of the property. Values symbolic
// @covers done
#include "gen.hpp"
using namespace graph;
#ifndef EVT
#define EVT int64_t
#endif
#ifndef GVT
#define GVT void
#endif
using G = G_ual<EVT, int64_t, GVT>;
#include "ual.hpp"
static constexpr bool GVV = !std::is_void_v<GVT>;
static int64_t serial = 0;
static int64_t value() { return 16 * sym_i64("w", 0, 1 << 20) + serial++; }
struct Pair { Ref r; int64_t gv = 0; };
template <class GG> static void set_gv(GG& g, Pair& p, int64_t v) { if constexpr (GVV) { g.graph_value() = v; p.gv = v; } }
template <class GG> static void ok(GG& g, const Pair& p) {
  same(g, p.r); same(std::as_const(g), p.r);
  if constexpr (GVV) CHECK(g.graph_value() == p.gv && std::as_const(g).graph_value() == p.gv && graph_value(g) == p.gv, "the graph's value");
}
static void mkv(G& g, Pair& p) { int64_t v = sym_i64("vv", 0, WHI); g.create_vertex(int64_t(v)); p.r.val[p.r.n++] = v; }
static void mke(G& g, Pair& p, Id a, Id b) { int64_t w = value(); g.create_edge(a, b, int64_t(w)); p.r.add(a, b, w); }
static void drop(G& g, Pair& p, Id u) { // erases the first edge in u's list
  auto& V = g.vertices()[u];
  auto it = V.edges_begin(g, u);
  if (it == V.edges_end(g, u)) return;
  size_t at = 99; int64_t tag = it->value() & 15;
  for (size_t i = 0; i < p.r.m; ++i) if ((p.r.e[i].w & 15) == tag) at = i;
  CHECK(at < p.r.m, "an edge of the graph");
  V.erase_edge(g, it); p.r.del(at);
}
static void mutate(G& g, Pair& p) {
  if (!p.r.n) { mkv(g, p); return; }
  switch (pick_u("mutation", 0, 4)) {
  case 0: mke(g, p, 0, (Id)p.r.n - 1); break;
  case 1: drop(g, p, (Id)pick_u("at", 0, p.r.n - 1)); break;
  case 2: { int64_t v = sym_i64("vv", 0, WHI); g.vertices()[p.r.n - 1].value() = v; p.r.val[p.r.n - 1] = v; break; }
  case 3: g.clear(); p.r.n = p.r.m = 0; break;
  case 4: set_gv(g, p, 99); for (auto&& u : adj_list::vertices(g)) for (auto&& uv : adj_list::edges(g, u)) { int64_t tag = adj_list::edge_value(g, uv) & 15; for (size_t i = 0; i < p.r.m; ++i) if ((p.r.e[i].w & 15) == tag) { p.r.e[i].w = 160 + tag; adj_list::edge_value(g, uv) = 160 + tag; break; } } break;
  }
}
template <class G> static void body() {
  {
#if MODE == 0
  G g; Pair p;
  for (size_t i = 0; i < NV; ++i) mkv(g, p);
  size_t m = pick_u("m", 0, NE);
  for (size_t i = 0; i < m; ++i) { Id a = (Id)pick_u("a", 0, NV - 1), b = (Id)pick_u("b", 0, NV - 1); mke(g, p, a, b); }
  size_t x = pick_u("erase", 0, NV); if (x < NV) drop(g, p, (Id)x);
  set_gv(g, p, sym_i64("gv", 0, WHI));
  G h; Pair q; mkv(h, q); mkv(h, q); mke(h, q, 0, 1); mke(h, q, 1, 1); set_gv(h, q, sym_i64("gv", 0, WHI));
  Pair c = p; c.r.any_order = true;
  size_t op = pick_u("operation", 0, 8);
  if (op == 0) { G k(g); ok(k, c); ok(g, p); if (pick_u("which", 0, 1)) mutate(k, c); else mutate(g, p); ok(k, c); ok(g, p); h = k; ok(h, c); ok(k, c); }
  else if (op == 1) { h = g; ok(h, c); ok(g, p); if (pick_u("which", 0, 1)) mutate(h, c); else mutate(g, p); ok(h, c); ok(g, p); G k = std::move(h); ok(k, c); }
  else if (op == 2) { G& same_graph = g; g = same_graph; ok(g, p); g = std::move(same_graph); ok(g, p); mutate(g, p); ok(g, p); }
  else if (op == 3) { G k(std::move(g)); ok(k, p); g = h; q.r.any_order = true; ok(g, q); mutate(k, p); ok(k, p); ok(g, q); }
  else if (op == 4) { h = std::move(g); ok(h, p); mutate(h, p); ok(h, p); g = std::move(h); ok(g, p); }
  else if (op == 5) { g.swap(h); ok(g, q); ok(h, p); mutate(h, p); mutate(g, q); ok(g, q); ok(h, p); }
  else if (op == 6) { std::swap(g, h); ok(g, q); ok(h, p); mutate(h, p); mutate(g, q); ok(g, q); ok(h, p); }
  else if (op == 7) { G e; Pair z; if (pick_u("way", 0, 1)) e = g; else { g.swap(e); std::swap(g, e); g.swap(e); c = p; } ok(e, c); if (pick_u("then", 0, 1)) { G y; e = y; if constexpr (GVV) z.gv = 0; ok(e, z); } else { e = h; q.r.any_order = true; ok(e, q); } }
  else { std::vector<G> v; v.push_back(g); v.push_back(std::move(h)); v.push_back(std::move(g)); ok(v[0], c); ok(v[1], q); ok(v[2], p); v.erase(v.begin()); ok(v[0], q); ok(v[1], p); }
  sym_cover("done");
#else
  std::vector<copyable_edge_t<Id, int64_t>> ev; Pair p, s;
  size_t m = pick_u("m", 0, NE);
  size_t n = pick_u("vertices", 0, NV);
  Id top = 0, src = 0;
  for (size_t i = 0; i < m; ++i) {
    src = (Id)pick_u("src", src, NV - 1);
    Id t = (Id)pick_u("tgt", 0, NV - 1); int64_t w = value();
    ev.push_back({src, t, w}); p.r.add(src, t, w); top = std::max({top, src, t});
  }
  size_t nv = std::max<size_t>(n, m ? top + 1 : 0);
  std::vector<copyable_vertex_t<Id, int64_t>> vv;
  for (size_t i = 0; i < nv; ++i) p.r.val[i] = i < n ? sym_i64("vv", 0, WHI) : 0;
  for (Id i = 0; i < n; ++i) vv.push_back({i, p.r.val[i]});
  p.r.n = nv;
  size_t how = pick_u("constructor", GVV ? 0 : 2, 2);
  if (how == 0) {
    if constexpr (GVV) { int64_t gv = p.gv = sym_i64("gv", 0, WHI); G g(ev, vv, std::identity{}, std::identity{}, gv); ok(g, p); mutate(g, p); ok(g, p); }
  } else if (how == 1) {
    p.r.n = m ? top + 1 : 0; for (auto& v : p.r.val) v = 0;
    if constexpr (GVV) { int64_t gv = p.gv = sym_i64("gv", 0, WHI); G g(ev, std::identity{}, gv); ok(g, p); mutate(g, p); ok(g, p); }
  } else {
    sym_assume(m > 0);
    p.r.n = top + 1; for (auto& v : p.r.val) v = 0;
    auto rev = [&] { for (size_t i = 0; i < m; ++i) p.r.e[i] = {ev[m - 1 - i].source_id, ev[m - 1 - i].target_id, ev[m - 1 - i].value}; };
    rev(); // initializer lists need not be sorted
    using T = std::tuple<Id, Id, int64_t>;
    auto at = [&](size_t i) { return T{p.r.e[i].a, p.r.e[i].b, p.r.e[i].w}; };
    if (m == 1) { G g({at(0)}); ok(g, p); mutate(g, p); ok(g, p); }
    else if (m == 2) { G g({at(0), at(1)}); ok(g, p); mutate(g, p); ok(g, p); }
    else { G g({at(0), at(1), at(2)}); ok(g, p); mutate(g, p); ok(g, p); }
  }
  sym_cover("done");
#endif
  }
  CHECK(sym_live() == 0, "all memory is released");
}
extern "C" void harness_main() { body<G>(); }
