// @run quick NV=3 NE=4 MODE=0 LAZY
// @run quick NV=3 NE=4 MODE=0 LAZY EVT=void
// @run quick NV=3 NE=4 MODE=1 LAZY
// @run quick NV=3 NE=4 MODE=2 LAZY
// @run quick NV=4 NE=3 MODE=2 LAZY EVT=void
// @run quick NV=3 NE=4 MODE=3 LAZY
// @run quick NV=3 NE=3 MODE=4 LAZY
// @run quick NV=3 NE=4 MODE=5 LAZY
// @run quick NV=3 NE=4 MODE=6 LAZY
// @run quick NV=3 NE=0 MODE=7 NARROW=300
// @run quick NV=9 NE=0 FAM=2 MODE=0 LAZY
// @run quick NV=3 NE=3 MODE=0 LAZY EVT=Mv
// @run quick NV=3 NE=3 MODE=2 LAZY EVT=Mv
// @run quick NV=3 NE=2 MODE=4 LAZY EVT=Mv
// @run quick NV=24 NE=0 NMAX=24 FAM=0 MODE=1
// @run thorough NV=4 NE=6 MODE=0 LAZY
// @run thorough NV=4 NE=6 MODE=2 LAZY
// @run thorough NV=4 NE=5 MODE=5 LAZY
// @run thorough NV=4 NE=5 MODE=6 LAZY
// @run thorough NV=4 NE=5 MODE=3 LAZY
// @run thorough NV=16 NE=0 NMAX=16 FAM=2 MODE=1 LAZY
// @bounds at most NE edges with ids below NV (sources in order; self-loops, parallel edges, gaps), symbolic targets and values, vertex_count 0..NV+1; MODE 0/1 load_edges from a non-const/const vector, 2 construction with a projection, 3 load_edges from a std::forward_list, 4 initializer list, 5/6 edges in any order given to a constructor/const range, 7 NARROW edges in a graph with 8-bit vertex ids; FAM: larger base shapes plus FAM edges
// @covers stored
#include "model.hpp"
using namespace graph;
#ifndef EVT
#define EVT int64_t
#endif
using G = G_csr<EVT>;
using CE = graph::copyable_edge_t<Id, EVT>;
template <class C = CE> static C mk(Edge x) { if constexpr (std::is_void_v<EVT>) return C{x.s, x.t}; else return C{x.s, x.t, x.w}; }
template <class H> static void ids_agree(const H& g, const Model& md) { // edge ids
  size_t at = 0;
  for (size_t u = 0; u < md.n(); ++u) {
    for (auto id : g.edge_ids((Id)u)) {
      CHECK(id == at, "edge ids are consecutive");
      CHECK(at < md.m && g.target_id(id) == md.e[at].t && md.e[at].s == u, "target_id(edge id)");
      if constexpr (has_edge_values<H>()) CHECK(g.edge_value(id) == md.e[at].w, "edge_value(edge id)");
      ++at;
    }
  }
  CHECK(at == md.m && g.edge_ids().size() == md.m, "edge_ids() covers all edges");
  CHECK(g.vertex_ids().size() == md.n() && g.size() == md.n() && g.empty() == (md.n() == 0), "vertex_ids() covers all vertices");
}
#if MODE == 7
extern "C" void harness_main() { // more edges than a vertex id can count
  using H = graph::container::compressed_graph<int64_t, void, void, uint8_t, uint16_t>;
  std::vector<graph::copyable_edge_t<uint8_t, int64_t>> v;
  size_t k = pick_u("k", 0, 2);
  Id t[3]; int64_t w[3];
  for (int i = 0; i < 3; ++i) { t[i] = (Id)sym_u64("t", 0, 2); w[i] = sym_i64("w", 0, 1000); }
  for (size_t i = 0; i < NARROW; ++i) v.push_back({(uint8_t)(i < NARROW - 2 ? 0 : k), (uint8_t)t[i % 3], w[i % 3] + (int64_t)i});
  H g(v, std::identity{});
  CHECK(adj_list::num_edges(g) == NARROW, "num_edges");
  size_t i = 0;
  for (auto&& u : adj_list::vertices(g))
    for (auto&& uv : adj_list::edges(g, u)) {
      CHECK(adj_list::vertex_id(g, u) == v[i].source_id, "an edge's source");
      CHECK(adj_list::target_id(g, uv) == v[i].target_id, "an edge's target");
      CHECK(adj_list::edge_value(g, uv) == v[i].value, "an edge's value");
      CHECK(adj_list::edge_value(std::as_const(g), uv) == v[i].value, "an edge's value, const");
      CHECK(g.edge_value((uint16_t)i) == v[i].value && g.target_id((uint16_t)i) == v[i].target_id, "lookup by edge id");
      ++i;
    }
  CHECK(i == NARROW, "all edges are stored");
  sym_cover("stored");
}
#else
extern "C" void harness_main() {
  Model md;
  std::vector<CE> v;
  size_t n = 0;
  bool sorted = true;
#if MODE == 5 || MODE == 6
  size_t m = pick_u("m", 0, NE);
  for (size_t i = 0; i < m; ++i) {
    Edge x{(Id)pick_u("src", 0, NV - 1), (Id)sym_u64("tgt", 0, NV - 1), sym_i64("w", WLO, WHI)};
    if (i && x.s < md.e[i - 1].s) sorted = false;
    md.add(x);
  }
#else
  Digraph d(true);
  for (size_t i = 0; i < d.m; ++i) md.add(d.e[i]);
#endif
  for (size_t i = 0; i < md.m; ++i) { v.push_back(mk(md.e[i])); Id x = md.e[i].s > md.e[i].t ? md.e[i].s : md.e[i].t; if (x + 1 > n) n = x + 1; }
  size_t vc = 0;
#if MODE == 0 || MODE == 1 || MODE == 3 || MODE == 6
  vc = pick_u("vertex_count", 0, NV + 1);
#endif
  if (vc > n) n = vc;
  md.upto(sym_pick(n));
  auto check = [&](G& g) { expect(g, md); ids_agree(g, md); if (md.m) sym_cover("stored"); for (auto&& u : adj_list::vertices(g)) for (auto&& uv : adj_list::edges(g, u)) sym_observe("t", adj_list::target_id(g, uv)); };
#if MODE == 0
  G g; g.load_edges(v, std::identity{}, vc, pick_u("edge_count", 0, 1) * md.m); check(g);
#elif MODE == 1
  G g; g.load_edges(std::as_const(v), std::identity{}, vc); check(g);
#elif MODE == 2
  struct Mine { Id from; int pad; Id to; int64_t w; };
  std::vector<Mine> r;
  for (size_t i = 0; i < md.m; ++i) r.push_back({md.e[i].s, 7, md.e[i].t, md.e[i].w});
  G g(r, [](const Mine& x) { return mk({x.from, x.to, x.w}); }); check(g);
#elif MODE == 3
  std::forward_list<CE> f(v.begin(), v.end());
  G g; if (pick_u("const", 0, 1)) g.load_edges(std::as_const(f), std::identity{}, vc); else g.load_edges(f, std::identity{}, vc);
  check(g);
#elif MODE == 4
  if (md.m == 0) { G g({}); md.ids = 0; check(g); }
  else if (md.m == 1) { G g({v[0]}); check(g); }
  else if (md.m == 2) { G g({v[0], v[1]}); check(g); }
  else { G g({v[0], v[1], v[2]}); check(g); }
#elif MODE == 5 || MODE == 6
  bool threw = false;
  try {
#if MODE == 5
    G g(v, std::identity{});
#else
    G g; g.load_edges(std::as_const(v), std::identity{}, vc);
#endif
    CHECK(sorted, "an edge list not ordered by source is rejected");
    check(g);
  } catch (const graph::graph_error&) { threw = true; sym_cover("rejected"); }
  CHECK(threw == !sorted, "an edge list ordered by source is accepted");
#endif
}
#endif
