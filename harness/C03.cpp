// @run quick NV=3 NE=2 GT=vov MODE=0
// @run quick NV=3 NE=2 GT=vofl MODE=0 EVT=void
// @run quick NV=3 NE=2 GT=dol MODE=0
// @run quick NV=3 NE=2 GT=dod MODE=0 EVT=void
// @run quick NV=3 NE=2 GT=vov MODE=1
// @run quick NV=3 NE=2 GT=dofl MODE=1
// @run quick NV=3 NE=2 GT=vol MODE=1 EVT=void
// @run quick NV=3 NE=3 GT=vod MODE=2
// @run quick NV=3 NE=3 GT=dov MODE=2
// @run quick NV=4 NE=2 NP=3 GT=vov MODE=3
// @run quick NV=9 NE=0 FAM=2 GT=vov MODE=4 LAZY
// @run quick NV=9 NE=0 FAM=1 GT=dofl MODE=4 LAZY
// @run quick NV=3 NE=2 GT=vov MODE=0 EVT=Mv
// @run quick NV=3 NE=2 GT=dofl MODE=2 EVT=Mv
// @run quick NV=3 NE=2 GT=vov MODE=0 IDT=int32_t
// @run quick NV=3 NE=2 GT=vov MODE=0 EVT=Mv IDT=uint16_t
// @run quick NV=3 NE=2 GT=dol MODE=0 IDT=int64_t
// @run quick NV=24 NE=0 NMAX=24 FAM=0 GT=vov MODE=4
// @run thorough NV=3 NE=3 GT=vov MODE=0
// @run thorough NV=3 NE=3 GT=dofl MODE=0
// @run thorough NV=3 NE=3 GT=vod MODE=0 EVT=void
// @run thorough NV=3 NE=3 GT=dol MODE=1
// @run thorough NV=4 NE=3 GT=vol MODE=1
// @run thorough NV=4 NE=4 GT=vofl MODE=2
// @run thorough NV=4 NE=4 GT=dov MODE=2 EVT=void
// @run thorough NV=4 NE=3 NP=4 GT=dod MODE=3
// @run thorough NV=16 NE=0 NMAX=16 FAM=2 GT=vol MODE=4 LAZY
// @bounds ids below NV, symbolic targets and values; MODE 0: two successive load_edges of at most NE edges each in any order, from a vector, forward_list or single-pass range, with any vertex_count up to NV+1; MODE 1: vertex values (ids up to NV) loaded before or after at most NE edges; MODE 2: the constructors (ranges with projections, vertex limit, initializer list, graph value); MODE 3: partition start ids; FAM: larger base shapes
// @covers stored
#include "model.hpp"
using namespace graph;
#ifndef EVT
#define EVT int64_t
#endif
#if MODE == 1 || MODE == 2
using G = GRAPH<EVT, int64_t>;
#else
using G = GRAPH<EVT>;
#endif
using CE = CE_t<EVT>;
using CV = copyable_vertex_t<Id, int64_t>;
static size_t top_id(const Edge* e, size_t m) { size_t n = 0; for (size_t i = 0; i < m; ++i) { Id x = e[i].s > e[i].t ? e[i].s : e[i].t; if (x + 1 > n) n = x + 1; } return n; }
template <class H> static void expect_values(H& g, const std::vector<CV>& vs) {
  for (auto&& u : adj_list::vertices(g)) {
    Id id = (Id)adj_list::vertex_id(g, u);
    int64_t want = 0;
    for (auto& x : vs) want = x.id == id ? x.value : want;
    CHECK(adj_list::vertex_value(g, u) == want, "a vertex's value");
    CHECK(adj_list::vertex_value(std::as_const(g), u) == want, "a vertex's value, const");
    CHECK(g[id].value() == want, "a vertex's value by id");
  }
}
extern "C" void harness_main() {
  Model md;
#if MODE == 0
  G g;
  size_t n = 0;
  for (int round = 0; round < 2; ++round) {
    Edge e[NE + 1]; size_t m = any_edges(e, NE, NV - 1);
    std::vector<CE> v; for (size_t i = 0; i < m; ++i) v.push_back(mk_edge<EVT>(e[i]));
    size_t how = pick_u("range", 0, 2), vc = pick_u("vertex_count", 0, round ? 1 : 2) * 2;
    size_t need = top_id(e, m);
    if (vc > n) n = vc;
    bool fits = need <= n, threw = false;
    if (how != 2 && vc == 0) { if (need > n) n = need; fits = true; }
    n = sym_pick(n);
    try {
      if (how == 0) g.load_edges(v, std::identity{}, vc, pick_u("hint", 0, 1) * 2);
      else if (how == 1) { std::forward_list<CE> f(v.begin(), v.end()); g.load_edges(f, std::identity{}, vc); }
      else { Once<CE> o{v.data(), v.data() + v.size()}; g.load_edges(o, std::identity{}, vc); }
    } catch (const std::runtime_error&) { threw = true; sym_cover("rejected"); }
    CHECK(threw == !fits, "an edge is rejected exactly when an id is not below the number of vertices");
    if (threw) return;
    for (size_t i = 0; i < m; ++i) md.add(e[i]);
    md.upto(n);
    expect(g, md);
    if (round && md.m > 1) sym_cover("stored");
  }
#elif MODE == 1
  std::vector<CV> vs; size_t n = 0;
  G g;
  Edge e[NE + 1]; size_t m = any_edges(e, NE, NV - 1);
  std::vector<CE> v; for (size_t i = 0; i < m; ++i) { v.push_back(mk_edge<EVT>(e[i])); md.add(e[i]); }
  bool first = pick_u("vertices first", 0, 1);
  if (!first) { g.load_edges(v); n = sym_pick(top_id(e, m)); }
  size_t k = pick_u("entries", 0, 2), vc = pick_u("vertex_count", 0, 1) * 3;
  for (size_t i = 0; i < k; ++i) vs.push_back({(Id)sym_u64("id", 0, NV), sym_i64("value", -100, 100)});
  size_t room = n; if (vc > room) room = vc; if (k > room) room = k;
  bool fits = true; for (auto& x : vs) fits = fits & (x.id < room);
  bool threw = false;
  try {
    std::vector<CV> copy = vs;
    size_t how = pick_u("const", 0, 2);
    struct V2 { int64_t x; Id i; };
    if (how == 0) g.load_vertices(std::as_const(copy), std::identity{}, vc);
    else if (how == 1) g.load_vertices(std::move(copy), std::identity{}, vc);
    else { std::vector<V2> r; for (auto& x : vs) r.push_back({x.value, x.id}); g.load_vertices(r, [](const V2& x) { return CV{x.i, x.x}; }, vc); }
  } catch (const std::out_of_range&) { threw = true; sym_cover("rejected"); }
  CHECK(threw == !fits, "a vertex value is rejected exactly when its id is not below the number of vertices");
  if (threw) return;
  n = room;
  if (first) { g.load_edges(v); size_t t = sym_pick(top_id(e, m)); if (t > n) n = t; }
  md.upto(n);
  expect(g, md); expect_values(g, vs);
  if (m && k) sym_cover("stored");
  g.reserve_vertices(20); g.reserve_edges(20); g.resize_vertices(n + 1); md.upto(n + 1); // one more vertex, nothing else changes
  expect(g, md); expect_values(g, vs);
  CHECK((size_t)g.size() == n + 1 && std::distance(g.begin(), g.end()) == (ptrdiff_t)n + 1 && std::distance(std::as_const(g).cbegin(), std::as_const(g).cend()) == (ptrdiff_t)n + 1, "size, begin, end");
#elif MODE == 2
  Edge e[NE + 1]; size_t m = any_edges(e, NE, NV - 1);
  std::vector<CE> v; for (size_t i = 0; i < m; ++i) { v.push_back(mk_edge<EVT>(e[i])); md.add(e[i]); }
  size_t n = top_id(e, m);
  struct Mine { int64_t w; Id to, from; };
  std::vector<Mine> r; for (size_t i = 0; i < m; ++i) r.push_back({e[i].w, e[i].t, e[i].s});
  auto proj = [](const Mine& x) { return mk_edge<EVT>({x.from, x.to, x.w}); };
  size_t how = pick_u("constructor", 0, 3);
  if (m) sym_cover("stored");
  if (how == 0) { // vertices and edges
    std::vector<CV> vs; for (Id i = 0; i < NV; ++i) vs.push_back({NV - 1 - i, sym_i64("value", -100, 100)});
    G g(r, vs, proj, std::identity{}, std::vector<Id>());
    md.upto(NV); expect(g, md); expect_values(g, vs);
  } else if (how == 1) { // largest id and edges
    Id top = (Id)pick_u("max id", 0, NV);
    bool threw = false;
    try { G g(top, r, proj, std::vector<Id>()); md.upto(top + 1); expect(g, md); expect_values(g, {}); } catch (const std::runtime_error&) { threw = true; sym_cover("rejected"); }
    CHECK(threw == (n > top + 1), "an edge is rejected exactly when an id exceeds the largest id given");
    CHECK(r.size() == m, "the input is still there");
    for (size_t i = 0; i < m; ++i) CHECK(r[i].w == e[i].w && r[i].to == e[i].t && r[i].from == e[i].s, "the input is unchanged");
  } else if (how == 2) { // initializer list
    md.upto(sym_pick(n));
    if (m == 1) { G g({v[0]}); expect(g, md); }
    else if (m == 2) { G g({v[0], v[1]}); expect(g, md); }
    else if (m == 3) { G g({v[0], v[1], v[2]}); expect(g, md); }
  } else { // graph value
    using H = GRAPH<EVT, int64_t, int64_t>;
    int64_t gv = sym_i64("graph value", -9, 9);
    H g(gv);
    CHECK(g.graph_value() == gv && adj_list::graph_value(g) == gv, "graph_value");
    g.load_edges(v); md.upto(sym_pick(n)); expect(g, md); expect_values(g, {});
    CHECK(std::as_const(g).graph_value() == gv && adj_list::graph_value(std::as_const(g)) == gv, "graph_value, const");
    if (m == 2) { H h(gv, {v[0], v[1]}); expect(h, md); CHECK(h.graph_value() == gv, "graph_value"); }
  }
#elif MODE == 3
  Edge e[NE + 1]; size_t m = any_edges(e, NE, NV - 1, false);
  std::vector<CE> v; for (size_t i = 0; i < m; ++i) { v.push_back(mk_edge<EVT>(e[i])); md.add(e[i]); }
  std::vector<Id> parts; size_t np = pick_u("parts", 0, NP);
  for (size_t i = 0; i < np; ++i) parts.push_back((Id)sym_u64("start", 0, NV + 1));
  bool valid = true;
  for (size_t i = 0; i < np; ++i) valid = valid && (i == 0 ? parts[0] == 0 : parts[i] > parts[i - 1]) && parts[i] <= NV;
  bool threw = false;
  try { G g((Id)(NV - 1), v, std::identity{}, parts); md.upto(NV); expect(g, md); if (m) sym_cover("stored"); } catch (const std::invalid_argument&) { threw = true; sym_cover("rejected"); }
  CHECK(threw == !valid, "partition start ids are rejected exactly when they are invalid");
#else
  Digraph d(true);
  std::vector<CE> v;
  for (size_t i = d.m; i-- > 0;) { md.add(d.e[i]); v.push_back(mk_edge<EVT>(d.e[i])); } // sources descending
  G g; g.load_edges(v);
  md.upto(sym_pick(top_id(md.e, md.m)));
  expect(g, md);
  sym_cover("stored");
#endif
}
