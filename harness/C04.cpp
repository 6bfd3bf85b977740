// @run quick NV=3 NE=2 GT=vos MODE=0
// @run quick NV=2 NE=2 GT=dous MODE=0 EVT=void
// @run quick NV=3 NE=2 GT=vom MODE=0
// @run quick NV=2 NE=2 GT=voum MODE=0
// @run quick NV=3 NE=2 GT=mov MODE=1
// @run quick NV=3 NE=2 GT=uofl MODE=1 EVT=void
// @run quick NV=3 NE=2 GT=mos MODE=1
// @run quick NV=3 NE=2 GT=uous MODE=1
// @run quick NV=3 NE=2 GT=mom MODE=1
// @run quick NV=3 NE=3 GT=dos MODE=2
// @run quick NV=3 NE=3 GT=mol MODE=2
// @run quick NV=3 NE=2 GT=uod MODE=2
// @run quick NV=7 NE=0 FAM=1 GT=vos MODE=4 LAZY
// @run quick NV=7 NE=0 FAM=1 GT=mom MODE=4 LAZY
// @run quick NV=2 NE=2 GT=mov MODE=1 EVT=Mv
// @run quick NV=2 NE=2 GT=vom MODE=0 EVT=Mv
// @run quick NV=2 NE=2 GT=vous MODE=0
// @run quick NV=2 NE=2 GT=mofl MODE=1
// @run quick NV=2 NE=2 GT=mous MODE=1
// @run quick NV=2 NE=2 GT=mod MODE=1
// @run quick NV=2 NE=2 GT=uov MODE=1
// @run quick NV=2 NE=2 GT=uol MODE=1
// @run quick NV=2 NE=2 GT=uos MODE=1
// @run quick NV=2 NE=2 GT=vos MODE=0 IDT=int32_t
// @run quick NV=2 NE=2 GT=dous MODE=0 EVT=void IDT=int64_t
// @run quick NV=2 NE=2 GT=mov MODE=1 IDT=int32_t
// @run quick NV=2 NE=2 GT=uos MODE=1 IDT=int16_t
// @run quick NV=24 NE=0 NMAX=24 FAM=0 GT=uov MODE=4
// @run quick NV=24 NE=0 NMAX=24 FAM=0 GT=mol MODE=4
// @run thorough NV=3 NE=3 GT=vos MODE=0
// @run thorough NV=3 NE=2 GT=dous MODE=0 EVT=void
// @run thorough NV=3 NE=2 GT=voum MODE=0
// @run thorough NV=3 NE=3 GT=dous MODE=0
// @run thorough NV=3 NE=3 GT=vom MODE=0
// @run thorough NV=3 NE=3 GT=dos MODE=0 EVT=void
// @run thorough NV=4 NE=3 GT=voum MODE=0
// @run thorough NV=3 NE=3 GT=mol MODE=1
// @run thorough NV=3 NE=3 GT=mous MODE=1
// @run thorough NV=3 NE=3 GT=uov MODE=1
// @run thorough NV=3 NE=3 GT=mom MODE=1
// @run thorough NV=3 NE=3 GT=uos MODE=1
// @run thorough NV=3 NE=3 GT=mod MODE=2
// @run thorough NV=3 NE=3 GT=vous MODE=2
// @run thorough NV=12 NE=0 NMAX=12 FAM=1 GT=uos MODE=4 LAZY
// @bounds MODE 0: indexed vertices and keyed edges, two successive loads of at most NE edges each over ids below NV; MODE 1: keyed vertices (ids 0,13,26,..: NV of them), vertices and edges loaded in either order, then every lookup of every id below 64; MODE 2: constructors; targets and values symbolic; FAM: larger base shapes
// @covers stored
#include "model.hpp"
using namespace graph;
#ifndef EVT
#define EVT int64_t
#endif
#if MODE == 1 || MODE == 2
using G = GRAPH<EVT, int64_t>;
#else
using G = GRAPH<EVT>;
#endif
using CE = CE_t<EVT>;
using CV = copyable_vertex_t<Id, int64_t>;
static constexpr bool KV = map_vertices<G>();
static constexpr Id STEP = MODE != 4 && KV ? 13 : 1; // keyed vertices: ids with gaps
static Mask mentioned(const Edge* e, size_t m) { Mask r = 0; for (size_t i = 0; i < m; ++i) r |= Mask(1) << e[i].s | Mask(1) << e[i].t; return sym_pick(r); }
static void ids_after(Model& md, Mask m) {
  if constexpr (KV) md.ids |= m;
  else while (m > md.ids) md.ids = md.ids << 1 | 1;
}
static size_t any_e(Edge* e) {
  size_t m = pick_u("m", 0, NE);
  for (size_t i = 0; i < m; ++i) {
    e[i] = {(Id)(pick_u("src", 0, NV - 1) * STEP), (Id)(sym_u64("tgt", 0, NV - 1) * STEP), sym_i64("w", WLO, WHI)};
  }
  return m;
}
template <class H> static void lookups(H& g, const Model& md) {
  const H& c = g;
  Id id = (Id)(pick_u("probe", 0, NV) * STEP + pick_u("off by one", 0, KV && STEP > 1 ? 1 : 0));
  bool has = md.ids >> id & 1;
  CHECK(c.contains_vertex(id) == has, "contains_vertex");
  auto vs = adj_list::vertices(g); auto cvs = adj_list::vertices(c);
  auto it = adj_list::find_vertex(g, id);
  auto ci = adj_list::find_vertex(c, id);
  CHECK((it != std::ranges::end(vs)) == has, "find_vertex");
  CHECK((ci != std::ranges::end(cvs)) == has, "find_vertex, const");
  CHECK((g.try_find_vertex(id) != g.end()) == has && (c.try_find_vertex(id) != c.end()) == has, "try_find_vertex");
  if (has) {
    CHECK((Id)adj_list::vertex_id(g, *it) == id && (Id)adj_list::vertex_id(c, *ci) == id, "find_vertex finds the vertex with that id");
    if constexpr (map_vertices<H>()) CHECK(g.try_find_vertex(id)->first == id, "try_find_vertex finds the vertex with that id");
    CHECK(&g.vertex_at(id) == &c.vertex_at(id), "vertex_at");
    size_t k = 0, want = 0; Edge x[96];
    for (auto&& uv : g.vertex_at(id).edges()) { (void)uv; ++k; }
    want = expected_edges<G>(md, sym_pick(id), x);
    CHECK(k == want, "vertex_at(id) has that vertex's edges");
  } else {
    bool threw = false;
    try { (void)g.vertex_at(id); } catch (const std::out_of_range&) { threw = true; }
    CHECK(threw, "vertex_at throws for an unknown id");
    threw = false;
    try { (void)c.vertex_at(id); } catch (const std::out_of_range&) { threw = true; }
    CHECK(threw, "vertex_at throws for an unknown id, const");
  }
  if constexpr (std::is_signed_v<Id>) {
    const Id neg = (Id)-1; bool threw = false;
    CHECK(!c.contains_vertex(neg) && g.try_find_vertex(neg) == g.end() && c.try_find_vertex(neg) == c.end(), "no vertex has a negative id");
    CHECK(adj_list::find_vertex(g, neg) == std::ranges::end(vs) && adj_list::find_vertex(c, neg) == std::ranges::end(cvs), "no vertex has a negative id");
    try { (void)g.vertex_at(neg); } catch (const std::out_of_range&) { threw = true; }
    CHECK(threw, "vertex_at throws for a negative id");
  }
  if constexpr (requires { g[id]; }) {
    bool threw = false;
    try { CHECK(&g[id] == &g.vertex_at(id) && &c[id] == &c.vertex_at(id), "operator[]"); } catch (const std::out_of_range&) { threw = true; }
    CHECK(threw == !has, "operator[] throws for an unknown id");
  }
  CHECK((size_t)c.size() == md.n() && std::distance(g.begin(), g.end()) == (ptrdiff_t)md.n() && std::distance(c.cbegin(), c.cend()) == (ptrdiff_t)md.n(), "size, begin, end");
  g.reserve_vertices(3); g.reserve_edges(9); g.resize_edges(1); // change nothing
  CHECK(adj_list::num_vertices(c) == md.n(), "lookups add no vertex");
  if (id == 0) expect_graph(c, md);
}
template <class H> static void expect_values(H& g, const std::vector<CV>& vs) {
  if constexpr (!std::is_void_v<typename H::graph_traits::vertex_value_type>)
    for (auto&& u : adj_list::vertices(g)) {
      Id id = (Id)adj_list::vertex_id(g, u);
      int64_t want = 0;
      for (auto& x : vs) want = x.id == id ? x.value : want;
      CHECK(adj_list::vertex_value(g, u) == want, "a vertex's value");
    }
}
extern "C" void harness_main() {
  Model md;
#if MODE == 0
  G g;
  for (int round = 0; round < 2; ++round) {
    Edge e[NE + 1]; size_t m = any_e(e);
    std::vector<CE> v; for (size_t i = 0; i < m; ++i) { v.push_back(mk_edge<EVT>(e[i])); md.add(e[i]); }
    size_t how = pick_u("range", 0, 1);
    ids_after(md, mentioned(e, m));
    if (how == 0) g.load_edges(v);
    else { size_t n = NV + 1; md.upto(n); Once<CE> o{v.data(), v.data() + v.size()}; g.load_edges(o, std::identity{}, n); }
    expect(g, md);
  }
  lookups(g, md);
  if (md.m > 1) sym_cover("stored");
#elif MODE == 1
  G g;
  Edge e[NE + 1]; size_t m = any_e(e);
  std::vector<CE> v; for (size_t i = 0; i < m; ++i) v.push_back(mk_edge<EVT>(e[i]));
  std::vector<CV> vs; size_t k = pick_u("entries", 0, 2);
  for (size_t i = 0; i < k; ++i) vs.push_back({(Id)(pick_u("id", 0, NV) * STEP), sym_i64("value", -100, 100)});
  bool first = pick_u("vertices first", 0, 1);
  auto lv = [&] { std::vector<CV> c = vs; if (first) g.load_vertices(std::as_const(c)); else g.load_vertices(std::move(c)); for (auto& x : vs) md.ids |= Mask(1) << x.id; };
  if (first) { lv(); expect(g, md); }
  if (m && pick_u("single pass", 0, 1)) { Once<CE> o{v.data(), v.data() + v.size()}; g.load_edges(o); } else g.load_edges(v);
  for (size_t i = 0; i < m; ++i) md.add(e[i]);
  ids_after(md, mentioned(e, m));
  if (!first) { expect(g, md); lv(); }
  expect(g, md); expect_values(g, vs); lookups(g, md);
  if (m && k) sym_cover("stored");
#elif MODE == 2
  Edge e[NE + 1]; size_t m = any_e(e);
  std::vector<CE> v; for (size_t i = 0; i < m; ++i) { v.push_back(mk_edge<EVT>(e[i])); md.add(e[i]); }
  struct Mine { int64_t w; Id to, from; };
  std::vector<Mine> r; for (size_t i = 0; i < m; ++i) r.push_back({e[i].w, e[i].t, e[i].s});
  auto proj = [](const Mine& x) { return mk_edge<EVT>({x.from, x.to, x.w}); };
  ids_after(md, mentioned(e, m));
  if (m) sym_cover("stored");
  size_t how = pick_u("constructor", 0, 2);
  if (how == 0) {
    std::vector<CV> vs; for (Id i = 0; i < NV; ++i) vs.push_back({(Id)((NV - 1 - i) * STEP), sym_i64("value", -100, 100)});
    for (auto& x : vs) md.ids |= Mask(1) << x.id;
    G g(r, vs, proj, std::identity{}, std::vector<Id>());
    expect(g, md); expect_values(g, vs); lookups(g, md);
  } else if (how == 1) {
    if (m == 1) { G g({v[0]}); expect(g, md); lookups(g, md); }
    else if (m == 2) { G g({v[0], v[1]}); expect(g, md); lookups(g, md); }
    else if (m == 3) { G g({v[0], v[1], v[2]}); expect(g, md); lookups(g, md); }
  } else {
    if constexpr (KV) { G g(0, r, proj, std::vector<Id>()); expect(g, md); lookups(g, md); }
    else { G g((Id)NV, r, proj, std::vector<Id>()); md.upto(NV + 1); expect(g, md); lookups(g, md); }
  }
#else
  Digraph d(true);
  std::vector<CE> v;
  Edge e[96]; size_t m = 0;
  for (size_t i = d.m; i-- > 0;) { md.add(d.e[i]); e[m++] = d.e[i]; v.push_back(mk_edge<EVT>(d.e[i])); } // sources descending
  v.push_back(v[0]); // a repeated key
  if constexpr (!std::is_void_v<EVT>) v.back().value = sym_i64("other", WLO, WHI);
  ids_after(md, mentioned(e, m));
  if constexpr (order_kind<G>() < 3) md.add({v.back().source_id, v.back().target_id, v.back().value});
  G g; g.load_edges(v);
  expect(g, md); lookups(g, md);
  sym_cover("stored");
#endif
}
