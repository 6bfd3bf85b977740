// @run quick NV=3 NE=2 GT=bvov MODE=0
// @run quick NV=3 NE=2 GT=bdod MODE=0 EVT=void
// @run quick NV=3 NE=2 GT=bvofl MODE=0
// @run quick NV=3 NE=2 GT=bmov MODE=0
// @run quick NV=3 NE=2 GT=bvos MODE=0
// @run quick NV=3 NE=2 GT=bvol MODE=1
// @run quick NV=3 NE=2 GT=bdov MODE=1
// @run quick NV=3 NE=2 GT=buov MODE=1 EVT=void
// @run quick NV=3 NE=2 GT=bvous MODE=1
// @run quick NV=7 NE=0 FAM=1 GT=bvov MODE=4 LAZY
// @run quick NV=7 NE=0 FAM=1 GT=bmol MODE=4 LAZY
// @run quick NV=2 NE=2 GT=bvov MODE=0 EVT=Mv
// @run quick NV=2 NE=2 GT=bmol MODE=0 EVT=Mv
// @run quick NV=2 NE=2 GT=bvos MODE=0 EVT=Mv
// @run quick NV=2 NE=2 GT=bmol MODE=1
// @run quick NV=2 NE=2 GT=bmov MODE=1
// @run quick NV=2 NE=2 GT=bdod MODE=1
// @run quick NV=2 NE=2 GT=buov MODE=0
// @run quick NV=3 NE=2 GT=bvov MODE=0 IDT=int64_t
// @run quick NV=3 NE=2 GT=bvom MODE=0
// @run quick NV=3 NE=2 GT=bvoum MODE=1
// @run quick NV=2 NE=2 GT=bmom MODE=0
// @run quick NV=2 NE=2 GT=bmom MODE=1
// @run quick NV=2 NE=2 GT=vom MODE=5
// @run quick NV=3 NE=2 GT=vov MODE=5
// @run quick NV=2 NE=2 GT=vol MODE=5
// @run quick NV=2 NE=2 GT=vofl MODE=5 EVT=void
// @run quick NV=2 NE=2 GT=mos MODE=5
// @run quick NV=2 NE=2 GT=dous MODE=5
// @run quick NV=2 NE=2 GT=uod MODE=5
// @run quick NV=24 NE=0 NMAX=24 FAM=0 GT=bvov MODE=4
// @run quick NV=24 NE=0 NMAX=24 FAM=0 GT=buov MODE=4
// @run thorough NV=3 NE=3 GT=bvov MODE=0
// @run thorough NV=3 NE=3 GT=bvol MODE=0 EVT=void
// @run thorough NV=3 NE=3 GT=bvofl MODE=0
// @run thorough NV=3 NE=3 GT=bmol MODE=0
// @run thorough NV=3 NE=3 GT=bvous MODE=0
// @run thorough NV=3 NE=3 GT=bvofl MODE=1
// @run thorough NV=3 NE=3 GT=bdod MODE=1
// @run thorough NV=4 NE=2 GT=bmov MODE=1
// @run thorough NV=4 NE=3 GT=bvos MODE=1
// @run thorough NV=14 NE=0 NMAX=14 FAM=1 GT=bdov MODE=4 LAZY
// @bounds MODE 0: two successive loads of at most NE edges each over ids below NV (forward range, single-pass range with a vertex count); MODE 5: the library's own traits (in-edges stored as plain edges: counts, values and contains_in_edge); MODE 1: one load of at most NE edges, then copy construction/assignment, move construction/assignment, clear, and a further load of one edge; targets and values symbolic; FAM: larger base shapes
// @covers stored
#include "model.hpp"
using namespace graph;
#ifndef EVT
#define EVT int64_t
#endif
#if MODE == 5 // the library's own traits with Bidirectional = true: in-edges are kept as plain edges
using G = GRAPH<EVT, void, void, true>;
#else
using G = GRAPH<EVT>;
#endif
using CE = CE_t<EVT>;
static constexpr bool KV = map_vertices<G>();
static Mask mentioned(const Edge* e, size_t m) { Mask r = 0; for (size_t i = 0; i < m; ++i) r |= Mask(1) << e[i].s | Mask(1) << e[i].t; return sym_pick(r); }
static void ids_after(Model& md, Mask m) {
  if constexpr (KV) md.ids |= m;
  else while (m > md.ids) md.ids = md.ids << 1 | 1;
}
#if MODE != 5
static void both(G& g, const Model& md) { expect(g, md); expect_in(g, md); expect_in(std::as_const(g), md); }
#endif
static void load(G& g, Model& md, const Edge* e, size_t m, bool once) {
  std::vector<CE> v; for (size_t i = 0; i < m; ++i) { v.push_back(mk_edge<EVT>(e[i])); md.add(e[i]); }
  ids_after(md, mentioned(e, m));
  if (!once) { g.load_edges(v); }
  else { if (!KV) md.upto(NV + 1 > (int)md.n() ? NV + 1 : md.n()); Once<CE> o{v.data(), v.data() + v.size()}; g.load_edges(o, std::identity{}, NV + 1); }
}
extern "C" void harness_main() {
  Model md;
#if MODE == 0
  G g;
  for (int round = 0; round < 2; ++round) {
    Edge e[NE + 1]; size_t m = any_edges(e, NE, NV - 1);
    load(g, md, e, m, pick_u("single pass", 0, 1));
    if (m || !round) both(g, md);
  }
  if (md.m > 1) sym_cover("stored");
#elif MODE == 1
  G g; Edge e[NE + 1]; size_t m = any_edges(e, NE, NV - 1);
  load(g, md, e, m, false);
  Model other; Edge oe{1, 0, 77};
  size_t how = pick_u("operation", 0, 6);
  Edge x{(Id)pick_u("src", 0, NV - 1), (Id)sym_u64("tgt", 0, NV - 1), sym_i64("w", WLO, WHI)};
  auto after = [&](G& h) { both(h, md); load(h, md, &x, 1, false); both(h, md); };
  if (how == 0) { G h(g); both(g, md); Model keep = md; after(h); both(g, keep); }
  else if (how == 1) { G h; load(h, other, &oe, 1, false); h = g; both(g, md); Model keep = md; after(h); both(g, keep); }
  else if (how == 2) { G h(g); Model keep = md; after(g); both(h, keep); }
  else if (how == 3) { G h(std::move(g)); after(h); }
  else if (how == 4) { G h; load(h, other, &oe, 1, false); h = std::move(g); after(h); }
  else if (how == 5) { g.clear(); md = Model(); after(g); }
  else { G h; load(h, other, &oe, 1, false); std::swap(g, h); both(h, md); both(g, other); after(h); }
  if (m) sym_cover("stored");
#elif MODE == 5
  namespace A = graph::adj_list;
  G g;
  for (int round = 0; round < 2; ++round) {
    Edge e[NE + 1]; size_t m = any_edges(e, NE, NV - 1);
    load(g, md, e, m, pick_u("single pass", 0, 1));
  }
  if (pick_u("copy", 0, 1)) { G h(g); g = G(); std::swap(g, h); }
  expect(g, md);
  for (auto&& v : A::vertices(g)) {
    size_t id = sym_pick((size_t)A::vertex_id(g, v));
    Edge x[96] = {}; size_t k = expected_in_edges<G>(md, id, x), j = 0;
    CHECK((size_t)A::in_degree(g, v) == k && (size_t)A::in_degree(g, (Id)id) == k, "in_degree");
    CHECK((size_t)std::ranges::distance(A::in_edges(g, (Id)id)) == k, "in_edges by id");
    for (auto&& ie : A::in_edges(g, v)) {
      CHECK(j < k, "a vertex has no extra in-edges");
      if constexpr (order_kind<G>() != 3 && has_edge_values<G>()) CHECK(A::edge_value(g, ie) == x[j].w, "an in-edge's value");
      ++j;
    }
    CHECK(j == k, "a vertex has all of its in-edges");
    for (auto&& u : A::vertices(g)) {
      size_t uid = sym_pick((size_t)A::vertex_id(g, u)), n = 0;
      for (size_t i = 0; i < md.m; ++i) n += md.e[i].s == uid && md.e[i].t == id;
      CHECK(A::contains_in_edge(g, (Id)id, (Id)uid) == (n > 0) && A::contains_in_edge(g, v, u) == (n > 0), "contains_in_edge");
    }
  }
  if (md.m > 1) sym_cover("stored");
#else
  Digraph d(true);
  G g; Edge e[96]; size_t m = 0;
  for (size_t i = d.m; i-- > 0;) e[m++] = d.e[i]; // sources descending
  load(g, md, e, m, false);
  both(g, md);
  sym_cover("stored");
#endif
}
