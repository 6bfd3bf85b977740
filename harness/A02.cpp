// @run quick NV=3 NE=2 GT=bvov
// @run quick NV=3 NE=2 GT=bvofl EVT=void
// @run quick NV=3 NE=2 GT=bdod
// @run quick NV=2 NE=2 GT=bmov
// @run quick NV=2 NE=2 GT=buov
// @run quick NV=3 NE=2 GT=bvos
// @run quick NV=3 NE=2 GT=bvous
// @run quick NV=3 NE=2 GT=ual
// @run quick NV=7 NE=0 FAM=1 GT=bvol LAZY
// @run quick NV=7 NE=0 FAM=1 GT=ual
// @run quick NV=2 NE=2 GT=bvol
// @run quick NV=2 NE=2 GT=bdov
// @run quick NV=2 NE=2 GT=bmol
// @run quick NV=3 NE=2 GT=bvov IDT=int64_t
// @run quick NV=2 NE=2 GT=bvom
// @run quick NV=2 NE=2 GT=bmom
// @run quick NV=20 NE=0 NMAX=20 FAM=0 GT=bvov
// @run thorough NV=3 NE=3 GT=bvov
// @run thorough NV=3 NE=3 GT=bvol
// @run thorough NV=3 NE=3 GT=bvofl
// @run thorough NV=3 NE=3 GT=bdov EVT=void
// @run thorough NV=3 NE=3 GT=bdod
// @run thorough NV=3 NE=3 GT=bmol
// @run thorough NV=3 NE=3 GT=bmov
// @run thorough NV=3 NE=3 GT=bvos
// @run thorough NV=3 NE=3 GT=bvous
// @run thorough NV=3 NE=3 GT=ual
// @run thorough NV=14 NE=0 NMAX=14 FAM=1 GT=bdov LAZY
// @bounds every graph of at most NE edges over NV vertices (parallel edges and self-loops included) held in the bidirectional container GT or undirected_adjacency_list, or a larger base shape (FAM) with arbitrary extra edges; every vertex and pair of vertices, queried on the graph and on its const reference
// @covers found
// @covers missing
#include "model.hpp"
using namespace graph;
namespace A = graph::adj_list;
#ifndef EVT
#define EVT int64_t
#endif
using G = GRAPH<EVT>;
template <class T> static void query(T& g, const Edge* e, size_t m) {
  using H = std::remove_const_t<T>;
  size_t in_total = 0, out_total = 0;
  for (auto&& v : A::vertices(g)) {
    size_t id = sym_pick((size_t)A::vertex_id(g, v));
    size_t k = 0;
    auto iv = A::in_edges(g, v); auto ii = A::in_edges(g, (Id)id);
    auto j = std::ranges::begin(ii);
    for (auto&& ie : iv) {
      CHECK(j != std::ranges::end(ii) && *j == ie, "in_edges by id and by vertex agree");
      ++j; ++k;
      Id s = (Id)A::source_id(g, ie);
      bool given = false;
      for (size_t i = 0; i < m; ++i) given |= (e[i].s == s && e[i].t == id) || (is_ual<H> && e[i].t == s && e[i].s == id);
      if constexpr (!is_ual<H>) {
        CHECK(given, "an in-edge's source has an edge to the vertex");
        CHECK((Id)A::vertex_id(g, A::source(g, ie)) == s, "source of an in-edge");
        CHECK((size_t)A::target_id(g, ie) == id, "target_id of an in-edge");
        CHECK((size_t)A::vertex_id(g, A::target(g, ie)) == id, "target of an in-edge");
        if constexpr (has_edge_values<H>()) {
          bool val = false; auto w = A::edge_value(g, ie);
          for (size_t i = 0; i < m; ++i) val |= e[i].s == s && e[i].t == id && e[i].w == w;
          CHECK(val, "value of an in-edge");
        }
      }
    }
    CHECK(j == std::ranges::end(ii), "in_edges by id has no more edges");
    CHECK((size_t)A::in_degree(g, v) == k && (size_t)A::in_degree(g, (Id)id) == k, "in_degree");
    in_total += k; out_total += A::degree(g, v);
    size_t want = 0;
    if constexpr (is_ual<H>) { for (size_t i = 0; i < m; ++i) want += e[i].s == id || e[i].t == id; }
    else { Model md; for (size_t i = 0; i < m; ++i) md.add(e[i]); Edge x[96] = {}; want = expected_in_edges<H>(md, id, x); }
    CHECK(k == want, "a vertex's in-edges");
  }
  CHECK(in_total == out_total, "in-degrees and out-degrees have the same sum");
  for (auto&& u : A::vertices(g)) {
    Id uid = (Id)A::vertex_id(g, u);
    for (auto&& v : A::vertices(g)) {
      Id vid = (Id)A::vertex_id(g, v);
      size_t given = 0; for (size_t i = 0; i < m; ++i) given += (e[i].s == uid && e[i].t == vid) || (is_ual<H> && e[i].s == vid && e[i].t == uid);
      CHECK(A::contains_in_edge(g, v, u) == (given > 0), "contains_in_edge of vertices");
      CHECK(A::contains_in_edge(g, vid, uid) == (given > 0), "contains_in_edge of ids");
      CHECK(A::contains_edge(g, u, v) == (given > 0), "contains_edge agrees");
      if (given) {
        auto a = A::find_in_edge(g, v, u); auto b = A::find_in_edge(g, v, uid); auto c = A::find_in_edge(g, vid, uid);
        // find_in_edge's default returns the edge as u's out-edge, a type's own version may return it as v's in-edge
        CHECK(a == b && b == c, "find_in_edge of vertices and of ids agree");
        CHECK((Id)A::source_id(g, a) == uid && (Id)A::target_id(g, a) == vid, "find_in_edge finds an edge from u to v");
        sym_cover("found");
      } else sym_cover("missing");
    }
  }
}
extern "C" void harness_main() {
#if defined(FAM)
  Digraph d(true); Edge e[96]; size_t m = d.m; for (size_t i = 0; i < m; ++i) e[i] = d.e[i];
#else
  Edge e[NE + 1]; size_t m = any_edges(e, NE, NV - 1, true);
#endif
  G g; fill<G, EVT>(g, NV, e, m);
  query(g, e, m);
  query(std::as_const(g), e, m);
}
