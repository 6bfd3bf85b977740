// @run quick NV=3 NE=3 GT=bvov
// @run quick NV=3 NE=2 GT=bdov
// @run quick NV=3 NE=2 GT=bdod
// @run quick NV=3 NE=2 GT=bmov
// @run quick NV=2 NE=3 GT=bvov
// @run quick NV=6 NE=0 FAM=1 GT=bvov
// @run quick NV=2 NE=2 GT=buov
// @run quick NV=3 NE=3 GT=bvov IDT=int64_t
// @run quick NV=3 NE=2 GT=bvom
// @run quick NV=2 NE=2 GT=bmom
// @run quick NV=20 NE=0 NMAX=20 FAM=0 GT=bvov
// @run thorough NV=4 NE=3 GT=bvov
// @run thorough NV=3 NE=4 GT=bdov
// @run thorough NV=8 NE=0 FAM=1 GT=bvov
// @bounds the transpose of every graph of at most NE edges over NV vertices (parallel edges and self-loops included) held in the bidirectional container GT, or of a larger base shape (FAM); the view and a const view
// @covers edge
#include "search.hpp"
#include <graph/views/transpose.hpp>
#include <graph/algorithm/dijkstra_shortest_paths.hpp>
#include <graph/algorithm/breadth_first_search.hpp>
#include <graph/algorithm/connected_components.hpp>
using namespace graph;
using G = GRAPH<int64_t>;
template <class T, class G0> static void look(T& tv, G0& g, const Rows& Out, const Rows& In, size_t m) {
  CHECK(A::num_vertices(tv) == A::num_vertices(g) && A::num_edges(tv) == m, "the same vertices and number of edges");
  CHECK(A::has_edges(tv) == (m > 0), "has_edges");
  size_t n = 0;
  for (auto u : A::vertices(tv)) {
    auto id = A::vertex_id(tv, u); CHECK(id == In.ids[n], "the same vertices in the same order"); ++n;
    CHECK(u == *A::find_vertex(g, id) && *A::find_vertex(tv, id) == u, "find_vertex");
    const Row *o = In.r[id], *i = Out.r[id]; size_t ko = In.k[id], ki = Out.k[id], j = 0;
    for (auto&& e : A::edges(tv, u)) {
      CHECK(j < ko, "edges"); CHECK((Id)A::source_id(tv, e) == id && (Id)A::target_id(tv, e) == o[j].s && A::edge_value(tv, e) == o[j].w, "an edge into the vertex, reversed");
      CHECK(A::target(tv, e) == *A::find_vertex(g, o[j].s), "target");
      CHECK(A::source(tv, e) == u, "source");
      ++j; sym_cover("edge");
    }
    CHECK(j == ko, "edges"); j = 0;
    for (auto&& e : A::in_edges(tv, u)) {
      CHECK(j < ki, "in_edges"); CHECK((Id)A::target_id(tv, e) == id && (Id)A::source_id(tv, e) == i[j].t && A::edge_value(tv, e) == i[j].w, "an edge out of the vertex, reversed"); 
      CHECK(A::source(tv, e) == *A::find_vertex(g, i[j].t), "source of an in-edge");
      CHECK(A::target(tv, e) == u, "target of an in-edge"); ++j;
    }
    CHECK(j == ki, "in_edges");
    CHECK((size_t)A::degree(tv, u) == ko && (size_t)A::in_degree(tv, u) == ki, "degrees");
    CHECK((size_t)A::degree(tv, id) == ko && (size_t)A::in_degree(tv, id) == ki, "degrees by id");
    CHECK((size_t)A::num_edges(tv, u) == ko, "num_edges of a vertex");
    CHECK((size_t)A::num_edges(tv, id) == ko, "num_edges of a vertex by id");
    CHECK((size_t)std::ranges::distance(A::edges(tv, id)) == ko && (size_t)std::ranges::distance(A::in_edges(tv, id)) == ki, "edges by id");
    for (auto v : A::vertices(tv)) {
      auto vid = A::vertex_id(tv, v); bool has = false; int64_t w = 0;
      for (size_t x = 0; x < ko; ++x) if (!has && o[x].s == vid) { has = true; w = o[x].w; }
      CHECK(A::contains_edge(tv, u, v) == has && A::contains_edge(tv, id, vid) == has, "contains_edge");
      if (has) {
        auto e = A::find_vertex_edge(tv, u, v); CHECK((Id)A::target_id(tv, e) == vid && (Id)A::source_id(tv, e) == id && A::edge_value(tv, e) == w, "find_vertex_edge");
        auto f = A::find_vertex_edge(tv, id, vid); CHECK((Id)A::target_id(tv, f) == vid && (Id)A::source_id(tv, f) == id && A::edge_value(tv, f) == w, "find_vertex_edge by id");
      }
    }
    yields(W::incidence(tv, u), ko, [&](size_t k, auto&& x) { CHECK((Id)x.target_id == o[k].s && A::edge_value(tv, x.edge) == o[k].w, "incidence"); });
    yields(W::neighbors(tv, u), ko, [&](size_t k, auto&& x) { CHECK((Id)x.target_id == o[k].s && x.target == *A::find_vertex(g, o[k].s), "neighbors"); });
    yields(W::in_incidence(tv, u), ki, [&](size_t k, auto&& x) { CHECK((Id)x.target_id == i[k].t && A::edge_value(tv, x.edge) == i[k].w, "in_incidence"); });
  }
  CHECK(n == In.n, "every vertex");
  size_t k = 0, all = 0; for (size_t q = 0; q < In.n; ++q) all += In.k[In.ids[q]]; // keyed edge containers keep one of parallel edges
  for (auto&& x : W::edgelist(tv)) { CHECK(k < all, "edgelist"); (void)x; ++k; }
  CHECK(k == all, "edgelist");
}
extern "C" void harness_main() {
#if defined(FAM)
  Digraph d(true); Edge e[96] = {}; size_t m = d.m; for (size_t i = 0; i < m; ++i) e[i] = d.e[i];
#else
  Edge e[NE + 1] = {}; size_t m = any_edges(e, NE, NV - 1, true);
#endif
  G g; fill<G, int64_t>(g, NV, e, m);
  static Rows Out, In; rows(g, e, m, Out, false); rows(g, e, m, In, true);
  auto tv = W::transpose(g);
  look(tv, g, Out, In, m); look(std::as_const(tv), g, Out, In, m);
  auto tt = W::transpose(tv);
  auto swap = [](Rows& r) { for (auto& row : r.r) for (auto& x : row) std::swap(x.s, x.t); };
  swap(Out); swap(In);
  look(tt, g, In, Out, m);
}
