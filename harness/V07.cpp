// @run quick NV=3 NE=3 GT=vov
// @run quick NV=4 NE=3 GT=csr
// @run quick NV=3 NE=2 GT=dofl
// @run quick NV=3 NE=3 GT=bvov
// @run quick NV=3 NE=2 GT=bvofl
// @run quick NV=3 NE=2 GT=ual
// @run quick NV=3 NE=2 GT=vous
// @run quick NV=3 NE=3 GT=vi
// @run quick NV=7 NE=0 FAM=1 GT=csr
// @run quick NV=6 NE=0 FAM=1 GT=bvol
// @run quick NV=4 NE=4 GT=csr
// @run quick NV=14 NE=0 NMAX=14 FAM=0 GT=vov
// @run quick NV=3 NE=3 GT=vov IDT=int32_t
// @run quick NV=3 NE=3 GT=csr IDT=uint8_t
// @run quick NV=3 NE=2 GT=dofl IDT=int64_t
// @run quick NV=24 NE=0 NMAX=24 FAM=0 GT=vov
// @run thorough NV=4 NE=4 GT=vov
// @run thorough NV=4 NE=3 GT=bvov
// @run thorough NV=4 NE=3 GT=dos
// @run thorough NV=8 NE=0 FAM=1 GT=bdov
// @run thorough NV=5 NE=4 GT=csr
// @run thorough NV=30 NE=0 NMAX=30 FAM=0 GT=csr
// @bounds every graph of at most NE edges over NV vertices (cyclic and acyclic, parallel edges and self-loops included) held in the container GT, or a larger base shape (FAM), and the graph without vertices; all forms of vertices_ and edges_topological_sort, safe and not, with and without a value function, over outgoing and (where the container has them) incoming edges; stopped by cancel at any point
// @covers cyclic acyclic edges
#include "search.hpp"
using namespace graph;
using G = GRAPH<int64_t>;
template <class T, bool In> struct Topo {
  T& g; const Walk<T, In>& w; size_t n, stop; int64_t off;
  size_t pos[NV] = {}; Id order[NV] = {}; bool acyclic; Rel cl;
  // the vertices the view yields, each checked for being yielded once; on an acyclic graph each edge leads forward
  template <class V, class F> void vertices_in(V&& view, F value) {
    Mask got = 0; size_t i = 0;
    CHECK(view.size() == n, "size() is the number of vertices"); CHECK(view.num_visited() == 0, "num_visited at the start");
    for (auto&& x : view) {
      Id v = (Id)sym_pick((size_t)A::vertex_id(g, x.vertex));
      CHECK(v < NV && !((got >> v) & 1) && i < n, "a vertex once"); got |= Mask(1) << v;
      CHECK(x.vertex == *A::find_vertex(g, v), "the vertex's descriptor"); value(x, v);
      if (acyclic) CHECK((w.rel.r[v] & got) == 0, "no vertex before its predecessors");
      CHECK(view.num_visited() == i, "num_visited counts the vertices passed"); order[i] = v; pos[v] = i++;
    }
    CHECK(i == n && view.num_visited() == n, "every vertex");
    i = 0; for (auto it = view.begin(); it != view.end(); it++, ++i) { CHECK(i < n && (Id)A::vertex_id(g, (*it).vertex) == order[i], "a second pass is the same"); CHECK(it == it, "equal"); }
    CHECK(i == n, "a second pass is the same");
    i = 0; for (auto&& x : view) { CHECK(i < n && i <= stop, "nothing after cancel"); (void)x; if (sym_pick(i == stop)) { view.cancel(i % 2 ? W::cancel_search::cancel_branch : W::cancel_search::cancel_all); CHECK(view.cancel() != W::cancel_search::continue_search, "cancel()"); } ++i; }
    CHECK(i == (stop < n ? stop + 1 : n), "stopped by cancel");
  }
  // edges grouped by vertex, in the order in which the vertex view yields the vertices
  template <class V, class F> void edges_in(V&& view, F value) {
    size_t at = 0, j = 0, c = 0;
    auto skip = [&] { while (at < n && j == w.k[order[at]]) { ++at; j = 0; } };
    for (auto&& x : view) {
      skip(); CHECK(at < n, "no further edges");
      CHECK(x.edge == w.d[order[at]][j], "the edges in topological order of their vertex"); value(x, order[at], j); ++j; ++c; sym_cover("edges");
    }
    skip(); CHECK(at == n, "every edge");
    size_t i = 0; for (auto it = view.begin(); it != view.end(); it++) ++i;
    CHECK(i == c, "a second pass is the same");
    i = 0; for (auto&& x : view) { CHECK(i <= stop, "nothing after cancel"); (void)x; if (sym_pick(i == stop)) view.cancel(W::cancel_search::cancel_all); ++i; }
    CHECK(i == (stop < c ? stop + 1 : c), "stopped by cancel");
  }
  template <class R, class F> void safe(R&& r, F f) {
    CHECK(r.has_value() == acyclic, "the safe form yields a view exactly when there is no cycle");
    if (r.has_value()) f(*r);
    else { Id v = (Id)sym_pick((size_t)A::vertex_id(g, r.error())); CHECK(v < NV && cl.has(v, v), "the reported vertex is on a cycle"); }
  }
  void all() {
    cl = closure(w.rel, false); acyclic = true; for (Id v = 0; v < n; ++v) if (cl.has(v, v)) acyclic = false;
    if (acyclic) sym_cover("acyclic"); else sym_cover("cyclic");
    Deg vf{off}; Wgt ef{off}; std::allocator<bool> al; (void)al;
    auto no = [](auto&&...) {};
    auto vv = [&](auto&& x, Id v) { CHECK(x.value == (int64_t)v * 64 + (int64_t)w.deg[v] + off, "the vertex's value"); };
    auto ev = [&](auto&& x, Id u, size_t j) { CHECK(x.value == w.w[u][j] + off, "the edge's value"); };
    using Acc = typename Walk<T, In>::Acc;
    if constexpr (!In) {
      vertices_in(W::vertices_topological_sort(g), no); vertices_in(W::vertices_topological_sort(g, vf), vv);
      edges_in(W::edges_topological_sort(g), no); edges_in(W::edges_topological_sort(g, ef), ev);
      vertices_in(W::vertices_topological_sort(g, vf, al), vv); edges_in(W::edges_topological_sort(g, ef, al), ev);
      safe(W::vertices_topological_sort_safe(g), [&](auto& v) { vertices_in(v, no); }); safe(W::vertices_topological_sort_safe(g, vf), [&](auto& v) { vertices_in(v, vv); });
      safe(W::edges_topological_sort_safe(g), [&](auto& v) { edges_in(v, no); }); safe(W::edges_topological_sort_safe(g, ef), [&](auto& v) { edges_in(v, ev); });
    } else {
      vertices_in(W::vertices_topological_sort<Acc>(g), no); vertices_in(W::vertices_topological_sort<Acc>(g, vf), vv);
      edges_in(W::edges_topological_sort<Acc>(g), no); edges_in(W::edges_topological_sort<Acc>(g, ef), ev);
      safe(W::vertices_topological_sort_safe<Acc>(g), [&](auto& v) { vertices_in(v, no); }); safe(W::vertices_topological_sort_safe<Acc>(g, vf), [&](auto& v) { vertices_in(v, vv); });
      safe(W::edges_topological_sort_safe<Acc>(g), [&](auto& v) { edges_in(v, no); }); safe(W::edges_topological_sort_safe<Acc>(g, ef), [&](auto& v) { edges_in(v, ev); });
    }
  }
};
template <class T> static void look(T& g, const Edge* e, size_t m) {
  size_t stop = sym_u64("stop", 0, NV + 1);
  int64_t off = sym_i64("offset", -(1ll << 40), 1ll << 40);
  { Walk<T, false> w(g, e, m); Topo<T, false>{g, w, NV, stop, off}.all(); }
  if constexpr (A::bidirectional_adjacency_list<T> && !is_ual<T>) { Walk<T, true> w(g, e, m); Topo<T, true>{g, w, NV, stop, off}.all(); }
}
extern "C" void harness_main() {
#if defined(FAM)
  Digraph d(true); Edge e[96] = {}; size_t m = d.m; for (size_t i = 0; i < m; ++i) e[i] = d.e[i];
#else
  Edge e[NE + 1] = {}; size_t m = any_edges(e, NE, NV - 1, true);
  if (is_csr<G>) for (size_t i = 1; i < m; ++i) sym_assume(e[i - 1].s <= e[i].s);
#endif
  G g;
  if (m == 0 && pick_u("no vertices", 0, 1)) {
    for (auto&& x : W::vertices_topological_sort(g)) { (void)x; CHECK(false, "no vertices"); }
    for (auto&& x : W::edges_topological_sort(g)) { (void)x; CHECK(false, "no edges"); }
    CHECK(W::vertices_topological_sort_safe(g).has_value(), "no cycle"); return;
  }
  fill<G, int64_t>(g, NV, e, m);
  look(g, e, m);
}
