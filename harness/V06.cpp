// @run quick NV=3 NE=3 GT=vov
// @run quick NV=3 NE=2 GT=csr CUT
// @run quick NV=3 NE=2 GT=bvov CUT
// @run quick NV=3 NE=2 GT=ual CUT
// @run quick NV=4 NE=3 GT=csr
// @run quick NV=3 NE=2 GT=dofl CUT
// @run quick NV=3 NE=3 GT=bvol
// @run quick NV=3 NE=3 GT=ual
// @run quick NV=3 NE=2 GT=vous
// @run quick NV=3 NE=3 GT=vi
// @run quick NV=6 NE=0 FAM=0 GT=vov CUT
// @run quick NV=5 NE=0 FAM=0 GT=ual CUT
// @run quick NV=7 NE=0 FAM=1 GT=csr SEEDS
// @run quick NV=7 NE=0 FAM=1 GT=bdov SEEDS
// @run quick NV=4 NE=4 GT=csr
// @run quick NV=4 NE=3 GT=csr CUT
// @run quick NV=4 NE=3 GT=bvov CUT
// @run quick NV=3 NE=3 GT=vov IDT=int32_t
// @run quick NV=3 NE=2 GT=csr CUT IDT=uint8_t
// @run quick NV=3 NE=2 GT=bvov CUT IDT=int64_t
// @run quick NV=24 NE=0 NMAX=24 FAM=0 GT=vov SEEDS
// @run thorough NV=4 NE=3 GT=ual CUT
// @run thorough NV=4 NE=3 GT=dos
// @run thorough NV=4 NE=3 GT=vom
// @run thorough NV=7 NE=0 FAM=1 GT=bvol
// @run thorough NV=8 NE=0 FAM=1 GT=ual SEEDS
// @run thorough NV=14 NE=0 NMAX=14 FAM=0 GT=vov CUT
// @run thorough NV=5 NE=4 GT=csr
// @run thorough NV=5 NE=3 GT=vov CUT
// @run thorough NV=30 NE=0 NMAX=30 FAM=0 GT=csr SEEDS
// @bounds every graph of at most NE edges over NV vertices (parallel edges and self-loops included) held in the container GT, or a larger base shape (FAM); every seed (SEEDS: the first, middle and last), given by id and by descriptor; with and without a value function; vertices_dfs and edges_dfs, over outgoing and (where the container has them) incoming edges. CUT: any set of vertices at which the search is told cancel_branch, and cancel_all at any point; without CUT the search runs to its end
// @covers end edges
#include "search.hpp"
using namespace graph;
using G = GRAPH<int64_t>;
#ifdef CUT
static constexpr bool cut = true;
#else
static constexpr bool cut = false;
#endif
template <class T, bool In> struct Dfs {
  T& g; const Walk<T, In>& w; Id s; Mask C; size_t stop; int64_t off;
  Id v_[NV] = {}, p_[NV] = {}; size_t j_[NV] = {}, dep[NV] = {}, k = 0; Mask got = 0;
  bool cancelled(Id v) { return cut && sym_pick((C >> v) & 1); }
  bool stops(size_t n) { return cut && sym_pick(stop == n); }
  // the search by its definition: an edge is followed, in stored order, if it leads to a vertex not yet visited; a cancelled vertex isn't expanded (the seed is only yielded by the vertex views)
  void visit(Id u, size_t depth, bool expand) {
    if (!expand) return;
    for (size_t j = 0; j < w.k[u]; ++j) {
      Id v = w.nb[u][j]; if ((got >> v) & 1) continue;
      got |= Mask(1) << v; v_[k] = v; p_[k] = u; j_[k] = j; dep[k] = depth + 1; ++k;
      visit(v, depth + 1, !cancelled(v));
    }
  }
  void plan(bool edges) { k = 0; got = Mask(1) << s; if (!edges) { v_[k] = s; dep[k] = 0; ++k; } visit(s, 0, edges || !cancelled(s)); }
  template <class V, class F> void vertices_in(V&& view, F value) {
    plan(false); size_t n = 0; bool done = false;
    CHECK(view.cancel() == W::cancel_search::continue_search && view.depth() == 1 && view.num_visited() == 0, "before the first step");
    for (auto&& x : view) {
      CHECK(!done, "nothing after cancel_all"); CHECK(n < k, "no further vertices");
      CHECK((Id)A::vertex_id(g, x.vertex) == v_[n] && x.vertex == *A::find_vertex(g, v_[n]), "the next vertex of the depth-first order");
      value(x, v_[n]);
      CHECK(view.depth() == dep[n] + 1, "depth is the depth of the stack"); CHECK(view.num_visited() == n, "num_visited counts the vertices yielded after the seed"); ++n;
      if (stops(n)) { view.cancel(W::cancel_search::cancel_all); CHECK(view.cancel() == W::cancel_search::cancel_all, "cancel()"); done = true; }
      else if (cancelled(v_[n - 1])) view.cancel(W::cancel_search::cancel_branch);
    }
    CHECK(view.begin() == view.end(), "at the end");
    if (done) return;
    CHECK(n == k && view.num_visited() == n - 1, "every vertex of the search"); CHECK(view.depth() == 0, "the stack is empty in the end"); sym_cover("end");
  }
  template <class V, class F> void edges_in(V&& view, F value) {
    plan(true); size_t n = 0; bool done = false;
    CHECK(view.cancel() == W::cancel_search::continue_search && view.num_visited() == 0, "before the first step");
    for (auto&& x : view) {
      CHECK(!done, "nothing after cancel_all"); CHECK(n < k, "no further edges");
      CHECK(x.edge == w.d[p_[n]][j_[n]], "the next edge of the depth-first tree"); value(x, p_[n], j_[n]);
      CHECK(view.depth() == dep[n] + 1, "depth is the depth of the stack"); ++n; CHECK(view.num_visited() == n, "num_visited counts the edges yielded");
      sym_cover("edges");
      if (stops(n)) { view.cancel(W::cancel_search::cancel_all); CHECK(view.cancel() == W::cancel_search::cancel_all, "cancel()"); done = true; }
      else if (cancelled(v_[n - 1])) view.cancel(W::cancel_search::cancel_branch);
    }
    if (done) return;
    CHECK(n == k, "every edge of the depth-first tree"); CHECK(view.depth() == 0, "the stack is empty in the end");
  }
  // going through it with post-increment passes as many elements
  template <class V> void post(V&& view, size_t k) {
    size_t i = 0; auto it = view.begin(), first = it; CHECK(it == first, "an iterator equals its copy"); CHECK((it == view.end()) == (k == 0), "an iterator that has not reached the end");
    for (; it != view.end(); it++) ++i;
    CHECK(i == k && view.begin() == view.end(), "post-increment");
  }
  void all() {
    Deg vf{off}; Wgt ef{off}; auto seed = *A::find_vertex(g, s);
    auto no = [](auto&&...) {};
    auto vv = [&](auto&& x, Id v) { CHECK(x.value == (int64_t)v * 64 + (int64_t)w.deg[v] + off, "the vertex's value"); };
    auto ev = [&](auto&& x, Id u, size_t j) { CHECK(x.value == w.w[u][j] + off, "the edge's value"); };
    using Acc = typename Walk<T, In>::Acc; using VId = A::vertex_id_t<T>;
    if constexpr (!In) {
      vertices_in(W::vertices_dfs(g, VId(s)), no); vertices_in(W::vertices_dfs(g, seed, vf), vv);
      edges_in(W::edges_dfs(g, VId(s)), no); edges_in(W::edges_dfs(g, seed, ef), ev);
      if (!cut) {
        size_t r = popc(ball(w.rel, Mask(1) << s, NV)); std::allocator<bool> al;
        post(W::vertices_dfs(g, VId(s), al), r); post(W::vertices_dfs(g, seed, vf, al), r); post(W::edges_dfs(g, VId(s), al), r - 1); post(W::edges_dfs(g, seed, ef, al), r - 1);
        vertices_in(W::vertices_dfs(g, seed), no); vertices_in(W::vertices_dfs(g, VId(s), vf), vv); edges_in(W::edges_dfs(g, seed), no); edges_in(W::edges_dfs(g, VId(s), ef), ev); }
    }
    if (!cut || In) {
      vertices_in(W::vertices_dfs<Acc>(g, seed), no); vertices_in(W::vertices_dfs<Acc>(g, VId(s), vf), vv);
      edges_in(W::edges_dfs<Acc>(g, seed), no); edges_in(W::edges_dfs<Acc>(g, VId(s), ef), ev);
    }
  }
};
template <class T> static void look(T& g, const Edge* e, size_t m) {
#ifdef SEEDS
  Id s = (Id[]){0, NV / 2, NV - 1}[pick_u("seed", 0, 2)];
#else
  Id s = (Id)pick_u("seed", 0, NV - 1);
#endif
  Mask C = cut ? sym_u64("cancel", 0, (1ull << NV) - 1) : 0;
  size_t stop = cut ? sym_u64("stop", 0, NV) : 0;
  int64_t off = sym_i64("offset", -(1ll << 40), 1ll << 40);
  { Walk<T, false> w(g, e, m); Dfs<T, false>{g, w, s, C, stop, off}.all(); }
  if constexpr (A::bidirectional_adjacency_list<T>) { Walk<T, true> w(g, e, m); Dfs<T, true>{g, w, s, C, stop, off}.all(); }
}
extern "C" void harness_main() {
#if defined(FAM)
  Digraph d(true); Edge e[96] = {}; size_t m = d.m; for (size_t i = 0; i < m; ++i) e[i] = d.e[i];
#else
  Edge e[NE + 1] = {}; size_t m = any_edges(e, NE, NV - 1, true);
  if (is_csr<G>) for (size_t i = 1; i < m; ++i) sym_assume(e[i - 1].s <= e[i].s);
#endif
  G g; fill<G, int64_t>(g, NV, e, m);
  look(g, e, m);
}
