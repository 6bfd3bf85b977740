// @run quick NV=3 NE=3 GT=vov
// @run quick NV=3 NE=2 GT=csr CUT
// @run quick NV=3 NE=2 GT=bvov CUT
// @run quick NV=3 NE=2 GT=ual CUT
// @run quick NV=4 NE=3 GT=csr
// @run quick NV=3 NE=2 GT=dofl CUT
// @run quick NV=3 NE=3 GT=bvol
// @run quick NV=3 NE=3 GT=ual
// @run quick NV=3 NE=2 GT=vous
// @run quick NV=3 NE=3 GT=vi
// @run quick NV=6 NE=0 FAM=0 GT=vov CUT
// @run quick NV=5 NE=0 FAM=0 GT=ual CUT
// @run quick NV=7 NE=0 FAM=1 GT=csr SEEDS
// @run quick NV=7 NE=0 FAM=1 GT=bdov SEEDS
// @run quick NV=4 NE=4 GT=csr
// @run quick NV=4 NE=3 GT=csr CUT
// @run quick NV=3 NE=3 GT=vov IDT=int32_t
// @run quick NV=3 NE=2 GT=csr CUT IDT=uint8_t
// @run quick NV=3 NE=2 GT=bvov CUT IDT=int64_t
// @run thorough NV=4 NE=3 GT=bvov CUT
// @run thorough NV=4 NE=3 GT=ual CUT
// @run thorough NV=4 NE=3 GT=dos
// @run thorough NV=4 NE=3 GT=vom
// @run thorough NV=7 NE=0 FAM=1 GT=bvol
// @run thorough NV=8 NE=0 FAM=1 GT=ual SEEDS
// @run thorough NV=14 NE=0 NMAX=14 FAM=0 GT=vov CUT
// @run thorough NV=5 NE=4 GT=csr
// @run thorough NV=5 NE=3 GT=vov CUT
// @run thorough NV=16 NE=0 NMAX=16 FAM=0 GT=csr SEEDS
// @bounds every graph of at most NE edges over NV vertices (parallel edges and self-loops included) held in the container GT, or a larger base shape (FAM); every seed (SEEDS: the first, middle and last), given by id and by descriptor; with and without a value function; vertices_bfs and edges_bfs, over outgoing and (where the container has them) incoming edges. CUT: any set of vertices at which the search is told cancel_branch, and cancel_all at any point; without CUT the search runs to its end
// @covers end edges
#include "search.hpp"
using namespace graph;
using G = GRAPH<int64_t>;
#ifdef CUT
static constexpr bool cut = true;
#else
static constexpr bool cut = false;
#endif
template <class T, bool In> struct Bfs {
  T& g; const Walk<T, In>& w; Id s; Mask C; size_t stop; int64_t off;
  Rel pruned; Mask got = 0; size_t n = 0, last = 0;
  size_t level(Id v) { size_t k = 0; while (!((ball(pruned, Mask(1) << s, k) >> v) & 1)) { CHECK(k < NV, "only vertices reachable through vertices not cancelled"); ++k; } return k; }
  bool cancelled(Id v) { return cut && sym_pick((C >> v) & 1); }
  bool stops() { return cut && sym_pick(stop == n); }
  void reset() { pruned = w.rel; for (Id v = 0; v < NV; ++v) if (cancelled(v)) pruned.r[v] = 0; got = Mask(1) << s; n = last = 0; }
  void at(Id v) { size_t l = level(v); CHECK(l >= last, "in order of distance"); last = l; }
  template <class V, class F> void vertices_in(V&& view, F value) {
    reset(); got = 0; bool done = false; Mask disc = Mask(1) << s;
    CHECK(view.cancel() == W::cancel_search::continue_search, "cancel() at the start");
    for (auto&& x : view) {
      CHECK(!done, "nothing after cancel_all");
      Id v = (Id)sym_pick((size_t)A::vertex_id(g, x.vertex));
      CHECK(v < NV && !((got >> v) & 1), "a vertex once"); got |= Mask(1) << v;
      CHECK(x.vertex == *A::find_vertex(g, v), "the vertex's descriptor");
      if (n == 0) CHECK(v == s, "the seed first");
      at(v); value(x, v);
      // discovered: what the vertices before this one lead to
      CHECK(view.num_visited() == popc(disc) - 1, "num_visited counts the vertices discovered after the seed");
      size_t far = 0; for (Id y = 0; y < NV; ++y) if ((disc >> y) & 1) { size_t l = level(y); if (l > far) far = l; }
      CHECK(view.depth() == far, "depth is the deepest level discovered"); ++n;
      if (stops()) { view.cancel(W::cancel_search::cancel_all); CHECK(view.cancel() == W::cancel_search::cancel_all, "cancel()"); done = true; }
      else if (cancelled(v)) view.cancel(W::cancel_search::cancel_branch);
      disc |= pruned.r[v];
    }
    CHECK(view.begin() == view.end(), "at the end");
    if (done) return;
    CHECK(got == ball(pruned, Mask(1) << s, NV), "every vertex reachable through vertices not cancelled");
    CHECK(view.depth() == last && view.num_visited() == n - 1, "depth and num_visited at the end");
    sym_cover("end");
  }
  template <class V, class F> void edges_in(V&& view, F value) {
    reset(); bool done = false; pruned.r[s] = w.rel.r[s];
    CHECK(view.cancel() == W::cancel_search::continue_search && view.num_visited() == 0, "before the first step");
    for (auto&& x : view) {
      CHECK(!done, "nothing after cancel_all");
      Id u = 0; size_t j = 0; w.find(x.edge, u, j); Id v = w.nb[u][j];
      CHECK((got >> u) & 1, "an edge leaves a vertex already reached");
      CHECK(!((got >> v) & 1), "an edge to a vertex not yet reached"); got |= Mask(1) << v;
      CHECK(u == s || !cancelled(u), "no edge of a cancelled branch");
      at(v); CHECK(level(u) + 1 == last, "from one level up");
      value(x, u, j); ++n; sym_cover("edges");
      CHECK(view.depth() == last && view.num_visited() == n, "depth and num_visited");
      if (stops()) { view.cancel(W::cancel_search::cancel_all); CHECK(view.cancel() == W::cancel_search::cancel_all, "cancel()"); done = true; }
      else if (cancelled(v)) view.cancel(W::cancel_search::cancel_branch);
    }
    if (done) return;
    CHECK(got == ball(pruned, Mask(1) << s, NV), "an edge to every vertex reachable through vertices not cancelled");
  }
  // going through it with post-increment passes as many elements
  template <class V> void post(V&& view, size_t k) {
    size_t i = 0; auto it = view.begin(), first = it; CHECK(it == first, "an iterator equals its copy"); CHECK((it == view.end()) == (k == 0), "an iterator that has not reached the end");
    for (; it != view.end(); it++) ++i;
    CHECK(i == k && view.begin() == view.end(), "post-increment");
  }
  void all() {
    Deg vf{off}; Wgt ef{off}; auto seed = *A::find_vertex(g, s);
    auto no = [](auto&&...) {};
    auto vv = [&](auto&& x, Id v) { CHECK(x.value == (int64_t)v * 64 + (int64_t)w.deg[v] + off, "the vertex's value"); };
    auto ev = [&](auto&& x, Id u, size_t j) { CHECK(x.value == w.w[u][j] + off, "the edge's value"); };
    using Acc = typename Walk<T, In>::Acc; using VId = A::vertex_id_t<T>;
    if constexpr (!In) {
      vertices_in(W::vertices_bfs(g, VId(s)), no); vertices_in(W::vertices_bfs(g, seed, vf), vv);
      edges_in(W::edges_bfs(g, VId(s)), no); edges_in(W::edges_bfs(g, seed, ef), ev);
      if (!cut) {
        size_t r = popc(ball(w.rel, Mask(1) << s, NV)); std::allocator<bool> al;
        post(W::vertices_bfs(g, VId(s), al), r); post(W::vertices_bfs(g, seed, vf, al), r); post(W::edges_bfs(g, VId(s), al), r - 1); post(W::edges_bfs(g, seed, ef, al), r - 1);
        vertices_in(W::vertices_bfs(g, seed), no); vertices_in(W::vertices_bfs(g, VId(s), vf), vv); edges_in(W::edges_bfs(g, seed), no); edges_in(W::edges_bfs(g, VId(s), ef), ev); }
    }
    if (!cut || In) {
      vertices_in(W::vertices_bfs<Acc>(g, seed), no); vertices_in(W::vertices_bfs<Acc>(g, VId(s), vf), vv);
      edges_in(W::edges_bfs<Acc>(g, seed), no); edges_in(W::edges_bfs<Acc>(g, VId(s), ef), ev);
    }
  }
};
template <class T> static void look(T& g, const Edge* e, size_t m) {
#ifdef SEEDS
  Id s = (Id[]){0, NV / 2, NV - 1}[pick_u("seed", 0, 2)];
#else
  Id s = (Id)pick_u("seed", 0, NV - 1);
#endif
  Mask C = cut ? sym_u64("cancel", 0, (1ull << NV) - 1) : 0;
  size_t stop = cut ? sym_u64("stop", 0, NV) : 0;
  int64_t off = sym_i64("offset", -(1ll << 40), 1ll << 40);
  { Walk<T, false> w(g, e, m); Bfs<T, false>{g, w, s, C, stop, off}.all(); }
  if constexpr (A::bidirectional_adjacency_list<T>) { Walk<T, true> w(g, e, m); Bfs<T, true>{g, w, s, C, stop, off}.all(); }
}
extern "C" void harness_main() {
#if defined(FAM)
  Digraph d(true); Edge e[96] = {}; size_t m = d.m; for (size_t i = 0; i < m; ++i) e[i] = d.e[i];
#else
  Edge e[NE + 1] = {}; size_t m = any_edges(e, NE, NV - 1, true);
  if (is_csr<G>) for (size_t i = 1; i < m; ++i) sym_assume(e[i - 1].s <= e[i].s);
#endif
  G g; fill<G, int64_t>(g, NV, e, m);
  look(g, e, m);
}
