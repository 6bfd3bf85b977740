// @run quick NV=3 NE=2 GT=vov
// @run quick NV=3 NE=2 GT=csr
// @run quick NV=3 NE=2 GT=dofl
// @run quick NV=3 NE=2 GT=bvov
// @run quick NV=3 NE=2 GT=bvofl
// @run quick NV=3 NE=2 GT=ual
// @run quick NV=3 NE=2 GT=vi
// @run quick NV=6 NE=0 FAM=0 GT=csr
// @run quick NV=6 NE=0 FAM=0 GT=bvol
// @run quick NV=3 NE=2 GT=vov IDT=int32_t
// @run quick NV=3 NE=2 GT=csr IDT=uint8_t
// @run quick NV=3 NE=2 GT=dofl IDT=int64_t
// @run quick NV=16 NE=0 NMAX=16 FAM=0 GT=vov
// @run thorough NV=3 NE=4 GT=vov
// @run thorough NV=4 NE=3 GT=csr
// @run thorough NV=4 NE=3 GT=ual
// @run thorough NV=4 NE=3 GT=bvov
// @run thorough NV=3 NE=3 GT=vous
// @run thorough NV=7 NE=0 FAM=1 GT=bvol
// @bounds every graph of at most NE edges over NV vertices (parallel edges and self-loops included) held in the container GT, or a larger base shape (FAM); every vertex or seed; each pipe adaptor with and without a value function carrying a symbolic offset, called through the pipe and directly, with and without an allocator, and followed by std::views::take of a symbolic length, filter and transform; each view copied, moved and assigned to another view of its type, the original destroyed or changed in between
// @covers copy chain
#include "search.hpp"
#include <graph/views/adaptors.hpp>
#include <optional>
using namespace graph;
using G = GRAPH<int64_t>;
namespace P = graph::views::adaptors;
struct Seq { size_t n = 0; int64_t a[96] = {}, b[96] = {}, v[96] = {}; };
template <class T, class X> static void put(Seq& s, T& g, const X& x) {
  CHECK(s.n < 96, "harness capacity"); size_t i = s.n++; s.a[i] = s.b[i] = s.v[i] = 0;
  if constexpr (requires { x.edge; }) { s.a[i] = (int64_t)A::source_id(g, x.edge); s.b[i] = (int64_t)A::target_id(g, x.edge) + 16 * weight(g, x.edge); }
  if constexpr (requires { x.vertex; }) s.a[i] = (int64_t)A::vertex_id(g, x.vertex);
  if constexpr (requires { x.target; }) s.a[i] = (int64_t)A::vertex_id(g, x.target);
  if constexpr (requires { x.id; }) s.b[i] += 256 * (int64_t)x.id;
  if constexpr (requires { x.source_id; }) s.b[i] += 256 * (int64_t)x.source_id;
  if constexpr (requires { x.target_id; }) s.b[i] += 4096 * (int64_t)x.target_id;
  if constexpr (requires { x.value; }) s.v[i] = x.value;
}
template <class T> struct Test {
  T& g; size_t cut; Mask keep;
  template <class V> void seq(Seq& s, V&& view) { s.n = 0; for (auto&& x : view) put(s, g, x); }
  void same(const Seq& x, const Seq& y, const char* what) { CHECK(x.n == y.n, what); for (size_t i = 0; i < x.n; ++i) CHECK(x.a[i] == y.a[i] && x.b[i] == y.b[i] && x.v[i] == y.v[i], what); }
  // other: a view of the same type over something else
  template <class M, class P_, class Q, class O> void run(M direct, P_ piped, Q called, O other) {
    static Seq want, got; seq(want, direct());
    seq(got, piped()); same(want, got, "the pipe form");
    using V = decltype(direct());
    static_assert(std::is_same_v<V, decltype(piped())> && std::is_same_v<V, decltype(called())>);
    seq(got, called()); same(want, got, "the adaptor called directly");
    { std::optional<V> o(direct()); V c(*o); o.reset(); seq(got, c); same(want, got, "a copy after the original is gone"); }
    { std::optional<V> o(direct()); V c(std::move(*o)); o.reset(); seq(got, c); same(want, got, "a moved view"); }
    if constexpr (std::is_copy_assignable_v<V>) {
      std::optional<V> o(direct()); V c(other()); c = *o; *o = other(); o.reset(); seq(got, c); same(want, got, "an assigned view");
      V d(direct()); V e(other()); e = std::move(d); seq(got, e); same(want, got, "a move-assigned view");
    }
    if constexpr (std::ranges::forward_range<V>) { // a copy is independent: going through one doesn't move the other
      V c(direct()); V d(c); seq(got, c); same(want, got, "the first of two copies"); seq(got, d); same(want, got, "the second of two copies"); seq(got, c); same(want, got, "the first of two copies again");
    }
    sym_cover("copy");
    if constexpr (std::ranges::view<V>) {
      size_t i = 0; got.n = 0;
      for (auto&& x : piped() | std::views::take(sym_pick(cut))) put(got, g, x);
      CHECK(got.n == (cut < want.n ? cut : want.n), "take"); for (i = 0; i < got.n; ++i) CHECK(got.a[i] == want.a[i] && got.b[i] == want.b[i] && got.v[i] == want.v[i], "take");
      i = 0; for (int64_t y : piped() | std::views::transform([](auto&& x) { if constexpr (requires { x.value; }) return (int64_t)x.value + 1; else return (int64_t)1; })) { CHECK(i < want.n && y == want.v[i] + 1, "transform"); ++i; }
      CHECK(i == want.n, "transform");
      i = 0; size_t calls = 0; Mask k = keep;
      for (auto&& x : piped() | std::views::filter([&](auto&&) { return (k >> calls++) & 1; })) { (void)x; ++i; }
      CHECK(calls == want.n && i <= want.n, "filter"); sym_cover("chain");
    }
  }
};
template <class T> static void look(T& g) {
  Test<T> t{g, sym_u64("take", 0, 3), 0x5555};
  Deg f{sym_i64("offset", -(1ll << 40), 1ll << 40)}, f2{f.off + 1}; Wgt ef{f.off}, ef2{f.off + 1};
  Id s = (Id)pick_u("seed", 0, NV - 1), q = (s + 1) % NV; using VId = A::vertex_id_t<T>; VId id = VId(s), oid = VId(q);
  auto u = *A::find_vertex(g, id), ou = *A::find_vertex(g, oid);
  static T none{};
#define R(D, PIPE, CALL, O) t.run([&] { return D; }, [&] { return g | P::PIPE; }, [&] { return P::CALL; }, [&] { return O; })
  switch (pick_u("view", 0, 3)) {
  case 0:
    R(W::vertexlist(g), vertexlist(), vertexlist(g), W::vertexlist(none)); R(W::vertexlist(g, f), vertexlist(f), vertexlist(g, f), W::vertexlist(none, f2));
    R(W::basic_vertexlist(g), basic_vertexlist(), basic_vertexlist(g), W::basic_vertexlist(none)); R(W::basic_vertexlist(g, f), basic_vertexlist(f), basic_vertexlist(g, f), W::basic_vertexlist(none, f2));
    R(W::edgelist(g), edgelist(), edgelist(g), W::edgelist(none)); R(W::edgelist(g, ef), edgelist(ef), edgelist(g, ef), W::edgelist(none, ef2));
    R(W::basic_edgelist(g), basic_edgelist(), basic_edgelist(g), W::basic_edgelist(none)); R(W::basic_edgelist(g, ef), basic_edgelist(ef), basic_edgelist(g, ef), W::basic_edgelist(none, ef2));
    break;
  case 1:
    R(W::incidence(g, u), incidence(id), incidence(g, id), W::incidence(g, ou)); R(W::incidence(g, u, ef), incidence(id, ef), incidence(g, id, ef), W::incidence(g, ou, ef2));
    R(W::neighbors(g, u), neighbors(id), neighbors(g, id), W::neighbors(g, ou)); R(W::neighbors(g, u, f), neighbors(id, f), neighbors(g, id, f), W::neighbors(g, ou, f2));
    R(W::basic_incidence(g, id), basic_incidence(id), basic_incidence(g, id), W::basic_incidence(g, oid)); R(W::basic_incidence(g, id, ef), basic_incidence(id, ef), basic_incidence(g, id, ef), W::basic_incidence(g, oid, ef2));
    R(W::basic_neighbors(g, id), basic_neighbors(id), basic_neighbors(g, id), W::basic_neighbors(g, oid)); R(W::basic_neighbors(g, id, f), basic_neighbors(id, f), basic_neighbors(g, id, f), W::basic_neighbors(g, oid, f2));
    if constexpr (A::index_bidirectional_adjacency_list<T>) {
      R(W::in_incidence(g, u), in_incidence(id), in_incidence(g, id), W::in_incidence(g, ou)); R(W::in_incidence(g, u, ef), in_incidence(id, ef), in_incidence(g, id, ef), W::in_incidence(g, ou, ef2));
      R(W::in_neighbors(g, u), in_neighbors(id), in_neighbors(g, id), W::in_neighbors(g, ou)); R(W::in_neighbors(g, u, f), in_neighbors(id, f), in_neighbors(g, id, f), W::in_neighbors(g, ou, f2));
      R(W::basic_in_incidence(g, id), basic_in_incidence(id), basic_in_incidence(g, id), W::basic_in_incidence(g, oid)); R(W::basic_in_incidence(g, id, ef), basic_in_incidence(id, ef), basic_in_incidence(g, id, ef), W::basic_in_incidence(g, oid, ef2));
      R(W::basic_in_neighbors(g, id), basic_in_neighbors(id), basic_in_neighbors(g, id), W::basic_in_neighbors(g, oid)); R(W::basic_in_neighbors(g, id, f), basic_in_neighbors(id, f), basic_in_neighbors(g, id, f), W::basic_in_neighbors(g, oid, f2));
    }
    break;
  case 2:
    R(W::vertices_dfs(g, id), vertices_dfs(id), vertices_dfs(g, id), W::vertices_dfs(g, oid)); R(W::vertices_dfs(g, id, f), vertices_dfs(id, f), vertices_dfs(g, id, f), W::vertices_dfs(g, oid, f2));
    R(W::edges_dfs(g, id), edges_dfs(id), edges_dfs(g, id), W::edges_dfs(g, oid)); R(W::edges_dfs(g, id, ef), edges_dfs(id, ef), edges_dfs(g, id, ef), W::edges_dfs(g, oid, ef2));
    R(W::vertices_bfs(g, id), vertices_bfs(id), vertices_bfs(g, id), W::vertices_bfs(g, oid)); R(W::vertices_bfs(g, id, f), vertices_bfs(id, f), vertices_bfs(g, id, f), W::vertices_bfs(g, oid, f2));
    R(W::edges_bfs(g, id), edges_bfs(id), edges_bfs(g, id), W::edges_bfs(g, oid)); R(W::edges_bfs(g, id, ef), edges_bfs(id, ef), edges_bfs(g, id, ef), W::edges_bfs(g, oid, ef2));
    {
      std::allocator<bool> al;
      R(W::vertices_dfs(g, u, al), vertices_dfs(u), vertices_dfs(g, u), W::vertices_dfs(g, ou, al)); R(W::vertices_dfs(g, u, f, al), vertices_dfs(id, f, al), vertices_dfs(g, id, f, al), W::vertices_dfs(g, oid, f2, al));
      R(W::edges_dfs(g, u, al), edges_dfs(u), edges_dfs(g, u), W::edges_dfs(g, ou, al)); R(W::edges_dfs(g, u, ef, al), edges_dfs(id, ef, al), edges_dfs(g, id, ef, al), W::edges_dfs(g, oid, ef2, al));
      R(W::vertices_bfs(g, u, al), vertices_bfs(u), vertices_bfs(g, u), W::vertices_bfs(g, ou, al)); R(W::vertices_bfs(g, u, f, al), vertices_bfs(id, f, al), vertices_bfs(g, id, f, al), W::vertices_bfs(g, oid, f2, al));
      R(W::edges_bfs(g, u, al), edges_bfs(u), edges_bfs(g, u), W::edges_bfs(g, ou, al)); R(W::edges_bfs(g, u, ef, al), edges_bfs(id, ef, al), edges_bfs(g, id, ef, al), W::edges_bfs(g, oid, ef2, al));
    }
    break;
  case 3:
    R(W::vertices_topological_sort(g), vertices_topological_sort(), vertices_topological_sort(g), W::vertices_topological_sort(none)); R(W::vertices_topological_sort(g, f), vertices_topological_sort(f), vertices_topological_sort(g, f), W::vertices_topological_sort(none, f2));
    R(W::edges_topological_sort(g), edges_topological_sort(), edges_topological_sort(g), W::edges_topological_sort(none)); R(W::edges_topological_sort(g, ef), edges_topological_sort(ef), edges_topological_sort(g, ef), W::edges_topological_sort(none, ef2));
    {
      std::allocator<bool> al;
      R(W::vertices_topological_sort(g, f, al), vertices_topological_sort(f, al), vertices_topological_sort(g, f, al), W::vertices_topological_sort(none, f2, al));
      R(W::edges_topological_sort(g, ef, al), edges_topological_sort(ef, al), edges_topological_sort(g, ef, al), W::edges_topological_sort(none, ef2, al));
    }
  }
}
extern "C" void harness_main() {
#if defined(FAM)
  Digraph d(true); Edge e[96] = {}; size_t m = d.m; for (size_t i = 0; i < m; ++i) e[i] = d.e[i];
#else
  Edge e[NE + 1] = {}; size_t m = any_edges(e, NE, NV - 1, true);
  if (is_csr<G>) for (size_t i = 1; i < m; ++i) sym_assume(e[i - 1].s <= e[i].s);
#endif
  G g; fill<G, int64_t>(g, NV, e, m);
  look(g);
}
