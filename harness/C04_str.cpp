// @run quick NE=2 GT=mov
// @run quick NE=2 GT=mol
// @run quick NE=2 GT=mofl
// @run quick NE=2 GT=mos
// @run quick NE=2 GT=uov
// @run quick NE=2 GT=uofl
// @run quick NE=2 GT=mom
// @run quick NE=2 GT=uous
// @run quick NE=2 GT=vector STD
// @run quick NE=2 GT=list STD
// @run thorough NE=3 GT=mov
// @run thorough NE=3 GT=mos
// @run thorough NE=2 NK=2 GT=mov
// @run thorough NE=2 NK=2 GT=uofl
// @run thorough NE=3 GT=mod
// @run thorough NE=3 GT=uos
// @run thorough NE=3 GT=uol
// @run thorough NE=3 GT=mous
// @bounds graphs keyed by std::string (STD: std::map of containers of pairs): ids are any of four names (one empty, one longer than the small-string buffer); at most NE edges in any load order, passed as const, moved from or through a projection, before or after at most NK (1) vertex entries; symbolic edge and vertex values; every lookup of every name; vertexlist, incidence, neighbors and edgelist
// @covers stored repeated absent
#include "graphs.hpp"
#include "gen.hpp"
#include <string>
#include <graph/views/vertexlist.hpp>
#include <graph/views/incidence.hpp>
#include <graph/views/neighbors.hpp>
#include <graph/views/edgelist.hpp>
#ifndef NK
#define NK 1
#endif
using namespace graph;
namespace A = graph::adj_list;
using S = std::string;
#ifdef STD
struct Tr { using vertices_type = std::map<S, int>; using edge_type = int; using edges_type = std::list<int>; };
#else
using Tr = gc::CAT(GT, _graph_traits)<int64_t, int64_t, void, S, false>;
using G = gc::dynamic_graph<int64_t, int64_t, void, S, false, Tr>;
#endif
static const char* const NAME[4] = {"b", "", "a name longer than the small-string buffer", "a"};
static const size_t BYNAME[4] = {1, 3, 2, 0}; // sorted
static size_t idx(const S& s) { for (size_t i = 0; i < 4; ++i) if (s == NAME[i]) return i; CHECK(false, "only given names are ids"); return 0; }
using CE = copyable_edge_t<S, int64_t>;
using CV = copyable_vertex_t<S, int64_t>;
template <class C> concept Hashed = requires { typename C::hasher; };
template <class C> concept Keyed = requires { typename C::key_type; };
static constexpr bool HASHV = Hashed<typename Tr::vertices_type>, HASHE = Hashed<typename Tr::edges_type>, KEYE = Keyed<typename Tr::edges_type>;
static constexpr bool FRONT = std::is_same_v<typename Tr::edges_type, std::forward_list<typename Tr::edge_type>>;
struct E1 { size_t s, t; int64_t w; };
struct M {
  bool has[4] = {}; int64_t val[4] = {}; E1 e[NE + 1]; size_t m = 0;
  size_t list(size_t u, E1* out) const {
    size_t k = 0;
    if (KEYE) { for (size_t v : BYNAME) for (size_t i = 0; i < m; ++i) if (e[i].s == u && e[i].t == v) { out[k++] = e[i]; break; } }
    else if (FRONT) { for (size_t i = m; i-- > 0;) if (e[i].s == u) out[k++] = e[i]; }
    else for (size_t i = 0; i < m; ++i) if (e[i].s == u) out[k++] = e[i];
    return k;
  }
};
template <class H> static void same(H& g, const M& md) {
  size_t n = 0, j = 0, arcs = 0; for (bool h : md.has) n += h;
  CHECK((size_t)A::num_vertices(g) == n, "num_vertices");
  bool seen[4] = {}; size_t order[4];
  for (auto&& u : A::vertices(g)) {
    size_t x = idx(A::vertex_id(g, u));
    CHECK(md.has[x] && !seen[x], "each vertex is listed once"); seen[x] = true; order[j++] = x;
#ifndef STD
    CHECK(A::vertex_value(g, u) == md.val[x], "a vertex's value");
#endif
    E1 want[NE + 1]; size_t k = md.list(x, want), i = 0; bool used[NE + 1] = {};
    for (auto&& uv : A::edges(g, u)) {
      CHECK(i < k, "no extra edges");
      size_t t = idx(A::target_id(g, uv)), at = i;
      if (HASHE) { for (at = 0; at < k; ++at) if (want[at].t == t && !used[at]) break; }
      CHECK(at < k && want[at].t == t, "an edge's target"); used[at] = true;
      CHECK(A::edge_value(g, uv) == want[at].w, "an edge's value");
      CHECK(A::source_id(g, uv) == NAME[x], "an edge's source");
      CHECK(A::vertex_id(g, A::target(g, uv)) == NAME[t] && A::vertex_id(g, A::source(g, uv)) == NAME[x], "the vertices of an edge");
      ++i;
    }
    CHECK(i == k && (size_t)A::degree(g, u) == k && (size_t)A::degree(g, S(NAME[x])) == k, "all edges are there");
    i = 0;
    for (auto&& [tid, uv] : views::incidence(g, u)) { CHECK(tid == A::target_id(g, uv), "incidence: the target's id"); ++i; }
    CHECK(i == k, "incidence"); i = 0;
    for (auto&& [tid, v] : views::neighbors(g, u)) { CHECK(tid == A::vertex_id(g, v) && (HASHE || tid == NAME[want[i].t]), "neighbors: the neighbour's id"); ++i; }
    CHECK(i == k, "neighbors");
    arcs += k;
  }
  CHECK(j == n, "all vertices are listed");
  if (!HASHV) for (size_t i = 1; i < j; ++i) CHECK(S(NAME[order[i - 1]]) < S(NAME[order[i]]), "vertices are in id order");
  j = 0;
  for (auto&& [id, u] : views::vertexlist(g)) { CHECK(id == NAME[order[j]] && A::vertex_id(g, u) == id, "vertexlist"); ++j; }
  CHECK(j == n, "vertexlist");
  size_t a = 0;
  for (auto&& [s, t, uv] : views::edgelist(g)) { CHECK(s == A::source_id(g, uv) && t == A::target_id(g, uv), "edgelist"); ++a; }
  CHECK(a == arcs, "edgelist");
  if (!KEYE) CHECK((size_t)A::num_edges(g) == md.m && arcs == md.m, "num_edges");
}
template <class H> static void lookups(H& g, const M& md) { // of every id
  for (size_t p = 0; p < 4; ++p) {
    const S P = NAME[p];
    if constexpr (requires { g.contains_vertex(P); }) CHECK(g.contains_vertex(P) == md.has[p], "contains_vertex");
    auto it = A::find_vertex(g, P);
    CHECK((it != std::ranges::end(A::vertices(g))) == md.has[p], "find_vertex");
    if (md.has[p]) { CHECK(A::vertex_id(g, *it) == P, "find_vertex finds the vertex with that id"); sym_cover("stored"); } else sym_cover("absent");
    for (size_t q = 0; q < 4; ++q) {
      const S Q = NAME[q];
      if (!md.has[p] || !md.has[q]) continue;
      E1 want[NE + 1]; size_t c = md.list(p, want), f = 0; for (; f < c; ++f) if (want[f].t == q) break;
      CHECK(A::contains_edge(g, P, Q) == (f < c), "contains_edge");
      if (f < c) { auto uv = A::find_vertex_edge(g, P, Q); CHECK(A::target_id(g, uv) == Q && (HASHE || A::edge_value(g, uv) == want[f].w), "find_vertex_edge"); }
    }
  }
  CHECK((size_t)A::num_vertices(g) == (size_t)md.has[0] + md.has[1] + md.has[2] + md.has[3], "lookups add no vertex");
}
extern "C" void harness_main() {
  M md; std::vector<CE> es; std::vector<CV> vs;
  size_t m = pick_u("edges", 0, NE);
  for (size_t i = 0; i < m; ++i) {
    E1 x{pick_u("source", 0, 3), pick_u("target", 0, 3), sym_i64("w", 0, 1ll << 40)};
    for (size_t j = 0; j < i; ++j) if (md.e[j].s == x.s && md.e[j].t == x.t) sym_cover("repeated");
    md.e[i] = x; es.push_back({S(NAME[x.s]), S(NAME[x.t]), x.w});
  }
#ifdef STD
  std::map<S, std::GT<std::pair<S, int64_t>>> g;
  for (size_t i = 0; i < m; ++i) { const E1& x = md.e[i]; g[NAME[x.s]].push_back({NAME[x.t], x.w}); g[NAME[x.t]]; md.has[x.s] = md.has[x.t] = true; }
  md.m = m;
  if (pick_u("lone vertex", 0, 1)) { g["a"]; md.has[3] = true; }
  same(g, md); same(std::as_const(g), md); lookups(g, md); lookups(std::as_const(g), md);
#else
  size_t k = pick_u("entries", 0, NK), idn[NK] = {}; int64_t idv[NK] = {};
  for (size_t i = 0; i < k; ++i) { idn[i] = pick_u("vertex", 0, 3); idv[i] = sym_i64("value", 0, 1ll << 40); vs.push_back({S(NAME[idn[i]]), idv[i]}); }
  size_t how = pick_u("how", 0, 2); bool first = pick_u("vertices first", 0, 1);
  if (k == 0 && first) return;
  G g;
  auto lv = [&] {
    for (size_t i = 0; i < k; ++i) { md.has[idn[i]] = true; md.val[idn[i]] = idv[i]; }
    if (how == 0) { const auto& c = vs; g.load_vertices(c, std::identity{}); for (size_t i = 0; i < k; ++i) CHECK(vs[i].id == NAME[idn[i]] && vs[i].value == idv[i], "the range given is left alone"); }
    else g.load_vertices(std::move(vs), std::identity{});
  };
  if (first) { lv(); same(g, md); }
  if (how == 0) { const auto& c = es; g.load_edges(c, std::identity{}); for (size_t i = 0; i < m; ++i) CHECK(es[i].source_id == NAME[md.e[i].s] && es[i].target_id == NAME[md.e[i].t] && es[i].value == md.e[i].w, "the range given is left alone"); }
  else if (how == 1) g.load_edges(std::move(es), std::identity{});
  else g.load_edges(md.e | std::views::take(m), [](const E1& x) { return CE{S(NAME[x.s]), S(NAME[x.t]), x.w}; });
  md.m = m; for (size_t i = 0; i < m; ++i) md.has[md.e[i].s] = md.has[md.e[i].t] = true;
  same(g, md);
  if (!first) { lv(); same(g, md); }
  same(std::as_const(g), md);
  lookups(g, md);
  lookups(std::as_const(g), md);
#endif
}
