// @run quick NV=3 NE=3 GT=vov GROUP=0
// @run quick NV=3 NE=3 GT=csr GROUP=0
// @run quick NV=3 NE=2 GT=vol GROUP=0
// @run quick NV=3 NE=2 GT=vom GROUP=0
// @run quick NV=3 NE=3 GT=bvov GROUP=0
// @run quick NV=3 NE=3 GT=vv GROUP=0
// @run quick NV=3 NE=3 GT=dous GROUP=0
// @run quick NV=4 NE=3 GT=vov GROUP=1
// @run quick NV=4 NE=3 GT=csr GROUP=1
// @run quick NV=4 NE=3 GT=ual GROUP=1
// @run quick NV=4 NE=3 GT=dofl GROUP=1
// @run quick NV=3 NE=3 GT=vov GROUP=2
// @run quick NV=3 NE=3 GT=csr GROUP=2
// @run quick NV=3 NE=3 GT=bvol GROUP=2
// @run quick NV=3 NE=3 GT=ual GROUP=2
// @run quick NV=3 NE=2 GT=dos GROUP=2
// @run quick NV=6 NE=0 FAM=0 GT=csr GROUP=0
// @run quick NV=6 NE=0 FAM=0 GT=ual GROUP=1
// @run quick NV=6 NE=0 FAM=0 GT=bdov GROUP=2
// @run quick NV=3 NE=3 GT=vov GROUP=0 IDT=int32_t
// @run quick NV=3 NE=3 GT=csr GROUP=0 IDT=uint8_t
// @run quick NV=3 NE=3 GT=bvov GROUP=0 IDT=int64_t
// @run thorough NV=4 NE=4 GT=vov GROUP=0
// @run thorough NV=3 NE=4 GT=csr GROUP=0
// @run thorough NV=4 NE=4 GT=csr GROUP=1
// @run thorough NV=4 NE=4 GT=ual GROUP=1
// @run thorough NV=4 NE=4 GT=bvov GROUP=2
// @run thorough NV=4 NE=3 GT=ual GROUP=2
// @run thorough NV=6 NE=0 FAM=1 GT=vol GROUP=0
// @run thorough NV=6 NE=0 FAM=1 GT=csr GROUP=1
// @run thorough NV=6 NE=0 FAM=1 GT=ual GROUP=2
// @bounds the container GT holding GROUP=0 every directed graph of at most NE edges over NV vertices, GROUP=1 every undirected graph, with each algorithm and source; GROUP=2 every directed graph with every vertex, edge, search, sort and transpose view, iterated to any point and dropped there. Through the graph and through a reference to const; edge values, and vertex values where the container has them, symbolic. FAM: larger base shapes. Compared before and after: vertices, ids, values, each vertex's out- and in-edges in order with their values, edge count, number of live allocations
// @covers ran
#include "algos.hpp"
#include <graph/views/bfs.hpp>
#include <graph/views/dfs.hpp>
#include <graph/views/topological_sort.hpp>
#include <graph/views/transpose.hpp>
#include <graph/views/edgelist.hpp>
using namespace graph;
namespace W = graph::views;
constexpr bool is_text(const char* a, const char* b) { while (*a && *a == *b) { ++a; ++b; } return *a == *b; }
constexpr bool with_vv = !is_text(STR(GT), "csr") && !is_text(STR(GT), "vv") && !is_text(STR(GT), "vi");
using G = GRAPH<int64_t, std::conditional_t<with_vv, int64_t, void>>;
static auto unit = [](const auto& g, const auto& uv) -> int64_t { if constexpr (has_edge_values<G>()) return weight(g, uv); else return 1; };
struct Snap { Id id[NV] = {}; int64_t val[NV] = {}; Row out[NV][64] = {}, in[NV][64] = {}; size_t n = 0, k[NV] = {}, ki[NV] = {}, edges = 0, verts = 0; };
template <class T> static void snap(T& g, Snap& s) {
  s = Snap(); s.edges = A::num_edges(g); s.verts = A::num_vertices(g);
  for (auto&& u : A::vertices(g)) {
    CHECK(s.n < NV, "no vertices appear"); size_t n = s.n++;
    s.id[n] = (Id)A::vertex_id(g, u);
    if constexpr (with_vv) s.val[n] = A::vertex_value(g, u);
    for (auto&& uv : A::edges(g, u)) { CHECK(s.k[n] < 64, "harness capacity"); s.out[n][s.k[n]++] = {(Id)A::source_id(g, uv), (Id)A::target_id(g, uv), weight(g, uv)}; }
    if constexpr (requires { A::in_edges(g, u); }) for (auto&& uv : A::in_edges(g, u)) { CHECK(s.ki[n] < 64, "harness capacity"); s.in[n][s.ki[n]++] = {(Id)A::source_id(g, uv), (Id)A::target_id(g, uv), weight(g, uv)}; }
  }
}
static void same(const Row* a, const Row* b, size_t k, const char* what) { for (size_t i = 0; i < k; ++i) CHECK(a[i].s == b[i].s && a[i].t == b[i].t && a[i].w == b[i].w, what); }
static void same(const Snap& a, const Snap& b) {
  CHECK(a.n == b.n && a.verts == b.verts && a.edges == b.edges, "the numbers of vertices and edges stay");
  for (size_t i = 0; i < a.n; ++i) {
    CHECK(a.id[i] == b.id[i] && a.val[i] == b.val[i], "vertices and their values stay");
    CHECK(a.k[i] == b.k[i] && a.ki[i] == b.ki[i], "the number of a vertex's edges stays");
    same(a.out[i], b.out[i], a.k[i], "a vertex's edges stay as they were"); same(a.in[i], b.in[i], a.ki[i], "a vertex's in-edges stay as they were");
  }
}
template <class T> static void give(T& g) { if constexpr (with_vv && !std::is_const_v<T>) for (auto&& x : A::vertices(g)) A::vertex_value(g, x) = sym_i64("value", -(1ll << 40), 1ll << 40); }
static size_t stop;
template <class R> static void some(R&& r) { size_t i = 0; for (auto&& x : r) { (void)x; if (i++ == stop) break; } }
enum { VL, EL, INC, NB, BFSV, BFSE, DFSV, DFSE, TOPOV, TOPOE, TRANS, INNB, NVIEWS };
template <class T> static void view(T& g, int k, Id s) {
  auto vf = [](const auto& gg, const auto& u) { return (int64_t)A::vertex_id(gg, u); };
  auto u = *A::find_vertex(g, A::vertex_id_t<T>(s));
  switch (k) {
  case VL: some(W::vertexlist(g)); some(W::vertexlist(g, vf)); break;
  case EL: some(W::edgelist(g)); some(W::edgelist(g, unit)); break;
  case INC: some(W::incidence(g, u)); some(W::incidence(g, u, unit)); break;
  case NB: some(W::neighbors(g, u)); some(W::neighbors(g, u, vf)); break;
  case BFSV: if constexpr (A::index_adjacency_list<T>) some(W::vertices_bfs(g, A::vertex_id_t<T>(s))); break;
  case BFSE: if constexpr (A::index_adjacency_list<T>) some(W::edges_bfs(g, A::vertex_id_t<T>(s))); break;
  case DFSV: if constexpr (A::index_adjacency_list<T>) some(W::vertices_dfs(g, A::vertex_id_t<T>(s))); break;
  case DFSE: if constexpr (A::index_adjacency_list<T>) some(W::edges_dfs(g, A::vertex_id_t<T>(s))); break;
  case TOPOV: if constexpr (A::index_adjacency_list<T>) some(W::vertices_topological_sort(g)); break;
  case TOPOE: if constexpr (A::index_adjacency_list<T>) some(W::edges_topological_sort(g)); break;
  case TRANS: if constexpr (A::bidirectional_adjacency_list<T>) { auto t = W::transpose(g); some(W::edgelist(t)); } break;
  case INNB: if constexpr (A::bidirectional_adjacency_list<T>) { some(W::in_incidence(g, u)); some(W::in_neighbors(g, u)); } break;
  }
}
extern "C" void harness_main() {
  constexpr bool keyed = order_kind<G>() >= 2 && !is_ual<G>;
  {
  G g;
#if GROUP != 1
  Digraph d(true);
  if (keyed) for (size_t i = 0; i < d.m; ++i) for (size_t j = 0; j < i; ++j) if (d.e[i].s == d.e[j].s) sym_assume(d.e[i].t != d.e[j].t);
  fill(g, NV, d.e, d.m);
#else
  Ugraph u(true, true, !keyed);
  static Edge a[2 * Ugraph::CAP];
  fill(g, NV, a, u.arcs<G>(a));
#endif
  give(g);
#if GROUP == 0
  int k = (int)pick_u("algorithm", 0, A::index_bidirectional_adjacency_list<G> ? SCC : NDIRECTED - 1);
#elif GROUP == 1
  int k = (int)pick_u("algorithm", CC, NALGO - 1);
#else
  int k = (int)pick_u("view", 0, NVIEWS - 1); stop = pick_u("stop", 0, NV + 2);
#endif
  Id s = (Id)pick_u("source", 0, NV - 1); bool c = pick_u("const", 0, 1);
  static Snap x, y; static Out o; o = Out();
  snap(g, x);
  int64_t live = sym_live();
#if GROUP == 2
  if (c) view(std::as_const(g), k, s); else view(g, k, s);
#else
  if (c) algo(std::as_const(g), k, s, unit, o); else algo(g, k, s, unit, o);
#endif
  CHECK(sym_live() == live, "nothing is leaked");
  snap(g, y); same(x, y); snap(std::as_const(g), y); same(x, y); sym_cover("ran");
  }
}
