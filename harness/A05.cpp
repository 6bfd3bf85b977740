// @run quick KIND=1
// @run quick KIND=2
// @run quick KIND=3
// @run quick KIND=1 CONSTG
// @run quick KIND=2 CONSTG
// @run quick KIND=3 CONSTG
// @run quick KIND=1 VIDT
// @run quick KIND=2 VIDT
// @run thorough KIND=1 NV=6
// @run thorough KIND=2 NV=6
// @run thorough KIND=3 NV=6
// @bounds a user-defined graph of NV vertices deriving from std::vector<std::vector<std::pair>> that provides every customizable function as a member (KIND 1), as a free function found by ADL (KIND 2), or both (KIND 3: the member has precedence), with or without a vertex_id_type (VIDT); every vertex and pair of vertices, every value the custom function can return (64-bit); functions without a member form (vertex_id, target_id, edges, in_edges) as free functions
// @covers asked
#define NE 0
#include "gen.hpp"
using namespace graph;
namespace A = graph::adj_list;
enum Fn { none, f_vertices, f_vertices_pid, f_find_vertex, f_edges, f_in_edges, f_in_degree_u, f_in_degree_uid, f_target, f_source, f_num_vertices, f_num_vertices_pid,
  f_num_edges, f_num_edges_u, f_num_edges_uid, f_degree_u, f_degree_uid, f_fve_uu, f_fve_uid, f_fve_ii, f_fie_uu, f_fie_uid, f_fie_ii, f_cie_uu, f_cie_ii, f_ce_uu, f_ce_ii,
  f_has_edge, f_vertex_value, f_graph_value, f_partition_id, f_num_partitions, f_source_id, f_target_id, f_edge_value, f_vertex_id };
constexpr uint64_t NO = 1000;
struct Call { int how = 0; Fn fn = none; uint64_t a = NO, b = NO; };
static Call log_; static uint64_t ret; static int64_t cell;
using Base = std::vector<std::vector<std::pair<Id, int64_t>>>;
template <class T> concept VD = graph::adj_list::is_vertex_descriptor_v<std::remove_cvref_t<T>>;
template <class T> concept ED = graph::adj_list::is_edge_descriptor_v<std::remove_cvref_t<T>>;
template <class T> concept ID = std::integral<T>;
template <VD U> static uint64_t idx(const U& u) { return u.vertex_id(); }
template <ID U> static uint64_t idx(const U& u) { return (uint64_t)u; }
template <ED E> static uint64_t pos(const E& e) { return (uint64_t)e.value(); }
static uint64_t did(int how, Fn f, uint64_t a = NO, uint64_t b = NO) { log_ = {how, f, a, b}; return ret; }
template <class G> static auto all(G& g) { using B = std::conditional_t<std::is_const_v<G>, const Base, Base>; return graph::adj_list::vertex_descriptor_view(static_cast<B&>(g)); }

#ifdef VIDT
#define VIDTYPE using vertex_id_type = Id;
#else
#define VIDTYPE
#endif
struct Member : Base {
  VIDTYPE
  auto vertices() { did(1, f_vertices); return all(*this); }
  auto vertices() const { did(1, f_vertices); return all(*this); }
  template <ID P> auto vertices(P p) { did(1, f_vertices_pid, p); return all(*this); }
  template <ID P> auto vertices(P p) const { did(1, f_vertices_pid, p); return all(*this); }
  template <ID I> auto find_vertex(I i) { did(1, f_find_vertex, i); return std::ranges::next(all(*this).begin(), (std::ptrdiff_t)i); }
  template <ID I> auto find_vertex(I i) const { did(1, f_find_vertex, i); return std::ranges::next(all(*this).begin(), (std::ptrdiff_t)i); }
  template <VD U> uint64_t in_degree(const U& u) const { return did(1, f_in_degree_u, idx(u)); }
  template <ID U> uint64_t in_degree(const U& u) const { return did(1, f_in_degree_uid, idx(u)); }
  template <ED E> auto target(const E& e) const { did(1, f_target, idx(e.source()), pos(e)); return e.source(); }
  template <ED E> auto source(const E& e) const { did(1, f_source, idx(e.source()), pos(e)); return e.source(); }
  template <ED E> uint64_t source_id(const E& e) const { return did(1, f_source_id, idx(e.source()), pos(e)); }
  template <ED E> int64_t& edge_value(const E& e) const { did(1, f_edge_value, idx(e.source()), pos(e)); return cell; }
  template <VD U> int64_t& vertex_value(const U& u) const { did(1, f_vertex_value, idx(u)); return cell; }
  int64_t& graph_value() const { did(1, f_graph_value); return cell; }
  uint64_t num_vertices() const { return did(1, f_num_vertices); }
  template <ID P> uint64_t num_vertices(P p) const { return did(1, f_num_vertices_pid, p); }
  uint64_t num_edges() const { return did(1, f_num_edges); }
  template <VD U> uint64_t num_edges(const U& u) const { return did(1, f_num_edges_u, idx(u)); }
  template <ID U> uint64_t num_edges(const U& u) const { return did(1, f_num_edges_uid, idx(u)); }
  template <VD U> uint64_t degree(const U& u) const { return did(1, f_degree_u, idx(u)); }
  template <ID U> uint64_t degree(const U& u) const { return did(1, f_degree_uid, idx(u)); }
  template <VD U, VD V> uint64_t find_vertex_edge(const U& u, const V& v) const { return did(1, f_fve_uu, idx(u), idx(v)); }
  template <VD U, ID V> uint64_t find_vertex_edge(const U& u, const V& v) const { return did(1, f_fve_uid, idx(u), idx(v)); }
  template <ID U, ID V> uint64_t find_vertex_edge(const U& u, const V& v) const { return did(1, f_fve_ii, idx(u), idx(v)); }
  template <VD U, VD V> uint64_t find_in_edge(const U& u, const V& v) const { return did(1, f_fie_uu, idx(u), idx(v)); }
  template <VD U, ID V> uint64_t find_in_edge(const U& u, const V& v) const { return did(1, f_fie_uid, idx(u), idx(v)); }
  template <ID U, ID V> uint64_t find_in_edge(const U& u, const V& v) const { return did(1, f_fie_ii, idx(u), idx(v)); }
  template <VD U, VD V> bool contains_in_edge(const U& u, const V& v) const { return did(1, f_cie_uu, idx(u), idx(v)) & 1; }
  template <ID U, ID V> bool contains_in_edge(const U& u, const V& v) const { return did(1, f_cie_ii, idx(u), idx(v)) & 1; }
  template <VD U, VD V> bool contains_edge(const U& u, const V& v) const { return did(1, f_ce_uu, idx(u), idx(v)) & 1; }
  template <ID U, ID V> bool contains_edge(const U& u, const V& v) const { return did(1, f_ce_ii, idx(u), idx(v)) & 1; }
  bool has_edge() const { return did(1, f_has_edge) & 1; }
  template <VD U> uint64_t partition_id(const U& u) const { return did(1, f_partition_id, idx(u)); }
  uint64_t num_partitions() const { return did(1, f_num_partitions); }
};
namespace cust {
struct tag {};
template <class G> concept C = std::derived_from<std::remove_cvref_t<G>, tag>;
template <C G> auto vertices(G& g) { did(2, f_vertices); return all(g); }
template <C G, ID P> auto vertices(G& g, P p) { did(2, f_vertices_pid, p); return all(g); }
template <C G, ID I> auto find_vertex(G& g, I i) { did(2, f_find_vertex, i); return std::ranges::next(all(g).begin(), (std::ptrdiff_t)i); }
template <C G, VD U> auto edges(G& g, const U& u) { did(2, f_edges, idx(u)); return graph::adj_list::edge_descriptor_view(static_cast<std::conditional_t<std::is_const_v<G>, const Base, Base>&>(g)[idx(u)], u); }
template <C G, VD U> auto in_edges(G& g, const U& u) { did(2, f_in_edges, idx(u)); return std::ranges::subrange(g[idx(u)].begin() + 1, g[idx(u)].end()); }
template <C G, VD U> uint64_t in_degree(const G&, const U& u) { return did(2, f_in_degree_u, idx(u)); }
template <C G, ID U> uint64_t in_degree(const G&, const U& u) { return did(2, f_in_degree_uid, idx(u)); }
template <C G, ED E> auto target(const G&, const E& e) { did(2, f_target, idx(e.source()), pos(e)); return e.source(); }
template <C G, ED E> auto source(const G&, const E& e) { did(2, f_source, idx(e.source()), pos(e)); return e.source(); }
template <C G, ED E> uint64_t source_id(const G&, const E& e) { return did(2, f_source_id, idx(e.source()), pos(e)); }
template <C G, ED E> uint64_t target_id(const G&, const E& e) { return did(2, f_target_id, idx(e.source()), pos(e)); }
template <C G, VD U> uint64_t vertex_id(const G&, const U& u) { return did(2, f_vertex_id, idx(u)); }
template <C G, ED E> int64_t& edge_value(const G&, const E& e) { did(2, f_edge_value, idx(e.source()), pos(e)); return cell; }
template <C G, VD U> int64_t& vertex_value(const G&, const U& u) { did(2, f_vertex_value, idx(u)); return cell; }
template <C G> int64_t& graph_value(const G&) { did(2, f_graph_value); return cell; }
template <C G> uint64_t num_vertices(const G&) { return did(2, f_num_vertices); }
template <C G, ID P> uint64_t num_vertices(const G&, P p) { return did(2, f_num_vertices_pid, p); }
template <C G> uint64_t num_edges(const G&) { return did(2, f_num_edges); }
template <C G, VD U> uint64_t num_edges(const G&, const U& u) { return did(2, f_num_edges_u, idx(u)); }
template <C G, ID U> uint64_t num_edges(const G&, const U& u) { return did(2, f_num_edges_uid, idx(u)); }
template <C G, VD U> uint64_t degree(const G&, const U& u) { return did(2, f_degree_u, idx(u)); }
template <C G, ID U> uint64_t degree(const G&, const U& u) { return did(2, f_degree_uid, idx(u)); }
template <C G, VD U, VD V> uint64_t find_vertex_edge(const G&, const U& u, const V& v) { return did(2, f_fve_uu, idx(u), idx(v)); }
template <C G, VD U, ID V> uint64_t find_vertex_edge(const G&, const U& u, const V& v) { return did(2, f_fve_uid, idx(u), idx(v)); }
template <C G, ID U, ID V> uint64_t find_vertex_edge(const G&, const U& u, const V& v) { return did(2, f_fve_ii, idx(u), idx(v)); }
template <C G, VD U, VD V> uint64_t find_in_edge(const G&, const U& u, const V& v) { return did(2, f_fie_uu, idx(u), idx(v)); }
template <C G, VD U, ID V> uint64_t find_in_edge(const G&, const U& u, const V& v) { return did(2, f_fie_uid, idx(u), idx(v)); }
template <C G, ID U, ID V> uint64_t find_in_edge(const G&, const U& u, const V& v) { return did(2, f_fie_ii, idx(u), idx(v)); }
template <C G, VD U, VD V> bool contains_in_edge(const G&, const U& u, const V& v) { return did(2, f_cie_uu, idx(u), idx(v)) & 1; }
template <C G, ID U, ID V> bool contains_in_edge(const G&, const U& u, const V& v) { return did(2, f_cie_ii, idx(u), idx(v)) & 1; }
template <C G, VD U, VD V> bool contains_edge(const G&, const U& u, const V& v) { return did(2, f_ce_uu, idx(u), idx(v)) & 1; }
template <C G, ID U, ID V> bool contains_edge(const G&, const U& u, const V& v) { return did(2, f_ce_ii, idx(u), idx(v)) & 1; }
template <C G> bool has_edge(const G&) { return did(2, f_has_edge) & 1; }
template <C G, VD U> uint64_t partition_id(const G&, const U& u) { return did(2, f_partition_id, idx(u)); }
template <C G> uint64_t num_partitions(const G&) { return did(2, f_num_partitions); }
struct Free : Base, tag { VIDTYPE };
struct Both : Member, tag {};
} // namespace cust
#if KIND == 1
using G = Member; constexpr int HOW = 1;
#elif KIND == 2
using G = cust::Free; constexpr int HOW = 2;
#else
using G = cust::Both; constexpr int HOW = 1;
#endif
static bool called(int how, Fn f, uint64_t a = NO, uint64_t b = NO) { bool r = log_.how == how && log_.fn == f && log_.a == a && log_.b == b; log_ = {}; return r; }
#define ASK(value, what, how, ...) do { log_ = {}; bool ok_ = bool(value); CHECK(called(how, __VA_ARGS__), what " calls the graph's own function with the arguments given"); CHECK(ok_, what " returns what the graph's function returns"); } while (0)
template <class T> static void ask(T& g) {
  ret = sym_u64("returned", 0, UINT64_MAX);
  ASK((uint64_t)A::num_vertices(g) == ret, "num_vertices", HOW, f_num_vertices);
  ASK((uint64_t)A::num_edges(g) == ret, "num_edges", HOW, f_num_edges);
  ASK((uint64_t)A::num_partitions(g) == ret, "num_partitions", HOW, f_num_partitions);
  ASK(A::has_edges(g) == bool(ret & 1), "has_edges", HOW, f_has_edge);
  ASK(&A::graph_value(g) == &cell, "graph_value", HOW, f_graph_value);
  ASK(std::ranges::size(A::vertices(g)) == NV, "vertices", HOW, f_vertices);
  Id p = (Id)pick_u("partition", 0, 3);
  ASK((uint64_t)A::num_vertices(g, p) == ret, "num_vertices of a partition", HOW, f_num_vertices_pid, p);
  ASK(std::ranges::size(A::vertices(g, p)) == NV, "vertices of a partition", HOW, f_vertices_pid, p);
  size_t i = pick_u("u", 0, NV - 1), j = pick_u("v", 0, NV - 1);
  auto vs = all(g);
  auto u = *std::ranges::next(vs.begin(), (std::ptrdiff_t)i), v = *std::ranges::next(vs.begin(), (std::ptrdiff_t)j);
  ASK(*A::find_vertex(g, i) == u, "find_vertex", HOW, f_find_vertex, i);
  ASK(&A::vertex_value(g, u) == &cell, "vertex_value", HOW, f_vertex_value, i);
  ASK((uint64_t)A::partition_id(g, u) == ret, "partition_id", HOW, f_partition_id, i);
  ASK((uint64_t)A::num_edges(g, u) == ret, "num_edges of a vertex", HOW, f_num_edges_u, i);
  ASK((uint64_t)A::num_edges(g, i) == ret, "num_edges of an id", HOW, f_num_edges_uid, i);
  ASK((uint64_t)A::degree(g, u) == ret, "degree", HOW, f_degree_u, i);
  ASK((uint64_t)A::degree(g, i) == ret, "degree of an id", HOW, f_degree_uid, i);
  ASK((uint64_t)A::out_degree(g, u) == ret, "out_degree", HOW, f_degree_u, i);
  ASK((uint64_t)A::in_degree(g, u) == ret, "in_degree", HOW, f_in_degree_u, i);
  ASK((uint64_t)A::in_degree(g, i) == ret, "in_degree of an id", HOW, f_in_degree_uid, i);
  ASK((uint64_t)A::find_vertex_edge(g, u, v) == ret, "find_vertex_edge", HOW, f_fve_uu, i, j);
  ASK((uint64_t)A::find_vertex_edge(g, u, j) == ret, "find_vertex_edge of an id", HOW, f_fve_uid, i, j);
  ASK((uint64_t)A::find_vertex_edge(g, i, j) == ret, "find_vertex_edge of ids", HOW, f_fve_ii, i, j);
  ASK((uint64_t)A::find_in_edge(g, u, v) == ret, "find_in_edge", HOW, f_fie_uu, i, j);
  ASK((uint64_t)A::find_in_edge(g, u, j) == ret, "find_in_edge of an id", HOW, f_fie_uid, i, j);
  ASK((uint64_t)A::find_in_edge(g, i, j) == ret, "find_in_edge of ids", HOW, f_fie_ii, i, j);
  ASK(A::contains_edge(g, u, v) == bool(ret & 1), "contains_edge", HOW, f_ce_uu, i, j);
  ASK(A::contains_edge(g, i, j) == bool(ret & 1), "contains_edge of ids", HOW, f_ce_ii, i, j);
  ASK(A::contains_in_edge(g, u, v) == bool(ret & 1), "contains_in_edge", HOW, f_cie_uu, i, j);
  ASK(A::contains_in_edge(g, i, j) == bool(ret & 1), "contains_in_edge of ids", HOW, f_cie_ii, i, j);
#if KIND != 1
  ASK((uint64_t)A::vertex_id(g, u) == ret, "vertex_id", 2, f_vertex_id, i);
  ASK(std::ranges::size(A::edges(g, u)) == 2 && (*A::edges(g, u).begin()).source() == u, "edges", 2, f_edges, i);
  size_t k = 0;
  for (auto&& e : A::in_edges(g, u)) { CHECK(e.source() == u && e.is_in_edge, "an in-edge knows its vertex"); ++k; }
  CHECK(called(2, f_in_edges, i) && k == 1, "in_edges lists what the graph's function lists");
#endif
  using B = std::conditional_t<std::is_const_v<T>, const Base, Base>;
  size_t c = pick_u("position", 0, 1), n = 0;
  for (auto&& e : graph::adj_list::edge_descriptor_view(static_cast<B&>(g)[i], u)) {
    if (n++ != c) continue;
    ASK(A::source(g, e) == u, "source", HOW, f_source, i, c);
    ASK(A::target(g, e) == u, "target", HOW, f_target, i, c);
    ASK((uint64_t)A::source_id(g, e) == ret, "source_id", HOW, f_source_id, i, c);
    ASK(&A::edge_value(g, e) == &cell, "edge_value", HOW, f_edge_value, i, c);
#if KIND != 1
    ASK((uint64_t)A::target_id(g, e) == ret, "target_id", 2, f_target_id, i, c);
#endif
  }
  sym_cover("asked");
}
extern "C" void harness_main() {
  G g; g.resize(NV); log_ = {}; cell = 0;
  for (Id i = 0; i < NV; ++i) for (Id k = 0; k < 2; ++k) g[i].push_back({(i + k) % NV, (int64_t)k});
#ifdef CONSTG
  ask(std::as_const(g));
#else
  ask(g);
#endif
}
