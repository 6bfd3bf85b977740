// Compares every vertex, edge, value and count a graph reports with the vertices and edges it should hold.
#pragma once
#include "oracle.hpp"
template <class G> constexpr bool map_vertices() { if constexpr (has_traits<G>) return requires { typename G::vertices_type::key_type; }; else return false; }
template <class G> constexpr bool hash_vertices() { if constexpr (has_traits<G>) return requires { typename G::vertices_type::hasher; }; else return requires { typename G::hasher; }; }
template <class G> constexpr bool has_edge_values() {
  if constexpr (requires { typename G::graph_traits::edge_value_type; }) return !std::is_void_v<typename G::graph_traits::edge_value_type>;
  else if constexpr (requires { typename G::edge_value_type; }) return !std::is_void_v<typename G::edge_value_type>;
  else if constexpr (is_std<G>) return !std::is_same_v<G, std::vector<std::vector<int>>>;
  else return true;
}
struct Model {
  Mask   ids = 0;      // vertices that exist (ids < 64)
  Edge   e[96] = {};      // in load order
  size_t m = 0;
  void   upto(size_t n) { ids |= n >= 64 ? ~Mask(0) : (Mask(1) << n) - 1; }
  void   add(Edge x) { e[m++] = x; }
  size_t n() const { return popc64(ids); }
  static size_t popc64(Mask x) { size_t c = 0; for (; x; x &= x - 1) ++c; return c; }
};
// edges of u in the order the container keeps them (kind 3: any order, sorted by target here)
template <class G> size_t expected_edges(const Model& md, size_t u, Edge* out) {
  size_t k = 0;
  constexpr int kind = order_kind<G>();
  if constexpr (kind == 1) { for (size_t i = md.m; i-- > 0;) if (md.e[i].s == u) out[k++] = md.e[i]; }
  else if constexpr (kind == 0) { for (size_t i = 0; i < md.m; ++i) if (md.e[i].s == u) out[k++] = md.e[i]; }
  else for (Id v = 0; v < 64; ++v) for (size_t i = 0; i < md.m; ++i) if (md.e[i].s == u && md.e[i].t == v) { out[k++] = md.e[i]; break; } // first value wins
  return k;
}
// edges into v as the container keeps them
template <class G> size_t expected_in_edges(const Model& md, size_t v, Edge* out) {
  size_t k = 0;
  constexpr int kind = order_kind<G>();
  if constexpr (kind == 1) { for (size_t i = md.m; i-- > 0;) if (md.e[i].t == v) out[k++] = md.e[i]; }
  else if constexpr (kind == 0) { for (size_t i = 0; i < md.m; ++i) if (md.e[i].t == v) out[k++] = md.e[i]; }
  else for (Id u = 0; u < 64; ++u) for (size_t i = 0; i < md.m; ++i) if (md.e[i].s == u && md.e[i].t == v) { out[k++] = md.e[i]; break; }
  return k;
}
template <class G> void expect_in(G& g, const Model& md) {
  namespace A = graph::adj_list;
  for (auto&& v : A::vertices(g)) {
    size_t id = sym_pick((size_t)A::vertex_id(g, v));
    Edge x[96] = {}; size_t k = expected_in_edges<std::remove_const_t<G>>(md, id, x), j = 0;
    Mask used = 0;
    for (auto&& ie : A::in_edges(g, v)) {
      CHECK(j < k, "a vertex has no extra in-edges");
      size_t at = j;
      Id s = (Id)A::source_id(g, ie);
      if constexpr (order_kind<std::remove_const_t<G>>() == 3) { for (at = 0; at < k; ++at) if (x[at].s == s) break; CHECK(at < k && !(used >> at & 1), "an in-edge not given"); used |= Mask(1) << at; }
      CHECK(s == x[at].s, "an in-edge's source");
      if constexpr (has_edge_values<std::remove_const_t<G>>()) CHECK(A::edge_value(g, ie) == x[at].w, "an in-edge's value");
      ++j;
    }
    CHECK(j == k, "a vertex has all of its in-edges");
    CHECK((size_t)A::in_degree(g, v) == k, "in_degree");
    CHECK((size_t)A::in_degree(g, (Id)id) == k, "in_degree by id");
    CHECK((size_t)std::ranges::distance(A::in_edges(g, (Id)id)) == k, "in_edges by id");
  }
}
template <class G> void expect_graph(G& g, const Model& md, bool counts = true) {
  namespace A = graph::adj_list;
  CHECK(A::num_vertices(g) == md.n(), "num_vertices");
  Mask seen = 0; int64_t prev = -1;
  size_t total = 0;
  for (auto&& u : A::vertices(g)) {
    size_t id = sym_pick((size_t)A::vertex_id(g, u));
    CHECK(id < 64 && (md.ids >> id & 1) && !(seen >> id & 1), "each vertex is listed once");
    if constexpr (!hash_vertices<G>()) CHECK((int64_t)id > prev, "vertices are in id order");
    prev = (int64_t)id;
    seen |= Mask(1) << id;
    Edge x[96] = {}; size_t k = expected_edges<G>(md, id, x), j = 0;
    Mask used = 0;
    for (auto&& uv : A::edges(g, u)) {
      CHECK(j < k, "a vertex has no extra edges");
      size_t at = j;
      Id t = (Id)A::target_id(g, uv);
      if constexpr (order_kind<G>() == 3) { for (at = 0; at < k; ++at) if (x[at].t == t) break; CHECK(at < k && !(used >> at & 1), "an edge not given"); used |= Mask(1) << at; }
      CHECK(t == x[at].t, "an edge's target");
      CHECK((size_t)A::source_id(g, uv) == id, "an edge's source");
      if constexpr (has_edge_values<std::remove_const_t<G>>()) CHECK(A::edge_value(g, uv) == x[at].w, "an edge's value");
      ++j;
    }
    CHECK(j == k, "a vertex has all of its edges");
    CHECK((size_t)A::degree(g, u) == k, "degree");
    total += k;
  }
  CHECK(seen == md.ids, "all vertices are listed");
  if (counts && order_kind<G>() < 2) {
    CHECK((size_t)A::num_edges(g) == md.m, "num_edges");
    CHECK(total == md.m, "every edge is stored under its source");
  }
  CHECK(A::has_edges(g) == (total > 0), "has_edges");
}
template <class G> void expect(G& g, const Model& md, bool counts = true) { expect_graph(g, md, counts); expect_graph(std::as_const(g), md, counts); }
// a range that can be read only once
template <class T> struct Once {
  const T* b; const T* e;
  struct it {
    using value_type = T; using difference_type = std::ptrdiff_t; using iterator_concept = std::input_iterator_tag;
    const T* p = nullptr; const T* end = nullptr;
    const T& operator*() const { return *p; }
    it& operator++() { ++p; return *this; }
    void operator++(int) { ++p; }
    bool operator==(std::default_sentinel_t) const { return p == end; }
  };
  it begin() { return {b, e}; }
  std::default_sentinel_t end() { return {}; }
};
template <class EV> using CE_t = graph::copyable_edge_t<Id, EV>;
template <class EV> CE_t<EV> mk_edge(Edge x) { if constexpr (std::is_void_v<EV>) return CE_t<EV>{x.s, x.t}; else return CE_t<EV>{x.s, x.t, x.w}; }
// at most k edges in any order
static inline size_t any_edges(Edge* e, size_t k, Id top, bool lazy = true) {
  size_t m = pick_u("m", 0, k);
  for (size_t i = 0; i < m; ++i) {
    e[i] = {(Id)pick_u("src", 0, top), (Id)sym_u64("tgt", 0, top), sym_i64("w", WLO, WHI)};
    if (!lazy) e[i].t = (Id)sym_pick(e[i].t);
  }
  return m;
}
