// undirected_adjacency_list: the graph as it should be after a history of mutations, and a comparison that looks at it every way the class offers.
#pragma once
static constexpr bool EVV = !std::is_void_v<EVT>;
struct Live { Id a, b; int64_t w; };
// Edge values are 16 * symbolic + serial number where the order of edges is not part of the property (any_order): the serial number tells parallel edges apart.
struct Ref { // the graph as it should be
  Live e[16] = {}; size_t m = 0; int64_t val[8] = {}; size_t n = 0; bool any_order = false;
  void add(Id a, Id b, int64_t w) { e[m++] = {a, b, w}; }
  void del(size_t i) { for (; i + 1 < m; ++i) e[i] = e[i + 1]; --m; }
  size_t list(Id u, size_t* out) const { size_t k = 0; for (size_t i = 0; i < m; ++i) if (e[i].a == u || e[i].b == u) out[k++] = i; return k; }
};
static bool is_edge(const typename G::edge_type& x, const Live& l) {
  Id s = x.list_owner_id(), t = x.list_target_id();
  if (!((s == l.a && t == l.b) || (s == l.b && t == l.a))) return false;
  if constexpr (EVV) return x.value() == l.w; else return true;
}
template <class GG> static size_t list_in(GG& g, const Ref& r, Id u, size_t* out) {
  size_t k = r.list(u, out);
  if constexpr (EVV) if (r.any_order) {
    size_t have[16], c = 0;
    for (auto&& uv : graph::adj_list::edges(g, u)) {
      CHECK(c < k, "no other edge in a vertex's list");
      int64_t tag = graph::adj_list::edge_value(g, uv) & 15; size_t at = k;
      for (size_t i = 0; i < k; ++i) if ((r.e[out[i]].w & 15) == tag) at = i;
      CHECK(at < k, "an edge of the original");
      for (size_t i = 0; i < c; ++i) CHECK(have[i] != out[at], "an edge is in the list once");
      have[c++] = out[at];
    }
    CHECK(c == k, "every edge is in the list of its ends");
    for (size_t i = 0; i < k; ++i) out[i] = have[i];
  }
  return k;
}
template <class GG> static void same(GG& g, const Ref& r) {
  namespace A = graph::adj_list;
  CHECK(g.num_vertices() == r.n && A::num_vertices(g) == r.n && g.vertices().size() == r.n, "number of vertices");
  CHECK(g.num_edges() == r.m && (size_t)A::num_edges(g) == r.m && g.has_edge() == (r.m > 0) && A::has_edges(g) == (r.m > 0), "number of edges");
  size_t seen = 0, arcs = 0;
  for (auto&& u : A::vertices(g)) {
    Id id = (Id)A::vertex_id(g, u);
    CHECK(id == seen, "vertices in order"); ++seen;
    CHECK(A::vertex_value(g, u) == r.val[id], "a vertex's value");
    size_t l[16], k = list_in(g, r, id, l), j = 0;
    for (auto&& uv : A::edges(g, u)) {
      CHECK(j < k, "no other edge in a vertex's list");
      const Live& x = r.e[l[j]];
      CHECK((Id)A::target_id(g, uv) == (x.a == id ? x.b : x.a), "an edge's other end");
      CHECK((Id)A::source_id(g, uv) == id, "an edge's near end");
      if constexpr (EVV) CHECK(A::edge_value(g, uv) == x.w, "an edge's value");
      CHECK((Id)A::vertex_id(g, A::target(g, uv)) == (x.a == id ? x.b : x.a), "an edge's target");
      ++j;
    }
    CHECK(j == k, "every edge is in the list of its ends");
    CHECK((size_t)A::degree(g, u) == k && g.vertices()[id].num_edges() == k, "degree");
    auto&& V = g.vertices()[id];
    j = 0;
    for (auto it = V.edges_begin(g, id); it != V.edges_end(g, id); ++it, ++j) CHECK(j < k && is_edge(*it, r.e[l[j]]) && it.source_id() == id, "member list forwards");
    CHECK(j == k, "member list length");
    if (k) {
      auto it = V.edges_begin(g, id); for (size_t i = 1; i < k; ++i) ++it;
      for (size_t i = k; i-- > 0;) { CHECK(is_edge(*it, r.e[l[i]]), "list backwards"); if (i) --it; }
    }
    for (auto it = V.edges_end(g, id); j > 0;) { --it; --j; CHECK(is_edge(*it, r.e[l[j]]), "backwards from the end"); }
    if (!k) CHECK(V.edges_begin(g, id) == V.edges_end(g, id), "empty list");
    if constexpr (!std::is_const_v<GG>) { j = 0;
    for (auto&& nb : V.neighbors(g, id)) { CHECK(j < k, "no other neighbour"); const Live& x = r.e[l[j]]; CHECK(&nb == &g.vertices()[x.a == id ? x.b : x.a], "neighbour"); ++j; }
    CHECK(j == k, "neighbours"); }
    arcs += k;
  }
  CHECK(seen == r.n, "all vertices");
  auto er = g.edges(); // every edge, once from each end
  size_t at = 0; Id u = 0; size_t l[16], k = r.n ? list_in(g, r, 0, l) : 0, j = 0;
  for (auto it = er.begin(); it != er.end(); ++it, ++at, ++j) {
    while (u < r.n && j == k) { ++u; j = 0; k = u < r.n ? list_in(g, r, u, l) : 0; }
    CHECK(u < r.n && is_edge(*it, r.e[l[j]]), "graph-level iteration");
  }
  CHECK(at == arcs, "graph-level iteration is complete");
}
static void both(G& g, const Ref& r) { same(g, r); same(std::as_const(g), r); }
