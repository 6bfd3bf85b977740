// Reference answers computed from the plain edge array, straight from the definitions. Branch-free where inputs may be symbolic.
#pragma once
#include "gen.hpp"
#ifndef NMAX
#define NMAX 8
#endif
typedef uint64_t Mask;
struct Rel { // relation on vertex ids as bit rows
  Mask r[NMAX] = {};
  size_t n = 0;
  bool has(size_t i, size_t j) const { return (r[i] >> j) & 1; }
};
static inline Rel rel_of(const Edge* e, size_t m, size_t n) {
  Rel a; a.n = n;
  for (size_t i = 0; i < m; ++i) a.r[e[i].s] |= Mask(1) << e[i].t;
  return a;
}
static inline Rel rel_rev(const Edge* e, size_t m, size_t n) {
  Rel a; a.n = n;
  for (size_t i = 0; i < m; ++i) for (size_t v = 0; v < n; ++v) a.r[v] |= Mask(e[i].t == v) << e[i].s;
  return a;
}
static inline Rel closure(Rel a, bool reflexive) {
  if (reflexive) for (size_t i = 0; i < a.n; ++i) a.r[i] |= Mask(1) << i;
  for (size_t k = 0; k < a.n; ++k) for (size_t i = 0; i < a.n; ++i) a.r[i] |= (Mask(0) - ((a.r[i] >> k) & 1)) & a.r[k];
  return a;
}
// set of vertices at distance <= k from the set s
static inline Mask ball(const Rel& a, Mask s, size_t k) {
  while (k--) { Mask t = s; for (size_t i = 0; i < a.n; ++i) t |= (Mask(0) - ((s >> i) & 1)) & a.r[i]; s = t; }
  return s;
}
static inline size_t popc(Mask m) { size_t c = 0; for (size_t i = 0; i < NMAX; ++i) c += (m >> i) & 1; return c; }
// symmetric relation of an undirected graph (self-loops included)
template <class U> static inline Rel und_of(const U& g) {
  Rel r; r.n = g.n;
  for (size_t i = 0; i < g.m; ++i) { r.r[g.a[i]] |= Mask(1) << g.b[i]; r.r[g.b[i]] |= Mask(1) << g.a[i]; }
  return r;
}
// number of connected components of the symmetric relation r restricted to the vertex set s
static inline size_t ncomp(const Rel& r, Mask s) {
  size_t c = 0;
  for (size_t i = 0; i < r.n; ++i) if ((s >> i) & 1) {
    ++c; Mask x = Mask(1) << i, y = 0;
    while (x != y) { y = x; for (size_t j = 0; j < r.n; ++j) if ((y >> j) & 1) x |= r.r[j] & s; }
    s &= ~x;
  }
  return c;
}
// stored order of u's out-edges, derived from the load order and the documented order of the edge container
template <class G> struct edge_order { static constexpr int kind = 0; }; // 0 load order, 1 reversed (forward_list), 2 ascending unique targets (set/map), 3 unordered unique
template <class T> concept has_traits = requires { typename T::graph_traits; };
template <class T> struct is_fl : std::false_type {}; template <class... A> struct is_fl<std::forward_list<A...>> : std::true_type {};
template <class G> constexpr int order_kind() {
  if constexpr (has_traits<G>) {
    using E = typename G::edges_type;
    if constexpr (is_fl<E>::value) return 1;
    else if constexpr (requires { typename E::hasher; }) return 3;
    else if constexpr (requires { typename E::key_compare; }) return 2;
  } else if constexpr (std_map_edges<G>) return 2;
  return 0;
}
template <class G> void adjacency(const G& g, Id u, Id* out, size_t& k, const Edge* e, size_t m) {
  k = 0;
  if constexpr (order_kind<G>() == 1) { for (size_t i = m; i-- > 0;) if (e[i].s == u) out[k++] = e[i].t; }
  else if constexpr (order_kind<G>() == 2) { for (Id v = 0; v < NV; ++v) for (size_t i = 0; i < m; ++i) if (e[i].s == u && e[i].t == v) { out[k++] = v; break; } }
  else if constexpr (order_kind<G>() == 3) { for (auto&& uv : graph::adj_list::edges(g, u)) out[k++] = graph::adj_list::target_id(g, uv); }
  else { for (size_t i = 0; i < m; ++i) if (e[i].s == u) out[k++] = e[i].t; }
}
// Undirected graph for a graph type G. -DLAZY: both directions of every edge stored in any order, targets symbolic, constrained to be symmetric
// (at most NE arcs); otherwise at most NE unordered pairs, forked (CANON: in sorted order only), or a FAM family.
#ifndef CANON
#define CANON 1
#endif
template <class G> struct Und {
  size_t n = NV, m = 0;
  Edge   e[2 * Ugraph::CAP + 1];
  Rel    rel; // adjacency, loops included
  size_t mult = 0;
  Und(bool loops, bool multi, bool weights = false) {
#if defined(LAZY) && !defined(FAM)
    static_assert(!is_ual<G>);
    Digraph d(true, loops);
    m = d.m;
    for (size_t i = 0; i < m; ++i) e[i] = d.e[i];
    for (Id u = 0; u < NV; ++u)
      for (Id v = 0; v < u; ++v) {
        unsigned a = 0, b = 0;
        for (size_t i = 0; i < m; ++i) { if (e[i].s == u) a += e[i].t == v; if (e[i].s == v) b += e[i].t == u; }
        sym_assume(a == b); if (!multi) sym_assume(a <= 1);
      }
    if (!multi) for (Id u = 0; u < NV; ++u) { unsigned a = 0; for (size_t i = 0; i < m; ++i) if (e[i].s == u) a += e[i].t == u; sym_assume(a <= 1); }
    if (weights) for (size_t i = 0; i < m; ++i) for (size_t j = 0; j < i; ++j) if (e[i].s != e[j].s) sym_assume(!((e[i].t == e[j].s) & (e[j].t == e[i].s)) | (e[i].w == e[j].w));
#else
    Ugraph g(CANON, loops, multi);
    m = g.template arcs<G>(e);
#endif
    rel = rel_of(e, m, n);
    for (size_t i = 0; i < m; ++i) for (size_t v = 0; v < n; ++v) rel.r[v] |= Mask(e[i].t == v) << e[i].s;
  }
};
