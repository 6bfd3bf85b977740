// The graph a search view walks: for each vertex its neighbours along the accessor's edges, in stored order, with the edge descriptors.
#pragma once
#include "views.hpp"
#include <graph/views/bfs.hpp>
#include <graph/views/dfs.hpp>
#include <graph/views/topological_sort.hpp>
namespace W = graph::views;
struct Deg { int64_t off; template <class GG, class V> int64_t operator()(const GG& gg, const V& v) const { return (int64_t)A::vertex_id(gg, v) * 64 + (int64_t)A::degree(gg, v) + off; } };
struct Wgt { int64_t off; template <class GG, class E> int64_t operator()(const GG& gg, const E& uv) const { return weight(gg, uv) + off; } };
template <class T, bool In> struct Walk {
  using Acc = std::conditional_t<In, W::in_edge_accessor, W::out_edge_accessor>;
  using ED = typename Acc::template edge_t<T>;
  size_t k[NV] = {}; Id nb[NV][64] = {}; int64_t w[NV][64] = {}; ED d[NV][64] = {}; Rel rel; size_t deg[NV] = {};
  Walk(T& g, const Edge* e, size_t m) {
    static Rows R; rows(g, e, m, R, In); rel.n = NV;
    for (auto&& v : A::vertices(g)) {
      Id id = (Id)A::vertex_id(g, v); k[id] = R.k[id]; deg[id] = A::degree(g, v);
      for (size_t j = 0; j < k[id]; ++j) { nb[id][j] = In ? R.r[id][j].s : R.r[id][j].t; w[id][j] = R.r[id][j].w; rel.r[id] |= Mask(1) << nb[id][j]; }
      size_t j = 0;
      if constexpr (In) { for (auto&& x : A::in_edges(g, v)) d[id][j++] = x; } else { for (auto&& x : A::edges(g, v)) d[id][j++] = x; }
    }
  }
  // the vertex and position whose edge this is
  void find(const ED& uv, Id& v, size_t& j) const {
    size_t hits = 0;
    for (Id i = 0; i < NV; ++i) for (size_t x = 0; x < k[i]; ++x) if (d[i][x] == uv) { v = i; j = x; ++hits; }
    CHECK(hits == 1, "a yielded edge is one of the graph's");
  }
};
