// What the plain adjacency views should yield: each vertex's edges in the order the container keeps them, checked against the edges given.
#pragma once
#include "model.hpp"
#include <graph/views/vertexlist.hpp>
#include <graph/views/incidence.hpp>
#include <graph/views/neighbors.hpp>
#include <graph/views/edgelist.hpp>
namespace A = graph::adj_list;
struct Row { Id s, t; int64_t w; };
struct Rows { Row r[NV][64] = {}; size_t k[NV] = {}; size_t total = 0; Id ids[NV] = {}; size_t n = 0; };
template <class T> static int64_t weight(T& g, const auto& uv) { if constexpr (has_edge_values<std::remove_const_t<T>>()) return (int64_t)A::edge_value(g, uv); else return 0; }
// in = false: edges by source; in = true: edges by target (s is the neighbour's id, t the vertex)
template <class T> static void rows(T& g, const Edge* e, size_t m, Rows& R, bool in) {
  using H = std::remove_const_t<T>;
  R = Rows();
  for (auto&& u : A::vertices(g)) {
    Id id = (Id)sym_pick((size_t)A::vertex_id(g, u));
    CHECK(id < NV && R.n < NV, "vertex ids");
    R.ids[R.n++] = id;
    Row* r = R.r[id]; size_t& k = R.k[id];
    auto rd = [&](auto&& range) { for (auto&& uv : range) { CHECK(k < 64, "harness capacity"); r[k++] = {(Id)A::source_id(g, uv), (Id)A::target_id(g, uv), weight(g, uv)}; } };
    if (!in || is_ual<H>) rd(A::edges(g, u));
    else if constexpr (requires { A::in_edges(g, u); }) rd(A::in_edges(g, u));
    R.total += k;
    Mask used[2] = {}; size_t want = 0; Edge x[96] = {};
    if constexpr (is_ual<H>) { for (size_t i = 0; i < m; ++i) if (e[i].s == id || e[i].t == id) x[want++] = {id, e[i].s == id ? e[i].t : e[i].s, e[i].w}; }
    else { Model md; for (size_t i = 0; i < m; ++i) md.add(e[i]); if constexpr (std::is_same_v<H, H>) want = in ? expected_in_edges<H>(md, id, x) : expected_edges<H>(md, id, x); }
    CHECK(want == k, "a vertex's edges");
    constexpr bool any = !is_ual<H> && order_kind<H>() == 3;
    for (size_t i = 0; i < k; ++i) {
      size_t at = i;
      if (any) { for (at = 0; at < want; ++at) if (in ? x[at].s == r[i].s : x[at].t == r[i].t) break; CHECK(at < want && !(used[at / 64] >> (at % 64) & 1), "an edge not given"); used[at / 64] |= Mask(1) << (at % 64); }
      CHECK(x[at].s == r[i].s && x[at].t == r[i].t, "a vertex's edges are those given");
      if (has_edge_values<H>()) CHECK(x[at].w == r[i].w, "a vertex's edge values are those given");
    }
    if (in && is_ual<H>) for (size_t i = 0; i < k; ++i) std::swap(r[i].s, r[i].t);
  }
  CHECK(R.n == NV, "every vertex");
}
// view yields exactly k elements, f(i, element) checks one; twice, by both increments, and its size and emptiness agree
template <class V, class F> static void yields(V&& v, size_t k, F f) {
  size_t i = 0;
  for (auto&& x : v) { CHECK(i < k, "a view has no extra elements"); f(i, x); ++i; }
  CHECK(i == k, "a view has every element");
  if constexpr (requires { v.size(); }) CHECK((size_t)v.size() == k, "a view's size");
  if constexpr (std::ranges::view<std::remove_cvref_t<V>>) CHECK(v.empty() == (k == 0), "emptiness"); else CHECK((v.begin() == v.end()) == (k == 0), "emptiness");
  i = 0;
  for (auto it = v.begin(), e = v.end(); it != e;) {
    CHECK(i < k, "a second pass is the same");
    auto at = it; f(i, *at); auto old = it++; CHECK(old == at && old != it, "post-increment"); f(i, *old); ++i;
  }
  CHECK(i == k, "a second pass is the same");
}
