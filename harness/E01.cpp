// @run quick KIND=pair ID=uint32_t
// @run quick KIND=pair ID=int64_t
// @run quick KIND=tuple2 ID=int32_t
// @run quick KIND=tuple3 ID=uint64_t
// @run quick KIND=tuple4 ID=uint8_t
// @run quick KIND=data ID=uint32_t
// @run quick KIND=dataev ID=int32_t
// @run quick KIND=desc ID=int32_t
// @run quick KIND=desc ID=uint64_t
// @run quick KIND=descev ID=uint32_t
// @run quick KIND=descev ID=int64_t
// @run quick KIND=mine ID=uint16_t
// @run quick KIND=named ID=int32_t
// @run thorough KIND=pair ID=uint8_t N=5
// @run thorough KIND=tuple3 ID=int64_t N=5
// @run thorough KIND=tuple4 ID=int32_t N=5
// @run thorough KIND=dataev ID=uint64_t N=5
// @run thorough KIND=desc ID=uint8_t N=5
// @run thorough KIND=descev ID=int16_t N=5
// @bounds edge lists of at most N (default 3) elements of the form KIND with ids of type ID, held in a vector, a list, a forward_list or read through a view; every id of the type and every 64-bit value; all pairs of edge_list::edge_descriptor for the comparisons
// @covers edge
#include "graphs.hpp"
#include <graph/edge_list/edge_list.hpp>
#include <graph/edge_list/edge_list_descriptor.hpp>
#include <graph/views/edgelist.hpp>
#ifndef N
#define N 3
#endif
namespace el = graph::edge_list;
struct Plain { ID s, t; int64_t v; };
static Plain in[N]; static size_t n;
struct Named { // ids and value by member functions
  ID s, t; int64_t v;
};
template <class I> struct Mine { I source_id, target_id; int64_t value; int64_t other; };
struct K_pair { using E = std::pair<ID, ID>; static constexpr bool val = false; static E mk(const Plain& p) { return {p.s, p.t}; } };
struct K_tuple2 { using E = std::tuple<ID, ID>; static constexpr bool val = false; static E mk(const Plain& p) { return {p.s, p.t}; } };
struct K_tuple3 { using E = std::tuple<ID, ID, int64_t>; static constexpr bool val = true; static E mk(const Plain& p) { return {p.s, p.t, p.v}; } };
struct K_tuple4 { using E = std::tuple<ID, ID, int64_t, int64_t>; static constexpr bool val = true; static E mk(const Plain& p) { return {p.s, p.t, p.v, 9}; } };
struct K_data { using E = graph::edge_data<ID, true, void, void>; static constexpr bool val = false; static E mk(const Plain& p) { return {p.s, p.t}; } };
struct K_dataev { using E = graph::edge_data<ID, true, void, int64_t>; static constexpr bool val = true; static E mk(const Plain& p) { return {p.s, p.t, p.v}; } };
struct K_desc { using E = el::edge_descriptor<ID, void>; static constexpr bool val = false; static E mk(const Plain& p) { return E(p.s, p.t); } };
struct K_descev { using E = el::edge_descriptor<ID, int64_t>; static constexpr bool val = true; static E mk(const Plain& p) { return E(p.s, p.t, p.v); } };
struct K_mine { using E = Mine<ID>; static constexpr bool val = true; static E mk(const Plain& p) { return {p.s, p.t, p.v, 8}; } };
struct K_named { using E = graph::edge_data<ID, true, int, int64_t>; static constexpr bool val = true; static E mk(const Plain& p) { return {p.s, p.t, 5, p.v}; } };
using K = CAT(K_, KIND);
template <class L> static void reads(L& l, const char*) {
  static_assert(el::basic_sourced_edgelist<L> && el::basic_sourced_index_edgelist<L>);
  static_assert(el::has_edge_value<L> == K::val);
  static_assert(std::is_same_v<el::vertex_id_t<L>, ID>);
  size_t i = 0;
  for (auto&& uv : l) {
    CHECK(i < n, "no extra edges");
    CHECK(graph::source_id(l, uv) == in[i].s, "source_id");
    CHECK(graph::target_id(l, uv) == in[i].t, "target_id");
    if constexpr (K::val) CHECK(graph::edge_value(l, uv) == in[i].v, "edge_value");
    ++i; sym_cover("edge");
  }
  CHECK(i == n, "every edge");
}
template <class V, class F> static void each(V&& v, F f) {
  for (int pass = 0; pass < 2; ++pass) { size_t i = 0; for (auto&& x : v) { CHECK(i < n, "edgelist has no extra elements"); f(i, x); ++i; } CHECK(i == n, "edgelist yields every edge"); }
  size_t i = 0;
  for (auto it = v.begin(); it != v.end();) { CHECK(i < n, "edgelist has no extra elements"); auto at = it; auto old = it++; CHECK(old == at && old != it, "post-increment"); f(i, *old); ++i; }
  CHECK(i == n && (v.begin() == v.end()) == (n == 0), "edgelist yields every edge");
  if constexpr (requires { v.size(); }) CHECK((size_t)v.size() == n, "edgelist's size");
}
template <class L> static void views(L& l) {
  each(graph::views::edgelist(l), [&](size_t i, auto&& x) {
    CHECK(x.source_id == in[i].s && x.target_id == in[i].t, "edgelist of an edge list");
    CHECK(graph::source_id(l, x.edge) == in[i].s && graph::target_id(l, x.edge) == in[i].t, "edgelist's edge");
  });
  int64_t calls = 0;
  auto f = [&calls](const auto& ll, const auto& e) { ++calls; if constexpr (K::val) return (int64_t)graph::edge_value(ll, e); else return (int64_t)graph::target_id(ll, e); };
  each(graph::views::edgelist(l, f), [&](size_t i, auto&& x) {
    CHECK(x.source_id == in[i].s && x.target_id == in[i].t, "edgelist of an edge list with a function");
    CHECK(graph::source_id(l, x.edge) == in[i].s && graph::target_id(l, x.edge) == in[i].t, "edgelist's edge");
    if constexpr (K::val) CHECK(x.value == in[i].v, "edgelist's value"); else CHECK(x.value == (int64_t)in[i].t, "edgelist's value");
  });
  CHECK(calls >= (int64_t)n, "the function is called for every edge");
}
template <class E> static void compare(const std::vector<E>& v) {
  if constexpr (std::is_same_v<E, K_desc::E> || std::is_same_v<E, K_descev::E>) {
    for (size_t i = 0; i < n; ++i) {
      E c(v[i]); CHECK(c == v[i], "a copy of a descriptor equals it");
      CHECK(c.source_id() == in[i].s && c.target_id() == in[i].t, "a copy of a descriptor names the same edge");
      for (size_t j = 0; j < n; ++j) {
        const Plain &a = in[i], &b = in[j];
        bool eq = (a.s == b.s) & (a.t == b.t) & (!K::val | (a.v == b.v));
        bool lt = (a.s < b.s) | ((a.s == b.s) & ((a.t < b.t) | ((a.t == b.t) & K::val & (a.v < b.v))));
        CHECK((v[i] == v[j]) == eq && (v[i] != v[j]) == !eq, "equality of descriptors");
        CHECK((v[i] < v[j]) == lt, "order of descriptors");
        CHECK((v[i] <= v[j]) == (lt | eq) && (v[i] > v[j]) == !(lt | eq) && (v[i] >= v[j]) == !lt, "order of descriptors");
        auto o = v[i] <=> v[j];
        CHECK((o == 0) == eq && (o < 0) == lt && (o > 0) == !(lt | eq), "three-way comparison of descriptors");
      }
    }
  }
}
extern "C" void harness_main() {
  n = pick_u("n", 0, N);
  for (size_t i = 0; i < n; ++i) {
    if constexpr (std::is_signed_v<ID>) { in[i].s = (ID)sym_i64("s", std::numeric_limits<ID>::min(), std::numeric_limits<ID>::max()); in[i].t = (ID)sym_i64("t", std::numeric_limits<ID>::min(), std::numeric_limits<ID>::max()); }
    else { in[i].s = (ID)sym_u64("s", 0, std::numeric_limits<ID>::max()); in[i].t = (ID)sym_u64("t", 0, std::numeric_limits<ID>::max()); }
    in[i].v = sym_i64("v", INT64_MIN, INT64_MAX);
  }
  using E = K::E;
  std::vector<E> v; std::list<E> l; std::forward_list<E> f;
  for (size_t i = 0; i < n; ++i) { v.push_back(K::mk(in[i])); l.push_back(K::mk(in[i])); }
  for (size_t i = n; i-- > 0;) f.push_front(K::mk(in[i]));
  reads(v, ""); reads(std::as_const(v), ""); reads(l, ""); reads(std::as_const(f), "");
  auto sub = std::ranges::subrange(v.begin(), v.end()); reads(sub, "");
  views(v); views(f); views(std::as_const(v)); views(std::as_const(f));
  compare(v);
}
