// @run quick NV=3 NE=3 GT=vov
// @run quick NV=3 NE=3 GT=vofl
// @run quick NV=3 NE=3 GT=mol
// @run quick NV=3 NE=2 GT=dos
// @run quick NV=2 NE=2 GT=uov
// @run quick NV=3 NE=3 GT=csr
// @run quick NV=3 NE=2 GT=ual
// @run quick NV=3 NE=2 GT=vv
// @run quick NV=3 NE=2 GT=mv
// @run quick NV=3 NE=3 GT=bvov
// @run quick NV=2 NE=2 GT=bmol
// @run quick NV=7 NE=0 FAM=0 GT=vov
// @run quick NV=7 NE=0 FAM=0 GT=dol
// @run quick NV=2 NE=2 GT=dod
// @run quick NV=2 NE=2 GT=vous
// @run quick NV=2 NE=2 GT=vom
// @run quick NV=2 NE=2 GT=mos
// @run quick NV=2 NE=2 GT=uol
// @run quick NV=2 NE=2 GT=vi
// @run quick NV=2 NE=2 GT=lp
// @run quick NV=2 NE=2 GT=vt
// @run quick NV=2 NE=2 GT=vt3
// @run quick NV=2 NE=2 GT=lt3
// @run quick NV=2 NE=2 GT=vt1
// @run quick NV=2 NE=2 GT=vm
// @run quick NV=2 NE=2 GT=ml
// @run quick NV=2 NE=2 GT=bvofl
// @run quick NV=2 NE=2 GT=bdod
// @run quick NV=2 NE=2 GT=bvous
// @run quick NV=2 NE=2 GT=buov
// @run quick NV=3 NE=3 GT=vov IDT=int32_t
// @run quick NV=3 NE=3 GT=csr IDT=uint8_t
// @run quick NV=3 NE=3 GT=mol IDT=int64_t
// @run quick NV=2 NE=2 GT=bvom
// @run quick NV=2 NE=2 GT=bmom
// @run quick NV=20 NE=0 NMAX=20 FAM=0 GT=uov
// @run quick NV=20 NE=0 NMAX=20 FAM=0 GT=csr
// @run thorough NV=3 NE=4 GT=vov
// @run thorough NV=3 NE=3 GT=vod
// @run thorough NV=3 NE=3 GT=vous
// @run thorough NV=3 NE=3 GT=vom
// @run thorough NV=3 NE=3 GT=dofl
// @run thorough NV=3 NE=3 GT=mos
// @run thorough NV=3 NE=3 GT=mov
// @run thorough NV=3 NE=3 GT=uol
// @run thorough NV=3 NE=4 GT=csr
// @run thorough NV=3 NE=3 GT=ual
// @run thorough NV=3 NE=3 GT=vi
// @run thorough NV=3 NE=3 GT=mv
// @run thorough NV=3 NE=3 GT=bvofl
// @run thorough NV=3 NE=3 GT=bmov
// @run thorough NV=3 NE=3 GT=bdod
// @run thorough NV=12 NE=0 NMAX=12 FAM=0 GT=vol
// @run thorough NV=7 NE=0 FAM=1 GT=csr
// @bounds every graph of at most NE edges over NV vertices (parallel edges and self-loops included) held in the container GT, or a larger base shape (FAM); every pair of its vertex descriptors and of its edge descriptors (in-edge descriptors too where kept), on the graph and on its const reference; ordering only where the descriptor stores an index or a random access iterator (elsewhere <=> isn't defined)
// @covers edges
#include "model.hpp"
#include <compare>
using namespace graph;
namespace A = graph::adj_list;
using G = GRAPH<int64_t>;
template <class X> constexpr size_t tsz() { if constexpr (requires { std::tuple_size<X>::value; }) return std::tuple_size_v<X>; else return 0; }
// all descriptors of one kind: no two are equal, each equals itself and its copy, and their order is total
template <class D, size_t N> struct Bag {
  D d[N] = {}; size_t k = 0;
  static D bump_pre(D x, D& r) { r = ++x; return x; }
  void add(const D& x) {
    CHECK(k < N, "harness capacity");
    std::hash<D> h;
    D c(x); D a; a = x;
    CHECK(c == x && a == x && !(c != x), "a copy equals the descriptor it was made from");
    CHECK(h(c) == h(x) && h(a) == h(x), "equal descriptors hash equally");
    for (size_t i = 0; i < k; ++i) CHECK(!(d[i] == x) && d[i] != x, "descriptors of different elements differ");
    d[k++] = x;
  }
  // x came by another route; it must be equal to exactly the one at `at`
  void same(const D& x, size_t at) const {
    for (size_t i = 0; i < k; ++i) CHECK((d[i] == x) == (i == at) && (x == d[i]) == (i == at), "descriptors are equal exactly when they name the same element");
    CHECK(std::hash<D>{}(x) == std::hash<D>{}(d[at]), "equal descriptors hash equally");
  }
  void ordered() const {
    if constexpr (std::three_way_comparable<D>) {
      for (size_t i = 0; i < k; ++i) for (size_t j = 0; j < k; ++j) {
        auto c = d[i] <=> d[j], r = d[j] <=> d[i];
        CHECK((c == 0) == (i == j), "ordering agrees with equality");
        CHECK((c < 0) == (r > 0) && (c < 0) == (d[i] < d[j]) && (c > 0) == (d[i] > d[j]), "ordering is antisymmetric");
        CHECK((d[i] <= d[j]) == !(c > 0) && (d[i] >= d[j]) == !(c < 0), "<= and >=");
        for (size_t l = 0; l < k; ++l) if (c < 0 && d[j] < d[l]) CHECK(d[i] < d[l], "ordering is transitive");
      }
    }
  }
};
// a descriptor view's begin/end/size/++ all tell the same story
template <class V> static void view(const V& v) {
  size_t n = v.size(), k = 0;
  CHECK(v.empty() == (n == 0), "empty");
  auto it = v.begin(); auto post = v.begin();
  CHECK(v.begin() == v.cbegin() && v.end() == v.cend(), "cbegin and cend");
  if (n) {
    CHECK(v.front() == *v.begin(), "front");
    auto d = *it;
    for (auto x : v) {
      CHECK(it != v.end(), "the view has size() elements");
      CHECK(*it == x && d == x, "incrementing a descriptor reaches the next element");
      if constexpr (std::three_way_comparable<decltype(d)>) if (k) { auto f = *v.begin(); CHECK(f < x && x > f, "later elements order after earlier ones"); }
      auto old = post++;
      CHECK(*old == x, "post-increment returns the position it had");
      ++k;
      auto was = it; auto& r = ++it;
      CHECK(&r == &it && it == post && !(was == it), "pre- and post-increment agree");
      if (k < n) {
        auto before = d; auto got = d++; auto pre = before; auto& p = ++pre;
        CHECK(got == before && got == x && &p == &pre && pre == d && !(d == before), "pre- and post-increment of a descriptor agree");
      }
    }
  }
  CHECK(k == n && it == v.end() && post == v.end(), "the view has size() elements");
  V c(v); CHECK(c.size() == n && c.begin() == v.begin() && c.end() == v.end(), "a copy of a view is the same view");
}
template <class T> static void walk(T& g, const Edge* e, size_t m) {
  using H = std::remove_const_t<T>;
  using VD = A::vertex_t<T>;
  using ED = A::edge_t<T>;
  auto vs = A::vertices(g);
  view(vs);
  static Bag<VD, NV> bv; static Bag<ED, 4 * NV + 8> be; bv.k = be.k = 0;
  for (auto u : vs) bv.add(u);
  bv.ordered();
  size_t at = 0, ea = 0;
  for (auto u : vs) {
    size_t id = sym_pick((size_t)A::vertex_id(g, u));
    CHECK((size_t)u.vertex_id() == id, "vertex_id of the descriptor");
    bv.same(*A::find_vertex(g, (Id)id), at);
    auto es = A::edges(g, u);
    view(es);
    for (auto uv : es) {
      be.add(uv);
      bv.same(uv.source(), at);
      CHECK((size_t)uv.source_id() == id, "source_id of the descriptor");
      bv.same(A::source(g, uv), at);
      Id t = (Id)A::target_id(g, uv);
      size_t ta = 0; for (auto v : vs) { if ((Id)A::vertex_id(g, v) == t) break; ++ta; }
      bv.same(A::target(g, uv), ta);
      sym_cover("edges");
    }
    for (auto uv : A::edges(g, (Id)id)) be.same(uv, ea++);
    ++at;
  }
  be.ordered();
  for (auto u : vs) for (auto v : vs) {
    size_t i = 0; bool hit = false;
    for (auto w : vs) for (auto uv : A::edges(g, w)) { if (!hit && w == u && A::target_id(g, uv) == A::vertex_id(g, v)) { be.same(A::find_vertex_edge(g, u, v), i); hit = true; } ++i; }
  }
  if constexpr (is_std<H>) {
    // descriptors of standard containers: the values they reach are the container's own elements
    size_t i = 0; ea = 0;
    for (auto u : vs) {
      auto& row = [&]() -> auto& { if constexpr (requires { g.find(Id(0)); }) return g.find((Id)A::vertex_id(g, u))->second; else return g[A::vertex_id(g, u)]; }();
      CHECK((const void*)std::addressof(u.inner_value(g)) == (const void*)std::addressof(row), "inner_value of a vertex");
      if constexpr (requires { g.find(Id(0)); }) CHECK((const void*)std::addressof(u.underlying_value(g)) == (const void*)std::addressof(*g.find((Id)A::vertex_id(g, u))), "underlying_value of a vertex");
      else CHECK((const void*)std::addressof(u.underlying_value(g)) == (const void*)std::addressof(row), "underlying_value of a vertex");
      size_t j = 0;
      for (auto uv : A::edges(g, u)) {
        auto& x = *std::next(row.begin(), (std::ptrdiff_t)j); using X = std::remove_cvref_t<decltype(x)>;
        CHECK((const void*)std::addressof(uv.underlying_value(row)) == (const void*)std::addressof(x), "underlying_value of an edge");
        if constexpr (requires { x.second; }) CHECK((const void*)std::addressof(uv.inner_value(row)) == (const void*)std::addressof(x.second), "inner_value of an edge");
        else if constexpr (tsz<X>() == 3) {
          auto iv = uv.inner_value(row);
          CHECK((const void*)std::addressof(std::get<0>(iv)) == (const void*)std::addressof(std::get<1>(x)) && (const void*)std::addressof(std::get<1>(iv)) == (const void*)std::addressof(std::get<2>(x)) && std::tuple_size_v<decltype(iv)> == 2, "inner_value of an edge refers to the tuple's other elements");
          CHECK(std::addressof(std::get<1>(A::edge_value(g, uv))) == std::addressof(std::get<2>(x)), "edge_value of an edge");
        }
        else if constexpr (tsz<X>() == 2) CHECK((const void*)std::addressof(uv.inner_value(row)) == (const void*)std::addressof(std::get<1>(x)), "inner_value of an edge");
        else if constexpr (tsz<X>() == 1) CHECK((const void*)std::addressof(uv.inner_value(row)) == (const void*)std::addressof(std::get<0>(x)), "inner_value of an edge");
        else CHECK((const void*)std::addressof(uv.inner_value(row)) == (const void*)std::addressof(x), "inner_value of an edge");
                ++j;
      }
      ++i;
    }
  }
  if constexpr (requires { A::in_edges(g, *vs.begin()); } && !is_ual<H>) {
    using ID = std::remove_cvref_t<decltype(*A::in_edges(g, *vs.begin()).begin())>;
    static_assert(ID::is_in_edge && !ID::is_out_edge);
    static Bag<ID, 4 * NV + 8> bi; bi.k = 0; size_t ia = 0; at = 0;
    for (auto v : vs) {
      auto is = A::in_edges(g, v); view(is);
      for (auto uv : is) { bi.add(uv); bv.same(uv.source(), at); CHECK((Id)A::target_id(g, uv) == (Id)A::vertex_id(g, v), "target_id of an in-edge"); }
      for (auto uv : A::in_edges(g, (Id)A::vertex_id(g, v))) bi.same(uv, ia++);
      ++at;
    }
    bi.ordered();
  }
  (void)e; (void)m;
}
extern "C" void harness_main() {
#if defined(FAM)
  Digraph d(true); Edge e[96] = {}; size_t m = d.m; for (size_t i = 0; i < m; ++i) e[i] = d.e[i];
#else
  Edge e[NE + 1] = {}; size_t m = any_edges(e, NE, NV - 1, true);
  if (is_csr<G>) for (size_t i = 1; i < m; ++i) sym_assume(e[i - 1].s <= e[i].s);
#endif
  G g; fill<G, int64_t>(g, NV, e, m);
  walk(g, e, m);
  walk(std::as_const(g), e, m);
}
