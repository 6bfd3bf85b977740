// @run quick NV=2 NE=2 NW=2 GT=vov
// @run quick NV=2 NE=2 NW=2 GT=vofl
// @run quick NV=2 NE=2 NW=2 GT=mol
// @run quick NV=2 NE=2 NW=2 GT=mov
// @run quick NV=2 NE=2 NW=2 GT=dod
// @run quick NV=2 NE=2 NW=2 GT=vom
// @run quick NV=2 NE=2 NW=2 GT=voum
// @run quick NV=2 NE=2 NW=2 GT=csr
// @run quick NV=2 NE=2 NW=2 GT=ual
// @run quick NV=2 NE=2 NW=2 GT=vv
// @run quick NV=2 NE=2 NW=2 GT=mv
// @run quick NV=2 NE=2 NW=1 GT=bvov
// @run quick NV=2 NE=2 NW=1 GT=bmol
// @run quick NV=3 NE=3 NW=1 GT=vol
// @run quick NV=3 NE=3 NW=1 GT=csr
// @run quick NV=3 NE=3 NW=1 GT=ual
// @run quick NV=3 NE=3 NW=1 GT=uov
// @run quick NV=2 NE=2 NW=1 GT=vol
// @run quick NV=2 NE=2 NW=1 GT=dol
// @run quick NV=2 NE=2 NW=1 GT=dofl
// @run quick NV=2 NE=2 NW=1 GT=mom
// @run quick NV=2 NE=2 NW=1 GT=uod
// @run quick NV=2 NE=2 NW=1 GT=uofl
// @run quick NV=2 NE=2 NW=1 GT=lp
// @run quick NV=2 NE=2 NW=1 GT=vt
// @run quick NV=2 NE=2 NW=1 GT=dp
// @run quick NV=2 NE=2 NW=1 GT=ml
// @run quick NV=2 NE=2 NW=1 GT=vm
// @run quick NV=2 NE=2 NW=1 GT=bvol
// @run quick NV=2 NE=2 NW=1 GT=bvofl
// @run quick NV=2 NE=2 NW=1 GT=bdod
// @run quick NV=2 NE=2 NW=1 GT=buov
// @run quick NV=2 NE=2 NW=2 GT=vov IDT=int32_t
// @run quick NV=2 NE=2 NW=2 GT=csr IDT=uint8_t
// @run quick NV=2 NE=2 NW=2 GT=mol IDT=int64_t
// @run quick NV=2 NE=2 NW=1 GT=bvom
// @run quick NV=2 NE=2 NW=1 GT=bmom
// @run thorough NV=3 NE=3 NW=2 GT=vov
// @run thorough NV=3 NE=3 NW=2 GT=csr
// @run thorough NV=3 NE=3 NW=2 GT=ual
// @run thorough NV=3 NE=3 NW=2 GT=mol
// @run thorough NV=3 NE=3 NW=2 GT=uofl
// @run thorough NV=3 NE=3 NW=2 GT=dol
// @run thorough NV=3 NE=3 NW=2 GT=mom
// @run thorough NV=3 NE=3 NW=2 GT=vom
// @run thorough NV=3 NE=3 NW=2 GT=voum
// @run thorough NV=3 NE=3 NW=2 GT=vv
// @run thorough NV=3 NE=3 NW=2 GT=mv
// @run thorough NV=3 NE=3 NW=2 GT=bmov
// @run thorough NV=3 NE=3 NW=2 GT=bdod
// @bounds every graph of at most NE edges over NV vertices (parallel edges and self-loops included) held in the container GT, with vertex and graph values where the type has them; any NW writes of any 64-bit values (edge values: 60 bits plus a serial number) to any elements by any of the routes; edges kept in set-like containers can't be written and in-edges of directed bidirectional containers (which hold copies of the value) are not covered
// @covers edge
// @covers vertex
#include "model.hpp"
using namespace graph;
namespace A = graph::adj_list;
template <class T> struct pick_graph { using type = GRAPH<int64_t, int64_t, int64_t>; };
using G = typename pick_graph<void>::type;
template <class T> constexpr bool vertex_values() { return !is_std<T>; }
struct Seen { Id s, t; int64_t tag; };
struct Expect {
  Seen e[32] = {}; size_t k = 0; // (vertex, position) in iteration order
  int64_t ev[16] = {};           // by serial number
  int64_t vv[8] = {}, gv = 0;
};
static int64_t tag_of(int64_t v) { return v & 15; }
template <class T> static void reads(T& g, const Expect& x, size_t n) {
  using H = std::remove_const_t<T>;
  size_t k = 0, c = 0;
  if constexpr (!is_std<H>) CHECK(A::graph_value(g) == x.gv, "the graph's value");
  for (auto&& u : A::vertices(g)) {
    Id id = (Id)sym_pick((size_t)A::vertex_id(g, u)); ++c;
    if constexpr (vertex_values<H>()) {
      CHECK(A::vertex_value(g, u) == x.vv[id], "a vertex's value by iteration");
      CHECK(A::vertex_value(g, *A::find_vertex(g, id)) == x.vv[id], "a vertex's value by find_vertex");
    }
    auto es = A::edges(g, id); auto j = es.begin();
    for (auto&& uv : A::edges(g, u)) {
      CHECK(k < x.k && x.e[k].s == id && x.e[k].t == (Id)A::target_id(g, uv) && (Id)A::source_id(g, uv) == id, "the structure hasn't changed");
      int64_t want = x.ev[x.e[k].tag];
      CHECK(A::edge_value(g, uv) == want, "an edge's value by iteration");
      CHECK(A::edge_value(g, *j) == want, "an edge's value by id");
      if constexpr (vertex_values<H>()) {
        CHECK(A::vertex_value(g, A::target(g, uv)) == x.vv[x.e[k].t], "a vertex's value by target");
        CHECK(A::vertex_value(g, A::source(g, uv)) == x.vv[id], "a vertex's value by source");
      }
      size_t same = 0; for (size_t i = 0; i < x.k; ++i) same += x.e[i].s == id && x.e[i].t == x.e[k].t;
      if (same == 1) CHECK(A::edge_value(g, A::find_vertex_edge(g, id, x.e[k].t)) == want, "an edge's value by find_vertex_edge");
      ++k; ++j;
    }
  }
  CHECK(c == n && k == x.k, "the structure hasn't changed");
}
template <class GG> static void body() {
  Edge e[NE + 1] = {}; size_t m = any_edges(e, NE, NV - 1, false);
  if (is_csr<GG>) for (size_t i = 1; i < m; ++i) sym_assume(e[i - 1].s <= e[i].s);
  for (size_t i = 0; i < m; ++i) e[i].w = 16 * e[i].w + (int64_t)i;
  GG g; fill<GG, int64_t>(g, NV, e, m);
  Expect x;
  if constexpr (is_csr<GG>) { std::vector<copyable_vertex_t<Id, int64_t>> vs; for (Id i = 0; i < NV; ++i) vs.push_back({i, int64_t(i) * 100}); g.load_vertices(vs); for (Id i = 0; i < NV; ++i) x.vv[i] = i * 100; }
  for (size_t i = 0; i < m; ++i) x.ev[i] = e[i].w;
  size_t n = 0;
  for (auto&& u : A::vertices(g)) { ++n;
    for (auto&& uv : A::edges(g, u)) x.e[x.k++] = {(Id)sym_pick((size_t)A::vertex_id(g, u)), (Id)sym_pick((size_t)A::target_id(g, uv)), (int64_t)sym_pick((size_t)tag_of(A::edge_value(g, uv)))}; }
  if constexpr (is_ual<GG>) { for (auto&& u : A::vertices(g)) A::vertex_value(g, u) = 5; for (auto& v : x.vv) v = 5; }
  if constexpr (!is_std<GG>) { int64_t v = sym_i64("graph value", INT64_MIN, INT64_MAX); A::graph_value(g) = v; x.gv = v; }
  reads(g, x, n); reads(std::as_const(g), x, n);
  for (int wr = 0; wr < NW; ++wr) {
    size_t what = pick_u("what", 0, 2), at = pick_u("element", 0, NV > 2 * NE ? NV : 2 * NE), route = pick_u("route", 0, 2);
    if (what == 0) { // an edge
      if (at >= x.k) sym_assume(0);
      int64_t v = 16 * sym_i64("new", -(1ll << 58), 1ll << 58) + x.e[at].tag;
      size_t k = 0, same = 0; for (size_t i = 0; i < x.k; ++i) same += x.e[i].s == x.e[at].s && x.e[i].t == x.e[at].t;
      if (route == 2 && same != 1) sym_assume(0);
      if (route == 2) A::edge_value(g, A::find_vertex_edge(g, x.e[at].s, x.e[at].t)) = v;
      else if (route == 0) { for (auto&& u : A::vertices(g)) for (auto&& uv : A::edges(g, u)) if (k++ == at) A::edge_value(g, uv) = v; }
      else { for (size_t i = 0; i < at; ++i) k += x.e[i].s == x.e[at].s; for (auto&& uv : A::edges(g, x.e[at].s)) if (k-- == 0) A::edge_value(g, uv) = v; }
      x.ev[x.e[at].tag] = v; sym_cover("edge");
    } else if (what == 1) {
      if (at >= NV || (is_std<GG> && route)) sym_assume(0);
      if constexpr (vertex_values<GG>()) {
        int64_t v = sym_i64("new", INT64_MIN, INT64_MAX);
        if (route == 0) { for (auto&& u : A::vertices(g)) if ((size_t)A::vertex_id(g, u) == at) A::vertex_value(g, u) = v; }
        else if (route == 1) A::vertex_value(g, *A::find_vertex(g, (Id)at)) = v;
        else { bool hit = false; for (auto&& u : A::vertices(g)) for (auto&& uv : A::edges(g, u)) if (!hit && (size_t)A::target_id(g, uv) == at) { A::vertex_value(g, A::target(g, uv)) = v; hit = true; } if (!hit) sym_assume(0); }
        x.vv[at] = v;
      }
      sym_cover("vertex");
    } else {
      if (at || route) sym_assume(0);
      if constexpr (!is_std<GG>) { int64_t v = sym_i64("new", INT64_MIN, INT64_MAX); A::graph_value(g) = v; x.gv = v; }
    }
    reads(g, x, n);
  }
  reads(std::as_const(g), x, n);
}
extern "C" void harness_main() { body<G>(); }
