// @run quick NV=3 NE=2 GT=csr
// @run quick NV=3 NE=2 GT=vov EVT=void
// @run quick NV=3 NE=2 GT=vofl
// @run quick NV=3 NE=2 GT=dol
// @run quick NV=3 NE=2 GT=vos
// @run quick NV=3 NE=2 GT=voum
// @run quick NV=2 NE=2 GT=mov
// @run quick NV=2 NE=2 GT=uod
// @run quick NV=3 NE=2 GT=bvov
// @run quick NV=2 NE=2 GT=bmov
// @run quick NV=3 NE=2 GT=ual
// @run quick NV=3 NE=2 GT=vv
// @run quick NV=3 NE=2 GT=vi
// @run quick NV=2 NE=2 GT=mv
// @run quick NV=2 NE=3 GT=lp
// @run quick NV=2 NE=2 GT=dp
// @run quick NV=2 NE=3 GT=vt
// @run quick NV=2 NE=2 GT=lt
// @run quick NV=2 NE=3 GT=vm
// @run quick NV=2 NE=2 GT=ml
// @run quick NV=7 NE=0 FAM=1 GT=csr LAZY
// @run quick NV=7 NE=0 FAM=1 GT=bvol LAZY
// @run quick NV=7 NE=0 FAM=1 GT=ual
// @run quick NV=2 NE=2 GT=vod
// @run quick NV=2 NE=2 GT=vol
// @run quick NV=2 NE=2 GT=dov
// @run quick NV=2 NE=2 GT=dofl
// @run quick NV=2 NE=2 GT=dos
// @run quick NV=2 NE=2 GT=dous
// @run quick NV=2 NE=2 GT=vous
// @run quick NV=2 NE=2 GT=vom
// @run quick NV=2 NE=2 GT=mod
// @run quick NV=2 NE=2 GT=mol
// @run quick NV=2 NE=2 GT=mofl
// @run quick NV=2 NE=2 GT=mos
// @run quick NV=2 NE=2 GT=mous
// @run quick NV=2 NE=2 GT=mom
// @run quick NV=2 NE=2 GT=uov
// @run quick NV=2 NE=2 GT=uol
// @run quick NV=2 NE=2 GT=uofl
// @run quick NV=2 NE=2 GT=uos
// @run quick NV=2 NE=2 GT=uous
// @run quick NV=2 NE=2 GT=bvofl
// @run quick NV=2 NE=2 GT=bdod
// @run quick NV=2 NE=2 GT=bvous
// @run quick NV=2 NE=2 GT=buov
// @run quick NV=2 NE=2 GT=bmol
// @run quick NV=3 NE=2 GT=vov IDT=int32_t
// @run quick NV=3 NE=2 GT=csr IDT=uint16_t
// @run quick NV=3 NE=2 GT=mol IDT=int64_t
// @run quick NV=3 NE=2 GT=ual IDT=uint16_t
// @run quick NV=2 NE=2 GT=bvom
// @run quick NV=2 NE=2 GT=bmom
// @run quick NV=20 NE=0 NMAX=20 FAM=0 GT=vov
// @run quick NV=20 NE=0 NMAX=20 FAM=0 GT=csr
// @run quick NV=20 NE=0 NMAX=20 FAM=0 GT=mol
// @run thorough NV=3 NE=4 GT=csr
// @run thorough NV=3 NE=3 GT=vov
// @run thorough NV=3 NE=3 GT=vod EVT=void
// @run thorough NV=3 NE=3 GT=dofl
// @run thorough NV=3 NE=3 GT=dod
// @run thorough NV=3 NE=3 GT=vous
// @run thorough NV=3 NE=3 GT=vom
// @run thorough NV=3 NE=3 GT=mos
// @run thorough NV=3 NE=3 GT=mom
// @run thorough NV=3 NE=3 GT=uos
// @run thorough NV=3 NE=3 GT=uofl
// @run thorough NV=3 NE=3 GT=bdod
// @run thorough NV=3 NE=3 GT=bvofl
// @run thorough NV=3 NE=3 GT=bmol
// @run thorough NV=3 NE=3 GT=bvous
// @run thorough NV=3 NE=3 GT=ual
// @run thorough NV=3 NE=3 GT=mv
// @run thorough NV=14 NE=0 NMAX=14 FAM=1 GT=dol LAZY
// @bounds every graph of at most NE edges over NV vertices (parallel edges and self-loops included) held in the container GT, or a larger base shape (FAM) with arbitrary extra edges; every vertex, pair of vertices and probed id, queried on the graph and on its const reference; find_vertex_edge of a missing edge: result names none of the vertex's edges; undirected_adjacency_list: graph-level edges() is not covered
// @covers found
// @covers missing
#include "model.hpp"
using namespace graph;
namespace A = graph::adj_list;
#ifndef EVT
#define EVT int64_t
#endif
using G = GRAPH<EVT>;
template <class T> static void query(T& g, const Edge* e, size_t m, size_t n) {
  using H = std::remove_const_t<T>;
  Mask seen = 0; size_t k = 0, total = 0;
  auto vs = A::vertices(g);
  for (auto&& u : vs) {
    size_t id = sym_pick((size_t)A::vertex_id(g, u));
    CHECK(id < n && !(seen >> id & 1), "each vertex is listed once"); seen |= Mask(1) << id; ++k;
    auto it = A::find_vertex(g, (Id)id);
    CHECK(it != std::ranges::end(vs), "find_vertex finds every vertex");
    CHECK((size_t)A::vertex_id(g, *it) == id && *it == u, "find_vertex finds the vertex with that id");
    size_t cu = 0, ci = 0;
    auto eu = A::edges(g, u); auto ei = A::edges(g, (Id)id);
    auto j = std::ranges::begin(ei);
    for (auto&& uv : eu) {
      CHECK(j != std::ranges::end(ei), "edges by id has as many edges");
      CHECK(A::target_id(g, *j) == A::target_id(g, uv) && *j == uv, "edges by id and by vertex agree");
      ++j; ++cu;
      CHECK((size_t)A::source_id(g, uv) == id, "source_id");
      CHECK((size_t)A::vertex_id(g, A::source(g, uv)) == id, "source");
      auto t = A::target(g, uv);
      CHECK(A::vertex_id(g, t) == A::target_id(g, uv), "target");
      (void)ci;
    }
    CHECK(j == std::ranges::end(ei), "edges by id has no more edges");
    size_t want = 0;
    if constexpr (!is_ual<H>) { Model md; for (size_t i = 0; i < m; ++i) md.add(e[i]); Edge x[96] = {}; want = expected_edges<H>(md, id, x); }
    else for (size_t i = 0; i < m; ++i) want += e[i].s == id || e[i].t == id;
    CHECK(cu == want, "a vertex's edges");
    CHECK((size_t)A::degree(g, u) == cu && (size_t)A::degree(g, (Id)id) == cu && (size_t)A::out_degree(g, u) == cu, "degree");
    if constexpr (requires { A::num_edges(g, u); }) CHECK((size_t)A::num_edges(g, u) == cu, "num_edges of a vertex");
    if constexpr (requires { A::num_edges(g, (Id)id); }) CHECK((size_t)A::num_edges(g, (Id)id) == cu, "num_edges of an id");
    CHECK((bool)std::ranges::empty(eu) == (cu == 0), "empty");
    total += cu;
  }
  CHECK(k == n && (size_t)A::num_vertices(g) == n, "num_vertices");
  if constexpr (!is_ual<H> && order_kind<H>() < 2) CHECK((size_t)A::num_edges(g) == total, "num_edges");
  if constexpr (is_ual<H>) CHECK((size_t)A::num_edges(g) == m, "num_edges");
  CHECK((bool)A::has_edges(g) == (total > 0), "has_edges");
  if constexpr (!is_csr<H>) { // no partitions: everything is in partition 0
    CHECK((size_t)A::num_partitions(g) == 1, "num_partitions");
    size_t at = 0;
    auto p0 = A::vertices(g, 0);
    auto i = std::ranges::begin(p0);
    for (auto&& u : vs) { CHECK(i != std::ranges::end(p0) && *i == u && (size_t)A::partition_id(g, u) == 0, "the only partition has every vertex"); ++i; ++at; }
    CHECK(i == std::ranges::end(p0) && (size_t)A::num_vertices(g, 0) == n && at == n, "the only partition's size");
    for (size_t p = 1; p < 3; ++p) {
      CHECK((size_t)A::num_vertices(g, p) == 0, "other partitions have no vertices");
      if constexpr (std::ranges::sized_range<decltype(A::vertices(g, p))>) CHECK(std::ranges::size(A::vertices(g, p)) == 0, "other partitions are empty");
      size_t c = 0; for (auto&& u : A::vertices(g, p)) { (void)u; ++c; }
      CHECK(c == 0, "other partitions list no vertices");
    }
  }
  for (auto&& u : vs) {
    Id uid = (Id)A::vertex_id(g, u);
    for (auto&& v : vs) {
      Id vid = (Id)A::vertex_id(g, v);
      size_t mult = 0; for (auto&& uv : A::edges(g, u)) mult += (Id)A::target_id(g, uv) == vid;
      size_t given = 0; for (size_t i = 0; i < m; ++i) given += (e[i].s == uid && e[i].t == vid) || (is_ual<H> && e[i].s == vid && e[i].t == uid);
      CHECK((mult > 0) == (given > 0), "an edge is stored exactly when it was given");
      CHECK(A::contains_edge(g, u, v) == (given > 0), "contains_edge of vertices");
      CHECK(A::contains_edge(g, uid, vid) == (given > 0), "contains_edge of ids");
      auto a = A::find_vertex_edge(g, u, v); auto b = A::find_vertex_edge(g, u, vid); auto c = A::find_vertex_edge(g, uid, vid);
      bool in = false; 
      for (auto&& uv : A::edges(g, u)) in |= bool(uv == a);
      CHECK(in == (given > 0), "find_vertex_edge succeeds exactly when there's an edge");
      CHECK(a == b && b == c, "find_vertex_edge of vertices and of ids agree");
      if (given) {
        CHECK((Id)A::target_id(g, a) == vid && (Id)A::target_id(g, b) == vid && (Id)A::target_id(g, c) == vid, "find_vertex_edge finds an edge to that target");
        CHECK((Id)A::source_id(g, a) == uid && (Id)A::source_id(g, c) == uid, "find_vertex_edge finds an edge from that source");
        sym_cover("found");
      } else sym_cover("missing");
    }
  }
}
static bool same(size_t a, size_t b) { return a == b; }
extern "C" void harness_main() {
#if defined(FAM)
  Digraph d(true); Edge e[96]; size_t m = d.m; for (size_t i = 0; i < m; ++i) e[i] = d.e[i];
#else
  Edge e[NE + 1]; size_t m = any_edges(e, NE, NV - 1, true);
  if (is_csr<G>) for (size_t i = 1; i < m; ++i) sym_assume(e[i - 1].s <= e[i].s);
#endif
  G g; fill<G, EVT>(g, NV, e, m);
  query(g, e, m, NV);
  query(std::as_const(g), e, m, NV);
  (void)same;
}
