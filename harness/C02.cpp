// @run quick NV=3 NE=2 NX=2 MODE=0 LAZY
// @run quick NV=3 NE=3 NX=2 MODE=1 LAZY
// @run quick NV=3 NE=2 NX=2 MODE=2 LAZY
// @run quick NV=4 NE=2 NP=3 MODE=3 LAZY
// @run quick NV=3 NE=2 NP=3 MODE=4 LAZY
// @run quick NV=3 NE=2 NX=2 MODE=5 LAZY
// @run thorough NV=4 NE=3 NX=3 MODE=0 LAZY
// @run thorough NV=4 NE=3 NX=3 MODE=1 LAZY
// @run thorough NV=4 NE=3 NX=3 MODE=2 LAZY
// @run thorough NV=5 NE=2 NP=4 MODE=3 LAZY
// @run thorough NV=4 NE=2 NP=4 MODE=4 LAZY
// @bounds at most NE edges with ids below NV, at most NX vertex entries (any ids up to NV+1, repeated ids, any values); MODE 0 edges then vertices, 1 vertices then edges, 2 load() and the constructor taking both, 3 partition start ids (at most NP, any values up to NV+1) given to the constructor, 4 the same followed by a load_vertices that adds vertices, 5 vertices from a std::forward_list with a projection and a vertex count
// @covers done
#include "model.hpp"
using namespace graph;
using G = G_csr<int64_t, int64_t>;
using CE = copyable_edge_t<Id, int64_t>;
using CV = copyable_vertex_t<Id, int64_t>;
static void expect_values(G& g, size_t n, const std::vector<CV>& vs) {
  if (vs.empty()) return; // no vertex values were given
  for (auto&& u : adj_list::vertices(g)) {
    Id id = (Id)adj_list::vertex_id(g, u);
    int64_t want = 0; // last value given wins; value-initialized otherwise
    for (auto& x : vs) want = x.id == id ? x.value : want;
    CHECK(adj_list::vertex_value(g, u) == want, "a vertex's value");
    CHECK(adj_list::vertex_value(std::as_const(g), u) == want, "a vertex's value, const");
    CHECK(g.vertex_value(id) == want && std::as_const(g).vertex_value(id) == want, "a vertex's value by id");
  }
}
static void expect_partitions(G& g, size_t n, const std::vector<Id>& parts) {
  size_t np = parts.empty() ? 1 : parts.size();
  CHECK((size_t)adj_list::num_partitions(g) == np, "num_partitions");
  size_t next = 0;
  for (size_t p = 0; p < np + 2; ++p) {
    size_t k = 0;
    for (auto&& u : adj_list::vertices(g, (Id)p)) {
      CHECK(p < np && (size_t)adj_list::vertex_id(g, u) == next, "partitions hold consecutive vertices");
      CHECK((size_t)adj_list::partition_id(g, u) == p, "partition_id names the partition of the vertex");
      if (!parts.empty()) CHECK(next >= parts[p] && (p + 1 == np || next < parts[p + 1]), "a partition starts at its start id");
      ++next; ++k;
    }
    CHECK((size_t)adj_list::num_vertices(g, (Id)p) == k, "num_vertices(g,pid)");
    CHECK(std::ranges::distance(adj_list::vertices(std::as_const(g), (Id)p)) == (std::ptrdiff_t)k, "vertices(g,pid), const");
    if (p < np) CHECK((size_t)adj_list::num_vertices(std::as_const(g), (Id)p) == k, "num_vertices(g,pid), const");
  }
  CHECK(next == n, "partitions cover every vertex");
  CHECK(std::ranges::empty(adj_list::vertices(g, -1)), "there is no partition -1");
}
extern "C" void harness_main() {
  Digraph d(true);
  Model md;
  std::vector<CE> es;
  size_t n = 0;
  for (size_t i = 0; i < d.m; ++i) {
    md.add(d.e[i]); es.push_back({d.e[i].s, d.e[i].t, d.e[i].w});
    Id x = d.e[i].s > d.e[i].t ? d.e[i].s : d.e[i].t; if (x + 1 > n) n = x + 1;
  }
  std::vector<CV> vs;
#if MODE == 0 || MODE == 1 || MODE == 2 || MODE == 5
  size_t k = pick_u("entries", 0, NX);
  for (size_t i = 0; i < k; ++i) {
    vs.push_back({(Id)sym_u64("id", 0, NV + 1), sym_i64("value", -100, 100)});
    if (vs[i].id + 1 > n) n = vs[i].id + 1;
  }
#endif
  auto check = [&](G& g) {
    md.upto(sym_pick(n));
    expect(g, md); expect_values(g, n, vs); expect_partitions(g, n, {});
    if (d.m && vs.size()) sym_cover("done");
  };
#if MODE == 0
  G g; g.load_edges(es); g.load_vertices(vs); check(g);
#elif MODE == 1
  G g; size_t vc = pick_u("vertex_count", 0, NV + 1);
  g.load_vertices(vs, std::identity{}, vc); if (vc > n) n = vc;
  if (pick_u("const", 0, 1)) g.load_edges(std::as_const(es)); else g.load_edges(es);
  check(g);
#elif MODE == 2
  size_t how = pick_u("how", 0, 3);
  if (how == 0) { G g; g.load(es, vs); check(g); }
  else if (how == 1) { G g(es, vs); check(g); }
  else if (how == 2) { // projections
    struct E2 { int64_t w; Id b, a; }; struct V2 { int64_t x; Id i; };
    std::vector<E2> e2; for (auto& x : es) e2.push_back({x.value, x.target_id, x.source_id});
    std::vector<V2> v2; for (auto& x : vs) v2.push_back({x.value, x.id});
    G g(e2, v2, [](const E2& x) { return CE{x.a, x.b, x.w}; }, [](const V2& x) { return CV{x.i, x.x}; }); check(g);
  } else { // a graph that also has a value
    G_csr<int64_t, int64_t, int64_t> g(int64_t(77), es, vs, std::identity{}, std::identity{}, std::vector<Id>());
    md.upto(sym_pick(n)); expect(g, md);
    CHECK(g.graph_value() == 77 && adj_list::graph_value(g) == 77, "graph_value");
    if (vs.size()) for (auto&& u : adj_list::vertices(g)) {
      int64_t want = 0; for (auto& x : vs) want = x.id == adj_list::vertex_id(g, u) ? x.value : want;
      CHECK(adj_list::vertex_value(g, u) == want, "a vertex's value");
    }
  }
#elif MODE == 5
  G g; size_t vc = pick_u("vertex_count", 0, NV + 1);
  struct V2 { int64_t x; Id i; };
  std::forward_list<V2> f; for (size_t i = vs.size(); i-- > 0;) f.push_front({vs[i].value, vs[i].id});
  size_t first = pick_u("vertices first", 0, 1);
  if (!first) g.load_edges(es);
  g.load_vertices(f, [](const V2& x) { return CV{x.i, x.x}; }, vc); if (vc > n) n = vc;
  if (first) g.load_edges(es);
  check(g);
#else
  std::vector<Id> parts;
  size_t np = pick_u("parts", 0, NP);
  for (size_t i = 0; i < np; ++i) parts.push_back((Id)sym_u64("start", 0, NV + 1));
  bool with_values = pick_u("vertex values", 0, 1);
  if (with_values) { for (Id i = 0; i < NV; ++i) vs.push_back({i, 10 * i + 5}); n = NV; }
  bool valid = true;
  for (size_t i = 0; i < np; ++i) valid = valid && (i == 0 ? parts[0] == 0 : parts[i] > parts[i - 1]) && parts[i] <= n;
  bool threw = false;
  md.upto(sym_pick(n));
  try {
    G g = with_values ? G(es, vs, std::identity{}, std::identity{}, parts) : G(es, std::identity{}, parts);
    CHECK(valid, "invalid partition start ids are rejected");
#if MODE == 4
    std::vector<CV> more{{(Id)(n + pick_u("new", 0, 1)), 99}};
    g.load_vertices(more); n = more[0].id + 1; md.upto(n); vs.push_back(more[0]);
#endif
    expect(g, md); expect_values(g, n, vs);
    expect_partitions(g, n, parts);
    if (np > 1) sym_cover("done");
    for (auto&& u : adj_list::vertices(g)) sym_observe("p", adj_list::partition_id(g, u));
  } catch (const graph_error&) { threw = true; sym_cover("rejected"); }
  CHECK(threw == !valid, "valid partition start ids are accepted");
#endif
}
