// @run quick NV=3 NE=2 GT=csr
// @run quick NV=3 NE=2 GT=vov
// @run quick NV=2 NE=2 GT=dofl
// @run quick NV=2 NE=2 GT=vol
// @run quick NV=2 NE=2 GT=mos
// @run quick NV=2 NE=2 GT=uos
// @run quick NV=2 NE=2 GT=vous
// @run quick NV=2 NE=2 GT=vod
// @run quick NV=2 NE=2 GT=vofl
// @run quick NV=2 NE=2 GT=vos
// @run quick NV=2 NE=2 GT=vom
// @run quick NV=2 NE=2 GT=voum
// @run quick NV=2 NE=2 GT=dov
// @run quick NV=2 NE=2 GT=mol
// @run quick NV=2 NE=2 GT=mom
// @run quick NV=2 NE=2 GT=uov
// @run quick NV=2 NE=2 GT=bvov
// @run quick NV=2 NE=2 GT=bmol
// @run quick NV=5 NE=0 FAM=1 FW=0 GT=csr
// @run quick NV=5 NE=0 FAM=1 FW=0 GT=vov
// @run quick NV=3 NE=2 GT=vov IDT=int32_t
// @run quick NV=3 NE=2 GT=csr IDT=uint8_t
// @run quick NV=2 NE=2 GT=dofl IDT=int64_t
// @run quick NV=2 NE=2 GT=bvom
// @run thorough NV=3 NE=3 GT=csr
// @run thorough NV=3 NE=4 GT=vov
// @run thorough NV=3 NE=4 GT=vofl
// @run thorough NV=3 NE=4 GT=dol
// @run thorough NV=3 NE=4 GT=dod
// @run thorough NV=3 NE=3 GT=voum
// @run thorough NV=3 NE=3 GT=mov
// @run thorough NV=3 NE=3 GT=mom
// @run thorough NV=3 NE=3 GT=uol
// @run thorough NV=3 NE=3 GT=uous
// @bounds every graph of at most NE edges over ids below NV with symbolic edge, vertex and graph values (compressed_graph also with two partitions); then any of copy construction, copy assignment and move assignment onto a graph with other contents, self-assignment, move construction, std::swap, a vector of graphs, clear; then one further change (edge value, vertex value, another load, clear and reload) to either graph; moved-from graphs are only cleared and reloaded or assigned to
// @covers done
#include "model.hpp"
using namespace graph;
#if !defined(GT)
#define GT vov
#endif
using G = GRAPH<int64_t, int64_t, int64_t>;
using CE = CE_t<int64_t>;
using CV = copyable_vertex_t<Id, int64_t>;
static constexpr bool KV = map_vertices<G>();
struct St { Model md; int64_t val[8] = {}; int64_t gv = 0; bool parts = false; bool have_gv = true; };
template <class G> static void load(G& g, St& s, const Edge* e, size_t m, bool values) {
  std::vector<CE> v; Mask ids = 0;
  for (size_t i = 0; i < m; ++i) { v.push_back(mk_edge<int64_t>(e[i])); s.md.add(e[i]); ids |= Mask(1) << e[i].s | Mask(1) << e[i].t; }
  if (is_csr<G> || values) ids |= (Mask(1) << NV) - 1;
  if constexpr (KV) s.md.ids |= ids; else while (ids > s.md.ids) s.md.ids = s.md.ids << 1 | 1;
  if constexpr (is_csr<G>) {
    std::vector<CV> vs; for (Id i = 0; i < NV; ++i) { s.val[i] = values ? sym_i64("vv", -50, 50) : 5; vs.push_back({i, s.val[i]}); }
    g.load(v, vs);
  } else {
    g.load_edges(v);
    if (values) { std::vector<CV> vs; for (Id i = 0; i < NV; ++i) { s.val[i] = sym_i64("vv", -50, 50); vs.push_back({i, s.val[i]}); } 
      if constexpr (requires { g.resize_vertices(NV); }) if (adj_list::num_vertices(g) < NV) g.resize_vertices(NV);
      g.load_vertices(vs); }
  }
}
template <class G> static void set_gv(G& g, St& s) { s.gv = sym_i64("gv", 0, 99); g.graph_value() = s.gv; s.have_gv = true; }
template <class G> static void ok(G& g, const St& s) {
  expect(g, s.md);
  for (auto&& u : adj_list::vertices(g)) { Id id = (Id)adj_list::vertex_id(g, u); CHECK(adj_list::vertex_value(g, u) == s.val[id] && adj_list::vertex_value(std::as_const(g), u) == s.val[id], "a vertex's value"); }
  if (s.have_gv) CHECK(g.graph_value() == s.gv && adj_list::graph_value(std::as_const(g)) == s.gv, "the graph's value");
  if constexpr (is_csr<G>) if (s.parts) {
    CHECK((size_t)adj_list::num_partitions(g) == 2 && adj_list::num_vertices(g, 0u) == 1 && adj_list::num_vertices(g, 1u) == NV - 1, "partitions");
    for (auto&& u : adj_list::vertices(g)) CHECK((size_t)adj_list::partition_id(g, u) == (adj_list::vertex_id(g, u) > 0), "partition of a vertex");
  }
}
template <class G> static void reload(G& g, St& s) {
  g.clear(); bool hg = false; s = St(); s.have_gv = hg;
  CHECK(adj_list::num_vertices(g) == 0 && adj_list::num_edges(g) == 0 && !adj_list::has_edges(g) && std::ranges::empty(adj_list::vertices(g)), "a cleared graph is empty");
  if constexpr (!is_csr<G>) if (pick_u("empty", 0, 1)) return;
  Edge e[2] = {{0, (Id)pick_u("tgt", 0, NV - 1), sym_i64("w", WLO, WHI)}, {1, 1, 9}};
  load(g, s, e, 2, true); set_gv(g, s);
}
template <class G> static void mutate(G& g, St& s) {
  size_t op = pick_u("change", 0, 3);
  if (op == 0) reload(g, s);
  else if (op == 1) { int64_t x = sym_i64("new", 100, 200); for (auto&& u : adj_list::vertices(g)) { adj_list::vertex_value(g, u) = x; s.val[adj_list::vertex_id(g, u)] = x; break; } set_gv(g, s); }
  else if (op == 2) {
    int64_t x = sym_i64("new", WLO, WHI); bool done = false;
    if constexpr (order_kind<G>() == 0) for (auto&& u : adj_list::vertices(g)) for (auto&& uv : adj_list::edges(g, u)) if (!done) {
      done = true; adj_list::edge_value(g, uv) = x; Id id = (Id)sym_pick((size_t)adj_list::vertex_id(g, u));
      for (size_t i = 0; i < s.md.m; ++i) if (s.md.e[i].s == id) { s.md.e[i].w = x; break; }
    }
  } else { if constexpr (is_csr<G>) reload(g, s); else { Edge e{(Id)NV, 0, 77}; load(g, s, &e, 1, false); } }
}
template <class G> static void body() {
  {
  St p, q;
  auto start = [&]() -> G {
    if constexpr (is_csr<G>) if (pick_u("partitioned", 0, 1)) {
      p.parts = true; std::vector<CE> es; std::vector<CV> vs; Id src = 0;
      size_t m = pick_u("m", 0, NE);
      for (size_t i = 0; i < m; ++i) { src = (Id)pick_u("src", src, NV - 1); Edge e{src, (Id)sym_u64("tgt", 0, NV - 1), sym_i64("w", WLO, WHI)}; p.md.add(e); es.push_back(mk_edge<int64_t>(e)); }
      for (Id i = 0; i < NV; ++i) { p.val[i] = sym_i64("vv", -50, 50); vs.push_back({i, p.val[i]}); }
      p.md.upto(NV); p.gv = sym_i64("gv", 0, 99); int64_t gv = p.gv;
      return G(std::move(gv), es, vs, std::identity{}, std::identity{}, std::vector<Id>{0, 1});
    }
    G g; Edge e[NE + 1]; size_t m = 0;
    if constexpr (is_csr<G>) { m = pick_u("m", 0, NE); Id src = 0; for (size_t i = 0; i < m; ++i) { src = (Id)pick_u("src", src, NV - 1); e[i] = {src, (Id)sym_u64("tgt", 0, NV - 1), sym_i64("w", WLO, WHI)}; } }
    else { m = any_edges(e, NE, NV - 1); for (size_t i = 0; i < m; ++i) e[i].t = (Id)sym_pick(e[i].t); }
    load(g, p, e, m, true); set_gv(g, p);
    return g;
  };
  G g(start());
  ok(g, p);
  G h; Edge oe[2] = {{0, 1, 7}, {1, 0, 8}}; load(h, q, oe, 2, true); set_gv(h, q);
  St c = p;
  size_t op = pick_u("operation", 0, 8);
  if (op == 0) { G k(g); ok(k, c); if (pick_u("which", 0, 1)) mutate(k, c); else mutate(g, p); ok(k, c); ok(g, p); }
  else if (op == 1) { h = g; ok(h, c); if (pick_u("which", 0, 1)) mutate(h, c); else mutate(g, p); ok(h, c); ok(g, p); }
  else if (op == 2) { G& r = g; g = r; ok(g, p); mutate(g, p); ok(g, p); }
  else if (op == 3) { G k(std::move(g)); ok(k, c); if (pick_u("which", 0, 1)) { reload(g, p); ok(g, p); } else { g = h; ok(g, q); } mutate(k, c); ok(k, c); }
  else if (op == 4) { h = std::move(g); ok(h, c); reload(g, p); ok(g, p); mutate(h, c); ok(h, c); }
  else if (op == 5) { std::swap(g, h); ok(g, q); ok(h, p); mutate(h, p); ok(g, q); ok(h, p); }
  else if (op == 6) { std::vector<G> v; v.push_back(g); v.push_back(std::move(h)); v.push_back(std::move(g)); ok(v[0], c); ok(v[1], q); ok(v[2], p); v.erase(v.begin()); ok(v[0], q); ok(v[1], p); }
  else if (op == 7) { G e; if (pick_u("from", 0, 1)) { e = g; ok(e, c); e = h; ok(e, q); } else { e = std::move(g); e = std::move(h); ok(e, q); } }
  else { mutate(g, p); ok(g, p); mutate(g, p); ok(g, p); }
  if (c.md.m) sym_cover("done");
  }
  CHECK(sym_live() == 0, "all memory is released");
}
extern "C" void harness_main() { body<G>(); }
