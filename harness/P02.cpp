// @run quick NV=3 NE=4 GT=vov MODE=0
// @run quick NV=4 NE=4 GT=dov MODE=0
// @run quick NV=3 NE=3 GT=csr MODE=1
// @run quick NV=3 NE=2 GT=vol MODE=2
// @run quick NV=6 NE=0 FAM=1 FW=2 GT=vov MODE=0
// @run quick NV=3 NE=3 GT=vov MODE=0 IDT=int32_t
// @run quick NV=3 NE=3 GT=csr MODE=1 IDT=uint8_t
// @run quick NV=3 NE=3 GT=dov MODE=0 IDT=int64_t
// @run quick NV=18 NE=0 NMAX=18 FAM=0 FW=1 GT=vov MODE=0
// @run thorough NV=4 NE=5 GT=vov MODE=0
// @run thorough NV=4 NE=4 GT=csr MODE=1
// @run thorough NV=4 NE=3 GT=vov MODE=2
// @bounds NV vertices, at most NE directed edges (self-loops and parallel edges allowed, any adjacency order), weights symbolic in [0,2^40] (MODE 2: [-2^40,2^40]); MODE 0 descriptor visitor and one source; 1 id visitor and two sources; 2 argument errors
// @covers tree not_relaxed
#if MODE == 2
#ifndef WLO
#define WLO (-(1ll << 40))
#endif
#endif
#include "oracle.hpp"
#include <graph/algorithm/dijkstra_shortest_paths.hpp>
using namespace graph;
const int64_t INF = std::numeric_limits<int64_t>::max();
struct Log {
  std::vector<int64_t>& dist;
  int init[NV] = {}, disc[NV] = {}, exam[NV] = {}, fin[NV] = {};
  int cur = -1; size_t pos = 0; bool pending = false; int64_t before = 0; Id pt = 0; int64_t pw = 0; Id lastdisc = NV; bool needdisc = false;
  const Edge* e; size_t m; int64_t lastd = 0; bool started = false;
  size_t degree(Id u) { size_t c = 0; for (size_t i = 0; i < m; ++i) c += e[i].s == u; return c; }
  size_t first(Id u) { size_t i = 0; while (i < m && e[i].s != u) ++i; return i; }
  void initialize(Id u) { init[u]++; }
  void discover(Id u) {
    disc[u]++;
    if (cur >= 0) { CHECK(needdisc && u == pt, "a vertex is discovered by the edge just relaxed into it"); needdisc = false; }
    CHECK(dist[u] != INF, "a discovered vertex has a finite distance");
  }
  void examine(Id u) {
    CHECK(cur < 0, "vertices are examined one at a time"); cur = u; pos = 0; exam[u]++; started = true;
    CHECK(disc[u] > 0, "only discovered vertices are examined");
    CHECK(dist[u] != INF, "an examined vertex has a finite distance");
  }
  void finish(Id u) {
    CHECK(cur == (int)u, "the vertex being examined is finished"); CHECK(pos == degree(u), "every out-edge was examined before finish");
    CHECK(!pending && !needdisc, "each examined edge was reported"); cur = -1; fin[u]++;
  }
  void edge(Id s, Id t) {
    CHECK(!pending && !needdisc, "each examined edge is reported relaxed or not before the next");
    CHECK(cur == (int)s, "examined edges leave the examined vertex");
    size_t i = first(s) + pos++;
    CHECK(i < m && e[i].s == s && e[i].t == t, "out-edges are examined in stored order");
    pt = t; pw = e[i].w; before = dist[t]; pending = true;
  }
  void relaxed(Id s, Id t) {
    CHECK(pending && cur == (int)s && pt == t, "relaxed refers to the examined edge"); pending = false;
    CHECK(before > dist[t] && dist[t] == dist[s] + pw, "relaxed means the distance was lowered through this edge");
    needdisc = before == INF; sym_cover("tree");
  }
  void notrelaxed(Id s, Id t) {
    CHECK(pending && cur == (int)s && pt == t, "not_relaxed refers to the examined edge"); pending = false;
    CHECK(before == dist[t] && dist[t] <= dist[s] + pw, "not relaxed means the edge does not improve"); sym_cover("not_relaxed");
  }
};
template <class G> struct VisD {
  Log& l;
  void on_initialize_vertex(const G& g, const vertex_t<G>& u) { l.initialize(vertex_id(g, u)); }
  void on_discover_vertex(const G& g, const vertex_t<G>& u) { l.discover(vertex_id(g, u)); }
  void on_examine_vertex(const G& g, const vertex_t<G>& u) { l.examine(vertex_id(g, u)); }
  void on_finish_vertex(const G& g, const vertex_t<G>& u) { l.finish(vertex_id(g, u)); }
  void on_examine_edge(const G& g, const edge_t<G>& e) { l.edge(source_id(g, e), target_id(g, e)); }
  void on_edge_relaxed(const G& g, const edge_t<G>& e) { l.relaxed(source_id(g, e), target_id(g, e)); }
  void on_edge_not_relaxed(const G& g, const edge_t<G>& e) { l.notrelaxed(source_id(g, e), target_id(g, e)); }
};
template <class G> struct VisI {
  Log& l;
  void on_initialize_vertex(const G&, const vertex_id_t<G>& u) { l.initialize(u); }
  void on_discover_vertex(const G&, const vertex_id_t<G>& u) { l.discover(u); }
  void on_examine_vertex(const G&, const vertex_id_t<G>& u) { l.examine(u); }
  void on_finish_vertex(const G&, const vertex_id_t<G>& u) { l.finish(u); }
  void on_examine_edge(const G& g, const edge_t<G>& e) { l.edge(source_id(g, e), target_id(g, e)); }
  void on_edge_relaxed(const G& g, const edge_t<G>& e) { l.relaxed(source_id(g, e), target_id(g, e)); }
  void on_edge_not_relaxed(const G& g, const edge_t<G>& e) { l.notrelaxed(source_id(g, e), target_id(g, e)); }
};
extern "C" void harness_main() {
  Digraph d(true);
  using G = GRAPH<int64_t>;
  G g; fill(g, d.n, d.e, d.m);
  auto wf = [](const auto& g, const auto& uv) { return edge_value(g, uv); };
#if MODE == 2
  size_t nd = pick_u("distances size", NV - 1, NV + 1), np = pick_u("predecessor size", NV - 1, NV + 1);
  Id s = (Id)pick_u("source", 0, NV);
  std::vector<int64_t> dist(nd); std::vector<Id> pred(np);
  init_shortest_paths(dist, pred);
  int form = (int)pick_u("form", 0, 3);
  bool threw = false;
  std::vector<Id> srcs{s};
  try {
    if (form == 0) dijkstra_shortest_paths(g, s, dist, pred, wf);
    else if (form == 1) dijkstra_shortest_paths(g, srcs, dist, pred, wf);
    else if (form == 2) dijkstra_shortest_distances(g, s, dist, wf);
    else dijkstra_shortest_distances(g, srcs, dist, wf);
  } catch (const std::out_of_range&) { threw = true; }
  bool bad = nd < NV || (form < 2 && np < NV) || s >= NV;
  if (!bad) {
    Rel a = closure(rel_of(d.e, d.m, d.n), true);
    for (size_t i = 0; i < d.m; ++i) bad |= a.has(s, d.e[i].s) && d.e[i].w < 0;
  }
  CHECK(threw == bad, "out_of_range is thrown exactly for bad arguments and reached negative weights");
  if (threw) sym_cover("tree"); else sym_cover("not_relaxed");
#else
  std::vector<int64_t> dist(NV); std::vector<Id> pred(NV);
  init_shortest_paths(dist, pred);
  Log log{dist}; log.e = d.e; log.m = d.m;
  Id s0 = (Id)pick_u("source", 0, NV - 1), s1 = s0;
#if MODE == 0
  dijkstra_shortest_paths(g, s0, dist, pred, wf, VisD<G>{log});
#else
  s1 = (Id)pick_u("source2", 0, NV - 1);
  std::vector<Id> src{s0, s1};
  dijkstra_shortest_paths(g, src, dist, pred, wf, VisI<G>{log});
#endif
  Rel c = closure(rel_of(d.e, d.m, d.n), true);
  for (Id v = 0; v < NV; ++v) {
    bool src = v == s0 || v == s1, reach = c.has(s0, v) || c.has(s1, v);
    CHECK(log.init[v] == 1, "every vertex is initialized once");
    int want = src ? (MODE == 1 && s0 == s1 ? 2 : 1) : reach;
    CHECK(log.disc[v] == want, "every reachable vertex is discovered once and no other");
    CHECK((log.exam[v] > 0) == reach && log.fin[v] == log.exam[v], "exactly the reachable vertices are examined and finished");
    if (src || !reach) { CHECK(pred[v] == v, "sources and unreachable vertices are their own predecessors"); continue; }
    Id p = pred[v]; bool ok = false;
    for (size_t i = 0; i < d.m; ++i) ok |= (d.e[i].s == p) & (d.e[i].t == v) & (dist[p] + d.e[i].w == dist[v]);
    CHECK(ok && dist[v] != INF, "the predecessor has an edge to the vertex that gives its distance");
    Id x = v; for (int k = 0; k < NV && x != s0 && x != s1; ++k) x = pred[x];
    CHECK(x == s0 || x == s1, "following predecessors leads to a source");
    sym_observe("p", p);
  }
#endif
}
