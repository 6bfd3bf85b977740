// @run quick NV=3 NE=4 GT=vov MODE=0 LAZY
// @run quick NV=4 NE=5 GT=vov MODE=0 LAZY
// @run thorough NV=4 NE=6 GT=vov MODE=0 LAZY
// @run quick NV=4 NE=4 GT=vov MODE=0
// @run quick NV=3 NE=4 GT=csr MODE=1
// @run quick NV=3 NE=4 GT=vofl MODE=2
// @run quick NV=3 NE=3 GT=dos MODE=1
// @run quick NV=3 NE=3 GT=vi MODE=0
// @run quick NV=7 NE=0 FAM=1 GT=dol MODE=0
// @run quick NV=6 NE=0 FAM=1 GT=vov MODE=2
// @run quick NV=3 NE=3 GT=vov MODE=0 IDT=int64_t
// @run quick NV=3 NE=3 GT=csr MODE=0 IDT=uint8_t
// @run quick NV=20 NE=0 NMAX=20 FAM=0 GT=vov MODE=0
// @run quick NV=12 NE=0 NMAX=12 FAM=1 GT=csr MODE=0
// @run thorough NV=4 NE=6 GT=vov MODE=0
// @run thorough NV=4 NE=5 GT=csr MODE=1
// @run thorough NV=4 NE=5 GT=vol MODE=2
// @run thorough NV=8 NE=0 FAM=2 GT=vov MODE=0
// @bounds NV vertices, at most NE directed edges (self-loops and parallel edges, any adjacency order); FAM: larger base shapes plus FAM arbitrary edges; MODE 0 one source, descriptor visitor; 1 two sources, id visitor; 2 three sources, descriptor visitor
// @assume source ids are valid vertex ids
// @covers tree nontree unreached
#include "oracle.hpp"
#include <graph/algorithm/breadth_first_search.hpp>
using namespace graph;
using G = GRAPH<int64_t>;
struct Log {
  Rel nxt; Id adj[NV][32] = {}; size_t deg[NV] = {};
  Id src[3]; size_t ns = 0, initn = 0, srcdisc = 0;
  int disc[NV] = {}, exam[NV] = {}, fin[NV] = {}; int level[NV] = {};
  int cur = -1; size_t pos = 0; Id lastt = NV; bool examining = false; int lastlevel = 0;
  void init(Id u) { CHECK(initn < ns && src[initn] == u, "sources are initialized in order"); ++initn; }
  void discover(Id u) {
    if (cur < 0) { CHECK(srcdisc < ns && src[srcdisc] == u && initn == srcdisc + 1, "sources are discovered in order after initialization"); ++srcdisc; level[u] = 0; disc[u]++; return; }
    CHECK(disc[u] == 0, "a vertex is discovered once"); CHECK(u == lastt && examining, "a vertex is discovered through the edge just examined");
    level[u] = level[cur] + 1; disc[u]++; sym_cover("tree");
  }
  void examine(Id u) {
    CHECK(cur < 0 && srcdisc == ns, "vertices are examined one at a time, after all sources were discovered");
    CHECK(disc[u] > 0, "only discovered vertices are examined"); CHECK(level[u] >= lastlevel, "vertices are examined in breadth-first order");
    lastlevel = level[u]; cur = u; pos = 0; lastt = NV; exam[u]++;
  }
  void edge(Id s, Id t) {
    CHECK(cur == (int)s, "examined edges leave the examined vertex");
    if (lastt != NV) CHECK(disc[lastt] > 0, "the target of an examined edge has been discovered");
    CHECK(pos < deg[s] && adj[s][pos] == t, "out-edges are examined once each in stored order"); ++pos; lastt = t; examining = true;
    if (disc[t]) sym_cover("nontree");
  }
  void finish(Id u) {
    CHECK(cur == (int)u && pos == deg[u], "a vertex is finished after all its out-edges"); CHECK(lastt == NV || disc[lastt] > 0, "the target of an examined edge has been discovered");
    fin[u]++; cur = -1;
  }
};
#if MODE == 1
struct Vis {
  Log& l;
  void on_initialize_vertex(const G&, const vertex_id_t<G>& u) { l.init(u); }
  void on_discover_vertex(const G&, const vertex_id_t<G>& u) { l.discover(u); }
  void on_examine_vertex(const G&, const vertex_id_t<G>& u) { l.examine(u); }
  void on_finish_vertex(const G&, const vertex_id_t<G>& u) { l.finish(u); }
  void on_examine_edge(const G& g, const edge_t<G>& e) { l.edge(source_id(g, e), target_id(g, e)); }
};
#else
struct Vis {
  Log& l;
  void on_initialize_vertex(const G& g, const vertex_t<G>& u) { l.init(vertex_id(g, u)); }
  void on_discover_vertex(const G& g, const vertex_t<G>& u) { l.discover(vertex_id(g, u)); }
  void on_examine_vertex(const G& g, const vertex_t<G>& u) { l.examine(vertex_id(g, u)); }
  void on_finish_vertex(const G& g, const vertex_t<G>& u) { l.finish(vertex_id(g, u)); }
  void on_examine_edge(const G& g, const edge_t<G>& e) { l.edge(source_id(g, e), target_id(g, e)); }
};
#endif
extern "C" void harness_main() {
  Digraph d(true);
  G g; fill(g, d.n, d.e, d.m);
  Log l;
  for (Id u = 0; u < NV; ++u) adjacency(g, u, l.adj[u], l.deg[u], d.e, d.m);
  for (size_t i = 0; i <= MODE; ++i) l.src[l.ns++] = (Id)pick_u("source", 0, NV - 1);
  Vis v{l};
#if MODE == 0
  breadth_first_search(g, l.src[0], v);
#else
  std::vector<Id> s(l.src, l.src + l.ns);
  breadth_first_search(g, s, v);
#endif
  Rel c = closure(rel_of(d.e, d.m, d.n), true);
  Mask from = 0; for (size_t i = 0; i < l.ns; ++i) from |= Mask(1) << l.src[i];
  Rel a = rel_of(d.e, d.m, d.n);
  CHECK(l.cur < 0, "every examined vertex was finished"); CHECK(l.srcdisc == l.ns, "every source was discovered");
  for (Id u = 0; u < NV; ++u) {
    int times = 0; for (size_t i = 0; i < l.ns; ++i) times += l.src[i] == u;
    int want = times ? times : (ball(a, from, NV) >> u) & 1;
    CHECK(l.disc[u] == want && l.exam[u] == want && l.fin[u] == want, "exactly the reachable vertices are discovered, examined and finished, once each");
    if (!want) { sym_cover("unreached"); continue; }
    int k = 0; while (!((ball(a, from, k) >> u) & 1)) ++k;
    CHECK(l.level[u] == k, "vertices are discovered at their breadth-first distance");
    sym_observe("level", l.level[u]);
  }
}
