// @run quick NV=3 NE=4 GT=vov MODE=0 LAZY
// @run quick NV=4 NE=5 GT=vov MODE=0 LAZY
// @run thorough NV=4 NE=6 GT=vov MODE=0 LAZY
// @run quick NV=4 NE=4 GT=vov MODE=0
// @run quick NV=3 NE=4 GT=csr MODE=1
// @run quick NV=3 NE=5 GT=vofl MODE=0
// @run quick NV=3 NE=3 GT=dos MODE=1
// @run quick NV=4 NE=4 GT=vi MODE=0
// @run quick NV=7 NE=0 FAM=1 GT=vol MODE=1
// @run quick NV=5 NE=0 FAM=2 GT=vov MODE=0
// @run quick NV=3 NE=3 GT=vov MODE=0 LAZY IDT=int32_t
// @run quick NV=3 NE=3 GT=csr MODE=1 IDT=uint8_t
// @run quick NV=3 NE=3 GT=dos MODE=1 IDT=int64_t
// @run quick NV=20 NE=0 NMAX=20 FAM=0 GT=vov MODE=0
// @run quick NV=12 NE=0 NMAX=12 FAM=1 GT=csr MODE=0
// @run thorough NV=4 NE=6 GT=vov MODE=0
// @run thorough NV=4 NE=6 GT=csr MODE=1
// @run thorough NV=5 NE=5 GT=dol MODE=0
// @run thorough NV=8 NE=0 FAM=2 GT=vov MODE=0
// @bounds NV vertices, at most NE directed edges (self-loops and parallel edges, any adjacency order), every source; FAM: larger base shapes plus FAM arbitrary edges; MODE 0 descriptor visitor, 1 id visitor
// @assume the source id is a valid vertex id
// @covers tree back forward
#include "oracle.hpp"
#include <graph/algorithm/depth_first_search.hpp>
using namespace graph;
using G = GRAPH<int64_t>;
struct Log {
  Id adj[NV][32] = {}; size_t deg[NV] = {}, pos[NV] = {};
  int color[NV] = {}; Id stack[NV + 1]; size_t top = 0; Id src; int init_ = 0, start_ = 0;
  bool open = false, classified = false; Id es = 0, et = 0; bool want = false; // want: the next event must be the discovery of et
  void idle() { CHECK(!open && !want, "each examined edge is classified and finished before the next event"); }
  void init(Id u) { CHECK(u == src && !init_ && !start_, "the source is initialized first"); init_++; }
  void start(Id u) { CHECK(u == src && init_ == 1 && !start_, "the source is started after initialization"); start_++; }
  void discover(Id u) {
    CHECK(color[u] == 0, "a vertex is discovered once"); CHECK(!open, "the tree edge is finished before the discovery");
    if (top == 0) CHECK(u == src && start_ == 1, "the traversal starts at the source"); else CHECK(want && u == et, "a vertex is discovered right after its tree edge");
    want = false; color[u] = 1; stack[top++] = u;
  }
  void finish(Id u) {
    idle(); CHECK(top > 0 && stack[top - 1] == u, "the innermost open vertex is finished"); CHECK(pos[u] == deg[u], "all out-edges are examined before finish");
    color[u] = 2; --top;
  }
  void edge(Id s, Id t) {
    idle(); CHECK(top > 0 && stack[top - 1] == s, "examined edges leave the innermost open vertex");
    CHECK(pos[s] < deg[s] && adj[s][pos[s]] == t, "out-edges are examined once each in stored order"); pos[s]++; open = true; classified = false; es = s; et = t;
  }
  void cls(Id s, Id t, int c) {
    CHECK(open && !classified && s == es && t == et, "each examined edge is classified once"); classified = true;
    CHECK(color[t] == c, "an edge is tree, back or forward/cross according to its target being new, open or finished");
    if (c == 0) want = true;
    sym_cover(c == 0 ? "tree" : c == 1 ? "back" : "forward");
  }
  void efin(Id s, Id t) { CHECK(open && classified && s == es && t == et, "finish_edge follows the classification"); open = false; }
};
struct Vis {
  Log& l;
#if MODE == 0
#define VT vertex_t<G>
#define VID(u) vertex_id(g, u)
#else
#define VT vertex_id_t<G>
#define VID(u) u
#endif
  void on_initialize_vertex(const G& g, const VT& u) { l.init(VID(u)); }
  void on_start_vertex(const G& g, const VT& u) { l.start(VID(u)); }
  void on_discover_vertex(const G& g, const VT& u) { l.discover(VID(u)); }
  void on_finish_vertex(const G& g, const VT& u) { l.finish(VID(u)); }
  void on_examine_edge(const G& g, const edge_t<G>& e) { l.edge(source_id(g, e), target_id(g, e)); }
  void on_tree_edge(const G& g, const edge_t<G>& e) { l.cls(source_id(g, e), target_id(g, e), 0); }
  void on_back_edge(const G& g, const edge_t<G>& e) { l.cls(source_id(g, e), target_id(g, e), 1); }
  void on_forward_or_cross_edge(const G& g, const edge_t<G>& e) { l.cls(source_id(g, e), target_id(g, e), 2); }
  void on_finish_edge(const G& g, const edge_t<G>& e) { l.efin(source_id(g, e), target_id(g, e)); }
};
extern "C" void harness_main() {
  Digraph d(true);
  G g; fill(g, d.n, d.e, d.m);
  Log l;
  for (Id u = 0; u < NV; ++u) adjacency(g, u, l.adj[u], l.deg[u], d.e, d.m);
  l.src = (Id)pick_u("source", 0, NV - 1);
  depth_first_search(g, l.src, Vis{l});
  Rel c = closure(rel_of(d.e, d.m, d.n), true);
  CHECK(l.top == 0, "every discovered vertex was finished"); l.idle();
  for (Id u = 0; u < NV; ++u) {
    CHECK(l.color[u] == (c.has(l.src, u) ? 2 : 0), "exactly the reachable vertices are discovered and finished");
    sym_observe("c", l.color[u]);
  }
}
