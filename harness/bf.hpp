// Runs the real bellman_ford_* on a symbolic instance and computes the reference distances from the edge array.
#pragma once
#ifndef DT
#define DT int64_t
#endif
#include "oracle.hpp"
#include <graph/algorithm/bellman_ford_shortest_paths.hpp>
using namespace graph;
static const DT INF = std::numeric_limits<DT>::max();
using G = GRAPH<int64_t>;
struct BFLog {
  const Edge* e; size_t m; std::vector<DT>& dist;
  int disc[NV] = {}; size_t pos = 0, minimized = 0, notmin = 0; bool pending = false; DT before = 0; bool fin = false;
  Id order[NV * NE + 1];
  bool is(Id s, Id t) { return e[pos % m].s == s && e[pos % m].t == t; }
};
template <class G> struct BFVis {
  BFLog& l;
  void on_discover_vertex(const G& g, const vertex_t<G>& u) { l.disc[vertex_id(g, u)]++; }
  void on_examine_edge(const G& g, const edge_t<G>& uv) {
    CHECK(!l.pending && !l.fin, "each examined edge is reported before the next");
    CHECK(l.m > 0 && source_id(g, uv) < NV && target_id(g, uv) < NV, "examined edges belong to the graph");
    l.before = l.dist[target_id(g, uv)]; l.pending = true; l.pos++;
  }
  void on_edge_relaxed(const G& g, const edge_t<G>& uv) {
    CHECK(l.pending, "relaxed follows examine"); l.pending = false;
    CHECK(l.dist[target_id(g, uv)] < l.before, "relaxed means the distance dropped");
  }
  void on_edge_not_relaxed(const G& g, const edge_t<G>& uv) {
    CHECK(l.pending, "not_relaxed follows examine"); l.pending = false;
    CHECK(l.dist[target_id(g, uv)] == l.before, "not_relaxed means the distance stayed");
  }
  void on_edge_minimized(const G& g, const edge_t<G>& uv) {
    l.fin = true; l.minimized++;
    DT a = l.dist[source_id(g, uv)];
    CHECK(a == INF || l.dist[target_id(g, uv)] <= a + edge_value(g, uv), "a minimized edge can't be relaxed");
  }
  void on_edge_not_minimized(const G& g, const edge_t<G>& uv) {
    l.fin = true; l.notmin++;
    DT a = l.dist[source_id(g, uv)];
    CHECK(a != INF && l.dist[target_id(g, uv)] > a + edge_value(g, uv), "a not minimized edge can be relaxed");
  }
};
template <class G> struct BFVisId {
  int* disc; size_t& edges;
  void on_discover_vertex(const G&, const vertex_id_t<G>& u) { disc[u]++; }
  void on_examine_edge(const G&, const edge_t<G>&) { edges++; }
};
static DT along(DT d, int64_t w) { // the weight of a path extended by an edge
#if MODE == 4
  return d < (DT)w ? (DT)w : d;
#else
  return d + (DT)w;
#endif
}
struct BF {
  Digraph d{true};
  G g;
  std::vector<DT> dist = std::vector<DT>(NV);
  std::vector<Id> pred = std::vector<Id>(NV);
  Id s0, s1; bool paths = true;
  BFLog log{d.e, d.m, dist};
  std::optional<Id> result;
  BF() {
#ifdef PICKW
    for (size_t i = 0; i < d.m; ++i) { sym_assume(d.e[i].w >= -1 && d.e[i].w <= 1); d.e[i].w = (int64_t)sym_pick((uint64_t)d.e[i].w); }
#endif
    fill(g, d.n, d.e, d.m);
    auto wf = [](const auto& g, const auto& uv) { return (DT)edge_value(g, uv); };
    s0 = s1 = (Id)pick_u("source", 0, NV - 1);
#if MODE == 0
    init_shortest_paths(dist, pred);
    result = bellman_ford_shortest_paths(g, s0, dist, pred, wf, BFVis<G>{log});
    for (Id v = 0; v < NV; ++v) CHECK(log.disc[v] == (v == s0), "exactly the source is discovered");
    CHECK(!log.pending, "each examined edge was reported");
    CHECK(d.m == 0 || (log.pos % d.m == 0 && log.pos / d.m >= 1 && log.pos / d.m <= NV), "edges are examined in at most |V| complete passes");
#elif MODE == 1
    s1 = (Id)pick_u("source2", 0, NV - 1);
    std::vector<Id> src{s0, s1};
    init_shortest_paths(dist, pred);
    size_t edges = 0;
    result = bellman_ford_shortest_paths(g, src, dist, pred, wf, BFVisId<G>{log.disc, edges});
    for (Id v = 0; v < NV; ++v) CHECK(log.disc[v] == (v == s0) + (v == s1), "exactly the sources are discovered");
    CHECK(d.m ? edges % d.m == 0 && edges / d.m >= 1 && edges / d.m <= NV : edges == 0, "edges are examined in at most |V| complete passes");
#elif MODE == 3 || MODE == 4 // 3: every edge weighs 1 (the default); 4: the weight of a path is that of its heaviest edge, or 0
    int form = (int)pick_u("form", 0, 3);
    if (form & 1) s1 = (Id)pick_u("source2", 0, NV - 1);
    std::vector<Id> src{s0, s1};
    init_shortest_paths(dist, pred);
    paths = form < 2;
#if MODE == 3
    for (size_t i = 0; i < d.m; ++i) d.e[i].w = 1;
    if (form == 0) result = bellman_ford_shortest_paths(g, s0, dist, pred);
    if (form == 1) result = bellman_ford_shortest_paths(g, src, dist, pred);
    if (form == 2) result = bellman_ford_shortest_distances(g, s0, dist);
    if (form == 3) result = bellman_ford_shortest_distances(g, src, dist);
#else
    auto heavier = [](DT a, DT b) { return a < b ? b : a; };
    if (form == 0) result = bellman_ford_shortest_paths(g, s0, dist, pred, wf, empty_visitor(), std::less<DT>(), heavier);
    if (form == 1) result = bellman_ford_shortest_paths(g, src, dist, pred, wf, empty_visitor(), std::less<DT>(), heavier);
    if (form == 2) result = bellman_ford_shortest_distances(g, s0, dist, wf, empty_visitor(), std::less<DT>(), heavier);
    if (form == 3) result = bellman_ford_shortest_distances(g, src, dist, wf, empty_visitor(), std::less<DT>(), heavier);
#endif
#else
    paths = false;
    init_shortest_paths(dist);
    if (pick_u("range form", 0, 1)) { std::vector<Id> src{s0}; result = bellman_ford_shortest_distances(g, src, dist, wf); }
    else result = bellman_ford_shortest_distances(g, s0, dist, wf);
#endif
  }
  // reachability (structure is concrete)
  bool reach(Id v) const { return c().has(s0, v) || c().has(s1, v); }
  mutable bool have = false; mutable Rel cl;
  const Rel& c() const { if (!have) { cl = closure(rel_of(d.e, d.m, d.n), true); have = true; } return cl; }
  // is the weight of some simple cycle of reachable vertices negative? Cycles are enumerated on the concrete structure, their weights stay symbolic.
  bool neg = false;
  void walk(Id start, Id u, Mask on, int64_t sum) {
    for (size_t i = 0; i < d.m; ++i) if (d.e[i].s == u) {
      Id t = d.e[i].t; int64_t w = sum + d.e[i].w;
      if (t == start) neg |= w < 0;
      else if (t > start && !((on >> t) & 1)) walk(start, t, on | Mask(1) << t, w);
    }
  }
  bool negative() { neg = false; if (MODE == 4) return false; for (Id v = 0; v < NV; ++v) if (reach(v)) walk(v, v, Mask(1) << v, 0); return neg; }
};
