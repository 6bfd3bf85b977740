// Every algorithm, run on any graph type; Out holds the part of the result that the graph alone determines.
#pragma once
#include "views.hpp"
#include <graph/algorithm/dijkstra_shortest_paths.hpp>
#include <graph/algorithm/bellman_ford_shortest_paths.hpp>
#include <graph/algorithm/breadth_first_search.hpp>
#include <graph/algorithm/depth_first_search.hpp>
#include <graph/algorithm/topological_sort.hpp>
#include <graph/algorithm/connected_components.hpp>
#include <graph/algorithm/biconnected_components.hpp>
#include <graph/algorithm/articulation_points.hpp>
#include <graph/algorithm/mis.hpp>
#include <graph/algorithm/mst.hpp>
#include <graph/algorithm/label_propagation.hpp>
#include <graph/algorithm/jaccard.hpp>
#include <graph/algorithm/tc.hpp>
namespace GR = graph;
struct Out { int64_t x[64] = {}; size_t n = 0; void add(int64_t v) { CHECK(n < 64, "harness capacity"); x[n++] = v; } };
static inline void same_out(const Out& a, const Out& b, const char* what) { CHECK(a.n == b.n, what); for (size_t i = 0; i < a.n; ++i) CHECK(a.x[i] == b.x[i], what); }
struct Rng0 { typedef uint32_t result_type; uint32_t s = 7; static constexpr uint32_t min() { return 0; } static constexpr uint32_t max() { return ~0u; } uint32_t operator()() { s = s * 1664525u + 1013904223u; return s; } };
template <class T> struct Seen { Out& o; void on_discover_vertex(const T& g, const GR::vertex_t<T>& u) { o.x[GR::vertex_id(g, u)] = 1; } };
// the components as the smallest vertex of each
static inline void partition(const Id* c, Out& o) { for (Id v = 0; v < NV; ++v) { Id r = v; for (Id w = NV; w-- > 0;) if (c[w] == c[v]) r = w; o.add(r); } }
enum { DIJKSTRA, BELLMAN, BFS, DFS, TOPO, TOPO1, NDIRECTED, SCC = NDIRECTED, CC, AFFOREST, BICON, CUT, TRI, PRIM, NDETERMINED, MIS = NDETERMINED, LABEL, JACCARD, NALGO };
template <class T, class WF> static void algo(T& g, int k, Id s, WF wf, Out& o) {
  using namespace graph;
  std::vector<int64_t> dist(NV), w(NV); std::vector<Id> pred(NV), comp(NV), out; using V = vertex_id_t<T>;
  switch (k) {
  case DIJKSTRA: init_shortest_paths(dist, pred); dijkstra_shortest_paths(g, V(s), dist, pred, wf); for (auto d : dist) o.add(d); break;
  case BELLMAN: { init_shortest_paths(dist, pred); auto c = bellman_ford_shortest_paths(g, V(s), dist, pred, wf); o.add(c.has_value()); for (auto d : dist) o.add(d); break; }
  case BFS: o.n = NV; breadth_first_search(g, V(s), Seen<std::remove_const_t<T>>{o}); break;
  case DFS: o.n = NV; depth_first_search(g, V(s), Seen<std::remove_const_t<T>>{o}); break;
  case TOPO: o.add(topological_sort(g, std::back_inserter(out))); o.add(o.x[0] ? (int64_t)out.size() : 0); break;
  case TOPO1: o.add(topological_sort(g, V(s), std::back_inserter(out))); o.add(o.x[0] ? (int64_t)out.size() : 0); break;
  case CC: o.add((int64_t)connected_components(g, comp)); partition(comp.data(), o); break;
  case AFFOREST: afforest(g, comp); partition(comp.data(), o); break;
  case SCC: if constexpr (A::index_bidirectional_adjacency_list<T>) { kosaraju(g, comp); partition(comp.data(), o); } break;
  case BICON: { std::vector<std::vector<V>> c; biconnected_components(g, c); o.add((int64_t)c.size()); size_t sum = 0; for (auto& x : c) sum += x.size() * x.size(); o.add((int64_t)sum); break; }
  case CUT: { articulation_points(g, std::back_inserter(out)); Mask m = 0; for (Id v : out) m |= Mask(1) << v; o.add((int64_t)m); break; }
  case TRI: o.add((int64_t)triangle_count(g)); break;
  case PRIM: { o.add(prim(g, pred, w, std::less<>{}, std::numeric_limits<int64_t>::max(), wf, V(s))); break; }
  case MIS: o.add((int64_t)maximal_independent_set(g, std::back_inserter(out), V(s))); break;
  case LABEL: { for (Id v = 0; v < NV; ++v) comp[v] = v % 3; label_propagation(g, comp, Rng0{}, 3); break; }
  case JACCARD: { size_t calls = 0; auto cb = [&](auto&&...) { ++calls; }; jaccard_coefficient(g, cb); o.add((int64_t)calls); break; }
  }
}
