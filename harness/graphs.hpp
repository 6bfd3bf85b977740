// Graph types under check and ways to fill them from a plain edge array. All of it is the real code from /repo/include.
#pragma once
#include "sym.h"
#include <cstdint>
#include <deque>
#include <list>
#include <forward_list>
#include <map>
#include <limits>
#include <set>
#include <unordered_map>
#include <vector>
#include <graph/graph.hpp>
#include <graph/container/compressed_graph.hpp>
#include <graph/container/dynamic_graph.hpp>
#include <graph/container/undirected_adjacency_list.hpp>
#include <graph/container/traits/vov_graph_traits.hpp>
#include <graph/container/traits/vod_graph_traits.hpp>
#include <graph/container/traits/vol_graph_traits.hpp>
#include <graph/container/traits/vofl_graph_traits.hpp>
#include <graph/container/traits/vos_graph_traits.hpp>
#include <graph/container/traits/vous_graph_traits.hpp>
#include <graph/container/traits/vom_graph_traits.hpp>
#include <graph/container/traits/voum_graph_traits.hpp>
#include <graph/container/traits/dov_graph_traits.hpp>
#include <graph/container/traits/dod_graph_traits.hpp>
#include <graph/container/traits/dol_graph_traits.hpp>
#include <graph/container/traits/dofl_graph_traits.hpp>
#include <graph/container/traits/dos_graph_traits.hpp>
#include <graph/container/traits/dous_graph_traits.hpp>
#include <graph/container/traits/mov_graph_traits.hpp>
#include <graph/container/traits/mod_graph_traits.hpp>
#include <graph/container/traits/mol_graph_traits.hpp>
#include <graph/container/traits/mofl_graph_traits.hpp>
#include <graph/container/traits/mos_graph_traits.hpp>
#include <graph/container/traits/mous_graph_traits.hpp>
#include <graph/container/traits/mom_graph_traits.hpp>
#include <graph/container/traits/uov_graph_traits.hpp>
#include <graph/container/traits/uod_graph_traits.hpp>
#include <graph/container/traits/uol_graph_traits.hpp>
#include <graph/container/traits/uofl_graph_traits.hpp>
#include <graph/container/traits/uos_graph_traits.hpp>
#include <graph/container/traits/uous_graph_traits.hpp>

#ifndef IDT
#define IDT uint32_t
#endif
using Id = IDT;
namespace gc = graph::container;

#define DYN(ab)                                                                                                        \
  template <class EV = int64_t, class VV = void, class GV = void, bool Bi = false>                                     \
  using G_##ab = gc::dynamic_graph<EV, VV, GV, Id, Bi, gc::ab##_graph_traits<EV, VV, GV, Id, Bi>>;
DYN(vov) DYN(vod) DYN(vol) DYN(vofl) DYN(vos) DYN(vous) DYN(vom) DYN(voum)
DYN(dov) DYN(dod) DYN(dol) DYN(dofl) DYN(dos) DYN(dous)
DYN(mov) DYN(mod) DYN(mol) DYN(mofl) DYN(mos) DYN(mous) DYN(mom)
DYN(uov) DYN(uod) DYN(uol) DYN(uofl) DYN(uos) DYN(uous)
template <class EV = int64_t, class VV = void, class GV = void> using G_csr = gc::compressed_graph<EV, VV, GV, Id, Id>;
template <class EV = int64_t, class VV = int, class GV = void> using G_ual = gc::undirected_adjacency_list<EV, VV, GV, Id>;
template <class EV = int64_t, class VV = void, class GV = void> using G_vv  = std::vector<std::vector<std::pair<Id, EV>>>; // plain standard containers
template <class EV = int64_t, class VV = void, class GV = void> using G_vi  = std::vector<std::vector<int>>;               // targets only
template <class EV = int64_t, class VV = void, class GV = void> using G_mv  = std::map<Id, std::vector<std::pair<Id, EV>>>;
template <class EV = int64_t, class VV = void, class GV = void> using G_lp  = std::vector<std::list<std::pair<Id, EV>>>;
template <class EV = int64_t, class VV = void, class GV = void> using G_dp  = std::deque<std::deque<std::pair<Id, EV>>>;
template <class EV = int64_t, class VV = void, class GV = void> using G_vt  = std::vector<std::vector<std::tuple<Id, EV>>>;
template <class EV = int64_t, class VV = void, class GV = void> using G_lt  = std::deque<std::list<std::tuple<Id, EV>>>;
template <class EV = int64_t, class VV = void, class GV = void> using G_vt1 = std::vector<std::vector<std::tuple<Id>>>;
template <class EV = int64_t, class VV = void, class GV = void> using G_vt3 = std::vector<std::vector<std::tuple<Id, EV, int>>>;
template <class EV = int64_t, class VV = void, class GV = void> using G_lt3 = std::deque<std::list<std::tuple<Id, int, EV>>>;
template <class EV = int64_t, class VV = void, class GV = void> using G_vm  = std::vector<std::map<Id, EV>>;
template <class EV = int64_t, class VV = void, class GV = void> using G_ml  = std::map<Id, std::list<std::tuple<Id, EV>>>;

// bidirectional graphs whose in-edges are stored as dynamic_in_edge (their source is known), as bidirectional_adjacency_list requires
#define BID(name, VC, EC)                                                                                              \
  template <class EV, class VV, class GV>                                                                              \
  struct name##_bidir_traits {                                                                                         \
    using edge_value_type = EV; using vertex_value_type = VV; using graph_value_type = GV; using vertex_id_type = Id;  \
    static constexpr bool bidirectional = true;                                                                        \
    using edge_type = gc::dynamic_out_edge<EV, VV, GV, Id, true, name##_bidir_traits>;                                 \
    using in_edge_type = gc::dynamic_in_edge<EV, VV, GV, Id, true, name##_bidir_traits>;                               \
    using vertex_type = gc::dynamic_vertex<EV, VV, GV, Id, true, name##_bidir_traits>;                                 \
    using graph_type = gc::dynamic_graph<EV, VV, GV, Id, true, name##_bidir_traits>;                                   \
    using edges_type = std::EC<edge_type>; using in_edges_type = std::EC<in_edge_type>; using vertices_type = std::VC<vertex_type>; \
  };                                                                                                                   \
  template <class EV = int64_t, class VV = void, class GV = void>                                                      \
  using G_##name = gc::dynamic_graph<EV, VV, GV, Id, true, name##_bidir_traits<EV, VV, GV>>;
#define BIDM(name, VC, EC)                                                                                             \
  template <class EV, class VV, class GV>                                                                              \
  struct name##_bidir_traits {                                                                                         \
    using edge_value_type = EV; using vertex_value_type = VV; using graph_value_type = GV; using vertex_id_type = Id;  \
    static constexpr bool bidirectional = true;                                                                        \
    using edge_type = gc::dynamic_out_edge<EV, VV, GV, Id, true, name##_bidir_traits>;                                 \
    using in_edge_type = gc::dynamic_in_edge<EV, VV, GV, Id, true, name##_bidir_traits>;                               \
    using vertex_type = gc::dynamic_vertex<EV, VV, GV, Id, true, name##_bidir_traits>;                                 \
    using graph_type = gc::dynamic_graph<EV, VV, GV, Id, true, name##_bidir_traits>;                                   \
    using edges_type = std::EC<edge_type>; using in_edges_type = std::EC<in_edge_type>; using vertices_type = std::VC<Id, vertex_type>; \
  };                                                                                                                   \
  template <class EV = int64_t, class VV = void, class GV = void>                                                      \
  using G_##name = gc::dynamic_graph<EV, VV, GV, Id, true, name##_bidir_traits<EV, VV, GV>>;
#define BIDE(name, VC, EC)                                                                                             \
  template <class EV, class VV, class GV>                                                                              \
  struct name##_bidir_traits {                                                                                         \
    using edge_value_type = EV; using vertex_value_type = VV; using graph_value_type = GV; using vertex_id_type = Id;  \
    static constexpr bool bidirectional = true;                                                                        \
    using edge_type = gc::dynamic_out_edge<EV, VV, GV, Id, true, name##_bidir_traits>;                                 \
    using in_edge_type = gc::dynamic_in_edge<EV, VV, GV, Id, true, name##_bidir_traits>;                               \
    using vertex_type = gc::dynamic_vertex<EV, VV, GV, Id, true, name##_bidir_traits>;                                 \
    using graph_type = gc::dynamic_graph<EV, VV, GV, Id, true, name##_bidir_traits>;                                   \
    using edges_type = std::EC<Id, edge_type>; using in_edges_type = std::EC<Id, in_edge_type>; using vertices_type = std::VC<vertex_type>; \
  };                                                                                                                   \
  template <class EV = int64_t, class VV = void, class GV = void>                                                      \
  using G_##name = gc::dynamic_graph<EV, VV, GV, Id, true, name##_bidir_traits<EV, VV, GV>>;
#define BIDME(name, VC, EC)                                                                                             \
  template <class EV, class VV, class GV>                                                                              \
  struct name##_bidir_traits {                                                                                         \
    using edge_value_type = EV; using vertex_value_type = VV; using graph_value_type = GV; using vertex_id_type = Id;  \
    static constexpr bool bidirectional = true;                                                                        \
    using edge_type = gc::dynamic_out_edge<EV, VV, GV, Id, true, name##_bidir_traits>;                                 \
    using in_edge_type = gc::dynamic_in_edge<EV, VV, GV, Id, true, name##_bidir_traits>;                               \
    using vertex_type = gc::dynamic_vertex<EV, VV, GV, Id, true, name##_bidir_traits>;                                 \
    using graph_type = gc::dynamic_graph<EV, VV, GV, Id, true, name##_bidir_traits>;                                   \
    using edges_type = std::EC<Id, edge_type>; using in_edges_type = std::EC<Id, in_edge_type>; using vertices_type = std::VC<Id, vertex_type>; \
  };                                                                                                                   \
  template <class EV = int64_t, class VV = void, class GV = void>                                                      \
  using G_##name = gc::dynamic_graph<EV, VV, GV, Id, true, name##_bidir_traits<EV, VV, GV>>;
BIDM(bmov, map, vector) BIDM(bmol, map, list) BIDM(buov, unordered_map, vector)
BIDE(bvom, vector, map) BIDE(bvoum, vector, unordered_map) BIDME(bmom, map, map)
BID(bvos, vector, set) BID(bvous, vector, unordered_set)
BID(bvov, vector, vector) BID(bvol, vector, list) BID(bdov, deque, vector) BID(bvofl, vector, forward_list) BID(bdod, deque, deque)

// a value that notices being moved from: what's stored must be the value given, not the remains of one moved elsewhere
struct Mv {
  int64_t v = 0;
  Mv() = default;
  Mv(int64_t x) : v(x) {}
  Mv(const Mv&) = default;
  Mv(Mv&& o) noexcept : v(o.v) { o.v = -77; }
  Mv& operator=(const Mv&) = default;
  Mv& operator=(Mv&& o) noexcept { if (this != &o) { v = o.v; o.v = -77; } return *this; }
  operator int64_t() const { return v; }
};

#ifndef GT
#define GT vov
#endif
#define CAT_(a, b) a##b
#define CAT(a, b)  CAT_(a, b)
#define STR_(a)    #a
#define STR(a)     STR_(a)
#define GRAPH      CAT(G_, GT)

struct Edge { Id s, t; int64_t w; };
template <class T> inline constexpr bool is_ual = false;
template <class EV, class VV, class GV> inline constexpr bool is_ual<gc::undirected_adjacency_list<EV, VV, GV, Id>> = true;
template <class T> inline constexpr bool is_csr = false;
template <class EV, class VV, class GV> inline constexpr bool is_csr<gc::compressed_graph<EV, VV, GV, Id, Id>> = true;
template <class T> inline constexpr bool is_std = !requires { typename T::vertex_id_type; } && (requires { typename T::mapped_type::value_type; } || requires { typename T::value_type::value_type; });
template <class T> concept std_map_edges = requires { typename T::value_type::mapped_type; };

// edges in load order; n = number of vertices. compressed_graph needs sources in non-decreasing order.
template <class G, class EV = int64_t>
void fill(G& g, size_t n, const Edge* e, size_t m) {
  if constexpr (is_std<G>) {
    if constexpr (requires { g.resize(n); }) g.resize(n); else for (Id i = 0; i < n; ++i) (void)g[i];
    for (size_t i = 0; i < m; ++i) {
      if constexpr (std_map_edges<G>) g[e[i].s].emplace(e[i].t, EV(e[i].w));
      else if constexpr (requires { g[0].push_back(7); }) g[e[i].s].push_back(e[i].t);
      else if constexpr (requires { g[0].push_back({e[i].t}); }) g[e[i].s].push_back({e[i].t});
      else if constexpr (requires { g[0].push_back({e[i].t, 1, 2}); }) g[e[i].s].push_back({e[i].t, EV(e[i].w), 7});
      else g[e[i].s].push_back({e[i].t, EV(e[i].w)});
    }
  } else if constexpr (is_ual<G>) {
    for (size_t i = 0; i < n; ++i) g.create_vertex();
    for (size_t i = 0; i < m; ++i)
      if constexpr (std::is_void_v<EV>) g.create_edge(e[i].s, e[i].t); else g.create_edge(e[i].s, e[i].t, EV(e[i].w));
  } else {
    std::vector<graph::copyable_edge_t<Id, EV>> v;
    v.reserve(m);
    for (size_t i = 0; i < m; ++i)
      if constexpr (std::is_void_v<EV>) v.push_back({e[i].s, e[i].t}); else v.push_back({e[i].s, e[i].t, EV(e[i].w)});
    if constexpr (is_csr<G>) {
      g.load_edges(v, std::identity{}, n, m);
    } else {
      using VT = typename G::vertex_type;
      if constexpr (requires { g.resize_vertices(n); }) g.resize_vertices(n);
      if constexpr (requires { typename G::graph_traits::vertices_type::key_type; }) {
        using VV = typename G::graph_traits::vertex_value_type;
        std::vector<graph::copyable_vertex_t<Id, VV>> vs;
        for (Id i = 0; i < n; ++i) if constexpr (std::is_void_v<VV>) vs.push_back({i}); else vs.push_back({i, VV()});
        if constexpr (requires { g.load_vertices(vs); }) g.load_vertices(vs);
      }
      g.load_edges(v, std::identity{}, n);
    }
  }
}
