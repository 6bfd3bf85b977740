// Symbolic inputs. "shape" inputs are forked over all values (sym_pick); the rest stay symbolic.
#pragma once
#include "graphs.hpp"
#ifndef NV
#define NV 3
#endif
#ifndef NE
#define NE 3
#endif
#ifndef WLO
#define WLO 0
#endif
#ifndef WHI
#define WHI (1ll << 40)
#endif

// Directed multigraph, edges grouped by source (adjacency order = array order). Degrees are forked, targets stay symbolic
// unless PICKT; weights always stay symbolic.
// -DLAZY: edge targets stay symbolic; the executor forks on them only where the code under check distinguishes them.
// -DFAM=k: instead of every graph, larger graphs of a base shape (path, cycle, in/out star, tree, ladder, layered DAG, complete order), relabelled,
// plus k arbitrary edges that come before or after the base edges of their source. Weights: FW symbolic ones, the others fixed and distinct enough.
#ifdef FAM
#ifndef FW
#define FW 2
#endif
static const int64_t fam_w[8] = {5, 3, 8, 1, 9, 2, 7, 4};
struct Family {
  Id a[3 * NV + FAM], b[3 * NV + FAM]; size_t k = 0; bool front;
  Family(bool directed) {
    size_t kind = pick_u("shape", 0, directed ? 7 : 6), lab = pick_u("labels", 0, 3);
    auto L = [&](Id i) -> Id { return lab == 0 ? i : lab == 1 ? NV - 1 - i : lab == 2 ? (i + NV / 2) % NV : (i % 2 ? NV - 1 - i / 2 : i / 2); };
    auto add = [&](Id x, Id y) { a[k] = L(x); b[k] = L(y); k++; };
    for (Id i = 0; i + 1 < NV; ++i) {
      if (kind == 0 || kind == 1) add(i, i + 1);
      if (kind == 2) add(0, i + 1);
      if (kind == 3) add((i) / 2, i + 1);
      if (kind == 4) { add(i, i + 1); if (i + 2 < NV) add(i, i + 2); }
      if (kind == 5 && i + 2 < NV) { add(i, i + 2); if (i % 2 == 0) add(i, i + 1); }
      if (kind == 6) { if (i + 1 < NV / 2 || i >= NV / 2) add(i, i + 1); if (i + 1 == NV / 2) add(i, 0); }
      if (kind == 7) add(i + 1, 0);
    }
    if (kind == 1) add(NV - 1, 0);
    if (kind == 6) add(NV - 1, NV / 2);
    front = FAM && pick_u("extra first", 0, 1);
  }
};
#endif
struct Digraph {
  size_t n = NV, m = 0;
#ifdef FAM
  Edge   e[3 * NV + FAM + 1];
  Digraph(bool, bool loops = true) {
    Family f(true);
    Edge x[FAM + 1]; size_t nx = 0;
    for (; nx < FAM; ++nx) {
      x[nx].s = (Id)pick_u("src", 0, NV - 1); x[nx].t = (Id)sym_u64("tgt", 0, NV - 1);
#ifndef LAZY
      x[nx].t = (Id)sym_pick(x[nx].t);
#endif
      if (!loops) sym_assume(x[nx].s != x[nx].t);
      x[nx].w = (int)nx < FW ? sym_i64("w", WLO, WHI) : fam_w[(nx + 3) % 8];
    }
    for (Id u = 0; u < NV; ++u) {
      if (f.front) for (size_t i = 0; i < nx; ++i) if (x[i].s == u) e[m++] = x[i];
      for (size_t i = 0; i < f.k; ++i) if (f.a[i] == u) { e[m++] = {u, f.b[i], (int)i < FW - FAM ? sym_i64("w", WLO, WHI) : fam_w[i % 8]}; }
      if (!f.front) for (size_t i = 0; i < nx; ++i) if (x[i].s == u) e[m++] = x[i];
    }
  }
#else
  Edge   e[NE + 1];
  Digraph(bool pickt, bool loops = true) {
    m = pick_u("m", 0, NE);
    Id prev = 0;
    for (size_t i = 0; i < m; ++i) {
      prev = (Id)pick_u("src", prev, NV - 1);
      Id t = (Id)sym_u64("tgt", 0, NV - 1);
      if (!loops) sym_assume(t != prev);
#ifndef LAZY
      if (pickt) t = (Id)sym_pick(t);
#endif
      e[i] = {prev, t, sym_i64("w", WLO, WHI)};
    }
  }
#endif
  // forks over whatever the code under check left undetermined
  void settle() { for (size_t i = 0; i < m; ++i) e[i].t = (Id)sym_pick(e[i].t); }
};

// Undirected multigraph given as unordered pairs a<=b. canonical: pairs in non-decreasing order (every labelled multigraph once).
struct Ugraph {
  size_t n = NV, m = 0;
#ifdef FAM
  static constexpr size_t CAP = 3 * NV + FAM + 1;
  Id     a[CAP], b[CAP];
  int64_t w[CAP];
  Ugraph(bool, bool loops, bool multi) {
    Family f(false);
    auto base = [&] { for (size_t i = 0; i < f.k; ++i, ++m) { a[m] = f.a[i]; b[m] = f.b[i]; w[m] = (int)i < FW - FAM ? sym_i64("w", WLO, WHI) : fam_w[i % 8]; } };
    if (!f.front) base();
    for (size_t i = 0; i < FAM; ++i, ++m) {
      a[m] = (Id)pick_u("a", 0, NV - 1); b[m] = (Id)pick_u("b", 0, NV - 1);
      if (!loops) sym_assume(a[m] != b[m]);
      w[m] = (int)i < FW ? sym_i64("w", WLO, WHI) : fam_w[(i + 3) % 8];
    }
    if (f.front) base();
    if (!multi) for (size_t i = 0; i < m; ++i) for (size_t j = 0; j < i; ++j) if ((a[j] == a[i] && b[j] == b[i]) || (a[j] == b[i] && b[j] == a[i])) sym_assume(0);
  }
#else
  static constexpr size_t CAP = NE + 1;
  Id     a[NE + 1], b[NE + 1];
  int64_t w[NE + 1];
  Ugraph(bool canonical, bool loops, bool multi) {
    m = pick_u("m", 0, NE);
    for (size_t i = 0; i < m; ++i) {
      bool c = canonical && i > 0;
      a[i] = (Id)pick_u("a", c ? a[i - 1] : 0, NV - 1);
      Id lo = loops ? a[i] : a[i] + 1;
      if (c && a[i] == a[i - 1]) { Id k = multi ? b[i - 1] : b[i - 1] + 1; if (k > lo) lo = k; }
      if (lo > NV - 1) { sym_assume(0); }
      b[i] = (Id)pick_u("b", lo, NV - 1);
      if (!multi && !canonical) for (size_t j = 0; j < i; ++j) if (a[j] == a[i] && b[j] == b[i]) sym_assume(0);
      w[i] = sym_i64("w", WLO, WHI);
    }
  }
#endif
  // both directions, in insertion order; a self-loop is stored once (LOOP2: twice)
  size_t both(Edge* o, bool loop_twice = false) const {
    size_t k = 0;
    for (size_t i = 0; i < m; ++i) {
      o[k++] = {a[i], b[i], w[i]};
      if (a[i] != b[i] || loop_twice) o[k++] = {b[i], a[i], w[i]};
    }
    return k;
  }
  size_t grouped(Edge* o, bool loop_twice = false) const { // same, grouped by source (for compressed_graph)
    Edge tmp[2 * CAP]; size_t k = both(tmp, loop_twice), r = 0;
    for (Id u = 0; u < NV; ++u) for (size_t i = 0; i < k; ++i) if (tmp[i].s == u) o[r++] = tmp[i];
    return r;
  }
  // load order for a graph of type G: undirected_adjacency_list stores each edge once
  template <class G> size_t arcs(Edge* o) const {
    if constexpr (is_ual<G>) { for (size_t i = 0; i < m; ++i) o[i] = {a[i], b[i], w[i]}; return m; }
    else if constexpr (is_csr<G>) return grouped(o);
    else return both(o);
  }
};
