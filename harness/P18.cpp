// @run quick NV=3 NE=2 GT=vov MODE=0 ITER=2
// @run quick NV=3 NE=2 GT=vov MODE=1 ITER=1
// @run thorough NV=3 NE=2 GT=vov MODE=1 ITER=2
// @run quick NV=2 NE=3 GT=csr MODE=1 ITER=3
// @run quick NV=2 NE=2 GT=ual MODE=0 ITER=3
// @run quick NV=3 NE=2 GT=vofl MODE=0 ITER=1 LAZY
// @run quick NV=4 NE=3 GT=vov MODE=0 ITER=1 NLAB=3 RFIX
// @run thorough NV=5 NE=0 FAM=1 GT=csr MODE=0 ITER=1 NLAB=2 RFIX
// @run quick NV=6 NE=0 FAM=0 GT=vov MODE=0 ITER=1 NLAB=3 RFIX
// @run quick NV=3 NE=2 GT=vov MODE=0 ITER=2 IDT=int32_t
// @run quick NV=2 NE=3 GT=csr MODE=1 ITER=3 IDT=uint8_t
// @run quick NV=2 NE=2 GT=ual MODE=0 ITER=3 IDT=int64_t
// @run thorough NV=3 NE=3 GT=vov MODE=0 ITER=2
// @run thorough NV=3 NE=3 GT=vol MODE=1 ITER=2
// @run thorough NV=3 NE=4 GT=csr MODE=0 ITER=1
// @bounds NV vertices, at most NE undirected edges (self-loops, parallel edges; LAZY: at most NE arcs), every labelling with up to NV labels (NLAB labels; MODE 1: and the empty label), 0..ITER sweeps (RFIX: also up to 99), every output sequence of the random generator (256 values each; RFIX: one of 4 values throughout)
// @covers written kept stable limit
#include "oracle.hpp"
#include <graph/algorithm/label_propagation.hpp>
using namespace graph;
using G = GRAPH<int64_t>;
#ifndef NLAB
#define NLAB NV
#endif
struct Rng {
  using result_type = uint32_t;
  static constexpr uint32_t min() { return 0; }
  static constexpr uint32_t max() { return 0xffffffffu; }
#ifdef RFIX
  uint32_t fixed = ((uint32_t)sym_u64("random", 0, 3) << 30) + 0x12345678u;
  uint32_t operator()() { return fixed; }
#else
  uint32_t operator()() { return ((uint32_t)sym_u64("random", 0, 255) << 24) + 0x800000u; }
#endif
};
static Edge* E_; static size_t M_;
struct Labels;
static void on_write(Labels& l, size_t u, int v);
struct Labels {
  std::vector<int> v; unsigned writes[NV] = {}; unsigned total = 0;
  struct ref {
    Labels* l; size_t i;
    operator int() const { return l->v[i]; }
    const ref& operator=(int x) const { on_write(*l, i, x); l->v[i] = x; return *this; }
    const ref& operator=(const ref& x) const { return *this = (int)x; }
    friend bool operator==(ref a, int b) { return (int)a == b; }
    friend bool operator==(ref a, ref b) { return (int)a == (int)b; }
  };
  ref operator[](size_t i) { return ref{this, i}; }
  auto begin() { return v.begin(); }
  auto end() { return v.end(); }
  size_t size() const { return v.size(); }
};
// frequency of label x among u's (labelled) neighbours
static unsigned freq(Labels& l, size_t u, int x) {
  unsigned c = 0;
  for (size_t i = 0; i < M_; ++i) {
    c += (E_[i].s == u) & (l.v[E_[i].t] == x);
    if (is_ual<G> && E_[i].s != E_[i].t) c += (E_[i].t == u) & (l.v[E_[i].s] == x);
  }
  return c;
}
static bool majority(Labels& l, size_t u, int x) {
  unsigned f = freq(l, u, x), any = 0;
  for (int y = 0; y < NV; ++y) { unsigned h = freq(l, u, y); any |= h; if (h > f) return false; }
  return f > 0;
}
static void on_write(Labels& l, size_t u, int x) {
  CHECK(u < NV, "only labels of vertices are written");
  CHECK(x >= 0 && x < NV, "the empty label never spreads");
  CHECK(majority(l, u, x), "a label written is a most frequent one among the neighbours");
  l.writes[u]++; l.total++;
}
extern "C" void harness_main() {
  Und<G> u(true, true);
  u.n = NV;
#ifdef LAZY
  for (size_t i = 0; i < u.m; ++i) u.e[i].t = (Id)sym_pick(u.e[i].t);
#endif
  E_ = u.e; M_ = u.m;
  G g; fill(g, u.n, u.e, u.m);
  Labels l;
  l.v.resize(NV);
  for (int i = 0; i < NV; ++i) l.v[i] = (int)pick_i("label", MODE == 1 ? -1 : 0, NLAB - 1);
  std::vector<int> before = l.v;
#ifdef RFIX
  size_t iters = pick_u("max_iters", 0, ITER + 1);
  if (iters > ITER) iters = 99; // until nothing changes
#else
  size_t iters = pick_u("max_iters", 0, ITER);
#endif
#if MODE == 0
  label_propagation(g, l, Rng{}, iters);
#else
  label_propagation(g, l, -1, Rng{}, iters);
#endif
  for (size_t v = 0; v < NV; ++v) {
    CHECK(l.writes[v] <= iters, "at most max_iters sweeps are made");
    if (l.writes[v]) sym_cover("written"); else { sym_cover("kept"); CHECK(l.v[v] == before[v], "an unwritten label is kept"); }
    sym_observe("l", l.v[v]);
    if (l.total < iters) { // some sweep changed nothing
      sym_cover("stable");
      bool has = false;
      for (int y = 0; y < NV; ++y) has |= freq(l, v, y) > 0;
      CHECK(!has || majority(l, v, l.v[v]), "when it stops before the limit every vertex holds a most frequent label of its neighbours");
    } else sym_cover("limit");
  }
}
