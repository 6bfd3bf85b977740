// @run quick NV=3 NE=3 MODE=0
// @run quick NV=3 NE=3 MODE=1
// @run quick NV=4 NE=3 MODE=2
// @run quick NV=3 NE=3 MODE=3
// @run quick NV=6 NE=0 FAM=1 MODE=0
// @run quick NV=3 NE=2 MODE=0 WLO=-0x3fffffffffffffffll WHI=0x3fffffffffffffffll
// @run quick NV=2 NE=2 MODE=1 WLO=-0x7fffffffffffffffll WHI=0x7fffffffffffffffll
// @run thorough NV=5 NE=0 FAM=2 MODE=0
// @run quick NV=6 NE=0 FAM=1 MODE=3
// @run thorough NV=5 NE=0 FAM=2 MODE=3
// @run thorough NV=4 NE=4 MODE=0
// @run thorough NV=3 NE=4 MODE=3
// @run thorough NV=3 NE=5 MODE=2
// @run thorough NV=6 NE=0 FAM=3 FW=3 MODE=1
// @bounds edge lists of at most NE edges over ids 0..NV-1 in every order and direction (self-loops, parallel edges), all 64-bit weights in [-2^40,2^40] (WLO, WHI: in [WLO,WHI]) symbolic; FAM: larger base shapes, FW symbolic weights; MODE 0 kruskal, 1 kruskal with a reversed comparator, 2 inplace_kruskal, 3 inplace_kruskal with a reversed comparator
// @covers rejected forest
#ifndef WLO
#define WLO (-(1ll << 40))
#endif
#include "oracle.hpp"
#include <graph/algorithm/mst.hpp>
using namespace graph;
struct El { using source_id_type = Id; using target_id_type = Id; using value_type = int64_t; Id source_id = 77; Id target_id = 77; int64_t value = 5; };
#define REV (MODE & 1)
static inline uint64_t worse(int64_t a, int64_t b) { return REV ? a < b : b < a; }
extern "C" void harness_main() {
  std::vector<El> in, t;
#ifdef FAM
  Ugraph u(false, true, true);
  for (size_t i = 0; i < u.m; ++i) in.push_back({u.a[i], u.b[i], u.w[i]});
#else
  size_t m = pick_u("m", 0, NE);
  for (size_t i = 0; i < m; ++i) { El x; x.source_id = (Id)pick_u("src", 0, NV - 1); x.target_id = (Id)pick_u("tgt", 0, NV - 1); x.value = sym_i64("w", WLO, WHI); in.push_back(x); }
#endif
  const std::vector<El> e = in;
#if MODE == 0
  auto [sum, comps] = kruskal(in, t);
#elif MODE == 1
  auto [sum, comps] = kruskal(in, t, [](auto&& a, auto&& b) { return b < a; });
#elif MODE == 2
  auto [sum, comps] = inplace_kruskal(in, t);
#else
  auto [sum, comps] = inplace_kruskal(in, t, [](auto&& a, auto&& b) { return b < a; });
#endif
  auto same = [](const El& a, const El& b) -> unsigned { return (a.source_id == b.source_id) & (a.target_id == b.target_id) & (a.value == b.value); };
  auto count = [&](const std::vector<El>& v, const El& x) { unsigned c = 0; for (auto& y : v) c += same(x, y); return c; };
  CHECK(in.size() == e.size(), "the input keeps its size");
#if MODE < 2
  for (size_t i = 0; i < e.size(); ++i) CHECK(same(in[i], e[i]), "kruskal leaves its input unchanged");
#else
  for (auto& x : e) CHECK(count(in, x) == count(e, x), "inplace_kruskal permutes its input");
#endif
  if (e.empty()) { CHECK(t.empty() && sum == 0 && comps == 0, "an empty list gives an empty forest of weight 0 with 0 components"); sym_cover("forest"); sym_cover("rejected"); return; }
  Id n = 0;
  for (auto& x : e) n = std::max({n, x.source_id + 1, x.target_id + 1});
  auto rel = [&](const std::vector<El>& v, size_t skip) { Rel r; r.n = n; for (size_t i = 0; i < v.size(); ++i) if (i != skip) { r.r[v[i].source_id] |= Mask(1) << v[i].target_id; r.r[v[i].target_id] |= Mask(1) << v[i].source_id; } return closure(r, true); };
  Rel full = rel(e, -1), tree = rel(t, -1);
  Mask seen = 0; size_t cc = 0;
  for (Id v = 0; v < n; ++v) if (!(seen >> v & 1)) { ++cc; seen |= full.r[v]; }
  int64_t total = 0;
  for (auto& x : t) { CHECK(x.source_id < n && x.target_id < n && count(t, x) <= count(e, x), "the forest consists of input edges"); total += x.value; }
  for (Id v = 0; v < n; ++v) CHECK(tree.r[v] == full.r[v], "the forest connects everything the input connects");
  CHECK(t.size() + cc == n, "the forest has no cycle");
  for (size_t i = 0; i < t.size(); ++i) {
    Rel cut = rel(t, i);
    for (auto& x : e) if (!cut.has(x.source_id, x.target_id)) CHECK(!worse(t[i].value, x.value), "no forest edge can be replaced by a better one");
  }
  CHECK(sum == total, "the weight returned is that of the forest");
  CHECK(comps == cc, "the number of components returned is right");
  if (t.size() < e.size()) sym_cover("rejected");
  if (t.size() > 1) sym_cover("forest");
  for (auto& x : t) { sym_observe("s", x.source_id); sym_observe("t", x.target_id); }
  sym_observe("sum", sum);
}
